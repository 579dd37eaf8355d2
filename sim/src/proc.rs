//! Process state (N01) and caller threads (N02). Both run in a forked copy of a process that never called the library.
use crate::engine::*;
use crate::scen::{cut, diff, K};
use dstrt::disk::{self, DPlan};
use dstrt::env;
use dstrt::sched;
use dstrt::stream::{FaultKind, Plan, SimStream};
use dstrt::tape::{mix, Rng, Tape};
use ops::gen::Params;
use ops::{Layer, Val};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug)]
struct Op { k: usize, seed: u64, size: usize, what: u8, path: u8 }
fn kinds() -> Vec<K> { ops::readers() }
fn make(op: &Op) -> (K, Box<dyn Val>, Tape) {
    let k = kinds()[op.k];
    let mut t = Tape::record(op.seed);
    let p = Params { size: op.size, json: false, valid: op.what != 5, wide: false };
    let mut v = k.gen(&mut t, &p);
    // Values with several things wrong: which one is reported must not depend on the process either.
    if op.what == 6 { for _ in 0..1 + t.usize(6) { if let Some((x, _)) = ops::invalid::spoil(&*v, &mut t) { v = x; } } }
    (k, v, t)
}
/// Everything observable about one operation.
fn perform(op: &Op) -> Vec<(String, u64)> {
    let mut out: Vec<(String, u64)> = vec![];
    let mut add = |n: &str, s: &str| out.push((n.to_string(), dstrt::hash_bytes(s.as_bytes())));
    let (k, v, mut t) = make(op);
    let h = |b: &[u8]| format!("{:x}", dstrt::hash_bytes(b));
    let img = if k.name() == "ShdrRead" { ops::data::shdr_file(&mut t) } else if k.name() == "MetaRead" { ops::data::shader_binary(&mut t) } else {
        add("value", &v.text());
        match v.bytes() { Ok(b) => { add("saved bytes", &h(&b)); b } Err(e) => { add("save error", &format!("error {e}")); return out; } }
    };
    let family: Vec<K> = kinds().into_iter().filter(|r| r.ext() == k.ext() || (r.name() == "SsbhFile" && k.tag().is_some())).collect();
    let mut img = img;
    if op.what == 3 { let n = t.usize(img.len() + 1); img.truncate(n); }
    if op.what == 4 { for _ in 0..3 { if !img.is_empty() { let p = t.usize(img.len()); img[p] ^= 1 << t.draw(8); } } }
    for r in family {
        let x = r.load(&mut SimStream::reader(&img));
        match x {
            Ok(g) => {
                add(&format!("value read by {}", r.name()), &g.text());
                add(&format!("bytes saved again by {}", r.name()), &match g.bytes() { Ok(b) => h(&b), Err(e) => format!("error {e}") });
            }
            Err(e) => add(&format!("value read by {}", r.name()), &format!("error {e}")),
        }
    }
    if op.path > 0 && k.has_paths() {
        let p = format!("/simdisk/n.{}", k.ext());
        if op.path > 1 {
            // a save that fails at its path (cannot be opened, no space left), then one that does not
            let bad = format!("/simdisk/{}/n.{}", if op.path % 2 == 0 { "denied" } else { "full" }, k.ext());
            let r = v.save_path(&bad);
            add("save to a bad path", &match r { Ok(()) => "ok".into(), Err(e) => e });
            add("load from a bad path", &match k.load_path(&bad) { Ok(g) => g.text(), Err(e) => format!("error {e}") });
            disk::remove(&bad);
        }
        if op.path < 4 {
        let r = v.save_path(&p);
        add("file", &match r { Ok(()) => h(&disk::get(&p).unwrap_or_default()), Err(e) => format!("error {e}") });
        add("value read from file", &match k.load_path(&p) { Ok(g) => g.text(), Err(e) => format!("error {e}") });
        }
        if op.what == 3 || op.what == 4 { disk::put(&p, img.clone()); add("value read from a damaged file", &match k.load_path(&p) { Ok(g) => g.text(), Err(e) => format!("error {e}") }); }
    }
    if op.what == 2 {
        // a failed save in between must not matter to the next
        let n = 1 + t.draw(40);
        let mut w = SimStream::new(vec![], Plan { fault: Some((n, FaultKind::Err(0), true)), ..Default::default() });
        add("failing save", if v.save(&mut w).is_ok() { "ok" } else { "error" });
        add("partial bytes", &h(&w.data));
        add("saved bytes after", &match v.bytes() { Ok(b) => h(&b), Err(_) => "error".into() });
    }
    out
}
fn perform_caught(op: &Op) -> Vec<(String, u64)> {
    match catch_unwind(AssertUnwindSafe(|| perform(op))) { Ok(v) => v, Err(_) => vec![(format!("panic {}", last_panic()), 0)] }
}
fn in_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R { std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|_| panic!("thread")) }

fn forked(f: impl FnOnce() -> Vec<u8>) -> Res<Vec<u8>> {
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn pipe(p: *mut i32) -> i32; fn close(f: i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; }
    let mut p = [0i32; 2];
    unsafe { if pipe(p.as_mut_ptr()) != 0 { panic!("pipe"); } }
    let pid = unsafe { fork() };
    if pid < 0 { panic!("fork"); }
    if pid == 0 { unsafe { close(p[0]); } crate::case_limits(60); let out = f(); dstrt::sys::write_fd(p[1], &out); dstrt::sys::exit_now(0); }
    let mut out = Vec::new();
    let mut status = 0;
    unsafe {
        crate::WAITING = true;
        close(p[1]);
        let mut b = vec![0u8; 1 << 16];
        loop { let n = read(p[0], b.as_mut_ptr(), b.len()); if n <= 0 { break; } out.extend_from_slice(&b[..n as usize]); }
        close(p[0]);
        waitpid(pid, &mut status, 0);
        crate::WAITING = false;
    }
    if status & 0x7f != 0 { return bad(&format!("signal-{}", status & 0x7f), "a process died"); }
    let code = (status >> 8) & 0xff;
    if code != 0 { return bad(death(code).0, death(code).1); }
    Ok(out)
}
fn pack(v: &[Vec<(String, u64)>]) -> Vec<u8> { serde_json::to_vec(v).unwrap() }

fn draw_op(t: &mut Tape) -> Op {
    let n = kinds().len() as u64;
    // Readers that convert get more weight: that is where maps and caches would be.
    let k = match t.draw(3) { 0 => t.draw(13), 1 => 13 + t.draw(8), _ => t.draw(n) } as usize;
    let what = t.draw(7) as u8;
    let k = if what == 6 { let l = ops::invalid::kinds(); let n = l[t.usize(l.len() + 2) % l.len()].name(); kinds().iter().position(|x| x.name() == n).unwrap() } else { k };
    Op { k, seed: t.draw(1 << 48), size: [1, 0, 2, 1, 3][t.usize(5)].min(2), what, path: t.draw(8) as u8 % 6 }
}
pub fn n01(c: &mut Ctx) -> Res {
    let n = 1 + c.w.skew(4);
    let list: Vec<Op> = (0..n).map(|_| draw_op(&mut c.w)).collect();
    let (s1, s2) = (c.s.draw(0), c.s.draw(0));
    let mut order: Vec<(bool, usize)> = vec![];
    // Another history: other order, repetitions, other operations (some failing) in between.
    let mut idx: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = c.s.usize(i + 1); idx.swap(i, j); }
    let mut extra: Vec<Op> = vec![];
    for i in idx {
        if c.s.chance(1, 3) { extra.push(draw_op(&mut c.f)); order.push((false, extra.len() - 1)); c.fault("unrelated_operation_before", 1); }
        order.push((true, i));
        if c.s.chance(1, 4) { order.push((true, i)); c.fault("repetition", 1); }
        if c.s.chance(1, 3) { let mut x = list[i].clone(); x.what = 2 + c.f.draw(5) as u8; x.path = c.f.draw(6) as u8; if c.f.chance(1, 2) { x.seed = c.f.draw(1 << 48); } extra.push(x); order.push((false, extra.len() - 1)); c.fault("failing_operation_between", 1); if c.s.chance(1, 2) { order.push((true, i)); } }
    }
    let layout = c.s.draw(1 << 32);
    let threads = c.s.chance(1, 2);
    note!(c, "operations {list:?}\nsecond process runs {order:?} with extras {extra:?}");
    c.interesting = true;
    c.fault("other_hash_seed", 1);
    c.fault("other_memory_layout", 1);
    c.fault("clock_jump", 1);
    let first: Vec<Vec<(String, u64)>> = {
        let b = forked(|| {
            disk::reset(); disk::restart(DPlan::default());
            unsafe { sched::FAKE_RANDOM = Some(s1); disk::FAKE_CLOCK = true; disk::STDIO = 1; env::FAKE = s1 | 1; }
            pack(&in_thread(|| list.iter().map(perform_caught).collect::<Vec<_>>()))
        })?;
        serde_json::from_slice(&b).unwrap_or_default()
    };
    for v in first.iter().flatten() { if v.0.starts_with("panic") { return bad("panic", v.0.clone()); } }
    unsafe { sched::FAKE_RANDOM = Some(s2); disk::FAKE_CLOCK = true; disk::STDIO = 2; env::FAKE = s2 | 1; }
    c.fault("other_environment", 1);
    c.fault("standard_output_closed", 1);
    disk::reset(); disk::restart(DPlan { seed: layout, clock_jump: 1 << 40, ..Default::default() });
    let mut r = Rng::new(layout);
    let mut junk: Vec<Vec<u8>> = (0..200).map(|_| vec![0x5A; r.below(700) as usize]).collect();
    let mut i = 0;
    junk.retain(|_| { i += 1; r.below(3) == 0 || i % 7 == 0 });
    let mut seen = vec![0usize; n];
    // A long life before: hundreds of saves and loads of small values.
    if c.s.chance(1, 24) {
        let op = Op { size: 0, what: 0, path: 0, ..draw_op(&mut c.f) };
        let rounds = 1 + c.f.draw(400);
        c.fault("hundreds_of_operations_before", 1);
        let work = || for i in 0..rounds.div_ceil(16) {
            let (k, v, _) = make(&Op { seed: op.seed + i, ..op.clone() });
            if let Ok(b) = v.bytes() { for _ in 0..if b.len() > 16384 { 1 } else { 16 } { let _ = v.bytes(); let _ = k.load(&mut SimStream::reader(&b)); } }
        };
        let _ = catch_unwind(AssertUnwindSafe(|| if threads { in_thread(work) } else { work() }));
    }
    for (real, i) in order {
        let op = if real { &list[i] } else { &extra[i] };
        let got = if threads { in_thread(|| perform_caught(op)) } else { perform_caught(op) };
        c.st.calls += got.len() as u64;
        c.probe(kinds()[op.k].name());
        junk.push(vec![0xC3; r.below(5000) as usize]);
        if real {
            seen[i] += 1;
            if got != first[i] {
                let w = got.iter().zip(&first[i]).find(|(a, b)| a != b).map(|(a, _)| a.0.clone()).unwrap_or_else(|| "number of results".into());
                return bad("depends-on-process-state", format!("{} ({:?}), occurrence {}: the {w} differs between two processes", kinds()[op.k].name(), op, seen[i]));
            }
        }
    }
    c.st.states.insert(mix(dstrt::hash_bytes(&pack(&first)), 0));
    if unsafe { disk::STDIO_WRITES } > 0 { c.probe("output_was_attempted"); }
    if unsafe { env::ASKED } > 0 { c.probe("surroundings_were_asked"); }
    unsafe { disk::STDIO = 0; sched::FAKE_RANDOM = None; env::FAKE = 0; }
    Ok(())
}

// ------------------------------------------------------------------ threads
enum Job { Save(usize), Load(usize, usize), SavePath(usize, String), LoadPath(usize, String) }
struct Call { job: Job, plan: Plan }
#[derive(PartialEq, Clone, Debug)]
struct Outcome { ok: bool, panic: bool, digest: u64, text: String, bytes: u64 }

fn run_call(c: &Call, vals: &[(K, Box<dyn Val>, Vec<u8>)], switch: bool, stall: bool) -> (Outcome, dstrt::stream::Fired) {
    let mut plan = c.plan.clone();
    if !stall { plan.stall = None; }
    let mut fired = dstrt::stream::Fired::default();
    let r = catch_unwind(AssertUnwindSafe(|| match &c.job {
        Job::Save(i) => {
            let mut w = SimStream::new(vec![], plan);
            w.switch = switch;
            let r = vals[*i].1.save(&mut w);
            fired = w.fired.clone();
            (r.is_ok(), String::new(), dstrt::hash_bytes(&w.data), w.data.len() as u64)
        }
        Job::Load(i, k) => {
            let mut s = SimStream::new(vals[*i].2.clone(), plan);
            s.switch = switch;
            let r = kinds()[*k].load(&mut s);
            fired = s.fired.clone();
            match r { Ok(v) => { let t = v.text(); let h = dstrt::hash_bytes(t.as_bytes()); (true, cut(&t, 2000), h, 0) } Err(_) => (false, String::new(), 0, 0) }
        }
        Job::SavePath(i, p) => { let r = vals[*i].1.save_path(p); (r.is_ok(), String::new(), dstrt::hash_bytes(&disk::get(p).unwrap_or_default()), 0) }
        Job::LoadPath(i, p) => match vals[*i].0.load_path(p) { Ok(v) => { let t = v.text(); let h = dstrt::hash_bytes(t.as_bytes()); (true, cut(&t, 2000), h, 0) } Err(_) => (false, String::new(), 0, 0) },
    }));
    (match r { Ok((ok, text, digest, bytes)) => Outcome { ok, panic: false, digest, text, bytes }, Err(_) => Outcome { ok: false, panic: true, digest: 0, text: last_panic(), bytes: 0 } }, fired)
}
pub fn n02(c: &mut Ctx) -> Res {
    unsafe { sched::FAKE_RANDOM = Some(7); }
    disk::reset(); disk::restart(DPlan::default());
    // Inputs.
    let nv = 1 + c.w.usize(3);
    let mut vals: Vec<(K, Box<dyn Val>, Vec<u8>)> = vec![];
    for i in 0..nv {
        let list: Vec<K> = match c.w.draw(4) { 0 => ops::RAW.to_vec(), 1 | 2 => ops::DATA.to_vec(), _ => ops::all() };
        let k = list[c.w.usize(list.len())];
        let p = Params { size: [1, 0, 1, 2][c.w.usize(4)], json: false, valid: true, wide: false };
        // Several values of one kind make shared scratch state visible.
        let k = if i > 0 && c.w.chance(1, 2) { vals[0].0 } else { k };
        // Images come from a copy of this process, so that the first use of anything can happen concurrently.
        let mut v = guard("generating", || k.gen(&mut c.w, &p))?;
        let mut img = forked(|| v.bytes().unwrap_or_default())?;
        // The schedule, not the size, is what is searched here.
        if img.len() > 200_000 { v = guard("generating", || k.gen(&mut c.w, &Params { size: 0, ..p.clone() }))?; img = forked(|| v.bytes().unwrap_or_default())?; }
        note!(c, "value {i}: {} {} bytes {}", k.name(), img.len(), cut(&v.text(), 200));
        c.probe(k.name());
        vals.push((k, v, img));
    }
    let nt = 2 + c.w.usize(3);
    let mut threads: Vec<Vec<Call>> = vec![];
    let all = kinds();
    for t in 0..nt {
        let m = 1 + c.w.usize(3);
        let mut v = vec![];
        for j in 0..m {
            let i = c.w.usize(vals.len());
            let k = vals[i].0;
            let reader = { let f: Vec<usize> = all.iter().enumerate().filter(|(_, r)| r.ext() == k.ext() || r.name() == k.name()).map(|x| x.0).collect(); f[c.w.usize(f.len())] };
            let job = match c.w.draw(10) {
                0 | 1 | 2 => Job::Save(i),
                8 | 9 if k.has_paths() => if c.w.chance(2, 3) { Job::SavePath(i, format!("/simdisk/{}t{t}_{j}.{}", ["", "", "denied/", "full/"][c.w.usize(4)], k.ext())) } else { let p = format!("/simdisk/in{i}.{}", k.ext()); disk::put(&p, vals[i].2.clone()); Job::LoadPath(i, p) },
                _ => Job::Load(i, reader),
            };
            let mut plan = if c.f.chance(1, 3) { Plan { chunk: [1, 3, 8, 64][c.f.usize(4)], seed: c.f.draw(1 << 32), eintr: [0, 3][c.f.usize(2)], ..Default::default() } } else { Plan::default() };
            if c.f.chance(1, 5) { plan.fault = Some((1 + c.f.draw(60), if c.f.chance(1, 3) { FaultKind::Zero } else { FaultKind::Err(0) }, c.f.chance(1, 2))); }
            if c.f.chance(1, 6) { plan.stall = Some(1 + c.f.draw(40)); }
            v.push(Call { job, plan });
        }
        threads.push(v);
    }
    let solo_first = c.s.chance(1, 2);
    let solo = |stats: &mut Stats| -> (Vec<Vec<Outcome>>, u64) {
        let s0 = dstrt::cov::steps();
        let r = threads.iter().map(|v| v.iter().map(|x| { stats.calls += 1; run_call(x, &vals, false, false).0 }).collect()).collect();
        (r, dstrt::cov::steps() - s0)
    };
    let (mut alone, est) = if solo_first { let (a, b) = solo(c.st); (Some(a), b) } else { (None, 20_000) };
    // The schedule: few long stretches, or many short ones.
    let style = c.s.draw(4);
    let total = est.max(200) * 2;
    let plan: Vec<(u64, u8)> = match style {
        0 | 1 => { let n = 1 + c.s.usize(6); (0..n).map(|_| (1 + c.s.draw(total / n as u64 + 1), c.s.draw(7) as u8)).collect() }
        2 => { let n = 40 + c.s.usize(160); let m = (total / n as u64).max(2); (0..n).map(|_| (1 + c.s.draw(m), c.s.draw(7) as u8)).collect() }
        _ => { let n = 100 + c.s.usize(300); let m = 1 + c.s.draw(60); (0..n).map(|_| (1 + c.s.draw(m), c.s.draw(7) as u8)).collect() }
    };
    let first = c.s.usize(nt);
    let budget = if solo_first { 40 * est + 3_000_000 } else { 2_000_000_000 };
    for (t, v) in threads.iter().enumerate() { for x in v { note!(c, "thread {t}: {} with {:?}", match &x.job { Job::Save(i) => format!("save value {i}"), Job::Load(i, k) => format!("load image {i} as {}", all[*k].name()), Job::SavePath(i, p) => format!("save value {i} to {p}"), Job::LoadPath(i, p) => format!("load {i} from {p}") }, x.plan); } }
    note!(c, "schedule (first thread {first}): {}", cut(&format!("{plan:?}"), 600));
    dstrt::cov::set_limit(u64::MAX / 2);
    sched::begin(nt, plan, first, budget);
    let got: Vec<Vec<(Outcome, dstrt::stream::Fired)>> = std::thread::scope(|s| {
        let (threads, vals) = (&threads, &vals);
        let h: Vec<_> = (0..nt).map(|t| s.spawn(move || {
            sched::enter(t);
            let r: Vec<_> = threads[t].iter().map(|x| run_call(x, vals, true, true)).collect();
            sched::leave();
            r
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let st = sched::state();
    let (switches, blocks, trace) = (st.switches, st.futex_blocks, std::mem::take(&mut st.trace));
    c.st.calls += threads.iter().map(|t| t.len() as u64).sum::<u64>();
    c.fault("thread_switch", switches);
    c.fault("blocked_on_lock", blocks);
    for v in &got { for (_, f) in v { c.fired(f); } }
    let mut h = dstrt::H::new();
    for (p, a, b) in &trace { h.u(*p); h.u(*a as u64); h.u(*b as u64); }
    c.st.states.insert(h.0);
    if alone.is_none() { alone = Some(solo(c.st).0); }
    let alone = alone.unwrap();
    for (t, v) in got.iter().enumerate() { for (j, (g, _)) in v.iter().enumerate() {
        let a = &alone[t][j];
        if g.panic { return bad("panic", format!("thread {t} call {j}: {}", g.text)); }
        if g != a {
            return bad("interference", format!("thread {t} call {j}: alone {}, with {} other threads {}{}", show(a), nt - 1, show(g), if a.text != g.text { format!(": {}", diff(&a.text, &g.text)) } else { String::new() }));
        }
    } }
    // Shared values are untouched.
    for (i, (_, v, img)) in vals.iter().enumerate() { if v.bytes().unwrap_or_default() != *img { return bad("interference", format!("value {i} saves to other bytes after the run")); } }
    unsafe { sched::FAKE_RANDOM = None; }
    Ok(())
}
fn show(o: &Outcome) -> String { format!("{} ({} bytes, digest {:x})", if o.ok { "succeeded" } else { "failed" }, o.bytes, o.digest) }
#[allow(dead_code)]
fn unused(_: Layer) {}
