//! dst: deterministic simulation of the file libraries and tools.
mod cli;
mod damage;
mod engine;
mod minimise;
mod proc;
mod report;
mod scen;
mod upgrade;
mod words;

use dstrt::tape::Tapes;
use engine::*;
use serde_json::{json, Value};
use std::os::fd::AsRawFd;

#[global_allocator]
static ALLOC: dstrt::alloc::Counting = dstrt::alloc::Counting;

extern "C" { fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32; fn personality(p: u64) -> i32; fn signal(s: i32, h: usize) -> usize; }
/// Processor and wall-clock time one case may take before the process is ended (a loop or a wait outside the instrumented code).
/// A process that is only short of processor time goes on: the wall clock counts when nothing has been computed since it was last looked at.
pub fn case_limits(seconds: i64) {
    static mut SEEN: i64 = 0;
    unsafe fn used() -> i64 { let mut t = [0i64; 2]; dstrt::sys::raw6(228, 2, t.as_mut_ptr() as i64, 0, 0, 0, 0); t[0] * 1000 + t[1] / 1_000_000 }
    unsafe fn wake(s: i64) { let v = [0i64, 0, s, 0]; setitimer(0, &v, std::ptr::null_mut()); }
    extern "C" fn late(_: i32) {
        unsafe {
            let now = used();
            if !WAITING && now - SEEN < 20 { dstrt::sys::die(80, "one case took minutes") }
            SEEN = now;
            wake(15);
        }
    }
    unsafe {
        WAITING = false;
        SEEN = used();
        signal(14, late as *const () as usize);
        let v = [0i64, 0, seconds, 0]; setitimer(2, &v, std::ptr::null_mut());
        wake(seconds + 15);
    }
}
/// Waiting for a process that has limits of its own.
pub static mut WAITING: bool = false;

/// One case in a thread of its own, so that thread-local state (hash seeds among it) starts afresh.
pub fn isolated(prop: &str, tapes: Tapes, hseed: u64, st: &mut Stats, verbose: bool, tier: u8) -> (Res, Vec<String>, dstrt::tape::Recs) {
    dstrt::sched::seed_random(hseed);
    case_limits(150);
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || {
            let mut c = Ctx::new(prop, tapes, st, verbose);
            c.tier = tier;
            let r = if scen::forks(prop) { fork_case(&mut c) } else { run_case(&mut c) };
            (r, std::mem::take(&mut c.trace), c.recs())
        }).expect("thread").join().unwrap_or_else(|_| { eprintln!("HARNESS ERROR: {}", last_panic()); dstrt::sys::exit_now(2) })
    })
}
/// ahash keeps its seeds in statics: they would carry over from one case to the next.
struct MapSeeds;
impl ahash::random_state::RandomSource for MapSeeds { fn gen_hasher_seed(&self) -> usize { dstrt::sched::map_seed() as usize } }
fn pin_maps(prop: &str) {
    let _ = ahash::random_state::set_random_source(MapSeeds);
    // The answer to the first question about the processor is kept too.
    #[cfg(target_arch = "x86_64")]
    let _ = std::arch::is_x86_feature_detected!("f16c");
    // The processes of N01 and N02 draw the rest when they first use a map.
    if !scen::forks(prop) { dstrt::sched::seed_random(1); let _ = ahash::RandomState::new(); }
}
pub struct Known { pub prop: String, pub class: String, pub contains: String, pub what: String }
pub fn known() -> Vec<Known> {
    let mut v = vec![];
    let t = std::fs::read_to_string(std::env::var("DST_KNOWN").unwrap_or_default()).unwrap_or_default();
    for l in t.lines() {
        // finding: property=ID class=CLASS match=<text> :: what fails
        let Some(r) = l.strip_prefix("finding: property=") else { continue };
        let (head, what) = r.split_once(" :: ").unwrap_or((r, ""));
        let Some((prop, r)) = head.split_once(" class=") else { continue };
        let Some((class, m)) = r.split_once(" match=") else { continue };
        v.push(Known { prop: prop.into(), class: class.into(), contains: m.into(), what: what.into() });
    }
    v
}
fn args(i: usize) -> String { std::env::args().nth(i).unwrap_or_default() }
fn num(i: usize) -> u64 { args(i).parse().unwrap_or(0) }

fn worker() -> i32 {
    words::load();
    let (prop, seed, w, nw, n, wall, out, tier) = (args(2), num(3), num(4), num(5), num(6), num(7), args(8), num(9) as u8);
    let from = num(10);
    pin_maps(&prop);
    let mark = std::fs::File::create(format!("{out}.at")).expect("mark");
    unsafe { dstrt::sys::MARK_FD = std::fs::File::create(format!("{out}.why")).map(|f| { let d = f.as_raw_fd(); std::mem::forget(f); d }).unwrap_or(-1); }
    let log = std::env::var("DST_CASELOG").ok().map(|p| std::fs::File::create(format!("{p}.{w}")).expect("case log"));
    use std::io::Write;
    use std::os::unix::fs::FileExt;
    let t0 = std::time::Instant::now();
    let mut st = Stats::default();
    let kn = known();
    let mut verdict = Value::Null;
    let mut idx = w;
    while idx < from { idx += nw; }
    let first = idx;
    while idx < n {
        if t0.elapsed().as_secs() >= wall { break; }
        mark.write_all_at(&idx.to_le_bytes(), 0).ok();
        let cs = case_seed(seed, &prop, idx);
        let verbose = log.is_some() || (w == 0 && idx < first + 4 * nw);
        let began = std::time::Instant::now();
        let (r, trace, _) = isolated(&prop, Tapes::record(cs), cs, &mut st, verbose, tier);
        if began.elapsed().as_millis() > 2000 { if let Ok(p) = std::env::var("DST_SLOW") {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) { let _ = writeln!(f, "{prop} {idx} {cs} {} ms", began.elapsed().as_millis()); }
        } }
        if let Some(mut l) = log.as_ref() { let _ = writeln!(l, "{idx} {:016x} {:016x} {} {:?}", dstrt::cov::signature(), dstrt::hash_bytes(trace.join("\n").as_bytes()), trace.len(), r.as_ref().err()); }
        if std::env::var("DST_TRACE").ok().and_then(|s| s.parse().ok()) == Some(idx) { std::fs::write(std::env::var("DST_CASELOG").unwrap_or_default() + ".trace", trace.join("\n")).ok(); }
        if verbose && log.is_none() && st.samples.len() < 3 { st.samples.push(json!({"case": idx, "run": trace.iter().take(12).map(|s| scen::cut(s, 500)).collect::<Vec<_>>()})); }
        if let Err(v) = r {
            if let Some(k) = kn.iter().find(|k| k.prop == prop && k.class == v.class && v.msg.contains(&k.contains)) { *st.known.entry(k.what.clone()).or_default() += 1; }
            else { verdict = json!({"case": idx, "class": v.class, "msg": v.msg}); break; }
        }
        idx += nw;
    }
    std::fs::write(&out, json!({"verdict": verdict, "stats": st.to_json(), "blocks_total": dstrt::cov::total()}).to_string()).expect("result");
    if verdict.is_null() { 0 } else { 1 }
}
/// Runs one case and writes what happened. From a seed (choices are also dumped as they are made) or from recorded choices.
fn one() -> i32 {
    words::load();
    let (prop, how, arg, out, tier) = (args(2), args(3), args(4), args(5), num(6) as u8);
    unsafe { dstrt::sys::MARK_FD = std::fs::File::create(format!("{out}.why")).map(|f| { let d = f.as_raw_fd(); std::mem::forget(f); d }).unwrap_or(-1); }
    let (tapes, hseed) = if how == "seed" {
        let f = std::fs::File::create(format!("{out}.dump")).expect("dump");
        unsafe { dstrt::tape::DUMP_FD = f.as_raw_fd(); }
        std::mem::forget(f);
        let s: u64 = arg.parse().expect("seed");
        (Tapes::record(s), s)
    } else {
        let v: Value = serde_json::from_slice(&std::fs::read(&arg).expect("recording")).expect("recording");
        (Tapes::replay(recs_from(&v["tapes"])), v["hash_seed"].as_u64().unwrap_or(0))
    };
    pin_maps(&prop);
    let mut st = Stats::default();
    let (r, trace, _) = isolated(&prop, tapes, hseed, &mut st, true, tier);
    let v = match &r { Ok(()) => Value::Null, Err(v) => json!({"class": v.class, "msg": v.msg}) };
    std::fs::write(&out, json!({"v": v, "trace": trace}).to_string()).expect("result");
    if r.is_ok() { 0 } else { 1 }
}
fn main() {
    unsafe {
        // Addresses are part of the environment too.
        if std::env::var("DST_ASLR").is_err() && personality(0xffffffff) & 0x0040000 == 0 {
            personality(0x0040000);
            std::env::set_var("DST_ASLR", "off");
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
            let _ = e;
        }
        signal(13, 1);
    }
    install_panic_hook();
    let code = match args(1).as_str() {
        "worker" => worker(),
        "one" => one(),
        "check" => report::check(&args(2), &args(3)),
        "replay" => report::replay(&args(2)),
        x => { eprintln!("unknown command {x}"); 2 }
    };
    std::process::exit(code)
}
