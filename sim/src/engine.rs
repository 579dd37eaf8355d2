//! One run: choices, statistics, guarded calls into the code under test.
use dstrt::stream::{Fired, SimStream};
use dstrt::tape::{mix, Rec, Recs, Tape, Tapes};
use dstrt::{alloc, cov};
use ops::{Kind, Val};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub struct Violation { pub class: String, pub msg: String }
pub type Res<T = ()> = Result<T, Violation>;
pub fn bad<T>(class: &str, msg: impl Into<String>) -> Res<T> { Err(Violation { class: class.into(), msg: msg.into() }) }

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub ops: u64,
    pub calls: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub sigs: BTreeSet<u64>,
    pub states: BTreeSet<u64>,
    pub blocks: Vec<bool>,
    pub samples: Vec<Value>,
    pub known: BTreeMap<String, u64>,
}
impl Stats {
    pub fn to_json(&self) -> Value {
        let b: Vec<usize> = self.blocks.iter().enumerate().filter(|(_, x)| **x).map(|(i, _)| i).collect();
        json!({"cases": self.cases, "nontrivial": self.nontrivial, "steps": self.steps, "ops": self.ops, "calls": self.calls, "faults": self.faults,
            "probes": self.probes, "sigs": self.sigs, "states": self.states, "blocks": b, "samples": self.samples, "known": self.known})
    }
    pub fn add_json(&mut self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.cases += n("cases"); self.nontrivial += n("nontrivial"); self.steps += n("steps"); self.ops += n("ops"); self.calls += n("calls");
        for (k, m) in [("faults", &mut self.faults), ("probes", &mut self.probes), ("known", &mut self.known)] {
            if let Some(o) = v[k].as_object() { for (a, b) in o { *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0); } }
        }
        for (k, s) in [("sigs", &mut self.sigs), ("states", &mut self.states)] { if let Some(a) = v[k].as_array() { for x in a { s.insert(x.as_u64().unwrap_or(0)); } } }
        if let Some(a) = v["blocks"].as_array() { for x in a { let i = x.as_u64().unwrap_or(0) as usize; if self.blocks.len() <= i { self.blocks.resize(i + 1, false); } self.blocks[i] = true; } }
        if let Some(a) = v["samples"].as_array() { for x in a { if self.samples.len() < 6 { self.samples.push(x.clone()); } } }
    }
}
pub struct Ctx<'a> {
    pub w: Tape, pub f: Tape, pub s: Tape,
    pub st: &'a mut Stats,
    pub trace: Vec<String>,
    pub verbose: bool,
    pub interesting: bool,
    pub prop: String,
    pub tier: u8,
}
macro_rules! note { ($c:expr, $($a:tt)*) => { if $c.verbose && $c.trace.len() < 400 { let s = format!($($a)*); $c.trace.push(s); } } }
pub(crate) use note;

impl<'a> Ctx<'a> {
    pub fn new(prop: &str, tapes: Tapes, st: &'a mut Stats, verbose: bool) -> Ctx<'a> {
        Ctx { w: tapes.w, f: tapes.f, s: tapes.s, st, trace: vec![], verbose, interesting: false, prop: prop.into(), tier: 0 }
    }
    pub fn recs(&self) -> Recs { Recs { w: self.w.rec.clone(), f: self.f.rec.clone(), s: self.s.rec.clone() } }
    pub fn fault(&mut self, k: &str, n: u64) { if n > 0 { *self.st.faults.entry(k.into()).or_default() += n; self.interesting = true; } }
    pub fn probe(&mut self, k: &str) { *self.st.probes.entry(k.into()).or_default() += 1; }
    pub fn fired(&mut self, f: &Fired) {
        for (k, n) in [("short_transfer", f.short), ("interrupted_call", f.eintr), ("io_error", f.err), ("zero_transfer_or_early_end", f.zero), ("full_disk", f.full), ("stalled_stream", f.stall)] { self.fault(k, n); }
    }
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let q = dstrt::sched::quiet(true);
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let l = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m}{l}"));
        dstrt::sched::quiet(q);
    }));
}
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

/// One call's work budget; a transfer of one byte at a time costs some 50 blocks per byte of content, at most about 500 million.
pub const CALL_STEPS: u64 = 2_000_000_000;
const NO_LIMIT: u64 = u64::MAX;
/// Runs code under test; a panic is a violation.
pub fn guard<R>(what: &str, f: impl FnOnce() -> R) -> Res<R> {
    cov::set_limit(CALL_STEPS);
    let r = catch_unwind(AssertUnwindSafe(f));
    // What the checks do with the result is no work of that call.
    cov::set_limit(NO_LIMIT);
    match r { Ok(v) => Ok(v), Err(_) => bad("panic", format!("{what} panicked: {}", last_panic())) }
}
pub struct Work { pub steps: u64, pub mem: alloc::Stat }
/// As `guard`, with memory and work limits; reports what was used.
pub fn metered<R>(what: &str, steps: u64, mem: i64, f: impl FnOnce() -> R) -> Res<(R, Work)> {
    cov::set_limit(steps);
    let s0 = cov::steps();
    alloc::begin(mem);
    let r = catch_unwind(AssertUnwindSafe(f));
    let m = alloc::end();
    cov::set_limit(NO_LIMIT);
    match r { Ok(v) => Ok((v, Work { steps: cov::steps() - s0, mem: m })), Err(_) => bad("panic", format!("{what} panicked: {}", last_panic())) }
}
impl Ctx<'_> {
    pub fn load(&mut self, k: &dyn Kind, s: &mut SimStream) -> Res<Result<Box<dyn Val>, String>> {
        self.st.calls += 1;
        let r = guard(&format!("reading {} from {} bytes", k.name(), s.data.len()), || k.load(s));
        self.st.ops += s.ops;
        r
    }
    pub fn save(&mut self, k: &dyn Kind, v: &dyn Val, s: &mut SimStream) -> Res<Result<(), String>> {
        self.st.calls += 1;
        let r = guard(&format!("writing {}", k.name()), || v.save(s));
        self.st.ops += s.ops;
        r
    }
    pub fn bytes(&mut self, k: &dyn Kind, v: &dyn Val) -> Res<Result<Vec<u8>, String>> {
        let mut w = SimStream::writer();
        Ok(self.save(k, v, &mut w)?.map(|_| w.data))
    }
    pub fn read(&mut self, k: &dyn Kind, b: &[u8]) -> Res<Result<Box<dyn Val>, String>> { let mut s = SimStream::reader(b); self.load(k, &mut s) }
    pub fn load_path(&mut self, k: &dyn Kind, p: &str) -> Res<Result<Box<dyn Val>, String>> { self.st.calls += 1; guard(&format!("reading {} from {p}", k.name()), || k.load_path(p)) }
    pub fn save_path(&mut self, k: &dyn Kind, v: &dyn Val, p: &str) -> Res<Result<(), String>> { self.st.calls += 1; guard(&format!("writing {} to {p}", k.name()), || v.save_path(p)) }
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 { mix(mix(seed, dstrt::hash_bytes(prop.as_bytes())), idx) }

fn hex(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{x:02x}")); } s }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect() }
fn rec_json(r: &Rec) -> Value { json!({"nums": r.nums, "blobs": r.blobs.iter().map(|b| hex(b)).collect::<Vec<_>>()}) }
fn rec_from(v: &Value) -> Rec {
    Rec { nums: v["nums"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default(),
        blobs: v["blobs"].as_array().map(|a| a.iter().map(|x| unhex(x.as_str().unwrap_or(""))).collect()).unwrap_or_default() }
}
pub fn recs_json(r: &Recs) -> Value { json!({"workload": rec_json(&r.w), "faults": rec_json(&r.f), "schedule": rec_json(&r.s)}) }
pub fn recs_from(v: &Value) -> Recs { Recs { w: rec_from(&v["workload"]), f: rec_from(&v["faults"]), s: rec_from(&v["schedule"]) } }

/// Runs one case and accounts for it.
pub fn run_case(c: &mut Ctx) -> Res {
    cov::clear();
    let s0 = cov::steps();
    let prop = c.prop.clone();
    let r = crate::scen::run(&prop, c);
    alloc::enable(false);
    c.st.cases += 1;
    c.st.steps += cov::steps() - s0;
    if c.interesting { c.st.nontrivial += 1; c.st.sigs.insert(cov::signature()); }
    let mut b = std::mem::take(&mut c.st.blocks);
    cov::merge(&mut b);
    c.st.blocks = b;
    r
}
/// Runs one case in a forked copy of this (pristine) process; the copy's statistics and verdict come back.
pub fn fork_case(c: &mut Ctx) -> Res {
    extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn pipe(p: *mut i32) -> i32; fn close(f: i32) -> i32; fn read(f: i32, b: *mut u8, n: usize) -> isize; }
    let mut p = [0i32; 2];
    unsafe { if pipe(p.as_mut_ptr()) != 0 { panic!("pipe"); } }
    let pid = unsafe { fork() };
    if pid < 0 { panic!("fork"); }
    if pid == 0 {
        unsafe { close(p[0]); }
        crate::case_limits(110);
        let mut st = Stats::default();
        let (r, trace, recs) = {
            let mut d = Ctx { w: std::mem::replace(&mut c.w, Tape::record(0)), f: std::mem::replace(&mut c.f, Tape::record(0)), s: std::mem::replace(&mut c.s, Tape::record(0)),
                st: &mut st, trace: vec![], verbose: c.verbose, interesting: false, prop: c.prop.clone(), tier: c.tier };
            let r = run_case(&mut d);
            (r, std::mem::take(&mut d.trace), recs_json(&d.recs()))
        };
        let v = match r { Ok(()) => Value::Null, Err(v) => json!({"class": v.class, "msg": v.msg}) };
        let recs = if v.is_null() && !c.verbose { Value::Null } else { recs };
        let out = json!({"v": v, "trace": trace, "recs": recs, "st": st.to_json()}).to_string();
        dstrt::sys::write_fd(p[1], out.as_bytes());
        dstrt::sys::exit_now(0);
    }
    let mut out = Vec::new();
    let mut status = 0;
    unsafe {
        crate::WAITING = true;
        close(p[1]);
        let mut b = vec![0u8; 1 << 16];
        loop { let n = read(p[0], b.as_mut_ptr(), b.len()); if n <= 0 { break; } out.extend_from_slice(&b[..n as usize]); }
        close(p[0]);
        waitpid(pid, &mut status, 0);
        crate::WAITING = false;
    }
    if status & 0x7f != 0 { return bad(&format!("signal-{}", status & 0x7f), "the process running the case died"); }
    let code = (status >> 8) & 0xff;
    if code != 0 { return bad(death(code).0, death(code).1); }
    let v: Value = serde_json::from_slice(&out).unwrap_or(Value::Null);
    c.st.add_json(&v["st"]);
    if let Some(a) = v["trace"].as_array() { for x in a { c.trace.push(x.as_str().unwrap_or("").into()); } }
    if !v["recs"].is_null() { let r = recs_from(&v["recs"]); c.w.rec = r.w; c.f.rec = r.f; c.s.rec = r.s; }
    if !v["v"].is_null() { return bad(v["v"]["class"].as_str().unwrap_or("?"), v["v"]["msg"].as_str().unwrap_or("?")); }
    Ok(())
}
pub fn death(code: i32) -> (&'static str, &'static str) {
    match code {
        77 => ("work-limit", "work out of proportion to the content, or an endless loop"),
        78 => ("memory-limit", "memory out of proportion to the content"),
        80 => ("hang", "a call neither returns nor makes progress"),
        79 => ("no-progress", "threads blocked for ever"),
        _ => ("process-died", "the process ended by itself"),
    }
}
