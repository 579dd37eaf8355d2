//! Seeded scheduler over real threads: exactly one simulated thread runs at a time, and it changes only at switch
//! points (basic blocks, allocations, stream calls, futex waits). The schedule is a list of
//! (points until the switch, which runnable thread next).
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

pub const MAXT: usize = 8;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { None, Ready, Blocked(usize), Stalled, Done }

pub struct Sched {
    pub st: [St; MAXT],
    pub plan: Vec<(u64, u8)>,
    pub pos: usize,
    pub countdown: u64,
    pub points: u64,
    pub per: [u64; MAXT],
    pub switches: u64,
    pub futex_blocks: u64,
    pub trace: Vec<(u64, u8, u8)>,
    pub kinds: [u64; 4],
    pub budget: u64,
}
static mut S: Sched = Sched { st: [St::None; MAXT], plan: Vec::new(), pos: 0, countdown: 0, points: 0, per: [0; MAXT],
    switches: 0, futex_blocks: 0, trace: Vec::new(), kinds: [0; 4], budget: 0 };
static CURRENT: AtomicUsize = AtomicUsize::new(usize::MAX);
static GATE: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; static BUSY: Cell<bool> = const { Cell::new(false) }; }

#[allow(static_mut_refs)]
pub fn state() -> &'static mut Sched { unsafe { &mut S } }

/// Called by the controlling thread before the simulated threads are spawned.
pub fn begin(n: usize, plan: Vec<(u64, u8)>, first: usize, budget: u64) {
    let s = state();
    *s = Sched { st: [St::None; MAXT], plan, pos: 0, countdown: 0, points: 0, per: [0; MAXT], switches: 0, futex_blocks: 0,
        trace: Vec::with_capacity(4096), kinds: [0; 4], budget };
    for i in 0..n { s.st[i] = St::Ready; }
    s.countdown = s.plan.first().map(|p| p.0).unwrap_or(u64::MAX);
    for g in &GATE { g.store(0, SeqCst); }
    CURRENT.store(first % n, SeqCst);
}
/// First call of a simulated thread: waits for its turn.
pub fn enter(me: usize) {
    wait_turn(me);
    ME.with(|m| m.set(me));
    unsafe { crate::cov::SCHED_ON = true; }
}
fn wait_turn(me: usize) {
    while CURRENT.load(SeqCst) != me {
        let g = GATE[me].load(SeqCst);
        if CURRENT.load(SeqCst) == me { break; }
        sys::futex_wait(GATE[me].as_ptr(), g);
    }
}
fn give(to: usize) {
    CURRENT.store(to, SeqCst);
    GATE[to].fetch_add(1, SeqCst);
    sys::futex_wake(GATE[to].as_ptr());
}
/// Last call of a simulated thread.
pub fn leave() {
    let me = ME.with(|m| m.replace(usize::MAX));
    let s = state();
    s.st[me] = St::Done;
    match next_ready(s, me, 0) {
        Some(n) => { record(s, me, n); give(n) }
        None => {
            if s.st.iter().any(|x| matches!(x, St::Blocked(_))) { deadlock(s); }
            match s.st.iter().position(|x| *x == St::Stalled) {
                // Everyone else is done: let stalled streams fail.
                Some(n) => { s.st[n] = St::Ready; record(s, me, n); give(n) }
                None => { unsafe { crate::cov::SCHED_ON = false; } CURRENT.store(usize::MAX, SeqCst); }
            }
        }
    }
}
fn deadlock(s: &Sched) -> ! { sys::die(79, &format!("DEADLOCK: {:?}", s.st)) }
fn record(s: &mut Sched, from: usize, to: usize) {
    s.switches += 1;
    if s.trace.len() < 4096 { s.trace.push((s.points, from as u8, to as u8)); }
}
fn next_ready(s: &Sched, me: usize, skip: usize) -> Option<usize> {
    // No allocation here: allocations are switch points.
    let ready = || (1..=MAXT).map(move |d| (me + d) % MAXT).filter(|&i| i != me && s.st[i] == St::Ready);
    let n = ready().count();
    if n == 0 { None } else { ready().nth(skip % n) }
}
/// A switch point. kind: 0 block, 1 allocation, 2 stream operation, 3 yield.
pub fn point(kind: usize) {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || BUSY.with(|b| b.replace(true)) { return; }
    let s = state();
    s.points += 1; s.per[me] += 1; s.kinds[kind] += 1;
    if s.points > s.budget { sys::die(77, "STEP_LIMIT: threads exceeded their work budget"); }
    if kind == 3 || s.countdown <= 1 {
        let skip = if s.countdown <= 1 { let t = s.plan.get(s.pos).map(|p| p.1).unwrap_or(0); s.pos += 1;
            s.countdown = s.plan.get(s.pos).map(|p| p.0.max(1)).unwrap_or(u64::MAX); t } else { 0 };
        if let Some(n) = next_ready(s, me, skip as usize) { record(s, me, n); give(n); wait_turn(me); }
    } else { s.countdown -= 1; }
    BUSY.with(|b| b.set(false));
}
/// The calling thread's stream makes no progress until every other thread is done.
pub fn stall() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX { return; }
    let busy = BUSY.with(|b| b.replace(true));
    let s = state();
    if let Some(n) = next_ready(s, me, 0) { s.st[me] = St::Stalled; record(s, me, n); give(n); wait_turn(me); }
    BUSY.with(|b| b.set(busy));
}
/// Suppresses switch points (used around the simulator's own critical sections); returns the previous setting.
pub fn quiet(on: bool) -> bool { BUSY.try_with(|b| b.replace(on)).unwrap_or(true) }
pub fn simulated() -> bool { ME.with(|m| m.get()) != usize::MAX }

unsafe fn futex(a: *const u32, op: i64, val: i64) -> Option<i64> {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || BUSY.with(|b| b.get()) { return None; }
    let s = state();
    match op & 0x7f & !64 {
        0 | 9 => { // WAIT, WAIT_BITSET (timeouts count as infinite unless nobody else can run)
            if std::ptr::read_volatile(a) != val as u32 { return Some(-11); }
            s.futex_blocks += 1;
            match next_ready(s, me, 0) {
                Some(n) => { BUSY.with(|b| b.set(true)); s.st[me] = St::Blocked(a as usize); record(s, me, n); give(n); wait_turn(me); BUSY.with(|b| b.set(false)); }
                None => {
                    if let Some(n) = s.st.iter().position(|x| *x == St::Stalled) {
                        // Only a stalled call could wake us: the others are not independent of it.
                        sys::die(79, &format!("BLOCKED_BY_STALL: thread {me} waits for stalled thread {n}"));
                    }
                    deadlock(s)
                }
            }
            Some(0)
        }
        1 | 10 => { // WAKE
            let mut n = 0;
            for x in s.st.iter_mut() { if *x == St::Blocked(a as usize) && n < val { *x = St::Ready; n += 1; } }
            Some(n)
        }
        _ => None,
    }
}
pub static mut FAKE_RANDOM: Option<u64> = None;
static mut RANDOM_CALLS: u64 = 0;
unsafe fn fake_random(p: *mut u8, n: usize) -> bool {
    match FAKE_RANDOM {
        Some(seed) => {
            let mut r = crate::tape::Rng::new(crate::tape::mix(seed, RANDOM_CALLS));
            RANDOM_CALLS += 1;
            for i in 0..n { *p.add(i) = r.next() as u8; }
            true
        }
        None => false,
    }
}
/// Hash seeds of this process come from `seed` from now on.
pub fn seed_random(seed: u64) { unsafe { FAKE_RANDOM = Some(seed); RANDOM_CALLS = 0; } }
/// The seed of one hash map whose library does not ask the system for it.
pub fn map_seed() -> u64 { unsafe { RANDOM_CALLS += 1; crate::tape::mix(FAKE_RANDOM.unwrap_or(0), RANDOM_CALLS) } }
pub fn random_calls() -> u64 { unsafe { RANDOM_CALLS } }
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, f: u32) -> isize {
    if fake_random(p, n) { return n as isize; }
    sys::ret(sys::raw6(sys::SYS_GETRANDOM, p as i64, n as i64, f as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(p: *mut u8, n: usize) -> i32 { if getrandom(p, n, 0) == n as isize { 0 } else { -1 } }
/// glibc's syscall(2) wrapper as std uses it for futexes.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == sys::SYS_FUTEX {
        if let Some(r) = futex(a as *const u32, b, c) { return sys::ret(r); }
    } else if n == sys::SYS_GETRANDOM && fake_random(a as *mut u8, b as usize) { return b; }
    sys::ret(sys::raw6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 { if simulated() { point(3); 0 } else { sys::raw6(24, 0, 0, 0, 0, 0, 0) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: i64, b: i64) -> i32 { if simulated() { point(3); 0 } else { sys::ret(sys::raw6(35, a, b, 0, 0, 0, 0)) as i32 } }
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i64, fl: i64, a: i64, b: i64) -> i32 { if simulated() { point(3); 0 } else { -sys::raw6(230, c, fl, a, b, 0, 0) as i32 } }
