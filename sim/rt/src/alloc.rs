//! Accounting allocator: live bytes, peak, largest request and number of calls since `begin`, with hard limits.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Counting;
pub static mut TOTAL: u64 = 0;
pub static mut LIVE: i64 = 0;
pub static mut PEAK: i64 = 0;
pub static mut BIGGEST: u64 = 0;
pub static mut CALLS: u64 = 0;
pub static mut LIVE_LIMIT: i64 = i64::MAX;
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; }
pub fn enable(on: bool) { ON.with(|c| c.set(on)); }
pub fn begin(live_limit: i64) { unsafe { TOTAL = 0; LIVE = 0; PEAK = 0; BIGGEST = 0; CALLS = 0; LIVE_LIMIT = live_limit; } enable(true); }
pub struct Stat { pub total: u64, pub peak: i64, pub biggest: u64, pub calls: u64 }
pub fn end() -> Stat { enable(false); unsafe { Stat { total: TOTAL, peak: PEAK, biggest: BIGGEST, calls: CALLS } } }
#[inline]
fn on() -> bool { ON.try_with(|c| c.get()).unwrap_or(false) }
#[inline]
unsafe fn note(n: usize) {
    TOTAL += n as u64; LIVE += n as i64; CALLS += 1;
    if n as u64 > BIGGEST { BIGGEST = n as u64; }
    if LIVE > PEAK { PEAK = LIVE; }
    if LIVE > LIVE_LIMIT { ON.with(|c| c.set(false)); crate::sys::die(78, "MEMORY_LIMIT: the run exceeded its memory budget") }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if crate::cov::SCHED_ON { crate::sched::point(1); }
        if on() { note(l.size()); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if crate::cov::SCHED_ON { crate::sched::point(1); }
        if on() { note(l.size()); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if on() { LIVE -= l.size() as i64; }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if crate::cov::SCHED_ON { crate::sched::point(1); }
        if on() { LIVE -= l.size() as i64; note(n); }
        System.realloc(p, l, n)
    }
}
