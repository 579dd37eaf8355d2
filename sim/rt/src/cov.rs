//! Compiler-inserted callbacks at every basic block of the code under test: a work counter (the simulated time),
//! a coverage map, and switch points for the thread scheduler.
pub const MAX_EDGES: usize = 1 << 20;
pub static mut NEDGES: u32 = 0;
pub static mut MAP: [u8; MAX_EDGES] = [0; MAX_EDGES];
pub static mut STEPS: u64 = 0;
pub static mut LIMIT: u64 = u64::MAX;
pub static mut SCHED_ON: bool = false;
/// Rolling hash over the last edges, sampled into a path signature when enabled.
pub static mut PATH: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 { return; }
    while a < b {
        NEDGES += 1;
        *a = NEDGES;
        a = a.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = *g as usize;
    if i < MAX_EDGES {
        let m = (&raw mut MAP as *mut u8).add(i);
        *m = (*m).saturating_add(1);
    }
    STEPS += 1;
    if STEPS > LIMIT { limit_hit(); }
    if SCHED_ON { crate::sched::point(0); }
}
#[cold]
fn limit_hit() -> ! {
    crate::sys::die(77, "STEP_LIMIT: the run exceeded its work budget")
}
pub fn steps() -> u64 { unsafe { STEPS } }
pub fn set_limit(more: u64) { unsafe { LIMIT = STEPS.saturating_add(more); } }
/// Clears the map of hit blocks.
pub fn clear() { unsafe { let n = (NEDGES as usize + 1).min(MAX_EDGES); std::ptr::write_bytes(&raw mut MAP as *mut u8, 0, n); } }
/// Hash of the set of (block, log2 of hit count) of the run.
pub fn signature() -> u64 {
    let mut h = crate::H::new();
    unsafe {
        let n = (NEDGES as usize + 1).min(MAX_EDGES);
        let s = std::slice::from_raw_parts(&raw const MAP as *const u8, n);
        for (i, c) in s.iter().enumerate() { if *c != 0 { h.u((i as u64) << 8 | (8 - c.leading_zeros() as u64)); } }
    }
    h.0
}
/// Adds the blocks hit to `seen`; returns how many were new.
pub fn merge(seen: &mut Vec<bool>) -> usize {
    let mut new = 0;
    unsafe {
        let n = (NEDGES as usize + 1).min(MAX_EDGES);
        if seen.len() < n { seen.resize(n, false); }
        let s = std::slice::from_raw_parts(&raw const MAP as *const u8, n);
        for (i, c) in s.iter().enumerate() { if *c != 0 && !seen[i] { seen[i] = true; new += 1; } }
    }
    new
}
pub fn total() -> usize { unsafe { NEDGES as usize } }
