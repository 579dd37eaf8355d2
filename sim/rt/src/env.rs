//! What a process can ask about itself and its surroundings: environment variables, process id, processors, working directory.
use crate::sys;
/// 0: the real answers; otherwise made up from this seed.
pub static mut FAKE: u64 = 0;
pub static mut ASKED: u64 = 0;
extern "C" { static environ: *const *const u8; }
unsafe fn len(p: *const u8) -> usize { let mut n = 0; while *p.add(n) != 0 { n += 1; } n }
unsafe fn real(name: &[u8]) -> *const u8 {
    let mut e = environ;
    if e.is_null() { return std::ptr::null(); }
    while !(*e).is_null() {
        let p = *e;
        let mut i = 0;
        while i < name.len() && *p.add(i) == name[i] { i += 1; }
        if i == name.len() && *p.add(i) == b'=' { return p.add(i + 1); }
        e = e.add(1);
    }
    std::ptr::null()
}
static VALUES: [&[u8]; 7] = [b"1\0", b"0\0", b"true\0", b"\0", b"C\0", b"/simdisk/elsewhere\0", b"4096\0"];
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const u8) -> *const u8 {
    let name = std::slice::from_raw_parts(n, len(n));
    // RUST_*: the runtime's own knobs (stack size, backtraces), not the library's.
    if FAKE == 0 || name.starts_with(b"RUST_") { return real(name); }
    ASKED += 1;
    let h = crate::tape::mix(FAKE, crate::hash_bytes(name));
    if h % 8 == 7 { std::ptr::null() } else { VALUES[(h % 8) as usize % 7].as_ptr() }
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if FAKE == 0 { return sys::raw6(39, 0, 0, 0, 0, 0, 0) as i32; }
    ASKED += 1;
    (crate::tape::mix(FAKE, 1) % 30_000) as i32 + 2
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, m: *mut u8) -> i32 {
    if FAKE == 0 {
        let r = sys::raw6(204, pid as i64, n as i64, m as i64, 0, 0, 0);
        if r < 0 { return sys::ret(r) as i32; }
        std::ptr::write_bytes(m.add(r as usize), 0, n - r as usize);
        return 0;
    }
    ASKED += 1;
    std::ptr::write_bytes(m, 0, n);
    for i in 0..1 + (crate::tape::mix(FAKE, 2) % 32) as usize { if i / 8 < n { *m.add(i / 8) |= 1 << (i % 8); } }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
    if FAKE == 0 { return if sys::ret(sys::raw6(79, b as i64, n as i64, 0, 0, 0, 0)) < 0 { std::ptr::null_mut() } else { b }; }
    ASKED += 1;
    let p = VALUES[5];
    if n < p.len() { sys::set_errno(34); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(p.as_ptr(), b, p.len());
    b
}
