//! Preloaded into the real command line tools: loads the disk image and the plan named by DST_IMG (a real file),
//! streams the operation log to DST_LOG. Everything the tool does under /simdisk/ stays in this process.
use dstrt::disk;

fn env(name: &str) -> Option<String> {
    extern "C" { static environ: *const *const u8; }
    unsafe {
        let mut p = environ;
        while !(*p).is_null() {
            let s = std::ffi::CStr::from_ptr(*p as *const _).to_bytes();
            if s.starts_with(name.as_bytes()) && s.get(name.len()) == Some(&b'=') { return Some(String::from_utf8_lossy(&s[name.len() + 1..]).into_owned()); }
            p = p.add(1);
        }
    }
    None
}
fn slurp(path: &str) -> Vec<u8> {
    let fd = dstrt::sys::open_raw(path, 0);
    let mut out = Vec::new();
    let mut buf = vec![0u8; 65536];
    loop {
        let n = unsafe { dstrt::sys::raw6(0, fd as i64, buf.as_mut_ptr() as i64, buf.len() as i64, 0, 0, 0) };
        if n <= 0 { break; }
        out.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { dstrt::sys::raw6(3, fd as i64, 0, 0, 0, 0, 0); }
    out
}
extern "C" fn init() {
    let (img, log) = match (env("DST_IMG"), env("DST_LOG")) { (Some(a), Some(b)) => (a, b), _ => return };
    let b = slurp(&img);
    let (files, plan, hseed) = dstrt_img::parse(&b);
    for (p, d) in files { disk::put(&p, d); }
    disk::restart(plan);
    let fd = dstrt::sys::open_raw(&log, 0o1 | 0o100 | 0o1000 | 0o2000 | 0o2000000);
    disk::with(|d| { d.log_fd = fd; d.exit_on_crash = true; });
    // A tool that hangs or eats memory ends here instead of taking the sandbox with it.
    let lim = |r: i64, v: u64| unsafe { let l = [v, v]; dstrt::sys::raw6(160, r, l.as_ptr() as i64, 0, 0, 0, 0); };
    lim(0, 20);
    lim(9, 3 << 30);
    lim(4, 0);
    let t = [0i64, 0, 40, 0];
    unsafe { dstrt::sys::raw6(38, 0, t.as_ptr() as i64, 0, 0, 0, 0); }
    unsafe { disk::FAKE_CLOCK = true; disk::CWD = true; dstrt::sched::FAKE_RANDOM = Some(hseed); }
}
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;
use dstrt::disk::img as dstrt_img;
// Keep the interposed symbols.
#[used]
static KEEP: [usize; 0] = [];
