//! A simulated disk under /simdisk/, reached through the libc symbols std uses. Everything else goes to the kernel.
//! The same code runs inside the harness process and, preloaded, inside the real command line tools.
use crate::sys::*;
use crate::tape::Rng;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

pub const ROOT: &str = "/simdisk/";
const FD0: i32 = 1 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Create { node: u32, path: String },
    Trunc { node: u32, len: u64 },
    Write { node: u32, off: u64, data: Vec<u8> },
    Rename { from: String, to: String },
    Unlink { path: String },
    Sync { node: u32 },
    /// a fault that fired: kind index, operation number
    Fault { kind: u8, op: u64 },
    /// (operation number, name) for reports
    Op { op: u64, name: u8 },
    /// the simulated machine died at this operation
    Crash { op: u64 },
}
pub const OPS: [&str; 12] = ["open", "read", "write", "lseek", "stat", "close", "ftruncate", "fsync", "rename", "unlink", "clock", "other"];
pub const FAULTS: [&str; 10] = ["eintr", "short_read", "short_write", "eio", "enospc", "eacces", "emfile", "full_disk", "clock_jump", "write_zero"];

/// One explicit fault: at the n-th operation of the given class (0 any of open/read/write, 1 open, 2 read, 3 write, 4 stat, 5 close).
#[derive(Clone, Debug, Default, PartialEq)]
pub struct DFault { pub class: u8, pub nth: u64, pub kind: u8, pub sticky: bool }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct DPlan {
    pub seed: u64,
    pub chunk: u64,
    pub eintr: u64,
    pub capacity: Option<u64>,
    pub faults: Vec<DFault>,
    /// the machine dies during this operation (1-based over all operations)
    pub crash_at: Option<u64>,
    /// how much of the operation's data survives, in 1/256
    pub crash_part: u64,
    pub clock_jump: u64,
    /// stat reports this size instead of the real one
    pub lie_size: Option<u64>,
}

#[derive(Default)]
pub struct Node { pub data: Vec<u8> }
struct Fd { node: u32, pos: u64, append: bool, rd: bool, wr: bool, room: u64 }
#[derive(Default)]
pub struct Disk {
    pub names: BTreeMap<String, u32>,
    pub nodes: Vec<Node>,
    fds: Vec<Option<Fd>>,
    pub log: Vec<Rec>,
    pub plan: DPlan,
    rng: Option<Rng>,
    intr: u32,
    pub ops: u64,
    pub class_ops: [u64; 6],
    pub dead: bool,
    broken: Vec<(u8, u8)>,
    clock: i64,
    /// real file descriptor the log is streamed to (tool processes)
    pub log_fd: i32,
    pub exit_on_crash: bool,
}
static mut DISK: Option<Disk> = None;
static LOCK: AtomicBool = AtomicBool::new(false);
thread_local! { static IN: Cell<bool> = const { Cell::new(false) }; }
pub static mut FAKE_CLOCK: bool = false;
/// Standard output and error: 0 the real ones, 1 swallowed, 2 every write fails (closed pipe).
pub static mut STDIO: u8 = 0;
pub static mut STDIO_WRITES: u64 = 0;
unsafe fn stdio(n: usize) -> isize { STDIO_WRITES += 1; if STDIO == 2 { set_errno(32); -1 } else { n as isize } }

pub fn with<R>(f: impl FnOnce(&mut Disk) -> R) -> R {
    let was = IN.with(|c| c.replace(true));
    let q = crate::sched::quiet(true);
    while LOCK.swap(true, Ordering::Acquire) { std::hint::spin_loop(); }
    #[allow(static_mut_refs)]
    let d = unsafe { DISK.get_or_insert_with(|| Disk { log_fd: -1, ..Default::default() }) };
    let r = f(d);
    LOCK.store(false, Ordering::Release);
    crate::sched::quiet(q);
    IN.with(|c| c.set(was));
    r
}
/// Empty disk, no faults.
pub fn reset() { with(|d| *d = Disk { log_fd: -1, ..Default::default() }) }
/// Forgets descriptors, the log, counters and the plan; files stay (a restart).
pub fn restart(plan: DPlan) {
    with(|d| { d.fds.clear(); d.log.clear(); d.ops = 0; d.class_ops = [0; 6]; d.dead = false; d.broken.clear(); d.intr = 0;
        d.rng = Some(Rng::new(plan.seed)); d.plan = plan; });
}
pub fn put(path: &str, data: Vec<u8>) {
    with(|d| { let n = d.nodes.len() as u32; d.nodes.push(Node { data }); d.names.insert(path.to_string(), n); });
}
pub fn get(path: &str) -> Option<Vec<u8>> { with(|d| d.names.get(path).map(|n| d.nodes[*n as usize].data.clone())) }
pub fn remove(path: &str) { with(|d| { d.names.remove(path); }) }
pub fn list() -> Vec<(String, Vec<u8>)> { with(|d| d.names.iter().map(|(p, n)| (p.clone(), d.nodes[*n as usize].data.clone())).collect()) }
pub fn snapshot() -> (BTreeMap<String, u32>, Vec<Vec<u8>>) { with(|d| (d.names.clone(), d.nodes.iter().map(|n| n.data.clone()).collect())) }

/// Applies the first `n` records of a log (and a part of the next one, in 1/256 of its data) to a snapshot.
pub fn apply(snap: &(BTreeMap<String, u32>, Vec<Vec<u8>>), log: &[Rec], n: usize, part: u64) -> Vec<(String, Vec<u8>)> {
    let (mut names, mut nodes) = snap.clone();
    for (i, r) in log.iter().enumerate() {
        if i > n { break; }
        let partial = i == n;
        match r {
            Rec::Create { node, path } if !partial => { while nodes.len() <= *node as usize { nodes.push(vec![]); } names.insert(path.clone(), *node); }
            Rec::Trunc { node, len } if !partial => { if let Some(d) = nodes.get_mut(*node as usize) { d.resize(*len as usize, 0); } }
            Rec::Write { node, off, data } => {
                let k = if partial { (data.len() as u64 * part / 256) as usize } else { data.len() };
                if let Some(d) = nodes.get_mut(*node as usize) {
                    let (o, e) = (*off as usize, *off as usize + k);
                    if k > 0 { if d.len() < e { d.resize(e, 0); } d[o..e].copy_from_slice(&data[..k]); }
                }
            }
            Rec::Rename { from, to } if !partial => { if let Some(x) = names.remove(from) { names.insert(to.clone(), x); } }
            Rec::Unlink { path } if !partial => { names.remove(path); }
            _ => (),
        }
    }
    names.into_iter().map(|(p, n)| (p, nodes[n as usize].clone())).collect()
}

pub fn encode(r: &Rec, out: &mut Vec<u8>) {
    let mut b: Vec<u8> = Vec::new();
    fn s(b: &mut Vec<u8>, x: &[u8]) { b.extend((x.len() as u32).to_le_bytes()); b.extend(x); }
    match r {
        Rec::Create { node, path } => { b.push(0); b.extend(node.to_le_bytes()); s(&mut b, path.as_bytes()); }
        Rec::Trunc { node, len } => { b.push(1); b.extend(node.to_le_bytes()); b.extend(len.to_le_bytes()); }
        Rec::Write { node, off, data } => { b.push(2); b.extend(node.to_le_bytes()); b.extend(off.to_le_bytes()); s(&mut b, data); }
        Rec::Rename { from, to } => { b.push(3); s(&mut b, from.as_bytes()); s(&mut b, to.as_bytes()); }
        Rec::Unlink { path } => { b.push(4); s(&mut b, path.as_bytes()); }
        Rec::Sync { node } => { b.push(5); b.extend(node.to_le_bytes()); }
        Rec::Fault { kind, op } => { b.push(6); b.push(*kind); b.extend(op.to_le_bytes()); }
        Rec::Op { op, name } => { b.push(7); b.extend(op.to_le_bytes()); b.push(*name); }
        Rec::Crash { op } => { b.push(8); b.extend(op.to_le_bytes()); }
    }
    out.extend((b.len() as u32).to_le_bytes());
    out.extend(b);
}
pub fn decode(mut b: &[u8]) -> Vec<Rec> {
    fn u4(b: &mut &[u8]) -> u32 { let v = u32::from_le_bytes(b[..4].try_into().unwrap()); *b = &b[4..]; v }
    fn u8_(b: &mut &[u8]) -> u64 { let v = u64::from_le_bytes(b[..8].try_into().unwrap()); *b = &b[8..]; v }
    fn st(b: &mut &[u8]) -> Vec<u8> { let n = u4(b) as usize; let v = b[..n].to_vec(); *b = &b[n..]; v }
    fn ss(b: &mut &[u8]) -> String { String::from_utf8_lossy(&st(b)).into_owned() }
    let mut out = Vec::new();
    while b.len() >= 4 {
        let n = u4(&mut b) as usize;
        if b.len() < n { break; }
        let mut r = &b[..n];
        b = &b[n..];
        let k = r[0];
        r = &r[1..];
        let r = &mut r;
        out.push(match k {
            0 => Rec::Create { node: u4(r), path: ss(r) },
            1 => Rec::Trunc { node: u4(r), len: u8_(r) },
            2 => Rec::Write { node: u4(r), off: u8_(r), data: st(r) },
            3 => Rec::Rename { from: ss(r), to: ss(r) },
            4 => Rec::Unlink { path: ss(r) },
            5 => Rec::Sync { node: u4(r) },
            6 => Rec::Fault { kind: { let k = r[0]; *r = &r[1..]; k }, op: u8_(r) },
            7 => Rec::Op { op: u8_(r), name: r[0] },
            _ => Rec::Crash { op: u8_(r) },
        });
    }
    out
}

impl Disk {
    fn rec(&mut self, r: Rec) {
        if self.log_fd >= 0 { let mut b = Vec::new(); encode(&r, &mut b); write_fd(self.log_fd, &b); } else { self.log.push(r); }
    }
    fn fault(&mut self, kind: u8) { let op = self.ops; self.rec(Rec::Fault { kind, op }); }
    /// Counts the operation and decides whether it is hit. Ok(crash) or Err(errno).
    fn gate(&mut self, class: u8, name: u8) -> Result<bool, i32> {
        self.ops += 1;
        let op = self.ops;
        if self.dead { return Err(5); }
        self.rec(Rec::Op { op, name });
        self.class_ops[class as usize] += 1;
        if class <= 3 { self.class_ops[0] += 1; }
        let crash = self.plan.crash_at == Some(op);
        if crash { return Ok(true); }
        for &(c, k) in &self.broken.clone() { if c == class || (c == 0 && class <= 3) { return Err(self.apply_kind(k)); } }
        for f in self.plan.faults.clone() {
            let n = self.class_ops[f.class as usize];
            if (f.class == class || (f.class == 0 && class <= 3)) && n == f.nth {
                if f.sticky { self.broken.push((f.class, f.kind)); }
                let e = self.apply_kind(f.kind);
                return Err(e);
            }
        }
        if (class == 1 || class == 2 || class == 3) && self.plan.eintr > 0 && self.intr < 3 {
            let n = self.plan.eintr;
            if self.rng.as_mut().unwrap().below(n) == 0 { self.intr += 1; self.fault(0); return Err(4); }
        }
        self.intr = 0;
        Ok(false)
    }
    fn apply_kind(&mut self, k: u8) -> i32 {
        self.fault(k);
        match k { 0 => 4, 4 | 7 => 28, 5 => 13, 6 => 24, 9 => 0, _ => 5 }
    }
    fn crash(&mut self) -> i32 {
        let op = self.ops;
        self.rec(Rec::Crash { op });
        self.dead = true;
        if self.exit_on_crash { exit_now(99); }
        5
    }
    fn piece(&mut self, n: usize, kind: u8) -> usize {
        if self.plan.chunk == 0 || n == 0 { return n; }
        let c = self.plan.chunk;
        let m = (1 + self.rng.as_mut().unwrap().below(c)) as usize;
        if m < n { self.fault(kind); m } else { n }
    }
    fn open(&mut self, path: &str, flags: i32) -> i64 {
        match self.gate(1, 0) { Err(e) => return -(e.max(1) as i64), Ok(true) => return -(self.crash() as i64), _ => () }
        if path == ROOT || path.len() <= ROOT.len() { return -21; }
        // Faults tied to a place, so that they do not depend on how threads interleave.
        if path.contains("/denied/") { self.fault(5); return -13; }
        let room = if path.contains("/full/") { 40 } else { u64::MAX };
        let acc = flags & 3;
        let (creat, excl, trunc, append) = (flags & 0o100 != 0, flags & 0o200 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0);
        let node = match self.names.get(path) {
            Some(_) if creat && excl => return -17,
            Some(n) => { let n = *n; if trunc && acc != 0 { self.nodes[n as usize].data.clear(); self.rec(Rec::Trunc { node: n, len: 0 }); } n }
            None if creat => {
                let n = self.nodes.len() as u32;
                self.nodes.push(Node::default());
                self.names.insert(path.to_string(), n);
                self.rec(Rec::Create { node: n, path: path.to_string() });
                n
            }
            None => return -2,
        };
        self.fds.push(Some(Fd { node, pos: 0, append, rd: acc == 0 || acc == 2, wr: acc == 1 || acc == 2, room }));
        (FD0 as i64) + self.fds.len() as i64 - 1
    }
    fn fd(&mut self, fd: i32) -> Option<&mut Fd> { self.fds.get_mut((fd - FD0) as usize).and_then(|f| f.as_mut()) }
    fn read(&mut self, fd: i32, buf: *mut u8, n: usize, at: Option<u64>) -> i64 {
        let (node, pos) = match self.fd(fd) { Some(f) if f.rd => (f.node, at.unwrap_or(f.pos)), _ => return -9 };
        match self.gate(2, 1) { Err(e) => return -(e as i64), Ok(true) => return -(self.crash() as i64), _ => () }
        let avail = (self.nodes[node as usize].data.len() as u64).saturating_sub(pos) as usize;
        let k = self.piece(n.min(avail), 1);
        if k > 0 { unsafe { std::ptr::copy_nonoverlapping(self.nodes[node as usize].data.as_ptr().add(pos as usize), buf, k); } }
        if at.is_none() { self.fd(fd).unwrap().pos += k as u64; }
        k as i64
    }
    fn write(&mut self, fd: i32, buf: *const u8, n: usize, at: Option<u64>) -> i64 {
        let (node, append, mut pos, room) = match self.fd(fd) { Some(f) if f.wr => (f.node, f.append, at.unwrap_or(f.pos), f.room), _ => return -9 };
        if append { pos = self.nodes[node as usize].data.len() as u64; }
        let mut k = n;
        let mut crash = false;
        match self.gate(3, 2) {
            Err(e) => return -(e as i64),
            Ok(true) => { crash = true; k = (n as u64 * self.plan.crash_part / 256) as usize; }
            _ => { k = self.piece(k, 2); }
        }
        if let Some(c) = self.plan.capacity {
            if k > 0 && pos + k as u64 > c { k = c.saturating_sub(pos) as usize; self.fault(7); if k == 0 && !crash { return -28; } }
        }
        if k > 0 && pos + k as u64 > room { k = room.saturating_sub(pos) as usize; self.fault(7); if k == 0 && !crash { return -28; } }
        if pos + k as u64 > 1 << 31 { return -27; }
        if k > 0 {
            let src = unsafe { std::slice::from_raw_parts(buf, k) };
            let (o, e) = (pos as usize, pos as usize + k);
            let d = &mut self.nodes[node as usize].data;
            if d.len() < e { d.resize(e, 0); }
            d[o..e].copy_from_slice(src);
            let data = src.to_vec();
            self.rec(Rec::Write { node, off: pos, data });
        }
        if crash { return -(self.crash() as i64); }
        if at.is_none() { self.fd(fd).unwrap().pos = pos + k as u64; }
        k as i64
    }
    fn seek(&mut self, fd: i32, off: i64, wh: i32) -> i64 {
        let (node, pos) = match self.fd(fd) { Some(f) => (f.node, f.pos), _ => return -9 };
        match self.gate(4, 3) { Err(e) => return -(e.max(1) as i64), Ok(true) => return -(self.crash() as i64), _ => () }
        let base = match wh { 0 => 0, 1 => pos as i64, 2 => self.nodes[node as usize].data.len() as i64, _ => return -22 };
        let t = match base.checked_add(off) { Some(t) if t >= 0 => t, _ => return -22 };
        self.fd(fd).unwrap().pos = t as u64;
        t
    }
    /// (size, is_dir) or -errno
    fn stat(&mut self, node: Option<u32>) -> Result<u64, i64> {
        match self.gate(4, 4) { Err(e) => return Err(-(e.max(1) as i64)), Ok(true) => return Err(-(self.crash() as i64)), _ => () }
        let n = match node { Some(n) => n, None => return Err(-2) };
        let real = self.nodes[n as usize].data.len() as u64;
        Ok(self.plan.lie_size.map(|l| l.min(real)).unwrap_or(real))
    }
    fn trunc(&mut self, fd: i32, len: u64) -> i64 {
        let node = match self.fd(fd) { Some(f) if f.wr => f.node, _ => return -22 };
        match self.gate(3, 6) { Err(e) => return -(e.max(1) as i64), Ok(true) => return -(self.crash() as i64), _ => () }
        if len > 1 << 31 { return -27; }
        self.nodes[node as usize].data.resize(len as usize, 0);
        self.rec(Rec::Trunc { node, len });
        0
    }
}

/// The simulated directory is the working directory: relative names lead there.
pub static mut CWD: bool = false;
unsafe fn cstr(p: *const u8) -> Option<String> {
    if p.is_null() { return None; }
    let root = ROOT.as_bytes();
    if CWD && *p != b'/' && *p != 0 {
        let p = if *p == b'.' && *p.add(1) == b'/' { p.add(2) } else { p };
        let mut n = 0;
        while *p.add(n) != 0 { n += 1; }
        return Some(ROOT.to_string() + &String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
    }
    for (i, c) in root.iter().enumerate() { if *p.add(i) != *c { return None; } }
    let mut n = 0;
    while *p.add(n) != 0 { n += 1; }
    Some(String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned())
}
#[inline]
fn mine(fd: i32) -> bool { fd >= FD0 }
macro_rules! raw { ($n:expr $(, $a:expr)*) => {{ let v = [$($a as i64),*, 0, 0, 0, 0, 0, 0]; ret(raw6($n, v[0], v[1], v[2], v[3], v[4], v[5])) }} }
macro_rules! cfn { ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty $b:block)*) => { $(#[no_mangle] pub unsafe extern "C" fn $name($($a: $t),*) -> $r $b)* } }

unsafe fn do_open(p: *const u8, flags: i32, mode: i64) -> i64 {
    match cstr(p) { Some(s) => ret(with(|d| d.open(&s, flags))), None => raw!(SYS_OPEN, p, flags, mode) }
}
unsafe fn fill_stat(buf: *mut u8, size: u64) {
    std::ptr::write_bytes(buf, 0, 144);
    *(buf.add(16) as *mut u64) = 1; // nlink
    *(buf.add(24) as *mut u32) = 0o100644;
    *(buf.add(48) as *mut i64) = size as i64;
    *(buf.add(56) as *mut i64) = 4096;
}
unsafe fn st(node: impl FnOnce(&mut Disk) -> Option<u32>, buf: *mut u8) -> i64 {
    match with(|d| { let n = node(d); d.stat(n) }) { Ok(sz) => { fill_stat(buf, sz); 0 } Err(e) => ret(e) }
}
cfn! {
    open64(p: *const u8, f: i32, m: i64) -> i32 { do_open(p, f, m) as i32 }
    open(p: *const u8, f: i32, m: i64) -> i32 { do_open(p, f, m) as i32 }
    openat64(dfd: i32, p: *const u8, f: i32, m: i64) -> i32 { if cstr(p).is_some() { do_open(p, f, m) as i32 } else { raw!(257, dfd, p, f, m) as i32 } }
    openat(dfd: i32, p: *const u8, f: i32, m: i64) -> i32 { if cstr(p).is_some() { do_open(p, f, m) as i32 } else { raw!(257, dfd, p, f, m) as i32 } }
    read(fd: i32, b: *mut u8, n: usize) -> isize { if mine(fd) { ret(with(|d| d.read(fd, b, n, None))) as isize } else { raw!(SYS_READ, fd, b, n) as isize } }
    pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize { if mine(fd) { ret(with(|d| d.read(fd, b, n, Some(o as u64)))) as isize } else { raw!(17, fd, b, n, o) as isize } }
    readv(fd: i32, v: *const (*mut u8, usize), c: i32) -> isize {
        if mine(fd) { for i in 0..c as usize { let (p, n) = *v.add(i); if n > 0 { return read(fd, p, n); } } return read(fd, std::ptr::null_mut(), 0); }
        raw!(19, fd, v, c) as isize
    }
    write(fd: i32, b: *const u8, n: usize) -> isize { if STDIO > 0 && (fd == 1 || fd == 2) { stdio(n) } else if mine(fd) { ret(with(|d| d.write(fd, b, n, None))) as isize } else { raw!(SYS_WRITE, fd, b, n) as isize } }
    pwrite64(fd: i32, b: *const u8, n: usize, o: i64) -> isize { if mine(fd) { ret(with(|d| d.write(fd, b, n, Some(o as u64)))) as isize } else { raw!(18, fd, b, n, o) as isize } }
    writev(fd: i32, v: *const (*const u8, usize), c: i32) -> isize {
        if mine(fd) { for i in 0..c as usize { let (p, n) = *v.add(i); if n > 0 { return write(fd, p, n); } } return 0; }
        if STDIO > 0 && (fd == 1 || fd == 2) { let mut t = 0; for i in 0..c as usize { t += (*v.add(i)).1; } return stdio(t); }
        raw!(20, fd, v, c) as isize
    }
    lseek64(fd: i32, o: i64, w: i32) -> i64 { if mine(fd) { ret(with(|d| d.seek(fd, o, w))) } else { raw!(SYS_LSEEK, fd, o, w) } }
    lseek(fd: i32, o: i64, w: i32) -> i64 { lseek64(fd, o, w) }
    fstat64(fd: i32, b: *mut u8) -> i32 { if mine(fd) { st(|d| d.fd(fd).map(|f| f.node), b) as i32 } else { raw!(5, fd, b) as i32 } }
    fstat(fd: i32, b: *mut u8) -> i32 { fstat64(fd, b) }
    stat64(p: *const u8, b: *mut u8) -> i32 { match cstr(p) { Some(s) => st(|d| d.names.get(&s).copied(), b) as i32, None => raw!(4, p, b) as i32 } }
    stat(p: *const u8, b: *mut u8) -> i32 { stat64(p, b) }
    lstat64(p: *const u8, b: *mut u8) -> i32 { match cstr(p) { Some(s) => st(|d| d.names.get(&s).copied(), b) as i32, None => raw!(6, p, b) as i32 } }
    statx(dfd: i32, p: *const u8, fl: i32, mask: u32, b: *mut u8) -> i32 {
        if !mine(dfd) && cstr(p).is_none() { return raw!(332, dfd, p, fl, mask, b) as i32; }
        let mut s = [0u8; 144];
        let r = if mine(dfd) { fstat64(dfd, s.as_mut_ptr()) } else { stat64(p, s.as_mut_ptr()) };
        if r == 0 {
            std::ptr::write_bytes(b, 0, 256);
            *(b as *mut u32) = 0x7ff; // mask
            *(b.add(4) as *mut u32) = 4096;
            *(b.add(16) as *mut u32) = 1;
            *(b.add(28) as *mut u16) = 0o100644;
            *(b.add(40) as *mut u64) = *(s.as_ptr().add(48) as *const u64);
        }
        r
    }
    close(fd: i32) -> i32 {
        if !mine(fd) { return raw!(SYS_CLOSE, fd) as i32; }
        ret(with(|d| {
            if d.fd(fd).is_none() { return -9; }
            let r = match d.gate(5, 5) { Err(e) => -(e.max(1) as i64), Ok(true) => -(d.crash() as i64), _ => 0 };
            d.fds[(fd - FD0) as usize] = None;
            r
        })) as i32
    }
    ftruncate64(fd: i32, n: i64) -> i32 { if mine(fd) { ret(with(|d| d.trunc(fd, n as u64))) as i32 } else { raw!(77, fd, n) as i32 } }
    ftruncate(fd: i32, n: i64) -> i32 { ftruncate64(fd, n) }
    fsync(fd: i32) -> i32 {
        if !mine(fd) { return raw!(74, fd) as i32; }
        ret(with(|d| match d.fd(fd).map(|f| f.node) { None => -9, Some(node) => match d.gate(3, 7) { Err(e) => -(e.max(1) as i64), Ok(true) => -(d.crash() as i64), _ => { d.rec(Rec::Sync { node }); 0 } } })) as i32
    }
    fdatasync(fd: i32) -> i32 { if mine(fd) { fsync(fd) } else { raw!(75, fd) as i32 } }
    fcntl(fd: i32, c: i32, a: i64) -> i32 { if mine(fd) { if with(|d| d.fd(fd).is_some()) { 0 } else { ret(-9) as i32 } } else { raw!(72, fd, c, a) as i32 } }
    fcntl64(fd: i32, c: i32, a: i64) -> i32 { fcntl(fd, c, a) }
    fchmod(fd: i32, m: u32) -> i32 { if mine(fd) { 0 } else { raw!(91, fd, m) as i32 } }
    posix_fadvise64(fd: i32, o: i64, l: i64, a: i32) -> i32 { if mine(fd) { 0 } else { -(raw6(221, fd as i64, o, l, a as i64, 0, 0)) as i32 } }
    rename(a: *const u8, b: *const u8) -> i32 {
        match (cstr(a), cstr(b)) {
            (None, None) => raw!(82, a, b) as i32,
            (Some(a), Some(b)) => ret(with(|d| {
                match d.gate(3, 8) { Err(e) => return -(e.max(1) as i64), Ok(true) => return -(d.crash() as i64), _ => () }
                match d.names.remove(&a) { Some(n) => { d.names.insert(b.clone(), n); d.rec(Rec::Rename { from: a, to: b }); 0 } None => -2 }
            })) as i32,
            _ => ret(-18) as i32,
        }
    }
    unlink(p: *const u8) -> i32 {
        match cstr(p) {
            None => raw!(87, p) as i32,
            Some(s) => ret(with(|d| {
                match d.gate(3, 9) { Err(e) => return -(e.max(1) as i64), Ok(true) => return -(d.crash() as i64), _ => () }
                match d.names.remove(&s) { Some(_) => { d.rec(Rec::Unlink { path: s }); 0 } None => -2 }
            })) as i32,
        }
    }
    access(p: *const u8, m: i32) -> i32 { match cstr(p) { None => raw!(21, p, m) as i32, Some(s) => if with(|d| d.names.contains_key(&s)) { 0 } else { ret(-2) as i32 } } }
    copy_file_range(a: i32, oa: i64, b: i32, ob: i64, n: usize, f: u32) -> isize { if mine(a) || mine(b) { ret(-22) as isize } else { raw!(326, a, oa, b, ob, n, f) as isize } }
    sendfile64(a: i32, b: i32, o: i64, n: usize) -> isize { if mine(a) || mine(b) { ret(-22) as isize } else { raw!(40, a, b, o, n) as isize } }
    clock_gettime(c: i32, ts: *mut i64) -> i32 {
        if FAKE_CLOCK && !IN.with(|x| x.get()) {
            with(|d| {
                d.clock += 1_000_000;
                if d.plan.clock_jump > 0 {
                    let j = d.plan.clock_jump;
                    d.fault(8);
                    let r = d.rng.as_mut().unwrap().below(j) as i64;
                    d.clock += if r % 2 == 0 { r } else { -r };
                }
                let t = d.clock + 1_700_000_000_000_000_000;
                *ts = t.div_euclid(1_000_000_000); *ts.add(1) = t.rem_euclid(1_000_000_000);
            });
            return 0;
        }
        raw!(228, c, ts) as i32
    }
}

/// Image files handed to tool processes: files, plan, hash seed.
pub mod img {
    use super::*;
    pub fn build(files: &[(String, Vec<u8>)], p: &DPlan, hseed: u64) -> Vec<u8> {
        let mut o = Vec::new();
        let u = |o: &mut Vec<u8>, v: u64| o.extend(v.to_le_bytes());
        u(&mut o, files.len() as u64);
        for (n, d) in files { u(&mut o, n.len() as u64); o.extend(n.as_bytes()); u(&mut o, d.len() as u64); o.extend(d); }
        for v in [p.seed, p.chunk, p.eintr, p.capacity.map(|c| c + 1).unwrap_or(0), p.crash_at.unwrap_or(0), p.crash_part, p.clock_jump, p.lie_size.map(|c| c + 1).unwrap_or(0), hseed, p.faults.len() as u64] { u(&mut o, v); }
        for f in &p.faults { for v in [f.class as u64, f.nth, f.kind as u64, f.sticky as u64] { u(&mut o, v); } }
        o
    }
    pub fn parse(b: &[u8]) -> (Vec<(String, Vec<u8>)>, DPlan, u64) {
        let mut i = 0;
        let mut u = |i: &mut usize| { let v = u64::from_le_bytes(b[*i..*i + 8].try_into().unwrap()); *i += 8; v };
        let n = u(&mut i);
        let mut files = Vec::new();
        for _ in 0..n {
            let l = u(&mut i) as usize; let name = String::from_utf8_lossy(&b[i..i + l]).into_owned(); i += l;
            let l = u(&mut i) as usize; let d = b[i..i + l].to_vec(); i += l;
            files.push((name, d));
        }
        let v: Vec<u64> = (0..10).map(|_| u(&mut i)).collect();
        let opt = |x: u64| if x == 0 { None } else { Some(x - 1) };
        let mut p = DPlan { seed: v[0], chunk: v[1], eintr: v[2], capacity: opt(v[3]), crash_at: if v[4] == 0 { None } else { Some(v[4]) }, crash_part: v[5], clock_jump: v[6], lie_size: opt(v[7]), faults: vec![] };
        for _ in 0..v[9] { p.faults.push(DFault { class: u(&mut i) as u8, nth: u(&mut i), kind: u(&mut i) as u8, sticky: u(&mut i) != 0 }); }
        (files, p, v[8])
    }
}
