//! Streams whose every call is decided by the run: short transfers, interruptions, errors, early ends, full disks.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaultKind {
    /// the call returns an error of the given kind (index into KINDS)
    Err(u8),
    /// a write accepts nothing (or a read reports the end)
    Zero,
    /// a seek or position query fails
    Eof,
}
pub const KINDS: [ErrorKind; 8] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::PermissionDenied, ErrorKind::BrokenPipe,
    ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::NotFound];

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// 0: transfers are whole; n: pieces of 1..=n bytes
    pub chunk: u64,
    pub seed: u64,
    /// 0: never; n: about one call in n is interrupted first
    pub eintr: u64,
    /// (operation number, kind, sticky)
    pub fault: Option<(u64, FaultKind, bool)>,
    /// bytes that fit before the destination is full
    pub capacity: Option<u64>,
    /// operation number at which the stream stalls (concurrency only)
    pub stall: Option<u64>,
}
#[derive(Clone, Debug, Default)]
pub struct Fired { pub short: u64, pub eintr: u64, pub err: u64, pub zero: u64, pub full: u64, pub stall: u64 }

pub struct SimStream {
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    rng: crate::tape::Rng,
    intr: u32,
    pub ops: u64,
    pub reads: u64, pub writes: u64, pub seeks: u64,
    pub read_bytes: u64,
    pub fired: Fired,
    /// operation log (kind, position, length, result), for replay reports
    pub log: Option<Vec<(char, u64, u64, i64)>>,
    pub switch: bool,
    broken: Option<FaultKind>,
}
impl SimStream {
    pub fn new(data: Vec<u8>, plan: Plan) -> SimStream {
        let rng = crate::tape::Rng::new(plan.seed);
        SimStream { data, pos: 0, plan, rng, intr: 0, ops: 0, reads: 0, writes: 0, seeks: 0, read_bytes: 0, fired: Fired::default(),
            log: None, switch: false, broken: None }
    }
    pub fn reader(data: &[u8]) -> SimStream { SimStream::new(data.to_vec(), Plan::default()) }
    pub fn writer() -> SimStream { SimStream::new(Vec::new(), Plan::default()) }
    fn note(&mut self, k: char, len: u64, r: i64) { let p = self.pos; if let Some(l) = &mut self.log { if l.len() < 100_000 { l.push((k, p, len, r)); } } }
    fn gate(&mut self, k: char, len: u64) -> Result<bool> {
        if self.switch { crate::sched::point(2); }
        self.ops += 1;
        if self.plan.stall == Some(self.ops) { self.fired.stall += 1; crate::sched::stall(); }
        let hit = match (self.broken, self.plan.fault) {
            (Some(f), _) => Some(f),
            (None, Some((at, f, sticky))) if at == self.ops => { if sticky { self.broken = Some(f); } Some(f) }
            _ => None,
        };
        if let Some(f) = hit {
            match f {
                FaultKind::Zero if k != 's' => { self.fired.zero += 1; self.note(k, len, 0); return Ok(false); }
                FaultKind::Eof if k == 'r' => { self.fired.zero += 1; self.note(k, len, 0); return Ok(false); }
                FaultKind::Err(i) => { self.fired.err += 1; self.note(k, len, -1); return Err(Error::new(KINDS[i as usize % 8], "simulated fault")); }
                _ => { self.fired.err += 1; self.note(k, len, -1); return Err(Error::new(ErrorKind::Other, "simulated fault")); }
            }
        }
        if k != 's' && self.plan.eintr > 0 && self.intr < 3 && self.rng.below(self.plan.eintr) == 0 {
            self.intr += 1; self.fired.eintr += 1; self.note(k, len, -4);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.intr = 0;
        Ok(true)
    }
    fn piece(&mut self, n: usize) -> usize {
        if self.plan.chunk == 0 || n == 0 { return n; }
        let m = (1 + self.rng.below(self.plan.chunk)) as usize;
        if m < n { self.fired.short += 1; m } else { n }
    }
}
impl Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if !self.gate('r', buf.len() as u64)? { return Ok(0); }
        let avail = self.data.len().saturating_sub(self.pos.min(usize::MAX as u64) as usize);
        let n = buf.len().min(avail);
        let n = self.piece(n);
        if n > 0 { let p = self.pos as usize; buf[..n].copy_from_slice(&self.data[p..p + n]); }
        self.note('r', buf.len() as u64, n as i64);
        self.pos += n as u64;
        self.read_bytes += n as u64;
        Ok(n)
    }
}
/// A sparse seek followed by a write must not allocate the gap for real.
pub const MAX_IMAGE: u64 = 1 << 31;
impl Write for SimStream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.writes += 1;
        if !self.gate('w', buf.len() as u64)? { return Ok(0); }
        let mut n = self.piece(buf.len());
        if let Some(c) = self.plan.capacity {
            if n > 0 && self.pos + n as u64 > c {
                n = c.saturating_sub(self.pos) as usize;
                self.fired.full += 1;
                if n == 0 { self.note('w', buf.len() as u64, -28); return Err(Error::from(ErrorKind::StorageFull)); }
            }
        }
        if self.pos + n as u64 > MAX_IMAGE { return Err(Error::from(ErrorKind::FileTooLarge)); }
        let (p, e) = (self.pos as usize, self.pos as usize + n);
        if n > 0 && self.data.len() < e { self.data.resize(e, 0); }
        self.data[p.min(e)..e].copy_from_slice(&buf[..n]);
        self.note('w', buf.len() as u64, n as i64);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> { self.gate('s', 0)?; Ok(()) }
}
impl Seek for SimStream {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.seeks += 1;
        self.gate('s', 0)?;
        let t = match s {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if t < 0 || t > u64::MAX as i128 { self.note('s', 0, -22); return Err(Error::new(ErrorKind::InvalidInput, "invalid seek")); }
        self.pos = t as u64;
        // A position query is not a move.
        self.note(if matches!(s, SeekFrom::Current(0)) { 'q' } else { 's' }, 0, t as i64);
        Ok(self.pos)
    }
}
