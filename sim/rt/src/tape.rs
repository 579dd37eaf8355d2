//! Recorded choices. A run draws every decision from a `Tape`; in record mode the values come from a seeded
//! generator, in replay mode from a (possibly shortened) recording. Draw 0 is always the simplest alternative.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93)); r.next(); r.next() }

/// One recorded stream of choices: numbers and byte blobs.
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Rec { pub nums: Vec<u64>, pub blobs: Vec<Vec<u8>> }

/// When set, every draw is also written here as it is made, so that the choices of a run that dies are known.
pub static mut DUMP_FD: i32 = -1;
#[derive(Clone)]
pub struct Tape { rng: Option<Rng>, pub rec: Rec, pos: usize, bpos: usize, id: u8 }

impl Tape {
    pub fn record(seed: u64) -> Tape { Tape { rng: Some(Rng::new(seed)), rec: Rec::default(), pos: 0, bpos: 0, id: 0 } }
    pub fn replay(rec: Rec) -> Tape { Tape { rng: None, rec, pos: 0, bpos: 0, id: 0 } }
    fn with_id(mut self, id: u8) -> Tape { self.id = id; self }
    /// The same choices once more, from here on; what the copy draws is not part of the recording.
    pub fn again(&self) -> Tape { let mut t = self.clone(); t.id = 0; t }
    fn dump(&self, kind: u8, b: &[u8]) {
        let fd = unsafe { DUMP_FD };
        if fd < 0 || self.id == 0 { return; }
        let mut o = vec![self.id, kind];
        o.extend((b.len() as u32).to_le_bytes());
        o.extend(b);
        crate::sys::write_fd(fd, &o);
    }
    /// How much of the recording a replay used.
    pub fn used(&self) -> (usize, usize) { (self.pos, self.bpos) }
    /// Uniform in 0..n (n = 0 means the whole range).
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => { let v = r.next(); let v = if n == 0 { v } else { v % n }; self.rec.nums.push(v); self.dump(0, &v.to_le_bytes()); v }
            None => { let v = self.rec.nums.get(self.pos).copied().unwrap_or(0); if n == 0 { v } else { v % n } }
        };
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, n: usize) -> usize { self.draw(n as u64) as usize }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.draw((hi - lo + 1) as u64) as usize }
    /// True with probability num/den (0 = false).
    pub fn chance(&mut self, num: u64, den: u64) -> bool { let v = self.draw(den); v >= den - num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.usize(v.len()); &v[i] }
    /// Small numbers more often than large ones.
    pub fn skew(&mut self, max: usize) -> usize {
        if max == 0 { return 0; }
        match self.draw(4) { 0 => self.range(0, max.min(2)), 1 => self.range(0, max.min(4)), 2 => self.range(0, max.min(12)), _ => self.range(0, max) }
    }
    /// A blob of `len` bytes shaped by `mode`.
    pub fn blob(&mut self, len: usize, f: impl FnOnce(&mut Rng, usize) -> Vec<u8>) -> Vec<u8> {
        let b = match &mut self.rng {
            Some(r) => { let mut sub = Rng::new(r.next()); let b = f(&mut sub, len); self.rec.blobs.push(b.clone()); self.dump(1, &b); b }
            None => self.rec.blobs.get(self.bpos).cloned().unwrap_or_default(),
        };
        self.bpos += 1;
        b
    }
}

/// The three independent choice streams of a run.
pub struct Tapes { pub w: Tape, pub f: Tape, pub s: Tape }
#[derive(Clone, Default, PartialEq, Debug)]
pub struct Recs { pub w: Rec, pub f: Rec, pub s: Rec }
impl Tapes {
    pub fn record(seed: u64) -> Tapes { Tapes { w: Tape::record(mix(seed, 1)).with_id(1), f: Tape::record(mix(seed, 2)).with_id(2), s: Tape::record(mix(seed, 3)).with_id(3) } }
    pub fn replay(r: Recs) -> Tapes { Tapes { w: Tape::replay(r.w), f: Tape::replay(r.f), s: Tape::replay(r.s) } }
    pub fn recs(&self) -> Recs { Recs { w: self.w.rec.clone(), f: self.f.rec.clone(), s: self.s.rec.clone() } }
}

/// What a dump holds.
pub fn parse_dump(mut b: &[u8]) -> Recs {
    let mut r = Recs::default();
    while b.len() >= 6 {
        let (id, kind, n) = (b[0], b[1], u32::from_le_bytes(b[2..6].try_into().unwrap()) as usize);
        if b.len() < 6 + n { break; }
        let d = &b[6..6 + n];
        let t = match id { 1 => &mut r.w, 2 => &mut r.f, _ => &mut r.s };
        if kind == 0 { t.nums.push(u64::from_le_bytes(d.try_into().unwrap_or([0; 8]))); } else { t.blobs.push(d.to_vec()); }
        b = &b[6 + n..];
    }
    r
}
