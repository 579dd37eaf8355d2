//! Workload generation: shaped entropy for `Arbitrary`, and helpers for the hand-written generators.
use arbitrary::{Arbitrary, Unstructured};
use dstrt::dict;
use dstrt::tape::{Rng, Tape};

#[derive(Clone, Debug)]
pub struct Params {
    /// upper bound on sizes, 0..=3
    pub size: usize,
    /// strings are text, floats are finite
    pub json: bool,
    /// values that saving must accept (where the type has rules)
    pub valid: bool,
    /// now and then a list of more than 65535 entries, also where that is costly
    pub wide: bool,
}
impl Params {
    pub fn small() -> Params { Params { size: 1, json: false, valid: true, wide: false } }
    pub fn draw(t: &mut Tape) -> Params { Params { size: [1, 1, 1, 0, 2, 2, 3, 1][t.usize(8)], json: false, valid: true, wide: false } }
    pub fn json(self) -> Params { Params { json: true, ..self } }
}

fn shape(r: &mut Rng, n: usize, mode: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let p = r.below(8);
    // How rarely a list ends in the modes for long lists.
    let rare = [0x3f, 0x3f, 0x3f, 0x1ff, 0xfff, 0x1f_ffff][if n > 30_000 { 3 + r.below(3) } else { r.below(5) } as usize] << 24;
    for _ in 0..n {
        let x = r.next();
        let b = (x >> 8) as u8;
        v.push(match mode {
            0 => b,
            // small numbers
            1 => if x & 7 == 0 { b } else { b & 7 },
            // text, with odd bytes frequent enough for long lists
            2 => { let c = 0x20 + b % 0x5f; if (x & 7) < p { c | 1 } else { c } }
            // long lists
            3 => if x & rare == 0 { b & !1 } else { b | 1 },
            // mostly zero
            4 => if x & 3 == 0 { b } else { 0 },
            // boundary bytes
            5 => [0u8, 0xff, 0x7f, 0x80, 1, b, b, b][(x & 7) as usize],
            // JSON-safe: below 0x80
            6 => b & 0x7f,
            7 => if x & rare == 0 { b & 0x7e } else { (b | 1) & 0x7f },
            _ => if x & 3 == 0 { b & 0x7f } else { b & 7 },
        });
    }
    v
}
/// Numbers that the code under test mentions, in places.
fn mention(r: &mut Rng, v: &mut [u8]) {
    let Some(d) = dict::get() else { return };
    if r.below(4) > 0 || d.ints.is_empty() { return }
    for _ in 0..1 + r.below(8) {
        let fresh = d.fresh[2] > 0 && r.below(2) == 0;
        let n = d.ints[r.below(if fresh { d.fresh[2] } else { d.ints.len() } as u64) as usize];
        let w = [1usize, 2, 4, 4, 8][r.below(5) as usize];
        if v.len() < w { continue }
        let at = r.below((v.len() - w + 1) as u64) as usize;
        let at = if r.below(2) == 0 { at / w * w } else { at };
        v[at..at + w].copy_from_slice(&n.to_le_bytes()[..w]);
    }
}
pub fn entropy(t: &mut Tape, p: &Params) -> Vec<u8> {
    let huge = p.size >= 3 && !p.json && t.chance(1, 10);
    let n = match p.size { 0 => t.range(0, 40), 1 => t.range(0, 400), 2 => t.range(100, 3000), _ if huge => t.range(100_000, 200_000), _ => t.range(3000, 24000) };
    let mode = if huge { 3 } else if p.json { 6 + t.draw(3) } else { t.draw(6) };
    t.blob(n, |r, n| { let mut v = shape(r, n, mode); if mode < 6 { mention(r, &mut v) } v })
}
pub fn arb<A: for<'a> Arbitrary<'a>>(t: &mut Tape, p: &Params) -> A {
    let e = entropy(t, p);
    arb_from(&e)
}
pub fn arb_from<A: for<'a> Arbitrary<'a>>(e: &[u8]) -> A {
    let mut u = Unstructured::new(e);
    match A::arbitrary(&mut u) { Ok(v) => v, Err(_) => { let mut u = Unstructured::new(&[]); A::arbitrary(&mut u).expect("empty entropy") } }
}

const NAMES: [&str; 24] = ["", "a", "Head", "Trans", "eyeL_VIS_O_OBJShape", "Hip", "LegL", "RotTrans_OffsetMatrix", "CustomVector31", "Visibility",
    "Transform", "map1", "uvSet", "colorSet1", "Position0", "bake1", "ボーン", "é", "x y", "abc", "abcd", "abcdefg", "abcdefgh", "_O_"];
/// Sizes around which fixed buffers and narrow counters would show.
pub const LENGTHS: [usize; 12] = [64, 127, 128, 255, 256, 256, 511, 512, 1024, 4096, 8192, 65536];
/// One of these sizes, a neighbour of it, or a size that the code under test mentions.
pub fn around(t: &mut Tape, v: &[usize]) -> usize {
    if t.chance(1, 3) { if let Some(n) = dict::size(t) { return n } }
    *t.pick(v) + t.usize(3) - 1
}
/// An index below `n`, often at an edge.
pub fn index(t: &mut Tape, n: usize) -> usize {
    match t.draw(6) { 0 => n - 1, 1 => (*t.pick(&[0usize, 127, 128, 255, 256, 32767, 32768, 65534, 65535, 65536])).min(n - 1), 2 if t.chance(1, 3) => dict::size(t).unwrap_or(0).min(n - 1), _ => t.usize(n) }
}
/// Text without NUL, of every length class around the alignments.
pub fn name(t: &mut Tape) -> String {
    match t.draw(4) {
        0 => { if t.chance(1, 3) { if let Some(s) = dict::text(t) { return s } } NAMES[t.usize(NAMES.len())].to_string() }
        1 => format!("{}{}", NAMES[t.usize(NAMES.len())], t.draw(10)),
        2 if t.chance(1, 30) => { let n = around(t, &LENGTHS); let s = t.draw(26); (0..n as u64).map(|i| (b'a' + ((i * 7 + s + (i >> 8)) % 26) as u8) as char).collect() }
        2 => { let n = t.skew(40); (0..n).map(|i| (b'a' + ((i as u8).wrapping_add(t.draw(26) as u8)) % 26) as char).collect() }
        _ => { let n = t.skew(9); (0..n).map(|_| *t.pick(&['a', 'Z', '0', '_', '.', ' ', '/', '"', '\\', '\n', 'ß', '語', '😀', '\u{7f}'])).collect() }
    }
}
/// A fresh name every time it is called with a new index.
pub fn unique(t: &mut Tape, i: usize) -> String { format!("{}#{i}", name(t)) }

pub fn f32v(t: &mut Tape, p: &Params) -> f32 {
    match t.draw(12) {
        0 => 0.0,
        1 => { if t.chance(1, 2) { if let Some(v) = dict::float(t) { return v } } 1.0 }
        2 => -1.0,
        3 => *t.pick(&[-0.0, 0.5, 2.0, 1e-3, -1e-3, 100.0, -255.0, 0.1, 3.1415927, 65504.0, -65504.0, 1e10]),
        4 => t.draw(2001) as f32 / 1000.0 - 1.0,
        5 => (t.draw(2_000_001) as f32 - 1_000_000.0) / 64.0,
        6 => t.draw(1 << 24) as f32 / (1 << 24) as f32,
        7 if !p.json => *t.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-42]),
        8 => { let f = f32::from_bits(t.draw(1 << 32) as u32); if p.json && !f.is_finite() { 1.5 } else { f } }
        _ => { let e = t.draw(40) as i32 - 20; (1.0 + t.draw(1 << 23) as f32 / (1 << 23) as f32) * 2f32.powi(e) * if t.draw(2) == 0 { 1.0 } else { -1.0 } }
    }
}
/// Finite and moderate, for things that go through geometry.
pub fn f32m(t: &mut Tape) -> f32 {
    match t.draw(6) {
        0 => 0.0,
        1 => { if t.chance(1, 4) { if let Some(v) = dict::float(t).filter(|v| v.abs() <= 2000.0) { return v } } 1.0 }
        2 => t.draw(2001) as f32 / 1000.0 - 1.0,
        3 => (t.draw(200_001) as f32 - 100_000.0) / 64.0,
        4 => t.draw(1 << 24) as f32 / (1 << 24) as f32,
        _ => { let e = t.draw(20) as i32 - 10; (1.0 + t.draw(1 << 23) as f32 / (1 << 23) as f32) * 2f32.powi(e) * if t.draw(2) == 0 { 1.0 } else { -1.0 } }
    }
}
pub fn any_arb<A: for<'a> Arbitrary<'a>>(t: &mut Tape) -> A {
    let e: Vec<u8> = (0..8).flat_map(|_| (t.draw(1 << 32) as u32).to_be_bytes()).collect();
    arb_from(&e)
}
