//! Storage faults on content, and foreign layouts.
use crate::engine::{note, Ctx};
use dstrt::stream::SimStream;
use dstrt::tape::Tape;
use ops::Kind;

const BYTES: [u8; 8] = [0, 0xff, 1, 0x7f, 0x80, 2, 10, 0x20];
fn field(t: &mut Tape, len: usize) -> u64 {
    let l = len as u64;
    match t.draw(12) {
        0 => 0, 1 => u64::MAX, 2 => 1, 3 => l, 4 => l.wrapping_sub(1), 5 => 1 << 31, 6 => 1 << 32, 7 => t.draw(l + 8), 8 => 1 << t.draw(64), 9 => (1 << t.draw(64)) - 1,
        10 => t.draw(16), _ => (l.wrapping_neg()).wrapping_add(t.draw(2 * l + 1)),
    }
}
fn put(b: &mut [u8], at: usize, v: u64, n: usize) { let x = v.to_le_bytes(); for i in 0..n { if at + i < b.len() { b[at + i] = x[i]; } } }
fn get(b: &[u8], at: usize, n: usize) -> u64 { let mut x = [0u8; 8]; for i in 0..n { if at + i < b.len() { x[i] = b[at + i]; } } u64::from_le_bytes(x) }
/// Fields the reader looks at: (position, length).
pub fn fields(c: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Vec<(usize, usize)> {
    let mut s = SimStream::reader(b);
    s.log = Some(vec![]);
    let _ = c.load(k, &mut s);
    let mut v: Vec<(usize, usize)> = s.log.take().unwrap().iter().filter(|x| x.0 == 'r' && x.2 >= 1 && x.2 <= 8 && x.3 == x.2 as i64).map(|x| (x.1 as usize, x.2 as usize)).collect();
    v.sort(); v.dedup();
    v
}
/// One to four storage faults.
pub fn damage(c: &mut Ctx, b: &mut Vec<u8>, other: &[u8], fields: &[(usize, usize)]) {
    let n = 1 + c.f.skew(3);
    for _ in 0..n {
        let t = &mut c.f;
        let len = b.len();
        if len == 0 { b.extend(std::iter::repeat(0).take(t.usize(64))); c.fault("appended_junk", 1); continue; }
        let kind = t.draw(13);
        let sec = [1usize, 8, 16, 64, 512][t.usize(5)].min(len);
        let name = match kind {
            0 | 1 if !fields.is_empty() => { let (p, w) = fields[t.usize(fields.len())]; let v = field(t, len); put(b, p, v, w); "field_overwritten" }
            2 if !fields.is_empty() => { let (p, w) = fields[t.usize(fields.len())]; let d = t.draw(17) as i64 - 8; let v = get(b, p, w).wrapping_add(d as u64); put(b, p, v, w); "field_shifted" }
            3 => { let p = t.usize(len); let bit = t.draw(8); b[p] ^= 1 << bit; "bit_flip" }
            4 => { let p = t.usize(len); b[p] = BYTES[t.usize(8)]; "byte_overwritten" }
            5 => { let w = [1, 2, 4, 8][t.usize(4)]; let p = t.usize(len) / w * w; let v = field(t, len); put(b, p, v, w); "word_overwritten" }
            6 => { let p = t.usize(len); b.truncate(p); "truncated" }
            7 => { let p = t.usize(len); for x in b[p..(p + sec).min(len)].iter_mut() { *x = 0; } "lost_sector" }
            8 => { let p = t.usize(len); let q = t.usize(len); let s: Vec<u8> = b[p..(p + sec).min(len)].to_vec(); for (i, x) in s.iter().enumerate() { if q + i < len { b[q + i] = *x; } } "duplicated_sector" }
            9 => { let p = t.usize(len); let q = t.usize(len); for i in 0..sec { if p + i < len && q + i < len { b.swap(p + i, q + i); } } "swapped_sectors" }
            10 => { let p = t.usize(len); b.truncate(p); if other.len() > p { b.extend(&other[p..]); } "stale_tail" }
            11 => { let p = t.usize(len); if t.chance(1, 2) { b.drain(p..(p + sec).min(len)); } else { let s = b[p..(p + sec).min(len)].to_vec(); b.splice(p..p, s); } "shifted_tail" }
            12 => { let k = t.usize(70); let x = BYTES[t.usize(8)]; b.extend(std::iter::repeat(x).take(k)); "appended_junk" }
            _ => { let p = t.usize(len); let bit = t.draw(8); b[p] ^= 1 << bit; "bit_flip" }
        };
        c.fault(name, 1);
    }
}
/// Pointers of an image, found by watching the reader: (position of the offset, what it is relative to, target).
pub fn pointers(c: &mut Ctx, k: &dyn Kind, b: &[u8]) -> Vec<(usize, usize, usize)> {
    let mut s = SimStream::reader(b);
    s.log = Some(vec![]);
    let _ = c.load(k, &mut s);
    let log = s.log.take().unwrap();
    let absolute = k.ext() == "numshexb";
    let mut v = vec![];
    // The last two reads; a pointer is followed by at most its element count before the reader goes there.
    let mut last: Vec<(usize, bool)> = vec![];
    // Where the reader was before it went elsewhere: it comes back there.
    let mut back: Vec<usize> = vec![];
    let mut at = 0;
    for x in log {
        match x.0 {
            'r' => { at = x.1 as usize + x.3.max(0) as usize; last.push((x.1 as usize, x.2 == 8 && x.3 == 8)); if last.len() > 2 { last.remove(0); } }
            's' if x.3 >= 0 && !last.is_empty() => {
                let t = x.3 as usize;
                let from = std::mem::replace(&mut at, t);
                if back.contains(&t) { continue; }
                back.push(from);
                let end = last.last().unwrap().0;
                let cand: Vec<usize> = last.iter().filter(|(p, w)| *w && (*p == end || *p + 8 == end)).map(|x| x.0).filter(|p| { let o = get(b, *p, 8) as usize; o != 0 && t > *p && t == if absolute { o } else { p.wrapping_add(o) } }).collect();
                // A count that happens to fit as well: leave it alone.
                if cand.len() == 1 { let e = (cand[0], if absolute { 0 } else { cand[0] }, t); if !v.contains(&e) { v.push(e); } }
            }
            _ => (),
        }
    }
    v
}
/// Moves the pointee of some pointers elsewhere (a copy of everything from there on), as another tool might lay it out.
/// The value stays the same.
pub fn foreign(c: &mut Ctx, k: &dyn Kind, b: &mut Vec<u8>) -> usize {
    let n = 1 + c.f.skew(3);
    let mut done = 0;
    for _ in 0..n {
        let ps = pointers(c, k, b);
        if ps.is_empty() || b.len() > 60_000 { break; }
        let (p, base, t) = ps[c.f.usize(ps.len())];
        if t >= b.len() || t <= p { continue; }
        let pad = match c.f.draw(3) { 0 => 0, 1 => c.f.usize(8), _ => c.f.usize(40) };
        let tail = b[t..].to_vec();
        b.extend(std::iter::repeat(0xAA).take(pad));
        let at = b.len();
        b.extend(tail);
        put(b, p, (at - base) as u64, 8);
        done += 1;
        note!(c, "the offset at {p} now leads to {at} instead of {t}");
        c.fault("foreign_layout", 1);
    }
    done
}
/// Makes two pointers share a target.
pub fn alias(c: &mut Ctx, k: &dyn Kind, b: &mut Vec<u8>) {
    let ps = pointers(c, k, b);
    if ps.len() < 2 { return; }
    let (p, base, _) = ps[c.f.usize(ps.len())];
    let (_, _, t) = ps[c.f.usize(ps.len())];
    put(b, p, (t as u64).wrapping_sub(base as u64), 8);
    c.fault("shared_pointee", 1);
}
