//! Animations: generators of savable values and the precision that reloading must keep.
use crate::data::{eq, feq};
use crate::data_io;
use crate::gen::{any_arb, f32m, f32v, name, Params};
use crate::{Layer, T};
use dstrt::dict;
use dstrt::stream::SimStream;
use dstrt::tape::Tape;
pub use ssbh_data::anim_data::{AnimData, GroupData, NodeData, TrackData, TrackValues, Transform, TransformFlags, UvTransform};
use ssbh_lib::{Vector3, Vector4};

/// How the values of one component run over the frames.
struct Curve { kind: u64, a: f32, b: f32, n: usize }
fn curve(t: &mut Tape, p: &Params, n: usize) -> Curve {
    let kind = t.draw(9);
    let (mut a, mut b) = (f32m(t), f32m(t));
    match kind {
        6 => { b = f32::from_bits(a.to_bits() + t.draw(4) as u32); }
        7 => { a *= 1e-6; b *= 1e-6; }
        8 if p.valid => { a = f32v(t, &Params { json: true, ..p.clone() }); if !(a.abs() < 1e30) { a = 1e30 } }
        8 => { a = f32v(t, p); }
        _ => (),
    }
    Curve { kind, a, b, n }
}
impl Curve {
    fn at(&self, t: &mut Tape, i: usize) -> f32 {
        let x = i as f32 / self.n.max(2) as f32;
        match self.kind {
            0 | 8 => self.a,
            1 => self.a + (self.b - self.a) * x,
            2 => if i % 2 == 0 { self.a } else { self.b },
            3 => if i == 0 { self.a } else { self.b },
            4 => self.a + (self.b - self.a) * (t.draw(65536) as f32 / 65535.0),
            5 => self.a * (x * 6.0).sin(),
            _ => if t.chance(1, 2) { self.a } else { self.b },
        }
    }
}
fn v3(t: &mut Tape, p: &Params, n: usize) -> Vec<Vector3> {
    let (x, y, z) = (curve(t, p, n), curve(t, p, n), curve(t, p, n));
    let uniform = t.chance(1, 3);
    (0..n).map(|i| { let a = x.at(t, i); if uniform { Vector3::new(a, a, a) } else { Vector3::new(a, y.at(t, i), z.at(t, i)) } }).collect()
}
fn quaternions(t: &mut Tape, n: usize) -> Vec<Vector4> {
    let kind = t.draw(6);
    let axis = [f32m(t), f32m(t), f32m(t)];
    let norm = |v: [f64; 4]| { let l = v.iter().map(|x| x * x).sum::<f64>().sqrt(); if l > 1e-9 { v.map(|x| (x / l) as f32) } else { [0.0, 0.0, 0.0, 1.0] } };
    let (a0, a1) = (t.draw(6284) as f64 / 1000.0, t.draw(6284) as f64 / 1000.0);
    (0..n).map(|i| {
        let q = match kind {
            0 => [0.0, 0.0, 0.0, 1.0],
            1 => [0.0, 0.0, 0.0, if i % 3 == 1 { -1.0 } else { 1.0 }],
            2 | 3 => {
                let l = (axis.iter().map(|x| *x as f64 * *x as f64).sum::<f64>()).sqrt();
                let ax = if l > 1e-9 { axis.map(|x| x as f64 / l) } else { [1.0, 0.0, 0.0] };
                let h = (a0 + (a1 - a0) * i as f64 / n.max(2) as f64) / 2.0;
                norm([ax[0] * h.sin(), ax[1] * h.sin(), ax[2] * h.sin(), h.cos()])
            }
            4 => { let v = [0; 4].map(|_| t.draw(2001) as f64 / 1000.0 - 1.0); norm(v) }
            _ => { let v = [t.draw(2001) as f64 / 1000.0 - 1.0, t.draw(2001) as f64 / 1000.0 - 1.0, t.draw(2001) as f64 / 1000.0 - 1.0, (t.draw(2001) as f64 - 1000.0) * 1e-6]; norm(v) }
        };
        Vector4::new(q[0], q[1], q[2], q[3])
    }).collect()
}
pub fn values(t: &mut Tape, p: &Params) -> TrackValues {
    let n = match t.draw(8) { 0 => 0, 1 => 1, 2 => 2, 3 => t.range(3, 8), 4 => t.range(8, 24), _ => match p.size { 0 => t.range(0, 4), 1 => t.range(2, 40), 2 => t.range(10, 200), _ => t.range(100, 1200) } };
    // Lists longer than 16 bits count, for the small types.
    let long = p.size >= 3 && n > 1 && t.chance(1, 12);
    let kind = if long && t.draw(4) > 0 { 2 + t.draw(3) } else { t.draw(6) };
    let n = match kind { 2 | 3 | 4 if long => t.range(65_530, 66_000), _ if long => t.range(3_000, 7_000), _ => n };
    let n = if p.size >= 2 && !long && t.chance(1, 10) { dict::size(t).unwrap_or(n).min(3000) } else { n };
    match kind {
        0 => { let (s, r, tr) = (v3(t, p, n), quaternions(t, n), v3(t, p, n)); TrackValues::Transform((0..n).map(|i| Transform { scale: s[i], rotation: r[i], translation: tr[i] }).collect()) }
        1 => { let c: Vec<Curve> = (0..5).map(|_| curve(t, p, n)).collect(); let u = t.chance(1, 3);
            TrackValues::UvTransform((0..n).map(|i| { let s = c[0].at(t, i); UvTransform { scale_u: s, scale_v: if u { s } else { c[1].at(t, i) }, rotation: c[2].at(t, i), translate_u: c[3].at(t, i), translate_v: c[4].at(t, i) } }).collect()) }
        2 => { let c = curve(t, p, n); TrackValues::Float((0..n).map(|i| c.at(t, i)).collect()) }
        3 => { let base = match t.draw(3) { 0 => 0, 1 => t.draw(1 << 20), _ => t.draw(1 << 32) }; let spread = match t.draw(4) { 0 => 1, 1 => 16, 2 => 1 << 24, _ => 1u64 << 32 };
            let base = if t.chance(1, 8) { dict::int(t).unwrap_or(base).min(u32::MAX as u64) } else { base };
            TrackValues::PatternIndex((0..n).map(|_| (base.saturating_add(t.draw(spread))).min(u32::MAX as u64) as u32).collect()) }
        4 => { let k = t.draw(3); TrackValues::Boolean((0..n).map(|i| match k { 0 => false, 1 => i % 2 == 0, _ => t.chance(1, 2) }).collect()) }
        _ => { let c: Vec<Curve> = (0..4).map(|_| curve(t, p, n)).collect(); TrackValues::Vector4((0..n).map(|i| Vector4::new(c[0].at(t, i), c[1].at(t, i), c[2].at(t, i), c[3].at(t, i))).collect()) }
    }
}
pub fn track(t: &mut Tape, p: &Params) -> TrackData {
    TrackData { name: name(t), compensate_scale: t.chance(1, 2),
        transform_flags: TransformFlags { override_translation: t.chance(1, 2), override_rotation: t.chance(1, 2), override_scale: t.chance(1, 2), override_compensate_scale: t.chance(1, 2) },
        values: values(t, p) }
}
fn frames(d: &AnimData) -> usize { d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0) }

/// Number of single precision components per frame, and the components.
fn components(v: &TrackValues) -> Option<Vec<Vec<f32>>> {
    Some(match v {
        TrackValues::UvTransform(v) => v.iter().map(|u| vec![u.scale_u, u.scale_v, u.rotation, u.translate_u, u.translate_v]).collect(),
        TrackValues::Float(v) => v.iter().map(|x| vec![*x]).collect(),
        TrackValues::Vector4(v) => v.iter().map(|x| vec![x.x, x.y, x.z, x.w]).collect(),
        TrackValues::Transform(v) => v.iter().map(|x| vec![x.scale.x, x.scale.y, x.scale.z, x.translation.x, x.translation.y, x.translation.z, x.rotation.x, x.rotation.y, x.rotation.z, x.rotation.w]).collect(),
        _ => return None,
    })
}
/// The stored precision: 24 bits of the range per component and generation, plus single precision rounding.
fn tolerance(lo: f32, hi: f32, gens: usize) -> f64 {
    let range = hi as f64 - lo as f64;
    let ulp = lo.abs().max(hi.abs()) as f64 * 1.2e-7 + 1e-44;
    (range * 4.0 / 16_777_215.0 + 2.0 * ulp) * gens.max(1) as f64
}
fn track_same(w: &str, a: &TrackData, b: &TrackData, gens: usize) -> Result<(), String> {
    eq(&format!("{w} header"), &(&a.name, a.transform_flags), &(&b.name, b.transform_flags))?;
    if std::mem::discriminant(&a.values) != std::mem::discriminant(&b.values) { return Err(format!("{w}: track type changed")); }
    let (n, m) = (a.values.len(), b.values.len());
    if let TrackValues::Transform(v) = &a.values {
        // Stored per frame, so there is nothing to store it in without frames.
        if !v.is_empty() && a.compensate_scale != b.compensate_scale { return Err(format!("{w}: compensate_scale {} became {}", a.compensate_scale, b.compensate_scale)); }
    }
    match (&a.values, &b.values) {
        (TrackValues::PatternIndex(x), TrackValues::PatternIndex(y)) => return eq(w, x, y),
        (TrackValues::Boolean(x), TrackValues::Boolean(y)) => return eq(w, x, y),
        _ => (),
    }
    let (x, y) = (components(&a.values).unwrap(), components(&b.values).unwrap());
    let constant = n > 0 && x.iter().all(|f| f.iter().zip(&x[0]).all(|(p, q)| p == q));
    if n != m && !(constant && m == 1) { return Err(format!("{w}: {n} frames became {m}")); }
    if n == 0 { return Ok(()); }
    let transform = matches!(a.values, TrackValues::Transform(_));
    for c in 0..x[0].len() {
        if transform && c == 9 { continue; }
        let lo = x.iter().map(|f| f[c]).fold(f32::INFINITY, f32::min);
        let hi = x.iter().map(|f| f[c]).fold(f32::NEG_INFINITY, f32::max);
        let finite = x.iter().all(|f| f[c].is_finite()) && (hi - lo).is_finite();
        for i in 0..m {
            let (p, q) = (x[i][c], y[i][c]);
            if n == 1 { feq(&format!("{w} frame {i} component {c}"), p, q)?; continue; }
            if !finite { continue; }
            let tol = if lo == hi { 0.0 } else { tolerance(lo, hi, gens) };
            let d = (p as f64 - q as f64).abs();
            if !(d <= tol) { return Err(format!("{w} frame {i} component {c}: wrote {p:?} read {q:?}, range {lo:?}..{hi:?}, off by {d:e} of {tol:e}")); }
        }
    }
    if transform && n > 1 {
        for i in 0..m {
            let (p, q) = (&x[i], &y[i]);
            // w follows from the others: its error grows as w approaches zero.
            let e: f64 = (6..9).map(|c| { let lo = x.iter().map(|f| f[c]).fold(f32::INFINITY, f32::min); let hi = x.iter().map(|f| f[c]).fold(f32::NEG_INFINITY, f32::max); tolerance(lo, hi, gens) }).sum::<f64>() + 4e-7;
            let (pw, qw) = (p[9] as f64, q[9] as f64);
            let unit: f64 = (6..10).map(|c| p[c] as f64 * p[c] as f64).sum();
            if (unit - 1.0).abs() > 1e-6 { continue; }
            // |w| = sqrt(1 - s): dw <= sqrt(w^2 + 2e) - |w| and symmetric.
            let tol = (pw * pw + 4.0 * e).sqrt() - pw.abs() + (pw.abs() - (pw * pw - 4.0 * e).max(0.0).sqrt()) + 1e-6;
            let d = (pw - qw).abs();
            let flip = pw.signum() != qw.signum() && pw.abs() > tol;
            if d > tol || flip { return Err(format!("{w} frame {i} rotation w: wrote {pw:?} read {qw:?} (xyz {:?}), off by {d:e} of {tol:e}", &p[6..9])); }
        }
    }
    Ok(())
}
/// Tracks the saved image stores uncompressed come back exactly.
pub fn uncompressed_exact(v: &dyn crate::Val, img: &[u8]) -> Result<(), String> {
    use ssbh_lib::formats::anim::{Anim, CompressionType};
    let Some(a) = v.any().downcast_ref::<AnimData>() else { return Ok(()) };
    let raw = Anim::read(&mut std::io::Cursor::new(img)).map_err(|e| e.to_string())?;
    let b = AnimData::read(&mut std::io::Cursor::new(img)).map_err(|e| e.to_string())?;
    let raw: Vec<CompressionType> = match &raw {
        Anim::V12 { .. } => return Ok(()),
        Anim::V20 { groups, .. } | Anim::V21 { groups, .. } => groups.elements.iter().flat_map(|g| &g.nodes.elements).flat_map(|n| &n.tracks.elements).map(|t| t.flags.compression_type).collect(),
    };
    let tracks = |d: &AnimData| -> Vec<TrackData> { d.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).cloned().collect() };
    let (a, b) = (tracks(a), tracks(&b));
    if a.len() != b.len() || a.len() != raw.len() { return Err(format!("{} tracks became {} ({} stored)", a.len(), b.len(), raw.len())); }
    for (i, ((x, y), c)) in a.iter().zip(&b).zip(&raw).enumerate() {
        if *c == CompressionType::Compressed { continue; }
        let (Some(p), Some(q)) = (components(&x.values), components(&y.values)) else { continue };
        if p.len() != q.len() { return Err(format!("uncompressed track {i}: {} frames became {}", p.len(), q.len())); }
        for (f, (p, q)) in p.iter().zip(&q).enumerate() { for (k, (p, q)) in p.iter().zip(q).enumerate() { feq(&format!("uncompressed track {i} frame {f} component {k}"), *p, *q)?; } }
    }
    Ok(())
}
pub fn anim_same(a: &AnimData, b: &AnimData, gens: usize) -> Result<(), String> {
    eq("version", &(a.major_version, a.minor_version), &(b.major_version, b.minor_version))?;
    feq("final frame", a.final_frame_index, b.final_frame_index)?;
    if a.groups.len() != b.groups.len() { return Err(format!("{} groups became {}", a.groups.len(), b.groups.len())); }
    for (gi, (x, y)) in a.groups.iter().zip(&b.groups).enumerate() {
        eq(&format!("group {gi}"), &(x.group_type, x.nodes.len()), &(y.group_type, y.nodes.len()))?;
        for (ni, (p, q)) in x.nodes.iter().zip(&y.nodes).enumerate() {
            eq(&format!("group {gi} node {ni}"), &(&p.name, p.tracks.len()), &(&q.name, q.tracks.len()))?;
            for (ti, (g, h)) in p.tracks.iter().zip(&q.tracks).enumerate() { track_same(&format!("group {gi} node {ni} track {ti}"), g, h, gens)?; }
        }
    }
    Ok(())
}
impl T for AnimData {
    const NAME: &'static str = "AnimData";
    const EXT: &'static str = "nuanmb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"MINA");
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let g = t.skew(if p.size >= 2 { 4 } else { 2 });
        let many = p.size >= 2 && t.chance(1, 20);
        let p = &Params { size: if many { 0 } else { p.size }, ..p.clone() };
        let groups = (0..g).map(|_| GroupData { group_type: any_arb(t), nodes: { let n = if many { t.range(250, 270) } else { t.skew(if p.size >= 2 { 6 } else { 3 }) }; (0..n).map(|_| NodeData { name: name(t), tracks: { let k = t.skew(3); (0..k).map(|_| track(t, p)).collect() } }).collect() } }).collect();
        let mut d = AnimData { major_version: 2, minor_version: t.draw(2) as u16, final_frame_index: 0.0, groups };
        let f = frames(&d).max(1) as f32 - 1.0;
        d.final_frame_index = match t.draw(4) { 0 | 1 => f, 2 => f + t.draw(50) as f32, _ => f + 0.5 };
        if !p.valid { match t.draw(3) { 0 => d.minor_version = 2, 1 => d.final_frame_index = -1.0, _ => d.final_frame_index = f - 1.0 } }
        d
    }
    data_io!(ssbh_lib::prelude::Anim);
    fn same(a: &Self, b: &Self, gens: usize) -> Result<(), String> { anim_same(a, b, gens) }
    fn edit(&self, t: &mut Tape) -> Self {
        let mut d = self.clone();
        match t.draw(5) {
            0 => d.groups.reverse(),
            1 => { d.groups.pop(); }
            2 => d.minor_version = 1 - d.minor_version.min(1),
            3 => for g in d.groups.iter_mut() { for n in g.nodes.iter_mut() { n.tracks.reverse(); n.name.push('+'); for k in n.tracks.iter_mut() { k.compensate_scale ^= true; } } },
            _ => if let Some(g) = d.groups.first_mut() { if let Some(n) = g.nodes.first_mut() { n.tracks.push(track(t, &Params::small())); d.final_frame_index = d.final_frame_index.max(4096.0); } },
        }
        d
    }
}
