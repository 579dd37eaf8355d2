//! The high-level types: generators of savable values, and what reloading them must give.
use crate::gen::{any_arb, arb, f32m, f32v, index, name, Params};
use crate::{Layer, T};
use dstrt::dict;
use dstrt::stream::SimStream;
use dstrt::tape::Tape;
pub use ssbh_data::adj_data::{AdjData, AdjEntryData};
pub use ssbh_data::hlpb_data::{AimConstraintData, HlpbData, OrientConstraintData};
pub use ssbh_data::matl_data::{BlendStateData, MatlData, MatlEntryData, ParamData, RasterizerStateData, SamplerData};
pub use ssbh_data::mesh_data::{AttributeData, BoneInfluence, MeshData, MeshObjectData, VectorData, VertexWeight};
pub use ssbh_data::meshex_data::{EntryFlags, MeshExData, MeshObjectGroupData};
pub use ssbh_data::modl_data::{ModlData, ModlEntryData};
pub use ssbh_data::skel_data::{BoneData, SkelData};
use ssbh_lib::{Color4f, Vector3, Vector4};
use std::fmt::Debug;

#[macro_export]
macro_rules! data_io {
    ($low:ty) => {
        fn routes(&self) -> Result<(), String> {
            let mut w = SimStream::writer();
            let saved = self.write(&mut w).map_err(|e| format!("{e:?}"));
            let (a, b) = (<$low>::try_from(self), <$low>::try_from(self.clone()));
            for (how, low) in [("a borrowed", a.map_err(|e| format!("{e:?}"))), ("an owned", b.map_err(|e| format!("{e:?}")))] {
                let mut x = SimStream::writer();
                match (low.and_then(|v| v.write(&mut x).map_err(|e| format!("{e:?}"))), &saved) {
                    (Ok(()), Ok(())) => if x.data != w.data { return Err(format!("saving {how} value through its low-level form gives other bytes than saving it")) },
                    (Err(_), Err(_)) => (),
                    (r, _) => return Err(format!("saving {how} value through its low-level form: {r:?}, saving it: {saved:?}")),
                }
            }
            if saved.is_err() { return Ok(()) }
            let direct = Self::read(&mut SimStream::reader(&w.data)).map(|v| format!("{v:?}")).map_err(|e| format!("{e:?}"));
            let low = <$low>::read(&mut SimStream::reader(&w.data)).map_err(|e| format!("{e:?}"))?;
            let a = Self::try_from(&low).map(|v| format!("{v:?}")).map_err(|e| format!("{e:?}"));
            let b = Self::try_from(low).map(|v| format!("{v:?}")).map_err(|e| format!("{e:?}"));
            for (how, x) in [("a borrowed", a), ("an owned", b)] {
                match (&x, &direct) { (Ok(x), Ok(d)) if x != d => return Err(format!("{how} low-level value converts to another one than loading gives: {}", crate::first_difference(d, x))), (Ok(_), Err(e)) | (Err(e), Ok(_)) => return Err(format!("{how} low-level value and loading disagree: {e}")), _ => () }
            }
            Ok(())
        }
        fn save(&self, w: &mut SimStream) -> Result<(), String> { self.write(w).map_err(|e| format!("{e:?}")) }
        fn save_path(&self, p: &str) -> Result<(), String> { self.write_to_file(p).map_err(|e| format!("{e:?}")) }
        fn load(r: &mut SimStream) -> Result<Self, String> { Self::read(r).map_err(|e| format!("{e:?}")) }
        fn load_path(p: &str) -> Result<Self, String> { Self::from_file(p).map_err(|e| format!("{e:?}")) }
        crate::with_json!();
    };
}
pub fn eq<A: Debug + ?Sized>(what: &str, a: &A, b: &A) -> Result<(), String> {
    let (x, y) = (format!("{a:?}"), format!("{b:?}"));
    if x == y { Ok(()) } else { Err(format!("{what}: {}", crate::first_difference(&x, &y))) }
}
/// Floats: bit equal except that every NaN is the same.
pub fn feq(what: &str, a: f32, b: f32) -> Result<(), String> {
    if a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) { Ok(()) } else { Err(format!("{what}: wrote {a:?} read {b:?}")) }
}

// ---------------------------------------------------------------- mesh
fn vectors(t: &mut Tape, n: usize, dims: usize, range: usize, p: &Params) -> VectorData {
    // Large attributes come from one blob, small ones element by element.
    let mut f: Box<dyn FnMut(&mut Tape) -> f32> = if n > 40 {
        let b = t.blob(n * dims * 2, |r, k| (0..k).map(|_| r.next() as u8).collect());
        let mut i = 0;
        Box::new(move |_| { let v = u16::from_le_bytes([b.get(i).copied().unwrap_or(0), b.get(i + 1).copied().unwrap_or(0)]); i += 2;
            match range { 1 => v as f32 / 65535.0, _ => (v as i32 - 32768) as f32 / 64.0 } })
    } else if range == 2 && t.chance(1, 6) { let p = p.clone(); Box::new(move |t| f32v(t, &p)) }
    else if range == 1 { Box::new(|t| match t.draw(4) { 0 => 0.0, 1 => 1.0, 2 => t.draw(256) as f32 / 255.0, _ => t.draw(1025) as f32 / 1024.0 }) }
    else { Box::new(f32m) };
    match dims {
        2 => VectorData::Vector2((0..n).map(|_| [f(t), f(t)]).collect()),
        3 => VectorData::Vector3((0..n).map(|_| [f(t), f(t), f(t)]).collect()),
        _ => VectorData::Vector4((0..n).map(|_| [f(t), f(t), f(t), f(t)]).collect()),
    }
}
fn attributes(t: &mut Tape, n: usize, max: usize, dims: &[usize], range: usize, p: &Params) -> Vec<AttributeData> {
    let k = t.range(0, max);
    (0..k).map(|_| AttributeData { name: name(t), data: { let d = *t.pick(dims); vectors(t, n, d, range, p) } }).collect()
}
pub fn mesh_object(t: &mut Tape, p: &Params, version: u16) -> MeshObjectData {
    let n = match p.size { 0 => t.range(0, 3), 1 => t.skew(12), 2 => t.range(1, 60), _ => if t.chance(1, 3) { t.range(65530, 66000) } else { t.range(60, 2000) } };
    let n = if p.size == 2 && t.chance(1, 8) { dict::size(t).unwrap_or(n).min(3000) } else { n };
    let geometry = if t.chance(1, 8) { 2 } else { 0 };
    // Positions decide the vertex count even when no other attribute is present.
    let mut positions = attributes(t, n, 2, &[3, 3, 3, 4, 2], geometry, p);
    if positions.is_empty() { positions.push(AttributeData { name: "Position0".into(), data: vectors(t, n, 3, geometry, p) }); }
    let bare = t.chance(1, 12);
    let n = if bare { 0 } else { n };
    if bare { positions.clear(); }
    let mut o = MeshObjectData {
        name: name(t), subindex: match t.draw(4) { 0 | 1 => 0, 2 => t.draw(4), _ => { let x = t.draw(0); if x % 3 == 1 { dict::int(t).unwrap_or(x) } else { x } } },
        parent_bone_name: name(t), sort_bias: if t.chance(1, 6) { let v = dict::int(t).unwrap_or(1) as i32; if t.chance(1, 2) { v.wrapping_neg() } else { v } } else { t.draw(1 << 32) as u32 as i32 }, disable_depth_write: t.chance(1, 2), disable_depth_test: t.chance(1, 2),
        ..Default::default()
    };
    o.positions = positions;
    if !bare {
        o.normals = attributes(t, n, 2, &[4, 3, 2], 2, p);
        o.binormals = attributes(t, n, 2, &[4, 3, 2], 2, p);
        o.tangents = attributes(t, n, 2, &[4, 3, 2], 2, p);
        o.texture_coordinates = attributes(t, n, 3, &[2, 2, 3, 4], 2, p);
        o.color_sets = attributes(t, n, 3, &[4, 4, 3, 2], 1, p);
    }
    if n > 0 {
        let tris = match p.size { 0 => t.range(0, 2), 1 => t.skew(10), _ => t.range(0, 100) };
        // The largest index decides how indices are stored.
        let below = if t.chance(1, 3) { (*t.pick(&[1usize, 255, 256, 257, 65535, 65536, 65537])).min(n) } else { n };
        o.vertex_indices = (0..tris * 3).map(|_| index(t, below) as u32).collect();
    }
    let bones = t.skew(4);
    let limit = if version == 10 { n.min(65536) } else { n };
    for _ in 0..bones {
        let k = t.skew(if p.size >= 2 { 60 } else { 6 });
        let bone_name = name(t);
        o.bone_influences.push(BoneInfluence { bone_name, vertex_weights: if limit == 0 { vec![] } else {
            (0..k).map(|_| VertexWeight { vertex_index: index(t, limit) as u32, vertex_weight: f32m(t) }).collect() } });
    }
    o
}
fn mesh_expected_name(version: u16, usage: &str, i: usize, name: &str) -> String { if version == 8 { format!("{usage}{i}") } else { name.to_string() } }
/// 16 bit float precision, with overflow to infinity.
fn half_close(a: f32, b: f32) -> bool {
    if a.is_nan() { return b.is_nan(); }
    if a.abs() >= 65504.0 { return b.is_sign_negative() == a.is_sign_negative() && (b.is_infinite() || b.abs() >= 65440.0); }
    (a as f64 - b as f64).abs() <= (a.abs() as f64 / 1024.0).max(6.0e-8)
}
fn byte_close(a: f32, b: f32) -> bool {
    if a.is_nan() { return (0.0..=1.0).contains(&b); }
    (a.clamp(0.0, 1.0) as f64 - b as f64).abs() <= 1.0 / 255.0 + 1e-6
}
#[derive(Clone, Copy, PartialEq)]
enum Prec { Exact, Half, Byte }
fn attr(what: &str, usage: &str, version: u16, i: usize, a: &AttributeData, b: &AttributeData, f: impl Fn(usize) -> Prec) -> Result<(), String> {
    if version != 0 { let n = mesh_expected_name(version, usage, i, &a.name); if n != b.name { return Err(format!("{what} {i}: name {n:?} became {:?}", b.name)); } }
    fn each<const N: usize>(what: &str, a: &[[f32; N]], b: &[[f32; N]], p: Prec) -> Result<(), String> {
        if a.len() != b.len() { return Err(format!("{what}: {} vectors became {}", a.len(), b.len())); }
        for (i, (x, y)) in a.iter().zip(b).enumerate() { for c in 0..N {
            let ok = match p { Prec::Exact => x[c].to_bits() == y[c].to_bits() || (x[c].is_nan() && y[c].is_nan()), Prec::Half => half_close(x[c], y[c]), Prec::Byte => byte_close(x[c], y[c]) };
            if !ok { return Err(format!("{what}: vertex {i} component {c}: wrote {:?} read {:?}", x[c], y[c])); }
        } }
        Ok(())
    }
    let what = format!("{what} {i}");
    match (&a.data, &b.data) {
        (VectorData::Vector2(x), VectorData::Vector2(y)) => each(&what, x, y, f(2)),
        (VectorData::Vector3(x), VectorData::Vector3(y)) => each(&what, x, y, f(3)),
        (VectorData::Vector4(x), VectorData::Vector4(y)) => each(&what, x, y, f(4)),
        _ => Err(format!("{what}: component count changed")),
    }
}
pub fn mesh_same(a: &MeshData, b: &MeshData) -> Result<(), String> {
    eq("version", &(a.major_version, a.minor_version), &(b.major_version, b.minor_version))?;
    if a.objects.len() != b.objects.len() { return Err(format!("{} objects became {}", a.objects.len(), b.objects.len())); }
    let v = a.minor_version;
    for (i, (x, y)) in a.objects.iter().zip(&b.objects).enumerate() {
        let w = |s: &str| format!("object {i} {s}");
        eq(&w("header"), &(&x.name, x.subindex, &x.parent_bone_name, x.sort_bias, x.disable_depth_write, x.disable_depth_test),
            &(&y.name, y.subindex, &y.parent_bone_name, y.sort_bias, y.disable_depth_write, y.disable_depth_test))?;
        eq(&w("indices"), &x.vertex_indices, &y.vertex_indices)?;
        let none: Vec<AttributeData> = vec![];
        let vec = |d: usize| match (d, v) { (3, _) => Prec::Exact, (2, 8 | 9) => Prec::Exact, _ => Prec::Half };
        let col = |d: usize| match (d, v) { (3, _) => Prec::Exact, (2, 8 | 9) => Prec::Exact, (2, _) => Prec::Half, _ => Prec::Byte };
        for (n, usage, p, q, kind) in [("positions", "Position", &x.positions, &y.positions, 0), ("normals", "Normal", &x.normals, &y.normals, 1),
            ("binormals", "Binormal", if v == 8 { &none } else { &x.binormals }, &y.binormals, 1), ("tangents", "Tangent", &x.tangents, &y.tangents, 1),
            ("texture_coordinates", "TextureCoordinate", &x.texture_coordinates, &y.texture_coordinates, 1), ("color_sets", "colorSet", &x.color_sets, &y.color_sets, 2)] {
            if p.len() != q.len() { return Err(format!("{}: {} attributes became {}", w(n), p.len(), q.len())); }
            for (j, (g, h)) in p.iter().zip(q.iter()).enumerate() {
                attr(&w(n), usage, v, j, g, h, |d| match kind { 0 => Prec::Exact, 1 => vec(d), _ => col(d) })?;
            }
        }
        if x.bone_influences.len() != y.bone_influences.len() { return Err(w("bone influence count")); }
        for (p, q) in x.bone_influences.iter().zip(&y.bone_influences) { eq(&w("influence"), p, q)?; }
    }
    Ok(())
}
impl T for MeshData {
    const NAME: &'static str = "MeshData";
    const EXT: &'static str = "numshb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"HSEM");
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let minor_version = *t.pick(&[10, 9, 8]);
        let many = p.size == 2 && t.chance(1, 20);
        let n = if many { t.range(250, 300) } else if p.size >= 3 { t.range(1, 2) } else { t.skew(5) };
        let q = Params { size: if many { 0 } else { p.size }, ..p.clone() };
        let mut objects: Vec<MeshObjectData> = (0..n).map(|_| mesh_object(t, &q, minor_version)).collect();
        if n > 1 && t.chance(1, 3) { let s = objects[0].name.clone(); for o in objects.iter_mut() { o.name = s.clone(); } }
        // Objects are told apart by name and subindex: now and then they differ only in a little of either.
        if n > 1 && t.chance(1, 4) {
            let (s, i0) = (objects[0].name.clone(), objects[0].subindex);
            let by_name = t.chance(1, 2);
            for o in objects[1..].iter_mut() {
                (o.name, o.subindex) = if by_name { (near(&s, t), i0) } else { (s.clone(), i0 ^ 1 << *t.pick(&[8u32, 15, 16, 31, 32, 33, 48, 62, 63])) };
            }
        }
        for i in 1..objects.len() {
            while objects[..i].iter().any(|o| o.name == objects[i].name && o.subindex == objects[i].subindex) { objects[i].subindex = objects[i].subindex.wrapping_add(1); }
        }
        let mut m = MeshData { major_version: 1, minor_version, objects };
        if crowded(t, p) && !m.objects.is_empty() {
            let i = t.usize(m.objects.len());
            let o = &mut m.objects[i];
            let few = o.positions.first().map(|a| a.data.len()).unwrap_or(0) <= 12;
            match t.draw(6) {
                0 | 1 => { if crowd(&mut o.vertex_indices, t, p, true) { let k = o.vertex_indices.len() / 3 * 3; o.vertex_indices.truncate(k); } }
                2 => { crowd(&mut o.bone_influences, t, p, false); for (i, b) in o.bone_influences.iter_mut().enumerate() { b.bone_name = format!("bone{i}"); } }
                3 => { let k = o.bone_influences.len(); if k > 0 { let i = t.usize(k); crowd(&mut o.bone_influences[i].vertex_weights, t, p, true); } }
                _ if few => {
                    let a = match t.draw(4) { 0 => &mut o.positions, 1 => &mut o.normals, 2 => &mut o.texture_coordinates, _ => &mut o.color_sets };
                    let heavy = a.first().is_some_and(|a| a.data.len() <= 2) && t.chance(1, 6);
                    if heavy { let (k, n) = (a.len(), *t.pick(&[65536usize, 65537, 65540])); while a.len() < n { a.push(a[a.len() % k].clone()); } }
                    if heavy || crowd(a, t, p, false) { for (i, a) in a.iter_mut().enumerate() { a.name = format!("{}{i}", a.name); } }
                }
                _ => (),
            }
        }
        if !p.valid {
            match t.draw(5) {
                0 => m.minor_version = 7,
                1 => if let Some(o) = m.objects.last_mut() { o.vertex_indices.push(0); },
                2 => if let Some(o) = m.objects.last_mut() { o.vertex_indices = vec![0, 0, 1 << 20]; },
                3 => if let Some(o) = m.objects.last().cloned() { m.objects.push(o); },
                _ => if let Some(o) = m.objects.last_mut() { o.positions.push(AttributeData { name: "x".into(), data: VectorData::Vector2(vec![[0.0; 2]; 99]) }); },
            }
        }
        m
    }
    data_io!(ssbh_lib::prelude::Mesh);
    fn same(a: &Self, b: &Self, _: usize) -> Result<(), String> { mesh_same(a, b) }
    fn edit(&self, t: &mut Tape) -> Self {
        let mut m = self.clone();
        match t.draw(5) {
            0 => { m.objects.reverse(); }
            1 => { if !m.objects.is_empty() { let i = t.usize(m.objects.len()); m.objects.remove(i); } }
            2 => { if let Some(o) = m.objects.first_mut() { o.name = format!("{}{}", name(t), t.draw(1 << 20)); o.bone_influences.pop(); } }
            3 => { for o in m.objects.iter_mut() { o.color_sets.pop(); o.sort_bias ^= 1; } }
            _ => { m.minor_version = *t.pick(&[10, 9, 8]); for o in m.objects.iter_mut() { for i in o.bone_influences.iter_mut() { i.vertex_weights.retain(|w| w.vertex_index < 65536); } } }
        }
        m
    }
}

/// A list repeated past the sizes where narrow counters wrap; past two bytes where `cheap` or the value may be large.
fn crowd<A: Clone + std::fmt::Debug>(v: &mut Vec<A>, t: &mut Tape, p: &Params, cheap: bool) -> bool {
    if v.is_empty() { return false; }
    let n = if t.chance(1, if cheap { 2 } else if p.size >= 3 { 6 } else if p.wide { 15 } else { 1 << 20 }) { *t.pick(&[65535usize, 65536, 65537, 65538, 65539, 66001, 70_000]) } else { *t.pick(&[127usize, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1025]) };
    let n = if t.chance(1, 4) { dict::size(t).filter(|s| cheap || *s < 3000).unwrap_or(n) } else { n };
    let k = v.len();
    // Tens of thousands of heavy elements would take the rest of the search with them.
    let n = if !cheap && n > 500 && format!("{:?}", &v[..k.min(64)]).len() / k.min(64) * n > if p.size >= 3 { 24 << 20 } else { 4 << 20 } { 257 } else { n };
    while v.len() < n { v.push(v[v.len() % k].clone()); }
    true
}
/// A name that is easily taken for another one.
fn near(s: &str, t: &mut Tape) -> String {
    match t.draw(9) {
        0 => s.to_uppercase(), 1 => s.to_lowercase(), 2 => format!("{s} "), 3 => format!(" {s}"), 4 => format!("{s}_"), 5 => format!("{s}0"), 6 => format!("{s}Shape"),
        7 => { let mut x = s.to_string(); x.pop(); x }
        _ => { let mut x = s.to_string(); x.pop(); x + "\u{e9}" }
    }
}
fn crowded(t: &mut Tape, p: &Params) -> bool { p.size >= 1 && t.chance(1, 50) }

// ---------------------------------------------------------------- skel
impl T for SkelData {
    const NAME: &'static str = "SkelData";
    const EXT: &'static str = "nusktb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"LEKS");
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let n = match p.size { 0 => t.range(0, 2), 1 => t.skew(8), 2 => t.range(0, 60), _ => t.range(60, 600) };
        let singular = t.chance(1, 6);
        let mut bones: Vec<BoneData> = Vec::new();
        let order = t.chance(1, 3);
        for i in 0..n {
            let mut m = [[0f32; 4]; 4];
            for (r, row) in m.iter_mut().enumerate() { for (c, v) in row.iter_mut().enumerate() {
                *v = if singular { f32m(t) } else if r == c { 1.0 } else if r == 3 && c < 3 { f32m(t) } else { 0.0 };
            } }
            if !singular && t.chance(1, 2) { let a = f32m(t); m[0] = [a.cos(), a.sin(), 0.0, 0.0]; m[1] = [-a.sin(), a.cos(), 0.0, 0.0]; }
            let parent_index = if i == 0 || t.chance(1, 4) { None } else { Some(t.usize(i)) };
            bones.push(BoneData { name: name(t), transform: m, parent_index, billboard_type: any_arb(t) });
        }
        if order && n > 1 {
            // Children before parents.
            bones.reverse();
            for b in bones.iter_mut() { b.parent_index = b.parent_index.map(|x| n - 1 - x); }
        }
        if crowded(t, p) && !bones.is_empty() {
            let k = bones.len();
            let n = if (p.size >= 3 || p.wide) && bones.iter().map(|b| b.name.len()).sum::<usize>() / k < 200 && t.chance(1, 2) { t.range(32_760, 32_780) } else { if t.chance(1, 4) { dict::size(t).unwrap_or(256).min(5000) } else { *t.pick(&[127usize, 128, 129, 255, 256, 257, 300, 513, 1025]) } };
            while bones.len() < n { let mut b = bones[bones.len() % k].clone(); b.parent_index = if t.chance(1, 4) { None } else { Some(t.usize(bones.len())) }; bones.push(b); }
        }
        let n = bones.len();
        // A parent that is not there is kept as it is, up to what fits.
        if n > 0 && t.chance(1, 12) { let i = t.usize(n); bones[i].parent_index = Some(*t.pick(&[n, n + 5, 255, 256, 32766, 32767, 32768, 65535, 65536, 65541, 1 << 32, usize::MAX])); if bones[i].parent_index.unwrap_or(n) < n { bones[i].parent_index = Some(n); } }
        if !p.valid && n > 1 { match t.draw(3) { 0 => bones[0].parent_index = Some(0), 1 => { bones[0].parent_index = Some(1); bones[1].parent_index = Some(0); } _ => bones[0].parent_index = Some(n + 5) } }
        SkelData { major_version: 1, minor_version: 0, bones }
    }
    data_io!(ssbh_lib::prelude::Skel);
    fn same(a: &Self, b: &Self, _: usize) -> Result<(), String> {
        eq("version", &(1, 0), &(b.major_version, b.minor_version))?;
        if a.bones.len() != b.bones.len() { return Err(format!("{} bones became {}", a.bones.len(), b.bones.len())); }
        for (i, (x, y)) in a.bones.iter().zip(&b.bones).enumerate() {
            eq(&format!("bone {i}"), &(&x.name, x.parent_index, x.billboard_type), &(&y.name, y.parent_index, y.billboard_type))?;
            for r in 0..4 { for c in 0..4 { feq(&format!("bone {i} transform {r},{c}"), x.transform[r][c], y.transform[r][c])?; } }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- matl
fn params<A>(t: &mut Tape, p: &Params, f: impl Fn(&mut Tape, &Params) -> A) -> Vec<ParamData<A>> {
    let n = if p.size >= 2 { t.skew(12) } else { t.skew(3) };
    (0..n).map(|_| ParamData { param_id: any_arb(t), data: f(t, p) }).collect()
}
fn v4(t: &mut Tape, p: &Params) -> Vector4 { Vector4::new(f32v(t, p), f32v(t, p), f32v(t, p), f32v(t, p)) }
fn v3(t: &mut Tape, p: &Params) -> Vector3 { Vector3::new(f32v(t, p), f32v(t, p), f32v(t, p)) }
impl T for MatlData {
    const NAME: &'static str = "MatlData";
    const EXT: &'static str = "numatb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"LTAM");
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let n = match p.size { 0 => t.range(0, 1), 1 => t.skew(3), 2 => t.range(1, 8), _ => t.range(8, 40) };
        let minor_version = if p.valid { *t.pick(&[6, 6, 5]) } else { *t.pick(&[6, 5, 7]) };
        let mut entries: Vec<MatlEntryData> = (0..n).map(|_| MatlEntryData {
            material_label: name(t), shader_label: name(t),
            blend_states: params(t, p, |t, _| BlendStateData { source_color: any_arb(t), color_operation: any_arb(t), destination_color: any_arb(t), source_alpha: any_arb(t),
                alpha_operation: any_arb(t), destination_alpha: any_arb(t), alpha_sample_to_coverage: t.chance(1, 2) }),
            floats: params(t, p, |t, p| f32v(t, p)),
            booleans: params(t, p, |t, _| t.chance(1, 2)),
            vectors: params(t, p, v4),
            rasterizer_states: params(t, p, |t, p| RasterizerStateData { fill_mode: any_arb(t), cull_mode: any_arb(t), depth_bias: f32v(t, p) }),
            samplers: params(t, p, |t, p| SamplerData { wraps: any_arb(t), wrapt: any_arb(t), wrapr: any_arb(t), min_filter: any_arb(t), mag_filter: any_arb(t),
                border_color: Color4f { r: f32v(t, p), g: f32v(t, p), b: f32v(t, p), a: f32v(t, p) }, lod_bias: f32v(t, p), max_anisotropy: any_arb(t) }),
            textures: params(t, p, |t, _| name(t)),
            uv_transforms: params(t, p, |t, p| ssbh_lib::formats::matl::UvTransform { scale_u: f32v(t, p), scale_v: f32v(t, p), rotation: f32v(t, p), translate_u: f32v(t, p), translate_v: f32v(t, p) }),
        }).collect();
        if crowded(t, p) && n > 0 {
            let e = t.usize(n);
            match t.draw(5) { 0 => { crowd(&mut entries, t, p, false); } 1 => { crowd(&mut entries[e].floats, t, p, false); } 2 => { crowd(&mut entries[e].textures, t, p, false); }
                3 => { crowd(&mut entries[e].blend_states, t, p, false); } _ => { crowd(&mut entries[e].samplers, t, p, false); } }
        }
        MatlData { major_version: 1, minor_version, entries }
    }
    data_io!(ssbh_lib::prelude::Matl);
    fn same(a: &Self, b: &Self, _: usize) -> Result<(), String> {
        eq("version", &(a.major_version, a.minor_version), &(b.major_version, b.minor_version))?;
        if a.entries.len() != b.entries.len() { return Err(format!("{} entries became {}", a.entries.len(), b.entries.len())); }
        let v15 = a.minor_version == 5;
        for (i, (x, y)) in a.entries.iter().zip(&b.entries).enumerate() {
            let w = |s: &str| format!("entry {i} {s}");
            eq(&w("labels"), &(&x.material_label, &x.shader_label), &(&y.material_label, &y.shader_label))?;
            if v15 {
                // Fields version 1.5 does not store.
                let f = |v: &Vec<ParamData<BlendStateData>>| v.iter().map(|p| (p.param_id, p.data.source_color, p.data.destination_color)).collect::<Vec<_>>();
                eq(&w("blend"), &f(&x.blend_states), &f(&y.blend_states))?;
                let g = |v: &Vec<ParamData<RasterizerStateData>>| v.iter().map(|p| (p.param_id, p.data.cull_mode)).collect::<Vec<_>>();
                eq(&w("rasterizer"), &g(&x.rasterizer_states), &g(&y.rasterizer_states))?;
            } else {
                eq(&w("blend"), &x.blend_states, &y.blend_states)?;
                eq(&w("rasterizer"), &x.rasterizer_states, &y.rasterizer_states)?;
            }
            eq(&w("floats"), &x.floats, &y.floats)?;
            eq(&w("booleans"), &x.booleans, &y.booleans)?;
            eq(&w("vectors"), &x.vectors, &y.vectors)?;
            eq(&w("samplers"), &x.samplers, &y.samplers)?;
            eq(&w("textures"), &x.textures, &y.textures)?;
            eq(&w("uv"), &x.uv_transforms, &y.uv_transforms)?;
        }
        Ok(())
    }
    fn edit(&self, t: &mut Tape) -> Self {
        let mut m = self.clone();
        match t.draw(4) {
            0 => m.entries.reverse(),
            1 => for e in m.entries.iter_mut() { e.textures.reverse(); e.floats.pop(); },
            2 => for e in m.entries.iter_mut() { e.material_label.push('x'); e.samplers.pop(); e.vectors.reverse(); },
            _ => { m.entries.pop(); }
        }
        m
    }
}

// ---------------------------------------------------------------- modl
impl T for ModlData {
    const NAME: &'static str = "ModlData";
    const EXT: &'static str = "numdlb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"LDOM");
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let n = match p.size { 0 => t.range(0, 1), 1 => t.skew(6), 2 => t.range(0, 60), _ => t.range(60, 1500) };
        let m = t.skew(3);
        let mut d = ModlData {
            major_version: 1, minor_version: 7, model_name: name(t), skeleton_file_name: name(t),
            material_file_names: (0..m).map(|_| name(t)).collect(),
            animation_file_name: if t.chance(1, 2) { Some(name(t)) } else { None }, mesh_file_name: name(t),
            entries: (0..n).map(|_| ModlEntryData { mesh_object_name: name(t), mesh_object_subindex: if t.chance(1, 4) { t.draw(0) } else { t.draw(5) }, material_label: name(t) }).collect(),
        };
        if crowded(t, p) { if t.draw(2) == 0 { crowd(&mut d.entries, t, p, false); } else { crowd(&mut d.material_file_names, t, p, false); } }
        d
    }
    data_io!(ssbh_lib::prelude::Modl);
}

// ---------------------------------------------------------------- hlpb
impl T for HlpbData {
    const NAME: &'static str = "HlpbData";
    const EXT: &'static str = "nuhlpb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"BPLH");
    fn gen(t: &mut Tape, p: &Params) -> Self {
        // The constraint structs derive Arbitrary; strings in them may hold NUL, so they are replaced.
        let k = match p.size { 0 => 1, 1 => 4, 2 => 20, _ => 120 };
        let a = t.range(0, k);
        let o = t.range(0, k);
        let q = Params { size: 0, ..p.clone() };
        let aim_constraints = (0..a).map(|_| { let mut c: AimConstraintData = arb(t, &q);
            c.name = name(t); c.aim_bone_name1 = name(t); c.aim_bone_name2 = name(t); c.aim_type1 = name(t); c.aim_type2 = name(t); c.target_bone_name1 = name(t); c.target_bone_name2 = name(t);
            if t.chance(1, 8) { c.unk1 = dict::int(t).unwrap_or(1) as u32 } if t.chance(1, 8) { c.unk2 = dict::int(t).unwrap_or(0) as u32 }
            c.aim = v3(t, p); c.up = v3(t, p); c.quat1 = v4(t, p); c.quat2 = v4(t, p); c }).collect();
        let orient_constraints = (0..o).map(|_| { let mut c: OrientConstraintData = arb(t, &q);
            c.name = name(t); c.parent_bone_name1 = name(t); c.parent_bone_name2 = name(t); c.source_bone_name = name(t); c.target_bone_name = name(t);
            if t.chance(1, 8) { c.unk_type = dict::int(t).unwrap_or(1) as u32 }
            c.constraint_axes = v3(t, p); c.range_min = v3(t, p); c.range_max = v3(t, p); c.quat1 = v4(t, p); c.quat2 = v4(t, p); c }).collect();
        let mut d = HlpbData { major_version: 1, minor_version: 1, aim_constraints, orient_constraints };
        if crowded(t, p) { if t.draw(2) == 0 { crowd(&mut d.aim_constraints, t, p, false); } else { crowd(&mut d.orient_constraints, t, p, false); } }
        d
    }
    data_io!(ssbh_lib::prelude::Hlpb);
}

// ---------------------------------------------------------------- adj
impl T for AdjData {
    const NAME: &'static str = "AdjData";
    const EXT: &'static str = "adjb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = None;
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let n = match p.size { 0 => t.range(0, 1), 1 => t.skew(4), _ => t.skew(20) };
        let k = match p.size { 0 => 2, 1 => 8, 2 => 80, _ => 3000 };
        let mut d = AdjData { entries: (0..n).map(|_| {
            let len = t.skew(k);
            let vertex_adjacency = if len > 64 { let b = t.blob(len * 2, |r, n| (0..n).map(|_| r.next() as u8).collect());
                (0..len).map(|i| i16::from_le_bytes([b.get(2 * i).copied().unwrap_or(0), b.get(2 * i + 1).copied().unwrap_or(0)])).collect() }
                else { (0..len).map(|_| if t.chance(1, 3) { -1 } else { t.draw(1 << 16) as u16 as i16 }).collect() };
            AdjEntryData { mesh_object_index: match t.draw(9) { 0 | 1 => t.draw(1 << 32) as usize, 2 if t.chance(1, 3) => *t.pick(&[65535, 65536, u32::MAX as usize, 1 << 32, (1 << 32) + 3, usize::MAX]), _ => t.draw(8) as usize }, vertex_adjacency }
        }).collect() };
        if crowded(t, p) && n > 0 { if t.draw(2) == 0 { crowd(&mut d.entries, t, p, false); } else { let i = t.usize(n); crowd(&mut d.entries[i].vertex_adjacency, t, p, true); } }
        d
    }
    data_io!(ssbh_lib::prelude::Adj);
}

// ---------------------------------------------------------------- meshex
impl T for MeshExData {
    const NAME: &'static str = "MeshExData";
    const EXT: &'static str = "numshexb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = None;
    fn gen(t: &mut Tape, p: &Params) -> Self {
        let n = match p.size { 0 => t.range(0, 1), 1 => t.skew(5), 2 => t.skew(30), _ => t.range(30, 400) };
        let mut d = MeshExData { mesh_object_groups: (0..n).map(|_| {
            let k = t.skew(4);
            let base = name(t);
            MeshObjectGroupData {
                bounding_sphere: ssbh_lib::formats::mesh::BoundingSphere { center: Vector3::new(f32m(t), f32m(t), f32m(t)), radius: f32m(t) },
                mesh_object_full_name: format!("{base}{}", if t.chance(1, 2) { "_VIS_O_OBJShape" } else { "" }), mesh_object_name: base,
                entry_flags: (0..k).map(|_| EntryFlags { draw_model: t.chance(1, 2), cast_shadow: t.chance(1, 2) }).collect(),
            }
        }).collect() };
        if crowded(t, p) && n > 0 { if t.draw(2) == 0 { crowd(&mut d.mesh_object_groups, t, p, false);
            // Reading looks at every entry for every group.
            let k = d.mesh_object_groups.len();
            if k > 2000 { for (i, g) in d.mesh_object_groups.iter_mut().enumerate() { if i > 8 && i < k - 8 && !(65530..65540).contains(&i) { g.entry_flags.clear() } } }
        } else { let i = t.usize(n); crowd(&mut d.mesh_object_groups[i].entry_flags, t, p, true); } }
        d
    }
    data_io!(ssbh_lib::prelude::MeshEx);
}

// ---------------------------------------------------------------- shader reader (no writer)
/// What the shader data reader and the shader binary readers return for a file.
#[derive(Debug)]
pub struct ShdrRead { pub data: Result<String, String>, pub binaries: Vec<Result<String, String>>, pub direct: Result<String, String> }
impl T for ShdrRead {
    const NAME: &'static str = "ShdrRead";
    const EXT: &'static str = "nushdb";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = Some(*b"RDHS");
    const PATHS: bool = false;
    fn gen(_: &mut Tape, _: &Params) -> Self { ShdrRead { data: Err(String::new()), binaries: vec![], direct: Err(String::new()) } }
    fn save(&self, _: &mut SimStream) -> Result<(), String> { Err("no writer".into()) }
    fn save_path(&self, _: &str) -> Result<(), String> { Err("no writer".into()) }
    fn load(r: &mut SimStream) -> Result<Self, String> {
        ssbh_data::shdr_data::ShdrData::read(r).map_err(|e| format!("{e:?}")).map(|d| ShdrRead { data: Ok(format!("{d:?}")), binaries: vec![], direct: Err(String::new()) })
    }
    fn load_path(p: &str) -> Result<Self, String> {
        ssbh_data::shdr_data::ShdrData::from_file(p).map_err(|e| format!("{e:?}")).map(|d| ShdrRead { data: Ok(format!("{d:?}")), binaries: vec![], direct: Err(String::new()) })
    }
}
/// The shader binary metadata reader on bare bytes.
#[derive(Debug)]
pub struct MetaRead(pub String);
impl T for MetaRead {
    const NAME: &'static str = "MetaRead";
    const EXT: &'static str = "bin";
    const LAYER: Layer = Layer::Data;
    const TAG: Option<[u8; 4]> = None;
    const PATHS: bool = false;
    fn gen(_: &mut Tape, _: &Params) -> Self { MetaRead(String::new()) }
    fn save(&self, _: &mut SimStream) -> Result<(), String> { Err("no writer".into()) }
    fn save_path(&self, _: &str) -> Result<(), String> { Err("no writer".into()) }
    fn load(r: &mut SimStream) -> Result<Self, String> {
        use std::io::Seek;
        let m = ssbh_data::shdr_data::MetaData::read(r).map_err(|e| format!("{e:?}"))?;
        r.rewind().map_err(|e| format!("{e:?}"))?;
        let b = ssbh_data::shdr_data::ShaderBinary::read(r).map_err(|e| format!("{e:?}"))?;
        Ok(MetaRead(format!("{m:?} {:?}", b.program_code)))
    }
    fn load_path(p: &str) -> Result<Self, String> { ssbh_data::shdr_data::MetaData::from_file(p).map_err(|e| format!("{e:?}")).map(|m| MetaRead(format!("{m:?}"))) }
}
fn put(b: &mut Vec<u8>, at: usize, v: &[u8]) { if b.len() < at + v.len() { b.resize(at + v.len(), 0); } b[at..at + v.len()].copy_from_slice(v); }
/// A shader binary as the metadata reader expects it.
pub fn shader_binary(t: &mut Tape) -> Vec<u8> {
    let mut b = vec![0u8; 2896];
    let (nb, nu, ni, no) = (t.skew(3), t.skew(3), t.skew(3), t.skew(3));
    let code = t.skew(60);
    let entry = 2896 + code as u32;
    let (ob, ou) = (0u32, nb as u32 * 108);
    let oi = ou + nu as u32 * 164;
    let oo = oi + ni as u32 * 92;
    let os = oo + no as u32 * 92;
    put(&mut b, 292, &entry.to_le_bytes());
    let mut h = 288 + 12 + 32;
    for (n, o) in [(nb, ob), (nu, ou), (ni, oi), (no, oo)] { put(&mut b, h, &(n as u32).to_le_bytes()); put(&mut b, h + 4, &o.to_le_bytes()); h += 8; }
    let mut strings = Vec::new();
    let string_length;
    {
        let types = [0u32, 4, 7, 20, 36, 50, 22, 37, 38, 39, 67, 68, 69, 73, 103];
        for (n, o, size) in [(nb, ob, 108u32), (nu, ou, 164), (ni, oi, 92), (no, oo, 92)] {
            for i in 0..n {
                let at = (entry + o + i as u32 * size) as usize;
                let s = name(t);
                put(&mut b, at, &(strings.len() as u32).to_le_bytes());
                put(&mut b, at + 4, &(s.len() as u32 + 1).to_le_bytes());
                strings.extend(s.as_bytes());
                strings.push(0);
                if size != 108 { put(&mut b, at + 40, &t.pick(&types).to_le_bytes()); } else { put(&mut b, at + 40, &(t.draw(100) as u32).to_le_bytes()); }
                for k in 1..5 { put(&mut b, at + 40 + 4 * k, &(t.draw(1 << 32) as u32).to_le_bytes()); }
                put(&mut b, at + size as usize - 1, &[0]);
            }
        }
        string_length = strings.len() as u32;
    }
    // unk3..unk7, string info end, string section length, string section offset
    put(&mut b, h + 20 + 4, &string_length.to_le_bytes());
    put(&mut b, h + 20 + 8, &os.to_le_bytes());
    put(&mut b, 2504, &(code as u32).to_le_bytes());
    put(&mut b, (entry + os) as usize, &strings);
    b
}
/// A shader file with real metadata in its binaries.
pub fn shdr_file(t: &mut Tape) -> Vec<u8> {
    use ssbh_lib::formats::shdr::Shdr;
    let mut s: Shdr = arb(t, &Params { size: 1, json: false, valid: true, wide: false });
    let Shdr::V12 { shaders } = &mut s;
    if shaders.elements.is_empty() { let e = vec![1u8; 200]; let x: Shdr = crate::gen::arb_from(&e); let Shdr::V12 { shaders: y } = x; shaders.elements = y.elements.into_iter().take(2).collect(); }
    for e in shaders.elements.iter_mut() { e.shader_binary = ssbh_lib::SsbhByteBuffer::from_vec(shader_binary(t)); }
    let mut w = SimStream::writer();
    match s.write(&mut w) { Ok(()) => w.data, Err(_) => vec![] }
}

/// An animation of version 1.2 whose buffers have the headers its reader knows.
pub fn anim12_file(t: &mut Tape) -> Vec<u8> {
    use ssbh_lib::formats::anim::{Anim, Property, TrackTypeV1, TrackV1};
    let nb = t.skew(6);
    let buffers: Vec<ssbh_lib::SsbhByteBuffer> = (0..nb).map(|_| {
        let h = *t.pick(&[0x1003u32, 0x2003, 0x3003, 0x4003, 0x1013, 0x3409, 0x4308, 0x4409, 0x9999]);
        let frames = t.skew(40) as u32;
        let need = match h { 0x1003 => 4, 0x2003 => 8, 0x3003 => 12, 0x4003 => 16, 0x1013 => 2, 0x3409 => 16 + 36, 0x4409 => 16 + 48, 0x4308 => 8 + (frames as usize).div_ceil(4) * 4 + 36, _ => 0 };
        let n = match t.draw(8) { 0 => need - t.usize(need.min(3) + 1), 1 => need, _ => need + t.skew(40) };
        let mut b = h.to_le_bytes().to_vec();
        b.extend(t.blob(n, |r, n| (0..n).map(|_| r.next() as u8).collect()));
        if b.len() >= 8 && h > 0x3400 { b[4..8].copy_from_slice(&frames.to_le_bytes()); }
        ssbh_lib::SsbhByteBuffer::from_vec(b)
    }).collect();
    let tracks: Vec<TrackV1> = (0..t.skew(6)).map(|_| TrackV1 {
        name: name(t).as_str().into(),
        track_type: *t.pick(&[TrackTypeV1::Transform, TrackTypeV1::UvTransform, TrackTypeV1::Visibility]),
        properties: ssbh_lib::SsbhArray::from_vec((0..if nb == 0 { 0 } else { t.skew(4) }).map(|_| Property { name: name(t).as_str().into(), buffer_index: if t.draw(20) == 1 { nb as u64 } else { t.usize(nb) as u64 } }).collect()),
    }).collect();
    let s = Anim::V12 { name: name(t).as_str().into(), unk1: 1.0, final_frame_index: t.skew(60) as f32, unk2: 0.0, unk3: 0.0, tracks: ssbh_lib::SsbhArray::from_vec(tracks), buffers: ssbh_lib::SsbhArray::from_vec(buffers) };
    let mut w = SimStream::writer();
    match s.write(&mut w) { Ok(()) => w.data, Err(_) => vec![] }
}
