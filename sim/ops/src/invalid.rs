//! Values one step beyond what the library documents as storable.
use crate::anim::AnimData;
use crate::data::*;
use crate::gen::index;
use crate::raw::MeshEx;
use crate::{Kind, Val, V};
use dstrt::tape::Tape;

fn lists(o: &mut MeshObjectData) -> Vec<&mut AttributeData> {
    o.positions.iter_mut().chain(o.normals.iter_mut()).chain(o.binormals.iter_mut()).chain(o.tangents.iter_mut()).chain(o.texture_coordinates.iter_mut()).chain(o.color_sets.iter_mut()).collect()
}
fn len(d: &VectorData) -> usize { match d { VectorData::Vector2(v) => v.len(), VectorData::Vector3(v) => v.len(), VectorData::Vector4(v) => v.len() } }
fn mesh(m: &MeshData, t: &mut Tape) -> Option<(MeshData, &'static str)> {
    let mut m = m.clone();
    let mode = t.draw(6);
    if mode == 0 || m.objects.is_empty() {
        let (a, b) = *t.pick(&[(1, 7), (1, 11), (2, 10), (0, 8), (2, 0), (1, 0), (1, 266), (1, 1000), (257, 10), (2, 8), (0, 9), (u16::MAX, 10), (1, u16::MAX)]);
        (m.major_version, m.minor_version) = (a, b);
        return Some((m, "mesh_version"));
    }
    let i = index(t, m.objects.len());
    let v10 = m.minor_version == 10;
    let copy = m.objects[i].clone();
    let o = &mut m.objects[i];
    let count = lists(o).first().map(|a| len(&a.data)).unwrap_or(0);
    let what = match mode {
        1 => {
            let k = lists(o).len();
            if k < 2 { o.color_sets.push(AttributeData { name: "c".into(), data: VectorData::Vector4(vec![[0.5; 4]; if k == 0 { 1 } else { count + 1 }]) }); if k == 0 { o.normals.push(AttributeData { name: "n".into(), data: VectorData::Vector3(vec![]) }); } }
            else {
                let j = t.usize(k);
                let grow = count == 0 || t.chance(1, 2);
                match &mut lists(o)[j].data { VectorData::Vector2(v) => if grow { v.push([0.0; 2]) } else { v.pop(); }, VectorData::Vector3(v) => if grow { v.push([0.0; 3]) } else { v.pop(); }, VectorData::Vector4(v) => if grow { v.push([0.0; 4]) } else { v.pop(); } }
            }
            "attribute_length"
        }
        2 => {
            let beyond = (count as u64 + [0u64, 1, 2, 255, 256, 65535, 65536][t.usize(7)]).min(u32::MAX as u64) as u32;
            let beyond = if t.chance(1, 6) { u32::MAX } else { beyond };
            if o.vertex_indices.is_empty() { o.vertex_indices = if count == 0 { vec![beyond; 3] } else { vec![0; 3] }; }
            let j = index(t, o.vertex_indices.len());
            o.vertex_indices[j] = beyond;
            "vertex_index"
        }
        3 => {
            if count == 0 { return None; }
            if o.vertex_indices.is_empty() || t.chance(1, 2) { for _ in 0..1 + t.usize(2) { o.vertex_indices.push(0); } } else { o.vertex_indices.pop(); }
            "triangle_count"
        }
        4 => {
            if !v10 { return None; }
            let beyond = *t.pick(&[65536u32, 65537, 65541, 131072, 1 << 24, u32::MAX]);
            let w = VertexWeight { vertex_index: beyond, vertex_weight: 0.5 };
            if o.bone_influences.is_empty() { o.bone_influences.push(BoneInfluence { bone_name: "b".into(), vertex_weights: vec![w] }); }
            else { let j = t.usize(o.bone_influences.len()); let v = &mut o.bone_influences[j].vertex_weights; let k = t.usize(v.len() + 1); v.insert(k, w); }
            "weight_index"
        }
        _ => { let at = t.usize(m.objects.len() + 1); let mut d = if t.chance(1, 2) { copy.clone() } else { MeshObjectData::default() }; d.name = copy.name; d.subindex = copy.subindex; m.objects.insert(at, d); "duplicate_subindex" }
    };
    Some((m, what))
}
fn skel(s: &SkelData, t: &mut Tape) -> Option<(SkelData, &'static str)> {
    let mut s = s.clone();
    let n = s.bones.len();
    if n == 0 { return None; }
    if t.chance(1, 4) {
        let i = index(t, n);
        s.bones[i].parent_index = Some(*t.pick(&[32768usize, 32769, 65535, 65536, 65537, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX]));
        return Some((s, "parent_index"));
    }
    // A cycle of some length anywhere; the bones below it lead into it.
    let mut ids: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = t.usize(i + 1); ids.swap(i, j); }
    let k = 1 + match t.draw(3) { 0 => 0, 1 => t.usize(n.min(3)), _ => t.usize(n) };
    for i in 0..k { s.bones[ids[i]].parent_index = Some(ids[(i + 1) % k]); }
    Some((s, "bone_cycle"))
}
fn anim(a: &AnimData, t: &mut Tape) -> Option<(AnimData, &'static str)> {
    let mut a = a.clone();
    let longest = a.groups.iter().flat_map(|g| &g.nodes).flat_map(|n| &n.tracks).map(|t| t.values.len()).max().unwrap_or(0);
    if t.chance(1, 2) {
        (a.major_version, a.minor_version) = *t.pick(&[(1, 2), (1, 0), (2, 2), (2, 3), (3, 0), (0, 0), (2, 256), (258, 0), (1, 1), (3, 1), (0, 2), (u16::MAX, 0), (2, u16::MAX)]);
        return Some((a, "anim_version"));
    }
    let last = longest.max(1) as f32 - 1.0;
    a.final_frame_index = match t.draw(6) { 0 if last >= 1.0 => last - 1.0, 1 if last >= 1.0 => last - 0.5, 2 if last > 0.0 => 0.0, 3 => f32::NAN, 4 => f32::NEG_INFINITY, _ => *t.pick(&[-1.0, -0.5, -1e-30, f32::MIN]) };
    Some((a, "final_frame_index"))
}
/// A copy of a savable value with exactly one thing wrong.
pub fn spoil(v: &dyn Val, t: &mut Tape) -> Option<(Box<dyn Val>, &'static str)> {
    fn b<X: crate::T>(r: Option<(X, &'static str)>) -> Option<(Box<dyn Val>, &'static str)> { r.map(|(v, w)| (Box::new(V(v)) as Box<dyn Val>, w)) }
    let a = v.any();
    if let Some(m) = a.downcast_ref::<MeshData>() { return b(mesh(m, t)); }
    if let Some(m) = a.downcast_ref::<SkelData>() { return b(skel(m, t)); }
    if let Some(m) = a.downcast_ref::<AnimData>() { return b(anim(m, t)); }
    if let Some(m) = a.downcast_ref::<MatlData>() {
        let mut m = m.clone();
        (m.major_version, m.minor_version) = *t.pick(&[(1, 4), (1, 7), (2, 5), (2, 6), (0, 6), (1, 0), (1, 261), (257, 5), (1, u16::MAX), (u16::MAX, 6)]);
        return b(Some((m, "matl_version")));
    }
    if let Some(m) = a.downcast_ref::<AdjData>() {
        let mut m = m.clone();
        if m.entries.is_empty() { return None; }
        let i = index(t, m.entries.len());
        m.entries[i].mesh_object_index = *t.pick(&[1usize << 32, (1 << 32) + 1, 1 << 40, usize::MAX, usize::MAX - 5]);
        return b(Some((m, "mesh_object_index")));
    }
    if let Some(m) = a.downcast_ref::<MeshEx>() {
        let mut m = m.clone();
        // Both lists as they are or a few elements long, then one element more or less in one of them.
        use ssbh_lib::formats::meshex::{EntryFlag, EntryFlags, MeshEntry};
        use ssbh_lib::Ptr64;
        if m.entries.as_ref().map(|e| e.len()).unwrap_or(0) == 0 && t.chance(3, 4) {
            let n = t.skew(6);
            m.entries = Ptr64::new((0..n).map(|i| MeshEntry { mesh_object_group_index: i as u32, unk1: ssbh_lib::Vector3::new(0.0, 1.0, 0.0) }).collect());
            m.entry_flags = Ptr64::new(EntryFlags(vec![EntryFlag::default(); n]));
        }
        let grow = t.chance(1, 2);
        let by = if t.chance(1, 8) { *t.pick(&[256usize, 512, 65536, 131072]) } else { 1 + t.skew(3) };
        if t.chance(1, 2) {
            let mut v = m.entry_flags.as_ref().map(|f| f.0.clone()).unwrap_or_default();
            if grow || v.len() < by { for _ in 0..by { v.push(EntryFlag::default()); } } else { v.truncate(v.len() - by); }
            m.entry_flags = if v.is_empty() && t.chance(1, 2) { Ptr64::null() } else { Ptr64::new(EntryFlags(v)) };
        } else {
            let mut v = m.entries.as_ref().cloned().unwrap_or_default();
            if grow || v.len() < by { for _ in 0..by { v.push(MeshEntry { mesh_object_group_index: 0, unk1: ssbh_lib::Vector3::new(0.0, 1.0, 0.0) }); } } else { v.truncate(v.len() - by); }
            m.entries = if v.is_empty() && t.chance(1, 2) { Ptr64::null() } else { Ptr64::new(v) };
        }
        return b(Some((m, "entry_count")));
    }
    None
}
/// The types with documented limits.
pub fn kinds() -> Vec<&'static dyn Kind> { let mut v: Vec<&'static dyn Kind> = ["MeshData", "SkelData", "MatlData", "AdjData", "AnimData"].iter().filter_map(|n| crate::by_name(n)).collect(); v.push(crate::RAW[10]); v }
