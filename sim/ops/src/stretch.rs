//! One list, buffer or text of a value grown past the sizes where narrow counters and offsets wrap.
use crate::{derived, gen};
use arbitrary::Arbitrary;
use dstrt::tape::Tape;
use ssbh_lib::formats::{adj::Adj, anim::Anim, hlpb::Hlpb, matl::Matl, mesh::{Mesh, MeshInner}, meshex::MeshEx, modl::Modl, nlst::Nlst, nrpd::Nrpd, nufx::Nufx, shdr::Shdr, skel::Skel};
use ssbh_lib::{CString, RelPtr64, Ssbh, SsbhArray, SsbhByteBuffer, SsbhString, SsbhString8};

/// Something that can be made long.
pub trait Grow { fn grow(&mut self, t: &mut Tape, p: &gen::Params); }

fn bytes(t: &mut Tape, n: usize) -> Vec<u8> { t.blob(n, |r, n| (0..n).map(|_| (r.next() >> 20) as u8).collect()) }
/// Past a byte often, past two bytes when `small` elements make that cheap.
fn length(t: &mut Tape, wide: u64) -> usize {
    if t.chance(1, wide) { *t.pick(&[65534usize, 65535, 65536, 65537, 65538, 66000, 70_001, 131_071, 131_073]) } else { if t.chance(1, 3) { dstrt::dict::size(t).filter(|s| wide <= 2 || *s < 5000).unwrap_or(300) } else { *t.pick(&[127usize, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1025]) } }
}
fn list<A: for<'a> Arbitrary<'a>>(v: &mut Vec<A>, t: &mut Tape, p: &gen::Params) {
    let wide = match std::mem::size_of::<A>() { 0..=4 => 2, 5..=16 => 4, 17..=40 => 12, _ => 40 };
    let n = length(t, wide);
    let mut e = bytes(t, 4096);
    if p.json { e.iter_mut().for_each(|b| *b &= 0x7f) }
    let m = 4 + t.usize(28);
    for i in 0.. {
        if v.len() >= n { break }
        let at = i * 7 % (e.len() - m);
        v.push(gen::arb_from(&e[at..at + m]));
    }
    v.truncate(n);
}
fn text(t: &mut Tape) -> String {
    let n = length(t, 3);
    let s = t.draw(26);
    (0..n as u64).map(|i| (b'a' + ((i * 7 + s + (i >> 8)) % 26) as u8) as char).collect()
}
impl Grow for SsbhByteBuffer { fn grow(&mut self, t: &mut Tape, _: &gen::Params) { let n = length(t, 1); self.elements = bytes(t, n) } }
impl<A: for<'a> Arbitrary<'a>> Grow for SsbhArray<A> { fn grow(&mut self, t: &mut Tape, p: &gen::Params) { list(&mut self.elements, t, p) } }
impl<A: for<'a> Arbitrary<'a>> Grow for Vec<A> { fn grow(&mut self, t: &mut Tape, p: &gen::Params) { list(self, t, p) } }
impl Grow for SsbhString { fn grow(&mut self, t: &mut Tape, _: &gen::Params) { *self = text(t).into() } }
impl Grow for SsbhString8 { fn grow(&mut self, t: &mut Tape, _: &gen::Params) { *self = text(t).into() } }
impl Grow for RelPtr64<SsbhString> { fn grow(&mut self, t: &mut Tape, _: &gen::Params) { *self = RelPtr64::new(text(t).into()) } }
impl<const N: usize> Grow for CString<N> { fn grow(&mut self, t: &mut Tape, _: &gen::Params) { *self = text(t).as_str().into() } }

type Places<'a> = Vec<&'a mut dyn Grow>;
/// The lists, buffers and texts of a value. Some are those of an element drawn from a list.
pub trait Stretch {
    fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a>;
    /// Lists that must have the same length.
    fn together(&mut self, _: &mut Tape, _: &gen::Params) -> bool { false }
}

/// One element of a list, or the list when it has none.
fn one<'a, A>(v: &'a mut Vec<A>, t: &mut Tape) -> Option<&'a mut A> { if v.is_empty() { None } else { let i = t.usize(v.len()); v.get_mut(i) } }

fn mesh<'x, A, W>(m: &'x mut MeshInner<A, W>, t: &mut Tape) -> Places<'x>
where A: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite + for<'a> Arbitrary<'a>, W: for<'a> binrw::BinRead<Args<'a> = ()> + ssbh_write::SsbhWrite + for<'a> Arbitrary<'a> + Grow {
    let which = t.draw(3);
    let mut out: Places = vec![&mut m.model_name, &mut m.buffer_sizes, &mut m.index_buffer];
    match which { 0 => out.push(&mut m.objects), _ => if let Some(o) = one(&mut m.objects.elements, t) { out.push(&mut o.name); out.push(&mut o.parent_bone_name); out.push(&mut o.attributes) } }
    match which { 1 => out.push(&mut m.vertex_buffers), _ => if let Some(o) = one(&mut m.vertex_buffers.elements, t) { out.push(o) } }
    match which { 2 => out.push(&mut m.rigging_buffers), _ => if let Some(o) = one(&mut m.rigging_buffers.elements, t) {
        out.push(&mut o.mesh_object_name);
        if (t.draw(2) == 1) { out.push(&mut o.buffers) } else if let Some(b) = one(&mut o.buffers.elements, t) { out.push(&mut b.bone_name); out.push(&mut b.data) }
    } }
    out
}
impl Stretch for Mesh { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> { match self { Mesh::V8(m) => mesh(m, t), Mesh::V9(m) => mesh(m, t), Mesh::V10(m) => mesh(m, t) } } }
impl Stretch for Hlpb { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let Hlpb::V11 { aim_constraints: a, orient_constraints: o, constraint_indices: i, constraint_types: c } = self;
    let mut out: Places = vec![i, c];
    if (t.draw(2) == 1) { out.push(a); out.push(o) } else { if let Some(a) = one(&mut a.elements, t) { out.push(&mut a.name); out.push(&mut a.aim_bone_name1) } if let Some(o) = one(&mut o.elements, t) { out.push(&mut o.name) } }
    out
} }
impl Stretch for Matl { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let whole = t.draw(3) == 0;
    match self {
        Matl::V15 { entries: e } => if whole || e.elements.is_empty() { vec![e] } else { let e = one(&mut e.elements, t).unwrap(); vec![&mut e.material_label, &mut e.attributes, &mut e.shader_label] },
        Matl::V16 { entries: e } => if whole || e.elements.is_empty() { vec![e] } else { let e = one(&mut e.elements, t).unwrap(); vec![&mut e.material_label, &mut e.attributes, &mut e.shader_label] },
    }
} }
impl Stretch for Modl { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let Modl::V17 { model_name, skeleton_file_name, material_file_names, animation_file_name, mesh_file_name, entries } = self;
    let mut out: Places = vec![model_name, skeleton_file_name, material_file_names, animation_file_name, mesh_file_name];
    if (t.draw(2) == 1) { out.push(entries) } else if let Some(e) = one(&mut entries.elements, t) { out.push(&mut e.mesh_object_name); out.push(&mut e.material_label) }
    out
} }
impl Stretch for Skel { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let Skel::V10 { bone_entries, world_transforms, inv_world_transforms, transforms, inv_transforms } = self;
    let mut out: Places = vec![world_transforms, inv_world_transforms, transforms, inv_transforms];
    if (t.draw(2) == 1) { out.push(bone_entries) } else if let Some(e) = one(&mut bone_entries.elements, t) { out.push(&mut e.name) }
    out
} }
impl Stretch for Anim { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> { 
    fn groups<'a>(g: &'a mut SsbhArray<ssbh_lib::formats::anim::Group>, t: &mut Tape) -> Places<'a> {
        if t.draw(4) == 0 || g.elements.is_empty() { return vec![g] }
        let g = one(&mut g.elements, t).unwrap();
        if t.draw(3) == 0 || g.nodes.elements.is_empty() { return vec![&mut g.nodes] }
        let n = one(&mut g.nodes.elements, t).unwrap();
        if (t.draw(2) == 1) || n.tracks.elements.is_empty() { return vec![&mut n.name, &mut n.tracks] }
        vec![&mut one(&mut n.tracks.elements, t).unwrap().name]
    }
    match self {
        Anim::V12 { name, tracks, buffers, .. } => {
            let mut out: Places = vec![name];
            if (t.draw(2) == 1) { out.push(tracks) } else if let Some(x) = one(&mut tracks.elements, t) { out.push(&mut x.name); out.push(&mut x.properties) }
            if (t.draw(2) == 1) { out.push(buffers) } else if let Some(x) = one(&mut buffers.elements, t) { out.push(x) }
            out
        }
        Anim::V20 { name, groups: g, buffer, .. } => { let mut out = groups(g, t); out.push(name); out.push(buffer); out }
        Anim::V21 { name, groups: g, buffer, unk_data, .. } => {
            let mut out = groups(g, t);
            out.push(name); out.push(buffer);
            if (t.draw(2) == 1) { out.push(&mut unk_data.unk1); out.push(&mut unk_data.unk2) } else {
                if let Some(x) = one(&mut unk_data.unk1.elements, t) { out.push(&mut x.unk2) }
                if let Some(x) = one(&mut unk_data.unk2.elements, t) { out.push(&mut x.unk1); out.push(&mut x.unk2) }
            }
            out
        }
    }
} }
impl Stretch for Nlst { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> { let Nlst::V10 { file_names: f } = self; if (t.draw(2) == 1) || f.elements.is_empty() { vec![f] } else { vec![one(&mut f.elements, t).unwrap()] } } }
impl Stretch for Nrpd { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let Nrpd::V16 { frame_buffers, state_containers, render_passes, unk_string_list1, unk_string_list2, unk_list, unk9, .. } = self;
    let mut out: Places = vec![frame_buffers, state_containers, unk_string_list1, unk_string_list2, unk9];
    if (t.draw(2) == 1) { out.push(render_passes); out.push(unk_list) } else { if let Some(x) = one(&mut render_passes.elements, t) { out.push(&mut x.unk1); out.push(&mut x.unk2) } if let Some(x) = one(&mut unk_list.elements, t) { out.push(&mut x.unk2) } }
    out
} }
impl Stretch for Nufx { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let whole = t.draw(3) == 0;
    match self {
        Nufx::V0(n) => { let mut out: Places = vec![&mut n.unk_string_list]; if whole { out.push(&mut n.programs) } else if let Some(x) = one(&mut n.programs.elements, t) { out.push(&mut x.name); out.push(&mut x.material_parameters) } out }
        Nufx::V1(n) => { let mut out: Places = vec![&mut n.unk_string_list]; if whole { out.push(&mut n.programs) } else if let Some(x) = one(&mut n.programs.elements, t) { out.push(&mut x.name); out.push(&mut x.vertex_attributes); out.push(&mut x.material_parameters) } out }
    }
} }
impl Stretch for Shdr { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> { let Shdr::V12 { shaders: s } = self; if t.draw(3) == 0 || s.elements.is_empty() { vec![s] } else { let s = one(&mut s.elements, t).unwrap(); vec![&mut s.name, &mut s.shader_binary] } } }
impl Stretch for Adj { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> { if (t.draw(2) == 1) { vec![&mut self.index_buffer] } else { vec![&mut self.entries] } } }
impl Stretch for MeshEx { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let mut out: Places = vec![];
    if let Some(d) = self.all_data.as_mut() { if let Some(n) = d.name.as_mut() { out.push(n) } }
    if let Some(g) = self.mesh_object_groups.as_mut() {
        if (t.draw(2) == 1) || g.is_empty() { out.push(g) } else { let g = one(g, t).unwrap(); if let Some(n) = g.mesh_object_full_name.as_mut() { out.push(n) } if let Some(n) = g.mesh_object_name.as_mut() { out.push(n) } }
    }
    out
}
fn together(&mut self, t: &mut Tape, p: &gen::Params) -> bool {
    if t.draw(2) == 0 { return false }
    let (Some(e), Some(f)) = (self.entries.as_mut(), self.entry_flags.as_mut()) else { return false };
    list(&mut f.0, t, p);
    let n = f.0.len();
    if e.is_empty() { e.push(gen::arb_from(&[1, 2, 3, 4, 5, 6, 7, 8])) }
    let k = e.len();
    while e.len() < n { e.push(e[e.len() % k].clone()) }
    e.truncate(n);
    true
} }
impl Stretch for Ssbh { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> { match self {
    Ssbh::Hlpb(v) => v.data.places(t), Ssbh::Matl(v) => v.data.places(t), Ssbh::Modl(v) => v.data.places(t), Ssbh::Mesh(v) => v.data.places(t), Ssbh::Skel(v) => v.data.places(t),
    Ssbh::Anim(v) => v.data.places(t), Ssbh::Nlst(v) => v.data.places(t), Ssbh::Nrpd(v) => v.data.places(t), Ssbh::Nufx(v) => v.data.places(t), Ssbh::Shdr(v) => v.data.places(t),
} } }
impl Stretch for derived::Outer { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let mut out: Places = vec![&mut self.arr, &mut self.buf, &mut self.s, &mut self.s8, &mut self.es];
    if (t.draw(2) == 1) { out.push(&mut self.arr2) } else if let Some(x) = one(&mut self.arr2.elements, t) { out.push(&mut x.y) }
    if (t.draw(2) == 1) { out.push(&mut self.nested) } else if let Some(x) = one(&mut self.nested.elements, t) { out.push(x) }
    out
} }
impl Stretch for derived::Tree { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let mut out: Places = vec![&mut self.m];
    if t.draw(3) == 0 { out.push(&mut self.kids) } else if let Some(x) = one(&mut self.kids.elements, t) { out.push(&mut x.name); if (t.draw(2) == 1) { out.push(&mut x.bufs) } else if let Some(b) = one(&mut x.bufs.elements, t) { out.push(b) } }
    if let Some(l) = self.left.as_mut() { if let Some(c) = l.child.as_mut() { out.push(&mut c.v) } }
    if let Some(p) = self.p.as_mut() { out.push(p) }
    out
} }
impl Stretch for derived::Strs { fn places<'a>(&'a mut self, t: &mut Tape) -> Places<'a> {
    let mut out: Places = vec![&mut self.f];
    if (t.draw(2) == 1) { out.push(&mut self.a); out.push(&mut self.b) } else { if let Some(x) = one(&mut self.a.elements, t) { out.push(x) } if let Some(x) = one(&mut self.b.elements, t) { out.push(x) } }
    if let Some(c) = self.c.as_mut() { out.push(c) }
    if let Some(c) = self.d.as_mut() { out.push(c) }
    if let Some(c) = self.e.as_mut() { out.push(c) }
    out
} }
impl Stretch for derived::Packed { fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> {
    let mut out: Places = vec![&mut self.f, &mut self.g];
    if let Some(c) = self.c.as_mut() { out.push(c) }
    if let Some(d) = self.d.as_mut() { out.push(&mut d.y) }
    out
} }
impl Stretch for derived::Wide { fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> { vec![&mut self.a, &mut self.b, &mut self.c, &mut self.d, &mut self.e] } }
impl Stretch for derived::Prims { fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> { vec![&mut self.s, &mut self.t, &mut self.u, &mut self.y] } }
impl Stretch for derived::Places { fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> { vec![&mut self.t.3, &mut self.f.c, &mut self.f.d, &mut self.es, &mut self.ms] } }
impl Stretch for derived::AlignMid { fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> { vec![] } }
impl Stretch for derived::AlignEnd { fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> { vec![&mut self.s, &mut self.v] } }
impl Stretch for derived::Maybe {
    fn places<'a>(&'a mut self, _: &mut Tape) -> Places<'a> { vec![&mut self.pairs, &mut self.other.b] }
    fn together(&mut self, t: &mut Tape, p: &gen::Params) -> bool {
        if t.draw(3) == 0 { return false }
        if t.draw(2) == 0 { list(&mut self.list, t, p); self.count = self.list.len() as u32 }
        else if let Some(n) = self.names.as_mut() { list(n, t, p); n.truncate(65535); self.small = n.len() as u16 }
        true
    }
}

/// Sometimes a text or number somewhere in the value becomes one that the code under test mentions, or one at an edge.
pub fn reworded<A: serde::Serialize + serde::de::DeserializeOwned>(v: A, t: &mut Tape, p: &gen::Params) -> A {
    if p.size > 2 || !t.chance(1, 12) { return v }
    use serde_json::Value;
    fn leaves<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>, texts: bool) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, out, texts)),
            Value::Object(m) => m.values_mut().for_each(|x| leaves(x, out, texts)),
            Value::String(_) => if texts { out.push(v) },
            Value::Number(_) => if !texts { out.push(v) },
            _ => (),
        }
    }
    let tried = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| serde_json::to_value(&v)));
    let Ok(Ok(mut j)) = tried else { return v };
    let mut at = vec![];
    let texts = t.draw(2) == 1;
    leaves(&mut j, &mut at, texts);
    if at.is_empty() { return v }
    let i = t.usize(at.len());
    let was = at[i].clone();
    let mut tries: Vec<Value> = vec![];
    if texts { tries.push(if t.chance(2, 3) { dstrt::dict::text(t).unwrap_or_default() } else { gen::name(t) }.into()) }
    else if was.is_f64() { tries.push((if t.chance(2, 3) { dstrt::dict::float(t).unwrap_or(0.0) } else { *t.pick(&[0.0f32, -0.0, 1.0, -1.0, f32::MAX, 1e-42]) } as f64).into()) }
    else {
        let n = if t.chance(2, 3) { dstrt::dict::int(t).unwrap_or(1) } else { *t.pick(&[0u64, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, u64::MAX >> 1, u64::MAX]) };
        if t.chance(1, 4) { tries.push((n as i64).wrapping_neg().into()) }
        tries.extend([n, n & 0xffff_ffff, n & 0xffff, n & 0x7fff, n & 0xff, n & 0x7f].map(Value::from));
    }
    drop(at);
    for new in tries {
        let mut at = vec![];
        leaves(&mut j, &mut at, texts);
        *at[i] = new;
        let j = j.clone();
        if let Ok(Ok(n)) = std::panic::catch_unwind(move || serde_json::from_value::<A>(j)) { return n }
    }
    v
}

/// A value from shaped entropy, sometimes with one place grown.
pub fn gen<A: for<'a> Arbitrary<'a> + Stretch>(t: &mut Tape, p: &gen::Params) -> A {
    let mut v: A = gen::arb(t, p);
    if p.size >= 1 && t.chance(1, 48) {
        if v.together(t, p) { return v }
        let mut at = v.places(t);
        if !at.is_empty() { let i = t.usize(at.len()); at[i].grow(t, p) }
    }
    v
}
