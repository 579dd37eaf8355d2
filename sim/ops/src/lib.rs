//! Instantiates the code under test over simulated streams, behind object-safe interfaces. Instrumented.
#![allow(clippy::all)]
pub mod anim;
pub mod data;
pub mod derived;
pub mod gen;
pub mod invalid;
pub mod raw;
pub mod rearrange;
pub mod stretch;

use dstrt::stream::SimStream;
use dstrt::tape::Tape;
use std::any::Any;
use std::fmt::{Debug, Write};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Layer { Raw, Data, Derived }

/// A value of one of the types under test.
pub trait Val: Send + Sync {
    fn save(&self, w: &mut SimStream) -> Result<(), String>;
    fn save_path(&self, p: &str) -> Result<(), String>;
    fn debug(&self, w: &mut dyn Write);
    fn any(&self) -> &dyn Any;
    /// As the JSON tools write it.
    fn json(&self) -> Option<Result<String, String>>;
    /// Do the conversions between the layers, of borrowed and of owned values, agree with saving and loading?
    fn routes(&self) -> Result<(), String>;
    /// A changed copy (one more step of an editing history).
    fn edit(&self, t: &mut Tape) -> Box<dyn Val>;
}
impl dyn Val {
    pub fn digest(&self) -> u64 { let mut h = dstrt::H::new(); self.debug(&mut h); h.0 }
    pub fn text(&self) -> String { let mut s = String::new(); self.debug(&mut s); s }
    /// Bytes on a perfect stream.
    pub fn bytes(&self) -> Result<Vec<u8>, String> { let mut w = SimStream::writer(); self.save(&mut w)?; Ok(w.data) }
}
/// A type under test.
pub trait Kind: Sync {
    fn name(&self) -> &'static str;
    fn ext(&self) -> &'static str;
    fn layer(&self) -> Layer;
    /// The file type tag for SSBH types, None for the others.
    fn tag(&self) -> Option<[u8; 4]>;
    fn gen(&self, t: &mut Tape, p: &gen::Params) -> Box<dyn Val>;
    fn load(&self, r: &mut SimStream) -> Result<Box<dyn Val>, String>;
    fn load_path(&self, p: &str) -> Result<Box<dyn Val>, String>;
    /// Is `got` what reloading `want` must give? `gens` counts save and load generations in between.
    fn same(&self, want: &dyn Val, got: &dyn Val, gens: usize) -> Result<(), String>;
    /// What the type's own `==` says, where it has one.
    fn equal(&self, a: &dyn Val, b: &dyn Val) -> Option<bool>;
    /// As the JSON tools read it.
    fn from_json(&self, j: &str) -> Option<Result<Box<dyn Val>, String>>;
    /// Can the raw value travel through JSON (text strings, finite floats)?
    fn has_paths(&self) -> bool { true }
}

/// Implemented per type; `Kind` and `Val` follow.
pub trait T: Sized + Send + Sync + Debug + 'static {
    const NAME: &'static str;
    const EXT: &'static str;
    const LAYER: Layer;
    const TAG: Option<[u8; 4]>;
    const PATHS: bool = true;
    fn gen(t: &mut Tape, p: &gen::Params) -> Self;
    fn save(&self, w: &mut SimStream) -> Result<(), String>;
    fn save_path(&self, p: &str) -> Result<(), String>;
    fn load(r: &mut SimStream) -> Result<Self, String>;
    fn load_path(p: &str) -> Result<Self, String>;
    fn same(want: &Self, got: &Self, _gens: usize) -> Result<(), String> {
        let (a, b) = (format!("{want:?}"), format!("{got:?}"));
        if a == b { Ok(()) } else { Err(first_difference(&a, &b)) }
    }
    fn equal(_: &Self, _: &Self) -> Option<bool> { None }
    fn json(&self) -> Option<Result<String, String>> { None }
    fn routes(&self) -> Result<(), String> { Ok(()) }
    fn from_json(_j: &str) -> Option<Result<Self, String>> { None }
    fn edit(&self, t: &mut Tape) -> Self { Self::gen(t, &gen::Params::small()) }
}
macro_rules! with_json { () => {
    fn json(&self) -> Option<Result<String, String>> { Some(serde_json::to_string_pretty(self).map_err(|e| format!("{e:?}"))) }
    fn from_json(j: &str) -> Option<Result<Self, String>> { Some(serde_json::from_str(j).map_err(|e| format!("{e:?}"))) }
} }
pub(crate) use with_json;
pub fn first_difference(a: &str, b: &str) -> String {
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let cut = |s: &str| { let (mut f, mut e) = (n.saturating_sub(60), (n + 60).min(s.len())); while !s.is_char_boundary(f) { f -= 1 } while !s.is_char_boundary(e) { e += 1 } s[f..e].to_string() };
    format!("differs at {n}: wrote ..{}.. read ..{}..", cut(a), cut(b))
}
pub(crate) struct V<X>(pub X);
impl<X: T> Val for V<X> {
    fn save(&self, w: &mut SimStream) -> Result<(), String> { self.0.save(w) }
    fn save_path(&self, p: &str) -> Result<(), String> { self.0.save_path(p) }
    fn debug(&self, mut w: &mut dyn Write) { let _ = write!(&mut w, "{:?}", self.0); }
    fn any(&self) -> &dyn Any { &self.0 }
    fn json(&self) -> Option<Result<String, String>> { self.0.json() }
    fn routes(&self) -> Result<(), String> { self.0.routes() }
    fn edit(&self, t: &mut Tape) -> Box<dyn Val> { Box::new(V(self.0.edit(t))) }
}
struct K<X>(std::marker::PhantomData<fn() -> X>);
impl<X: T> Kind for K<X> {
    fn name(&self) -> &'static str { X::NAME }
    fn ext(&self) -> &'static str { X::EXT }
    fn layer(&self) -> Layer { X::LAYER }
    fn tag(&self) -> Option<[u8; 4]> { X::TAG }
    fn has_paths(&self) -> bool { X::PATHS }
    fn gen(&self, t: &mut Tape, p: &gen::Params) -> Box<dyn Val> { Box::new(V(X::gen(t, p))) }
    fn load(&self, r: &mut SimStream) -> Result<Box<dyn Val>, String> { X::load(r).map(|v| Box::new(V(v)) as Box<dyn Val>) }
    fn load_path(&self, p: &str) -> Result<Box<dyn Val>, String> { X::load_path(p).map(|v| Box::new(V(v)) as Box<dyn Val>) }
    fn from_json(&self, j: &str) -> Option<Result<Box<dyn Val>, String>> { X::from_json(j).map(|r| r.map(|v| Box::new(V(v)) as Box<dyn Val>)) }
    fn equal(&self, a: &dyn Val, b: &dyn Val) -> Option<bool> { X::equal(a.any().downcast_ref::<X>()?, b.any().downcast_ref::<X>()?) }
    fn same(&self, a: &dyn Val, b: &dyn Val, gens: usize) -> Result<(), String> {
        match (a.any().downcast_ref::<X>(), b.any().downcast_ref::<X>()) { (Some(a), Some(b)) => X::same(a, b, gens), _ => Err("type".into()) }
    }
}
macro_rules! kinds { ($($t:ty),* $(,)?) => { [$( &K::<$t>(std::marker::PhantomData) as &'static dyn Kind ),*] } }

pub static RAW: [&dyn Kind; 13] = kinds![
    raw::Hlpb, raw::Matl, raw::Modl, raw::Mesh, raw::Skel, raw::Anim, raw::Nlst, raw::Nrpd, raw::Nufx, raw::Shdr,
    raw::MeshEx, raw::Adj, raw::SsbhFile,
];
pub static DATA: [&dyn Kind; 8] = kinds![
    ssbh_data::mesh_data::MeshData, ssbh_data::skel_data::SkelData, ssbh_data::matl_data::MatlData, ssbh_data::modl_data::ModlData,
    ssbh_data::hlpb_data::HlpbData, ssbh_data::adj_data::AdjData, ssbh_data::meshex_data::MeshExData, ssbh_data::anim_data::AnimData,
];
pub static DERIVED: [&dyn Kind; 9] = kinds![derived::Outer, derived::Tree, derived::Strs, derived::Packed, derived::Wide, derived::Prims, derived::Places, derived::Maybe, derived::AlignEnd];
/// A type that does not come back (known_findings.txt).
pub static ALIGN_MID: [&dyn Kind; 1] = kinds![derived::AlignMid];
/// Readers without a writer: conversions applied to what the typed reader returned.
pub static READONLY: [&dyn Kind; 2] = kinds![data::ShdrRead, data::MetaRead];

/// Must saving succeed? Generated values (`valid`) are within every documented limit, except as listed here.
pub fn must_save(v: &dyn Val) -> bool {
    let a = v.any();
    // The number of entries and of entry flags are stored once.
    if let Some(m) = a.downcast_ref::<raw::MeshEx>() { return m.entries.as_ref().map(|e| e.len()).unwrap_or(0) == m.entry_flags.as_ref().map(|e| e.0.len()).unwrap_or(0); }
    if let Some(s) = a.downcast_ref::<data::SkelData>() { return s.bones.iter().all(|b| b.parent_index.unwrap_or(0) <= i16::MAX as usize); }
    if let Some(s) = a.downcast_ref::<data::AdjData>() { return s.entries.iter().all(|e| e.mesh_object_index <= u32::MAX as usize); }
    // Two byte pointers do not reach far.
    if a.is::<derived::Packed>() { return false; }
    true
}
pub fn all() -> Vec<&'static dyn Kind> { RAW.iter().chain(&DATA).chain(&DERIVED).copied().collect() }
pub fn readers() -> Vec<&'static dyn Kind> { RAW.iter().chain(&DATA).chain(&DERIVED).chain(&READONLY).copied().collect() }
pub fn by_name(n: &str) -> Option<&'static dyn Kind> { readers().into_iter().find(|k| k.name() == n) }
