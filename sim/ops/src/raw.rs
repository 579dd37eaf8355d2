use crate::{gen, Layer, T};
use dstrt::stream::SimStream;
use dstrt::tape::Tape;
pub use ssbh_lib::prelude::{Adj, Anim, Hlpb, Matl, Mesh, MeshEx, Modl, Nlst, Nrpd, Nufx, Shdr, Skel, Ssbh, SsbhFile};

macro_rules! raw {
    ($t:ty, $name:expr, $ext:expr, $tag:expr) => {
        impl T for $t {
            const NAME: &'static str = $name;
            const EXT: &'static str = $ext;
            const LAYER: Layer = Layer::Raw;
            const TAG: Option<[u8; 4]> = $tag;
            fn gen(t: &mut Tape, p: &gen::Params) -> Self { let v = crate::stretch::gen(t, p); crate::stretch::reworded(v, t, p) }
            fn save(&self, w: &mut SimStream) -> Result<(), String> { self.write(w).map_err(|e| format!("{e:?}")) }
            fn save_path(&self, p: &str) -> Result<(), String> { self.write_to_file(p).map_err(|e| format!("{e:?}")) }
            fn load(r: &mut SimStream) -> Result<Self, String> { Self::read(r).map_err(|e| format!("{e:?}")) }
            fn load_path(p: &str) -> Result<Self, String> { Self::from_file(p).map_err(|e| format!("{e:?}")) }
            fn equal(a: &Self, b: &Self) -> Option<bool> { Some(a == b) }
            crate::with_json!();
        }
    };
}
raw!(Hlpb, "Hlpb", "nuhlpb", Some(*b"BPLH"));
raw!(Matl, "Matl", "numatb", Some(*b"LTAM"));
raw!(Modl, "Modl", "numdlb", Some(*b"LDOM"));
raw!(Mesh, "Mesh", "numshb", Some(*b"HSEM"));
raw!(Skel, "Skel", "nusktb", Some(*b"LEKS"));
raw!(Anim, "Anim", "nuanmb", Some(*b"MINA"));
raw!(Nlst, "Nlst", "nulstb", Some(*b"TSLN"));
raw!(Nrpd, "Nrpd", "nurpdb", Some(*b"DPRN"));
raw!(Nufx, "Nufx", "nuflxb", Some(*b"XFUN"));
raw!(Shdr, "Shdr", "nushdb", Some(*b"RDHS"));
raw!(MeshEx, "MeshEx", "numshexb", None);
raw!(Adj, "Adj", "adjb", None);

impl T for SsbhFile {
    const NAME: &'static str = "SsbhFile";
    const EXT: &'static str = "bin";
    const LAYER: Layer = Layer::Raw;
    const TAG: Option<[u8; 4]> = None;
    fn gen(t: &mut Tape, p: &gen::Params) -> Self { let v = SsbhFile { data: crate::stretch::gen::<Ssbh>(t, p) }; crate::stretch::reworded(v, t, p) }
    fn save(&self, w: &mut SimStream) -> Result<(), String> { self.write(w).map_err(|e| format!("{e:?}")) }
    fn save_path(&self, p: &str) -> Result<(), String> { self.write_to_file(p).map_err(|e| format!("{e:?}")) }
    fn load(r: &mut SimStream) -> Result<Self, String> { Self::read(r).map_err(|e| format!("{e:?}")) }
    fn load_path(p: &str) -> Result<Self, String> { Self::from_file(p).map_err(|e| format!("{e:?}")) }
    crate::with_json!();
}
/// The tag the value of an any-type file belongs to.
pub fn tag_of(f: &SsbhFile) -> [u8; 4] {
    match &f.data {
        Ssbh::Hlpb(_) => *b"BPLH", Ssbh::Matl(_) => *b"LTAM", Ssbh::Modl(_) => *b"LDOM", Ssbh::Mesh(_) => *b"HSEM", Ssbh::Skel(_) => *b"LEKS",
        Ssbh::Anim(_) => *b"MINA", Ssbh::Nlst(_) => *b"TSLN", Ssbh::Nrpd(_) => *b"DPRN", Ssbh::Nufx(_) => *b"XFUN", Ssbh::Shdr(_) => *b"RDHS",
    }
}
macro_rules! each { ($f:expr, $v:ident => $e:expr) => { match &$f.data { Ssbh::Hlpb($v) => $e, Ssbh::Matl($v) => $e, Ssbh::Modl($v) => $e, Ssbh::Mesh($v) => $e, Ssbh::Skel($v) => $e,
    Ssbh::Anim($v) => $e, Ssbh::Nlst($v) => $e, Ssbh::Nrpd($v) => $e, Ssbh::Nufx($v) => $e, Ssbh::Shdr($v) => $e } } }
/// Saves the value of an any-type file through its typed writer.
pub fn typed_save(f: &SsbhFile, w: &mut SimStream) -> Result<(), String> { each!(f, v => v.data.write(w).map_err(|e| format!("{e:?}"))) }
pub fn typed_save_path(f: &SsbhFile, p: &str) -> Result<(), String> { each!(f, v => v.data.write_to_file(p).map_err(|e| format!("{e:?}"))) }
pub fn inner(f: &SsbhFile) -> &dyn std::any::Any { each!(f, v => &v.data) }
pub fn typed_text(f: &SsbhFile) -> String { each!(f, v => format!("{:?}", v.data)) }

/// The type tag and version a value must be labelled with, from the value alone.
pub fn label(v: &dyn std::any::Any) -> Option<([u8; 4], (u16, u16))> {
    use crate::data::*;
    use ssbh_lib::formats as f;
    if let Some(s) = v.downcast_ref::<SsbhFile>() { return label(inner(s)); }
    if v.is::<Hlpb>() { return Some((*b"BPLH", (1, 1))); }
    if let Some(m) = v.downcast_ref::<Matl>() { return Some((*b"LTAM", match m { f::matl::Matl::V15 { .. } => (1, 5), f::matl::Matl::V16 { .. } => (1, 6) })); }
    if v.is::<Modl>() { return Some((*b"LDOM", (1, 7))); }
    if let Some(m) = v.downcast_ref::<Mesh>() { return Some((*b"HSEM", match m { f::mesh::Mesh::V8(_) => (1, 8), f::mesh::Mesh::V9(_) => (1, 9), f::mesh::Mesh::V10(_) => (1, 10) })); }
    if v.is::<Skel>() { return Some((*b"LEKS", (1, 0))); }
    if let Some(m) = v.downcast_ref::<Anim>() { return Some((*b"MINA", match m { f::anim::Anim::V12 { .. } => (1, 2), f::anim::Anim::V20 { .. } => (2, 0), f::anim::Anim::V21 { .. } => (2, 1) })); }
    if v.is::<Nlst>() { return Some((*b"TSLN", (1, 0))); }
    if v.is::<Nrpd>() { return Some((*b"DPRN", (1, 6))); }
    if let Some(m) = v.downcast_ref::<Nufx>() { return Some((*b"XFUN", match m { f::nufx::Nufx::V0(_) => (1, 0), f::nufx::Nufx::V1(_) => (1, 1) })); }
    if v.is::<Shdr>() { return Some((*b"RDHS", (1, 2))); }
    if let Some(m) = v.downcast_ref::<MeshData>() { return Some((*b"HSEM", (m.major_version, m.minor_version))); }
    if let Some(m) = v.downcast_ref::<SkelData>() { return Some((*b"LEKS", (m.major_version, m.minor_version))); }
    if let Some(m) = v.downcast_ref::<MatlData>() { return Some((*b"LTAM", (m.major_version, m.minor_version))); }
    if let Some(m) = v.downcast_ref::<ModlData>() { return Some((*b"LDOM", (m.major_version, m.minor_version))); }
    if let Some(m) = v.downcast_ref::<HlpbData>() { return Some((*b"BPLH", (m.major_version, m.minor_version))); }
    if let Some(m) = v.downcast_ref::<crate::anim::AnimData>() { return Some((*b"MINA", (m.major_version, m.minor_version))); }
    None
}
/// Every type tag with the versions the library documents.
pub const TAGS: [([u8; 4], &[(u16, u16)]); 10] = [(*b"BPLH", &[(1, 1)]), (*b"LTAM", &[(1, 5), (1, 6)]), (*b"LDOM", &[(1, 7)]), (*b"HSEM", &[(1, 8), (1, 9), (1, 10)]), (*b"LEKS", &[(1, 0)]),
    (*b"MINA", &[(1, 2), (2, 0), (2, 1)]), (*b"TSLN", &[(1, 0)]), (*b"DPRN", &[(1, 6)]), (*b"XFUN", &[(1, 0), (1, 1)]), (*b"RDHS", &[(1, 2)])];
