//! User-defined types built from the library's building blocks and the derive macros.
use crate::{gen, Layer, T};
use arbitrary::Arbitrary;
use binrw::BinRead;
use dstrt::stream::SimStream;
use dstrt::tape::Tape;
use ssbh_lib::{CString, CString1, Color4f, DataType, Matrix3x3, Matrix4x4, Ptr16, Ptr32, Ptr64, RelPtr64, SsbhArray, SsbhByteBuffer, SsbhEnum64,
    SsbhString, SsbhString8, Vector3, Vector4};
use ssbh_write::SsbhWrite;

macro_rules! derived {
    ($t:ty, $name:expr) => {
        impl T for $t {
            const NAME: &'static str = $name;
            const EXT: &'static str = "bin";
            const LAYER: Layer = Layer::Derived;
            const TAG: Option<[u8; 4]> = None;
            const PATHS: bool = false;
            fn gen(t: &mut Tape, p: &gen::Params) -> Self { crate::stretch::gen(t, p) }
            fn save(&self, w: &mut SimStream) -> Result<(), String> { SsbhWrite::write(self, w).map_err(|e| format!("{e:?}")) }
            fn save_path(&self, p: &str) -> Result<(), String> {
                let mut w = SimStream::writer();
                self.save(&mut w)?;
                std::fs::write(p, w.data).map_err(|e| format!("{e:?}"))
            }
            fn load(r: &mut SimStream) -> Result<Self, String> { <$t>::read_le(r).map_err(|e| format!("{e:?}")) }
            fn load_path(p: &str) -> Result<Self, String> {
                let b = std::fs::read(p).map_err(|e| format!("{e:?}"))?;
                <$t>::read_le(&mut std::io::Cursor::new(b)).map_err(|e| format!("{e:?}"))
            }
        }
    };
}

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Leaf { pub a: u8, pub b: u16, pub c: u32, pub d: u64, pub e: i8, pub f: f32, pub g: f64 }

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[ssbhwrite(alignment = 16)]
pub struct Aligned { pub x: u32, pub y: SsbhString }

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[ssbhwrite(pad_after = 3)]
pub struct Padded { pub x: u8, #[br(pad_after = 3)] pub y: u32 }

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[ssbhwrite(magic = b"MAGI")]
#[br(magic = b"MAGI")]
pub struct Magic { pub x: RelPtr64<u16>, pub y: u8 }

#[derive(Debug, Clone, Copy, BinRead, SsbhWrite, Arbitrary)]
#[br(repr(u32))]
#[ssbhwrite(repr(u32))]
pub enum Repr { A = 1, B = 5, C = 0xFFFF_FFFF }

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[br(import(data_type: u64))]
pub enum Choice {
    #[br(pre_assert(data_type == 1u64))]
    Float(f32),
    #[br(pre_assert(data_type == 2u64))]
    Text(SsbhString),
    #[br(pre_assert(data_type == 7u64))]
    Pair { x: u64, y: SsbhArray<u16> },
    #[br(pre_assert(data_type == 9u64))]
    Leaf(Leaf),
    #[br(pre_assert(data_type == 10u64))]
    Vec(Vector4),
}
impl DataType for Choice {
    fn data_type(&self) -> u64 { match self { Choice::Float(_) => 1, Choice::Text(_) => 2, Choice::Pair { .. } => 7, Choice::Leaf(_) => 9, Choice::Vec(_) => 10 } }
}

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Outer {
    pub head: Leaf,
    pub rel: RelPtr64<Leaf>,
    pub relrel: RelPtr64<RelPtr64<SsbhString8>>,
    pub arr: SsbhArray<u8>,
    pub arr2: SsbhArray<Aligned>,
    pub nested: SsbhArray<SsbhArray<RelPtr64<Leaf>>>,
    pub buf: SsbhByteBuffer,
    pub s: SsbhString,
    pub s8: SsbhString8,
    pub e: SsbhEnum64<Choice>,
    pub es: SsbhArray<SsbhEnum64<Choice>>,
    pub tail: u16,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Tree {
    pub id: u32,
    pub left: RelPtr64<Sub>,
    pub right: RelPtr64<Sub>,
    pub kids: SsbhArray<Sub>,
    pub m: SsbhArray<Magic>,
    pub p: RelPtr64<SsbhArray<SsbhString>>,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Sub {
    pub w: u16,
    pub name: SsbhString,
    pub child: RelPtr64<Sub2>,
    pub bufs: SsbhArray<SsbhByteBuffer>,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Sub2 { pub v: SsbhArray<Vector3>, pub c: Color4f, pub m: RelPtr64<Matrix4x4>, pub n: Matrix3x3, pub last: u8 }

#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Strs {
    pub a: SsbhArray<SsbhString>,
    pub b: SsbhArray<SsbhString8>,
    pub c: RelPtr64<CString1>,
    pub d: RelPtr64<CString<16>>,
    pub e: Ptr64<CString<4>>,
    pub f: SsbhArray<RelPtr64<SsbhString>>,
    pub g: Repr,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Packed {
    pub a: Padded,
    pub r: Repr,
    pub b: Ptr16<Leaf>,
    pub c: Ptr32<SsbhArray<u16>>,
    pub d: Ptr64<Aligned>,
    pub e: [Repr; 3],
    pub f: SsbhArray<Repr>,
    pub g: SsbhArray<Padded>,
    pub h: Ptr32<[u16; 4]>,
    pub i: Ptr16<u8>,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Wide {
    pub a: SsbhArray<u64>,
    pub b: SsbhArray<u8>,
    pub c: SsbhByteBuffer,
    pub d: SsbhArray<RelPtr64<u16>>,
    pub e: SsbhArray<Leaf>,
    pub z: u32,
}
derived!(Outer, "derived.Outer");
derived!(Tree, "derived.Tree");
derived!(Strs, "derived.Strs");
derived!(Packed, "derived.Packed");
derived!(Wide, "derived.Wide");

// ------------------------------------------------------------------ every primitive, and every place an attribute can stand
use std::num::{NonZeroI128, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI8, NonZeroU128, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU8};
macro_rules! nonzero { ($($f:ident: $t:ty = $i:ty),*) => {
    /// The library writes them; reading goes through the plain integer.
    #[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
    pub struct NonZeros { $( #[br(try_map = |x: $i| <$t>::new(x).ok_or("zero"))] pub $f: $t ),* }
} }
nonzero!(a: NonZeroU8 = u8, b: NonZeroU16 = u16, c: NonZeroU32 = u32, d: NonZeroU64 = u64, e: NonZeroU128 = u128,
    f: NonZeroI8 = i8, g: NonZeroI16 = i16, h: NonZeroI32 = i32, i: NonZeroI64 = i64, j: NonZeroI128 = i128);
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Prims {
    pub a: u128, pub b: i128, pub c: i16, pub d: i32, pub e: i64, pub f: f64, pub g: i8,
    pub unit: (),
    pub nz: NonZeros,
    pub p: RelPtr64<u128>,
    pub q: RelPtr64<NonZeros>,
    pub s: SsbhArray<i128>,
    pub t: SsbhArray<f64>,
    pub u: SsbhArray<NonZeros>,
    pub v: [Leaf; 2],
    pub w: [RelPtr64<i16>; 3],
    pub x: RelPtr64<()>,
    pub y: SsbhArray<[u16; 3]>,
    pub z: [u8; 0],
    pub last: i64,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[br(magic = b"TU")]
#[ssbhwrite(magic = b"TU", pad_after = 2)]
pub struct Tuple(pub u8, #[br(pad_after = 3)] #[ssbhwrite(pad_after = 3)] pub u16, pub RelPtr64<Leaf>, pub SsbhString, #[br(pad_after = 2)] pub u8);
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct PadFields {
    #[br(pad_after = 5)] #[ssbhwrite(pad_after = 5)] pub a: u16,
    #[br(pad_after = 8)] #[ssbhwrite(pad_after = 8)] pub b: RelPtr64<SsbhString>,
    pub c: SsbhArray<Tuple>,
    #[br(pad_after = 1)] #[ssbhwrite(pad_after = 1)] pub d: SsbhByteBuffer,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[br(import(data_type: u64))]
pub enum Cases {
    #[br(pre_assert(data_type == 0u64))]
    #[ssbhwrite(pad_after = 4)]
    One(u32, #[br(pad_after = 4)] RelPtr64<u16>),
    #[br(pre_assert(data_type == 3u64))]
    #[ssbhwrite(pad_after = 6)]
    Named { a: u16, #[br(pad_after = 3)] #[ssbhwrite(pad_after = 3)] b: u8, #[br(pad_after = 6)] c: SsbhString8 },
    #[br(pre_assert(data_type == 4u64))]
    Nested(SsbhArray<Tuple>, Leaf, #[br(pad_after = 2)] #[ssbhwrite(pad_after = 2)] u16),
    #[br(pre_assert(data_type == u64::MAX))]
    Unit(()),
}
impl DataType for Cases { fn data_type(&self) -> u64 { match self { Cases::One(..) => 0, Cases::Named { .. } => 3, Cases::Nested(..) => 4, Cases::Unit(_) => u64::MAX } } }
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[br(magic = b"KIND")]
#[ssbhwrite(magic = b"KIND", pad_after = 1)]
pub enum Marked { A(RelPtr64<u8>, #[br(pad_after = 1)] u32) }
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Places {
    pub t: Tuple,
    pub f: PadFields,
    pub e: SsbhEnum64<Cases>,
    pub es: SsbhArray<SsbhEnum64<Cases>>,
    pub m: Marked,
    pub ms: SsbhArray<Marked>,
    pub p: RelPtr64<PadFields>,
    pub ts: Ptr64<[Tuple; 2]>,
    pub z: u8,
}
/// Parts that are there or not, and lists with their count stored elsewhere.
#[derive(Debug, BinRead, SsbhWrite)]
pub struct Maybe {
    pub has: u8,
    #[br(if(has & 1 != 0))] pub a: Option<Leaf>,
    #[br(if(has & 2 != 0))] pub b: Option<RelPtr64<SsbhString>>,
    #[br(if(has & 4 != 0))] pub c: Option<SsbhArray<Tuple>>,
    pub count: u32,
    #[br(count = count)] pub list: Vec<Aligned>,
    pub small: u16,
    #[br(count = small)] pub names: RelPtr64<Vec<SsbhString>>,
    pub pairs: SsbhArray<Both<u16, RelPtr64<u32>>>,
    pub other: Both<Repr, SsbhArray<u8>>,
    pub end: u32,
}
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct Both<A: for<'x> BinRead<Args<'x> = ()> + SsbhWrite, B: for<'x> BinRead<Args<'x> = ()> + SsbhWrite> { pub a: A, pub b: B, pub c: u8 }
impl<'a> Arbitrary<'a> for Maybe {
    fn arbitrary(u: &mut arbitrary::Unstructured<'a>) -> arbitrary::Result<Self> {
        let has = u.arbitrary::<u8>()?;
        let a = if has & 1 != 0 { Some(u.arbitrary()?) } else { None };
        let b = if has & 2 != 0 { Some(u.arbitrary()?) } else { None };
        let c = if has & 4 != 0 { Some(u.arbitrary()?) } else { None };
        let list: Vec<Aligned> = u.arbitrary()?;
        let names: Vec<SsbhString> = u.arbitrary()?;
        Ok(Maybe { has, a, b, c, count: list.len() as u32, small: names.len() as u16, list, names: RelPtr64::new(names), pairs: u.arbitrary()?, other: u.arbitrary()?, end: u.arbitrary()? })
    }
}
derived!(Prims, "derived.Prims");
derived!(Places, "derived.Places");
derived!(Maybe, "derived.Maybe");

/// Alignment in the middle of a structure with offsets (see known_findings.txt); not among the types of the histories.
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
pub struct AlignMid { #[br(align_after = 4)] #[ssbhwrite(align_after = 4)] pub a: u8, pub p: RelPtr64<u8>, pub z: u64 }
derived!(AlignMid, "derived.AlignMid");
/// The same alignment where the library uses it, at the end.
#[derive(Debug, BinRead, SsbhWrite, Arbitrary)]
#[ssbhwrite(align_after = 8)]
pub struct AlignEnd { pub a: u8, pub p: RelPtr64<u8>, pub s: SsbhString, pub v: SsbhArray<Aligned>, pub z: u32 }
derived!(AlignEnd, "derived.AlignEnd");
