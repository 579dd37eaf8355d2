//! The supported binary formats for reading and writing.
//! All the supported formats are SSBH formats except for [adj] and [meshex].

pub mod adj;
pub mod anim;
pub mod hlpb;
pub mod matl;
pub mod mesh;
pub mod meshex;
pub mod modl;
pub mod nlst;
pub mod nrpd;
pub mod nufx;
pub mod shdr;
pub mod skel;
