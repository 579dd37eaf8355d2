#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! Simulation runtime: everything nondeterministic goes through this crate.
pub mod alloc;
pub mod cov;
pub mod dict;
pub mod disk;
pub mod env;
pub mod sched;
pub mod stream;
pub mod sys;
pub mod tape;

/// FNV-1a style 64 bit mixing used for digests and state signatures.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl Default for H { fn default() -> Self { Self::new() } }
impl H {
    pub fn new() -> H { H(0xcbf29ce484222325) }
    pub fn u(&mut self, v: u64) {
        let mut x = self.0 ^ v.wrapping_mul(0x9E3779B97F4A7C15);
        x = (x ^ (x >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        self.0 = x ^ (x >> 32);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u(u64::from_le_bytes(w));
        }
    }
}
impl std::fmt::Write for H {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        // Independent of how the text is cut into pieces.
        for b in s.bytes() { self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3); }
        Ok(())
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 { let mut h = H::new(); h.bytes(b); h.0 }
