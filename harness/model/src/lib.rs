//! Reference models, oracles and generators. Does not depend on the library under test.
pub mod ast;
pub mod extend;
pub mod gener;
pub mod genmodel;
pub mod oracle;
pub mod reader;
pub mod tape;
pub mod tree;

use std::hash::{Hash, Hasher};

/// FNV-style hasher with a final mix: stable across runs and builds.
pub struct Stable(u64);
impl Default for Stable {
    fn default() -> Self {
        Stable(0xcbf2_9ce4_8422_2325)
    }
}
impl Hasher for Stable {
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        tape::mix(self.0)
    }
}
pub fn hash_of<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = Stable::default();
    v.hash(&mut h);
    h.finish()
}
