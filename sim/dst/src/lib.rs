//! Deterministic-simulation core: PRNG, choices, baton scheduler, JSON, reports.
pub mod baton;
pub mod child;
pub mod json;
pub mod report;
pub mod rng;

pub use json::Json;
pub use rng::{Chooser, Rng};

/// FNV-1a, used to hash event logs.
#[derive(Clone, Copy, Debug)]
pub struct Fnv(pub u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}

impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ u64::from(x)).wrapping_mul(0x100000001b3);
        }
    }
    pub fn num(&mut self, n: u64) {
        self.bytes(&n.to_le_bytes());
    }
    pub fn str(&mut self, s: &str) {
        self.num(s.len() as u64);
        self.bytes(s.as_bytes());
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut f = Fnv::default();
    f.str(s);
    f.0
}
