//! `metrohash`, except that short byte strings of the form "~<c>..." all have
//! the same hash, that depends on <c> only.  Hash collisions between the names
//! of directory entries exist anyway.  This makes them easy to come by.
use std::hash::Hasher;
#[derive(Default)]
pub struct MetroHash64 { real: realmetrohash::MetroHash64, forced: Option<u8> }
impl MetroHash64 {
    #[inline] pub fn new() -> Self { Self::default() }
    #[inline] pub fn with_seed(s: u64) -> Self { Self { real: realmetrohash::MetroHash64::with_seed(s), forced: None } }
}
impl Hasher for MetroHash64 {
    #[inline] fn write(&mut self, b: &[u8]) {
        if b.len() >= 3 && b.len() <= 24 && b[0] == b'~' { self.forced = Some(b[1]) }
        self.real.write(b)
    }
    #[inline] fn finish(&self) -> u64 {
        match self.forced {
            Some(c) => (c as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
            None => self.real.finish()
        }
    }
}
pub type MetroHash = MetroHash64;
pub type MetroBuildHasher = std::hash::BuildHasherDefault<MetroHash64>;
