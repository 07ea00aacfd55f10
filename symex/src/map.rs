//! Hash maps of the engine itself: no random state, so that they do not disturb the seeds of the
//! maps of the code under test.
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Fx { fn put(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95); } }
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut w = [0; 8]; w[..c.len()].copy_from_slice(c); self.put(u64::from_le_bytes(w)); } }
    fn write_u8(&mut self, x: u8) { self.put(x as u64) }
    fn write_u32(&mut self, x: u32) { self.put(x as u64) }
    fn write_u64(&mut self, x: u64) { self.put(x) }
    fn write_usize(&mut self, x: usize) { self.put(x as u64) }
    fn write_i128(&mut self, x: i128) { self.put(x as u64); self.put((x >> 64) as u64) }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
