//! Symbolic execution of generic numeric code, by instantiating it with a symbolic number.
pub mod arena;
pub mod ctx;
pub mod dom;
pub mod engine;
pub mod map;
pub mod nra;
pub mod props;
pub mod solver;
pub mod spec;
pub mod sym;


thread_local! { pub static SEED: std::cell::Cell<u8> = const { std::cell::Cell::new(0) }; }

/// std seeds its hash maps from the operating system; the symbolic run needs the same map
/// order on every run of a path. Every task has a seed of its own, so that the orders differ
/// between tasks; the order itself is not part of any claim.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.with(|s| s.get());
    for i in 0..len { *buf.add(i) = (i as u8).wrapping_mul(37).wrapping_add(s.wrapping_mul(101)).wrapping_add(11); }
    len as isize
}
