//! The Hilbert sort key, from the source file itself: the module is private to the crate.
pub use magog::{planar, Coordinate};
#[allow(dead_code)]
#[path = "/repo/src/flatbush/hilbert.rs"]
mod hilbert;
use fx::Src;
use hilbert::Hilbert;
use magog::planar::primitives::{Envelope, Position};
type S<'a> = &'a mut dyn Src;

/// One step of the curve's definition, for the cells of the 2^k x 2^k corner: which quadrant of it,
/// and the place within the quadrant, after turning it to where the curve of half the size is.
/// (Seen from outside, the curve of an odd number of halvings is the mirror image.)
/// From the first cell and all these steps the index of every cell follows by induction on k.
fn step(s: S, k: u32) {
    let h = |x: u32, y: u32| Hilbert::<f64>::hilbert_normalized(x, y);
    assert!(h(0, 0) == 0, "the first cell is not the first");
    let w = s.bits();
    let m = (1u32 << k) - 1;
    let (x, y) = ((w as u32) & m, (w >> 16) as u32 & m);
    let (mut a, mut b) = if k % 2 == 0 { (x, y) } else { (y, x) };
    let t = m >> 1;
    let (rx, ry) = (a > t, b > t);
    a &= t;
    b &= t;
    if !ry {
        if rx { a = t - a; b = t - b; }
        std::mem::swap(&mut a, &mut b);
    }
    let q = (3 * rx as u32) ^ ry as u32;
    let rest = if k % 2 == 1 { h(a, b) } else { h(b, a) };
    assert!(h(x, y) == q << (2 * (k - 1)) | rest, "the index of a cell is not its place along the curve");
}
pub fn c07_steps1(s: S) { for k in 1..=8 { step(s, k) } }
pub fn c07_steps2(s: S) { for k in 9..=12 { step(s, k) } }
pub fn c07_steps3(s: S) { for k in 13..=14 { step(s, k) } }
pub fn c07_steps4(s: S) { step(s, 15) }
pub fn c07_steps5(s: S) { step(s, 16) }

fn pos(s: S) -> Position<f64> { let x = s.f(); let y = s.f(); Position::new(x, y) }
/// any box and any position, with any coordinates, NaN and infinities included
pub fn c07_total(s: S) {
    let (a, b, p) = (pos(s), pos(s), pos(s));
    let e = if s.bit() { Envelope::empty() } else { Envelope::new(a, b) };
    let h = Hilbert::new(e);
    assert!(h.safe_hilbert(None) == u32::MAX, "nothing is not put at the end");
    let k = h.safe_hilbert(Some(p));
    let inside = match e {
        Envelope::Empty => false,
        Envelope::Bounds { min, max } => min.x <= p.x && p.x <= max.x && min.y <= p.y && p.y <= max.y,
    };
    if !inside { assert!(k == u32::MAX, "a position outside of the box is not put at the end"); }
}
/// the lower left corner is in the first cell
pub fn c07_first(s: S) {
    let (a, b) = (pos(s), pos(s));
    for p in [a, b] { s.assume(p.x.is_finite() && p.y.is_finite()); }
    let h = Hilbert::new(Envelope::new(a, b));
    let p = Position::new(a.x.min(b.x), a.y.min(b.y));
    assert!(h.safe_hilbert(Some(p)) == 0, "the lower left corner is not in the first cell");
}
/// boxes of 65535 by 65535: one cell for every unit
pub fn c07_unit(s: S) {
    let w = s.bits();
    let (x, y) = ((w & 0xffff) as u32, (w >> 16 & 0xffff) as u32);
    let h = Hilbert::new(Envelope::new(Position::new(0.0, 0.0), Position::new(65535.0, 65535.0)));
    assert!(h.hilbert(Position::new(x as f64, y as f64)) == Hilbert::<f64>::hilbert_normalized(x, y), "a position is not in its cell");
}

fx::harnesses!(c07_steps1, c07_steps2, c07_steps3, c07_steps4, c07_steps5, c07_total, c07_first, c07_unit);
