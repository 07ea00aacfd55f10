//! Properties that consist of comparisons only, over every f64 there is: bit-precise, by Kani.
//! Each harness takes its inputs from a source: arbitrary values under Kani, given bytes when a
//! counterexample is replayed.
use magog::linear::primitives as lp;
use magog::planar::primitives::*;

pub trait Src {
    fn bits(&mut self) -> u64;
    fn bit(&mut self) -> bool;
    fn assume(&mut self, b: bool);
    fn f(&mut self) -> f64 { f64::from_bits(self.bits()) }
}
type S<'a> = &'a mut dyn Src;
type P = Position<f64>;
type L = lp::Position<f64>;

fn pos(s: S) -> P { let x = s.f(); let y = s.f(); Position::new(x, y) }
/// a number that is not NaN
fn num(s: S) -> f64 { let x = s.f(); s.assume(!x.is_nan()); x }
fn npos(s: S) -> P { let x = num(s); let y = num(s); Position::new(x, y) }
fn lo(a: f64, b: f64) -> f64 { if a < b { a } else { b } }
fn hi(a: f64, b: f64) -> f64 { if a > b { a } else { b } }
fn fin(a: f64) -> bool { a - a == 0.0 }

/// the closed rectangle a box should be; None: empty
type R = Option<(f64, f64, f64, f64)>;
fn rect(a: P, b: P) -> R { Some((lo(a.x, b.x), lo(a.y, b.y), hi(a.x, b.x), hi(a.y, b.y))) }
fn join(a: R, b: R) -> R {
    match (a, b) {
        (None, r) | (r, None) => r,
        (Some(a), Some(b)) => Some((lo(a.0, b.0), lo(a.1, b.1), hi(a.2, b.2), hi(a.3, b.3))),
    }
}
fn is(e: &Envelope<f64>, r: R) -> bool {
    match (*e, r) {
        (Envelope::Empty, None) => true,
        (Envelope::Bounds { min, max }, Some(r)) => min.x == r.0 && min.y == r.1 && max.x == r.2 && max.y == r.3,
        _ => false,
    }
}
/// a box, and the rectangle it should be
fn boxed(s: S) -> (Envelope<f64>, R) {
    if s.bit() { return (Envelope::empty(), None); }
    let (a, b) = (npos(s), npos(s));
    (Envelope::new(a, b), rect(a, b))
}

// ---------------------------------------------------------------- C08
pub fn c08_new(s: S) {
    let (a, b) = (npos(s), npos(s));
    let (e, r) = (Envelope::new(a, b), rect(a, b));
    assert!(is(&e, r), "new");
    assert!(is(&a.envelope(), rect(a, a)), "envelope of a position");
    assert!(!e.is_empty() && Envelope::<f64>::empty().is_empty(), "is_empty");
    let r = r.unwrap();
    assert!(e.min() == Some(Position::new(r.0, r.1)) && e.max() == Some(Position::new(r.2, r.3)), "min, max");
    let v = [a, b];
    assert!(is(&Envelope::of(v.iter()), Some(r)), "of");
}
pub fn c08_validate(s: S) {
    let (min, max) = (pos(s), pos(s));
    let e = Envelope::Bounds { min, max };
    let want = fin(min.x) && fin(min.y) && fin(max.x) && fin(max.y) && min.x <= max.x && min.y <= max.y;
    assert!(e.validate().is_ok() == want, "validate");
}
pub fn c08_position(s: S) {
    let (e, r) = boxed(s);
    let p = npos(s);
    let want = match r { None => false, Some(r) => r.0 <= p.x && p.x <= r.2 && r.1 <= p.y && p.y <= r.3 };
    assert!(e.contains(p) == want, "contains a position");
    let mut g = e;
    g.expand(p);
    assert!(is(&g, join(r, rect(p, p))) && is(&e.merge(p), join(r, rect(p, p))), "with a position");
}
pub fn c08_pair(s: S) {
    let ((e, r), (f, q)) = (boxed(s), boxed(s));
    let (contains, meets) = match (r, q) {
        (Some(r), Some(q)) => (r.0 <= q.0 && q.2 <= r.2 && r.1 <= q.1 && q.3 <= r.3, r.0 <= q.2 && q.0 <= r.2 && r.1 <= q.3 && q.1 <= r.3),
        _ => (false, false),
    };
    if r.is_some() && q.is_some() { assert!(e.contains(f) == contains, "contains a box"); }
    assert!(e.intersects(f) == meets, "intersects");
    let mut g = e;
    g.expand(f);
    let v = [e, f];
    assert!(is(&g, join(r, q)), "expand");
    assert!(is(&e.merge(f), join(r, q)), "merge");
    assert!(is(&Envelope::of(v.iter()), join(r, q)), "of");
}

// ---------------------------------------------------------------- C09
type I = Option<(f64, f64)>;
fn lis(e: &lp::Envelope<f64>, r: I) -> bool {
    match (*e, r) {
        (lp::Envelope::Empty, None) => true,
        (lp::Envelope::Bounds { min, max }, Some(r)) => min.x == r.0 && max.x == r.1,
        _ => false,
    }
}
fn ljoin(a: I, b: I) -> I {
    match (a, b) { (None, r) | (r, None) => r, (Some(a), Some(b)) => Some((lo(a.0, b.0), hi(a.1, b.1))) }
}
fn lboxed(s: S) -> (lp::Envelope<f64>, I) {
    if s.bit() { return (lp::Envelope::empty(), None); }
    let (a, b) = (num(s), num(s));
    (lp::Envelope::new(L::new(a), L::new(b)), Some((lo(a, b), hi(a, b))))
}
pub fn c09_pair(s: S) {
    use lp::HasEnvelope;
    let ((e, r), (f, q)) = (lboxed(s), lboxed(s));
    assert!(lis(&e, r) && e.is_empty() == r.is_none(), "new");
    let (contains, meets) = match (r, q) {
        (Some(r), Some(q)) => (r.0 <= q.0 && q.1 <= r.1, r.0 <= q.1 && q.0 <= r.1),
        _ => (false, false),
    };
    if r.is_some() && q.is_some() { assert!(e.contains(f) == contains, "contains an interval"); }
    assert!(e.intersects(f) == meets, "intersects");
    let mut g = e;
    g.expand(f);
    let v = [e, f];
    assert!(lis(&g, ljoin(r, q)), "expand");
    assert!(lis(&e.merge(f), ljoin(r, q)), "merge");
    assert!(lis(&lp::Envelope::of(v.iter()), ljoin(r, q)), "of");
    let p = num(s);
    let want = match r { None => false, Some(r) => r.0 <= p && p <= r.1 };
    assert!(e.contains(L::new(p)) == want, "contains a position");
    assert!(lis(&e.merge(L::new(p)), ljoin(r, Some((p, p)))), "merge with a position");
    assert!(lis(&L::new(p).envelope(), Some((p, p))), "envelope of a position");
    let (a, b) = (num(s), num(s));
    let t = lp::Segment::new(L::new(a), L::new(b));
    assert!(lis(&t.envelope(), Some((lo(a, b), hi(a, b)))), "envelope of a segment");
    assert!(t.min().x == lo(a, b) && t.max().x == hi(a, b), "ends of a segment");
}
pub fn c09_validate(s: S) {
    let (a, b) = (s.f(), s.f());
    let e = lp::Envelope::Bounds { min: L::new(a), max: L::new(b) };
    assert!(e.validate().is_ok() == (fin(a) && fin(b) && a <= b), "validate");
}

// ---------------------------------------------------------------- C20
pub fn c20_validate(s: S) {
    let (a, b) = (pos(s), pos(s));
    let (fa, fb) = (fin(a.x) && fin(a.y), fin(b.x) && fin(b.y));
    assert!(a.validate().is_ok() == fa, "a position is valid exactly if it is finite");
    let seg = Segment::new(a, b).validate().is_ok();
    assert!(!seg || (fa && fb), "a segment with a coordinate that is not finite is valid");
    assert!(L::new(a.x).validate().is_ok() == fin(a.x), "a position on the line is valid exactly if it is finite");
    let lseg = lp::Segment::new(L::new(a.x), L::new(b.x)).validate().is_ok();
    assert!(!lseg || (fin(a.x) && fin(b.x)), "a segment on the line with a coordinate that is not finite is valid");
    let env = Envelope::Bounds { min: a, max: b }.validate().is_ok();
    assert!(!env || (fa && fb), "a box with a coordinate that is not finite is valid");
    let lenv = lp::Envelope::Bounds { min: L::new(a.x), max: L::new(b.x) }.validate().is_ok();
    assert!(!lenv || (fin(a.x) && fin(b.x)), "an interval with a coordinate that is not finite is valid");
    if fa && fb {
        assert!(seg || (a.x == b.x && a.y == b.y), "a segment between two finite positions is not valid");
    }
}
pub fn c20_contains(s: S) {
    let (a, b, p) = (npos(s), npos(s), pos(s));
    s.assume(p.x.is_nan() || p.y.is_nan());
    assert!(!Envelope::new(a, b).contains(p), "a box contains a position with a NaN");
    assert!(!Segment::new(a, b).contains(p), "a segment contains a position with a NaN");
}

// ---------------------------------------------------------------- C28
fn mn(a: f64, b: f64) -> f64 { if a.is_nan() { b } else if b.is_nan() { a } else { lo(a, b) } }
fn mx(a: f64, b: f64) -> f64 { if a.is_nan() { b } else if b.is_nan() { a } else { hi(a, b) } }
fn eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
fn eqp(a: P, x: f64, y: f64) -> bool { eq(a.x, x) && eq(a.y, y) }
pub fn c28_extremes(s: S) {
    let (a, b) = (pos(s), pos(s));
    assert!(eqp(a.min(b), mn(a.x, b.x), mn(a.y, b.y)), "min");
    assert!(eqp(a.max(b), mx(a.x, b.x), mx(a.y, b.y)), "max");
    let (l, h) = Position::min_max(a, b);
    assert!(eqp(l, mn(a.x, b.x), mn(a.y, b.y)) && eqp(h, mx(a.x, b.x), mx(a.y, b.y)), "min_max");
    let (p, q) = (L::new(a.x), L::new(b.x));
    assert!(eq(p.min(q).x, mn(a.x, b.x)) && eq(p.max(q).x, mx(a.x, b.x)), "min and max on the line");
    let (l, h) = L::min_max(p, q);
    assert!(eq(l.x, mn(a.x, b.x)) && eq(h.x, mx(a.x, b.x)), "min_max on the line");
    let (l, h) = magog::Coordinate::min_max(&a.x, b.x);
    assert!(eq(l, mn(a.x, b.x)) && eq(h, mx(a.x, b.x)), "min_max of coordinates");
}
pub fn c28_convert(s: S) {
    let (x, y) = (s.f(), s.f());
    let p: P = (x, y).into();
    let q: P = [x, y].into();
    assert!(eqp(p, x, y) && eqp(q, x, y) && eqp(Position::new(x, y), x, y), "conversion keeps the coordinates");
    match p.to_hashable() {
        Ok(h) => assert!(!x.is_nan() && !y.is_nan() && eqp(P::from(h), x, y), "the hashable form keeps the coordinates"),
        Err(_) => assert!(x.is_nan() || y.is_nan(), "the hashable form is refused only for NaN"),
    }
    match L::new(x).to_hashable() {
        Ok(h) => assert!(!x.is_nan() && eq(L::from(h).x, x), "the hashable form keeps the coordinate"),
        Err(_) => assert!(x.is_nan(), "the hashable form is refused only for NaN"),
    }
    let l: L = x.into();
    assert!(eq(l.x, x), "conversion keeps the coordinate");
}
#[macro_export]
macro_rules! harnesses {
    ($($n:ident),*) => {
        pub const ALL: &[(&str, fn(&mut dyn $crate::Src))] = &[$((stringify!($n), $n as fn(&mut dyn $crate::Src))),*];
        #[cfg(kani)]
        mod k {
            struct K;
            impl $crate::Src for K {
                fn bits(&mut self) -> u64 { kani::any() }
                fn bit(&mut self) -> bool { kani::any::<u8>() & 1 == 1 }
                fn assume(&mut self, b: bool) { kani::assume(b) }
            }
            mod k { $(#[kani::proof] fn $n() { super::super::$n(&mut super::K); })* }
        }
    };
}
/// Inputs of a counterexample, in hexadecimal, one word per input.
pub struct Given(pub std::vec::IntoIter<u64>);
impl Src for Given {
    fn bits(&mut self) -> u64 { self.0.next().unwrap_or(0) }
    fn bit(&mut self) -> bool { self.bits() & 1 == 1 }
    fn assume(&mut self, b: bool) { if !b { println!("an assumption does not hold"); std::process::exit(3) } }
}
/// HARNESS WORDS...: exits with 1 if an assertion fails
pub fn replay(all: &[(&str, fn(&mut dyn Src))]) {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let f = all.iter().find(|h| h.0 == a[0]).expect("no such harness").1;
    let w: Vec<u64> = a[1..].iter().map(|s| u64::from_str_radix(s, 16).unwrap()).collect();
    println!("{} {:?}", a[0], w.iter().map(|&w| f64::from_bits(w)).collect::<Vec<_>>());
    match std::panic::catch_unwind(|| f(&mut Given(w.into_iter()))) {
        Ok(()) => println!("holds"),
        Err(_) => std::process::exit(1),
    }
}

harnesses!(c08_new, c08_validate, c08_position, c08_pair, c09_pair, c09_validate, c20_validate, c20_contains, c28_extremes, c28_convert);
