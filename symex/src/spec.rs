//! Reference definitions, in exact integer arithmetic, written from the meaning of the
//! properties and independent of the implementation's algorithms.
use crate::dom::*;

pub type Pt<D> = (<D as Dom>::I, <D as Dom>::I);

pub fn k<D: Dom>(v: i64) -> D::I { <D::I as IntT<D::B>>::k(v as i128) }
pub fn tt<D: Dom>() -> D::B { D::B::c(true) }
pub fn ff<D: Dom>() -> D::B { D::B::c(false) }
fn c<D: Dom>(x: D::I) -> D::I { x }

pub fn eqi<D: Dom>(a: D::I, b: D::I) -> D::B { IntT::eq(a, b) }
pub fn lt<D: Dom>(a: D::I, b: D::I) -> D::B { IntT::lt(a, b) }
pub fn le<D: Dom>(a: D::I, b: D::I) -> D::B { IntT::le(a, b) }
pub fn eqp<D: Dom>(a: Pt<D>, b: Pt<D>) -> D::B { eqi::<D>(a.0, b.0) & eqi::<D>(a.1, b.1) }
pub fn nep<D: Dom>(a: Pt<D>, b: Pt<D>) -> D::B { !eqp::<D>(a, b) }
pub fn implies<D: Dom>(a: D::B, b: D::B) -> D::B { !a | b }
pub fn iff<D: Dom>(a: D::B, b: D::B) -> D::B { !(a ^ b) }

/// twice the signed area of abc
pub fn orient<D: Dom>(a: Pt<D>, b: Pt<D>, p: Pt<D>) -> D::I {
    (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0)
}

pub fn between<D: Dom>(x: D::I, a: D::I, b: D::I) -> D::B {
    (le::<D>(a, x) & le::<D>(x, b)) | (le::<D>(b, x) & le::<D>(x, a))
}

/// p is on the closed segment ab
pub fn on_seg<D: Dom>(p: Pt<D>, a: Pt<D>, b: Pt<D>) -> D::B {
    orient::<D>(a, b, p).zero() & between::<D>(p.0, a.0, b.0) & between::<D>(p.1, a.1, b.1)
}

/// the open segments cross in one point that is interior to both
pub fn proper_cross<D: Dom>(a: Pt<D>, b: Pt<D>, p: Pt<D>, q: Pt<D>) -> D::B {
    let (o1, o2) = (orient::<D>(a, b, p), orient::<D>(a, b, q));
    let (o3, o4) = (orient::<D>(p, q, a), orient::<D>(p, q, b));
    opposite::<D>(o1, o2) & opposite::<D>(o3, o4)
}
fn opposite<D: Dom>(x: D::I, y: D::I) -> D::B { (x.pos() & y.neg_()) | (x.neg_() & y.pos()) }

/// the closed segments share a point
pub fn meet<D: Dom>(a: Pt<D>, b: Pt<D>, p: Pt<D>, q: Pt<D>) -> D::B {
    proper_cross::<D>(a, b, p, q) | on_seg::<D>(p, a, b) | on_seg::<D>(q, a, b) | on_seg::<D>(a, p, q) | on_seg::<D>(b, p, q)
}

/// the closed segments (both of positive length) share infinitely many points
pub fn overlap<D: Dom>(a: Pt<D>, b: Pt<D>, p: Pt<D>, q: Pt<D>) -> D::B {
    // colinear, and the intersection of the projections has positive length in x or in y
    let col = orient::<D>(a, b, p).zero() & orient::<D>(a, b, q).zero();
    let ov = |a: D::I, b: D::I, p: D::I, q: D::I| {
        // max(min(a,b),min(p,q)) < min(max(a,b),max(p,q))
        let (l1, h1, l2, h2) = (a.imin(b), a.imax(b), p.imin(q), p.imax(q));
        lt::<D>(l1, h2) & lt::<D>(l2, h1) & lt::<D>(l1, h1) & lt::<D>(l2, h2)
    };
    col & (ov(a.0, b.0, p.0, q.0) | ov(a.1, b.1, p.1, q.1))
}

/// edges a-b and b-c fold back onto each other
pub fn folds_back<D: Dom>(a: Pt<D>, b: Pt<D>, p: Pt<D>) -> D::B {
    let dot = (a.0 - b.0) * (p.0 - b.0) + (a.1 - b.1) * (p.1 - b.1);
    orient::<D>(a, b, p).zero() & dot.pos()
}

/// The polyline visits no point twice, except that its last position may be its first.
pub fn simple_polyline<D: Dom>(v: &[Pt<D>]) -> D::B {
    if v.is_empty() { return tt::<D>(); }
    if v.len() == 1 { return ff::<D>(); }
    let n = v.len() - 1;
    let mut ok = tt::<D>();
    for i in 0..n { ok = ok & nep::<D>(v[i], v[i + 1]); }
    let closed = eqp::<D>(v[0], v[n]);
    for i in 0..n {
        for j in i + 1..n {
            if j == i + 1 {
                ok = ok & !folds_back::<D>(v[i], v[i + 1], v[i + 2]);
                // two segments that return to the start fold back as well
            } else if i == 0 && j == n - 1 {
                let m = meet::<D>(v[0], v[1], v[j], v[n]);
                ok = ok & ((closed & !folds_back::<D>(v[j], v[0], v[1])) | (!closed & !m));
            } else {
                ok = ok & !meet::<D>(v[i], v[i + 1], v[j], v[j + 1]);
            }
        }
    }
    ok
}

pub fn scaled<D: Dom>(v: &[Pt<D>], s: i64) -> Vec<Pt<D>> {
    let s = k::<D>(s);
    v.iter().map(|p| (c::<D>(p.0) * s, c::<D>(p.1) * s)).collect()
}

/// p is on the closed polyline v
pub fn on_polyline<D: Dom>(p: Pt<D>, v: &[Pt<D>]) -> D::B {
    any(v.windows(2).map(|w| on_seg::<D>(p, w[0], w[1])))
}

/// even-odd: p (not on the ring) is inside the ring v
pub fn odd<D: Dom>(p: Pt<D>, v: &[Pt<D>]) -> D::B {
    let mut r = ff::<D>();
    for w in v.windows(2) {
        let (a, b) = (w[0], w[1]);
        let up = le::<D>(a.1, p.1) & lt::<D>(p.1, b.1);
        let down = le::<D>(b.1, p.1) & lt::<D>(p.1, a.1);
        let o = orient::<D>(a, b, p);
        r = r ^ ((up & o.pos()) | (down & o.neg_()));
    }
    r
}

pub fn in_closed<D: Dom>(p: Pt<D>, v: &[Pt<D>]) -> D::B { on_polyline::<D>(p, v) | odd::<D>(p, v) }
pub fn strictly_inside<D: Dom>(p: Pt<D>, v: &[Pt<D>]) -> D::B { !on_polyline::<D>(p, v) & odd::<D>(p, v) }

/// Two simple rings share no segment of positive length and no properly crossing edges.
pub fn only_touch<D: Dom>(r1: &[Pt<D>], r2: &[Pt<D>]) -> D::B {
    let mut ok = tt::<D>();
    for s in r1.windows(2) {
        for t in r2.windows(2) {
            ok = ok & !proper_cross::<D>(s[0], s[1], t[0], t[1]) & !overlap::<D>(s[0], s[1], t[0], t[1]);
        }
    }
    ok
}

/// Every point of ring r lies in (inside = true) the closed region of ring q, or (inside =
/// false) outside its interior. Assumes only_touch(q, r): along an edge of r the side can then
/// change only at the edge's ends and at vertices of q on the edge, so the middles of all pairs
/// of such points settle it.
pub fn side<D: Dom>(q: &[Pt<D>], r: &[Pt<D>], inside: bool) -> D::B {
    let q2 = scaled::<D>(q, 2);
    let mut ok = tt::<D>();
    for s in r.windows(2) {
        let mut special: Vec<(Pt<D>, D::B)> = vec![(s[0], tt::<D>()), (s[1], tt::<D>())];
        for v in &q[..q.len() - 1] { special.push((*v, on_seg::<D>(*v, s[0], s[1]))); }
        for i in 0..special.len() {
            for j in i + 1..special.len() {
                let g = special[i].1 & special[j].1;
                let m = (special[i].0 .0 + special[j].0 .0, special[i].0 .1 + special[j].0 .1);
                let t = if inside { in_closed::<D>(m, &q2) } else { !strictly_inside::<D>(m, &q2) };
                ok = ok & implies::<D>(g, t);
            }
        }
    }
    ok
}

/// ring r is inside ring q, touching it in finitely many points at most
pub fn ring_inside<D: Dom>(q: &[Pt<D>], r: &[Pt<D>]) -> D::B { only_touch::<D>(q, r) & side::<D>(q, r, true) & side::<D>(r, q, false) }
/// the interiors of the rings are disjoint, and they touch in finitely many points at most
pub fn ring_separate<D: Dom>(q: &[Pt<D>], r: &[Pt<D>]) -> D::B { only_touch::<D>(q, r) & side::<D>(q, r, false) & side::<D>(r, q, false) }
