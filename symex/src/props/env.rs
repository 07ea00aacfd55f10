//! Positions and envelopes, planar and linear, and the bounding boxes of geometries.
use super::line::{ls, points, Slot, S};
use super::segment::{pos, pt};
use super::tree::{env_is, env_same, hull, make, meets, rect, Bx, Rect};
use super::Prop;
use crate::dom::*;
use crate::engine::Task;
use crate::spec::*;
use crate::task;
use magog::linear::primitives as lp;
use magog::linear::primitives::HasEnvelope as LHas;
use magog::linear::types as lt;
use magog::planar::primitives::*;
use magog::planar::types::*;
use Bx::*;

pub fn same_as<D: Dom>(got: bool, want: D::B, msg: &str) { D::check(iff::<D>(D::B::c(got), want), msg); }
fn inside<D: Dom>(a: &Rect<D>, b: &Rect<D>) -> D::B {
    match (a, b) {
        (Some(a), Some(b)) => le::<D>(a.0, b.0) & le::<D>(b.2, a.2) & le::<D>(a.1, b.1) & le::<D>(b.3, a.3),
        _ => ff::<D>(),
    }
}
pub fn at<D: Dom>(p: Position<D::C>, q: Pt<D>) -> D::B { D::eq_int(p.x, q.0) & D::eq_int(p.y, q.1) }

fn algebra<D: Dom>((x, y, n): &(Bx, Bx, i64)) {
    let (a, ra) = make::<D>(*x);
    let (b, rb) = make::<D>(*y);
    let p = pt::<D>(*n);
    let rp = rect::<D>(p, p);
    D::check(env_is::<D>(a, &ra) & env_is::<D>(b, &rb), "an envelope is not the box of its corners");
    same_as::<D>(a.is_empty(), D::B::c(ra.is_none()), "is_empty");
    D::check(D::B::c(a.validate().is_ok()), "a box of finite corners is not valid");
    same_as::<D>(a.intersects(b), meets::<D>(&ra, &rb), "intersects");
    same_as::<D>(b.intersects(a), meets::<D>(&ra, &rb), "intersects is not symmetric");
    same_as::<D>(a.contains(b), inside::<D>(&ra, &rb), "contains");
    same_as::<D>(a.contains(pos::<D>(p)), inside::<D>(&ra, &rp), "contains a position");
    same_as::<D>(a.intersects(pos::<D>(p).envelope()), meets::<D>(&ra, &rp), "intersects a position");
    let h = hull::<D>(&[ra, rb]);
    D::check(env_is::<D>(a.merge(b), &h), "merge is not the smallest box around both");
    D::check(env_is::<D>(b.merge(a), &h), "merge is not commutative");
    let mut e = a;
    e.expand(b);
    D::check(env_is::<D>(e, &h), "expand is not the smallest box around both");
    e.expand(pos::<D>(p));
    let h3 = hull::<D>(&[h, rp]);
    D::check(env_is::<D>(e, &h3), "expand by a position");
    D::check(env_is::<D>(Envelope::of([a, b].iter()), &h), "of is not the smallest box around all");
    D::check(env_is::<D>(Envelope::of([a, b, pos::<D>(p).envelope()].iter()), &h3), "of is not the smallest box around all");
    D::check(env_same::<D>(a.envelope(), a), "the envelope of an envelope");
    match (a.min(), a.max(), ra) {
        (None, None, None) => {}
        (Some(u), Some(v), Some(r)) => D::check(at::<D>(u, (r.0, r.1)) & at::<D>(v, (r.2, r.3)), "corners"),
        _ => D::check(ff::<D>(), "corners of an empty box, or none of a box"),
    }
    match (a.center(), ra) {
        (None, None) => {}
        (Some(c), Some(r)) => { let t = k::<D>(2); D::check(D::eq_frac(c.x, r.0 + r.2, t) & D::eq_frac(c.y, r.1 + r.3, t), "center"); }
        _ => D::check(ff::<D>(), "center of an empty box, or none of a box"),
    }
}

fn buffer<D: Dom>((x, n): &(Bx, i64)) {
    let (a, ra) = make::<D>(*x);
    let d = D::var(0, *n);
    let b = a.buffer(D::coord(d));
    D::check(env_is::<D>(b, &ra.map(|r| (r.0 - d, r.1 - d, r.2 + d, r.3 + d))), "buffer does not grow the box by the distance on each side");
}

/// A box given by its corners is valid exactly if they are finite and ordered.
fn corners<D: Dom>((n,): &(i64,)) {
    let odd = |n: i64| super::tree::odd_coord::<D>(n, 0);
    let fin = |c: D::C| !D::is_nan(c) && D::inf_sign(c) == 0;
    let (a, b, c, d) = (odd(*n), odd(*n), odd(*n), odd(*n));
    let e = Envelope::Bounds { min: Position::new(a, b), max: Position::new(c, d) };
    let v = e.validate().is_ok();
    if !(fin(a) && fin(b) && fin(c) && fin(d)) { D::check(D::B::c(!v), "a box with a corner that is not finite is valid"); }
    else { same_as::<D>(v, D::cmp_c(a, c, 3) & D::cmp_c(b, d, 3), "validity of a box given by its corners"); }
}
fn lcorners<D: Dom>((n,): &(i64,)) {
    let odd = |n: i64| super::tree::odd_coord::<D>(n, 0);
    let fin = |c: D::C| !D::is_nan(c) && D::inf_sign(c) == 0;
    let (a, b) = (odd(*n), odd(*n));
    let e = lp::Envelope::Bounds { min: lp::Position::new(a), max: lp::Position::new(b) };
    let v = e.validate().is_ok();
    if !(fin(a) && fin(b)) { D::check(D::B::c(!v), "an interval with an end that is not finite is valid"); }
    else { same_as::<D>(v, D::cmp_c(a, b, 3), "validity of an interval given by its ends"); }
}

fn t_algebra(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let n = if th { 1_000_000i64 } else { 1000 };
    for x in [Any(n), Dot(n), Empty] {
        for y in [Any(n), Dot(n), Empty] { task!(v, [], format!("{:?} with {:?}", x, y), algebra, x, y, n); }
        task!(v, [], format!("buffer {:?}", x), buffer, x, n);
    }
    task!(v, [], "explicit corners", corners, n);
    v
}

// ---------------------------------------------------------------- one dimension
type Int<D> = Option<(<D as Dom>::I, <D as Dom>::I)>;
fn lpos<D: Dom>(p: D::I) -> lp::Position<D::C> { lp::Position::new(D::coord(p)) }
fn lmake<D: Dom>(b: Bx) -> (lp::Envelope<D::C>, Int<D>) {
    match b {
        Any(n) => { let (p, q) = (D::var_g(-n, n, 1), D::var_g(-n, n, 1)); (lp::Envelope::new(lpos::<D>(p), lpos::<D>(q)), Some((p.imin(q), p.imax(q)))) }
        Dot(n) => { let p = D::var_g(-n, n, 1); (lpos::<D>(p).envelope(), Some((p, p))) }
        _ => (lp::Envelope::empty(), None),
    }
}
fn lis<D: Dom>(e: lp::Envelope<D::C>, r: &Int<D>) -> D::B {
    match (e, r) {
        (lp::Envelope::Empty, None) => tt::<D>(),
        (lp::Envelope::Bounds { min, max }, Some(r)) => D::eq_int(min.x, r.0) & D::eq_int(max.x, r.1),
        _ => ff::<D>(),
    }
}
fn lhull<D: Dom>(v: &[Int<D>]) -> Int<D> {
    let mut r: Int<D> = None;
    for x in v { r = match (r, *x) { (None, x) => x, (r, None) => r, (Some(a), Some(b)) => Some((a.0.imin(b.0), a.1.imax(b.1))) }; }
    r
}
fn lalgebra<D: Dom>((x, y, n): &(Bx, Bx, i64)) {
    let (a, ra) = lmake::<D>(*x);
    let (b, rb) = lmake::<D>(*y);
    let p = D::var_g(-*n, *n, 1);
    let rp: Int<D> = Some((p, p));
    let meets = |a: &Int<D>, b: &Int<D>| match (a, b) { (Some(a), Some(b)) => le::<D>(a.0, b.1) & le::<D>(b.0, a.1), _ => ff::<D>() };
    let inside = |a: &Int<D>, b: &Int<D>| match (a, b) { (Some(a), Some(b)) => le::<D>(a.0, b.0) & le::<D>(b.1, a.1), _ => ff::<D>() };
    D::check(lis::<D>(a, &ra) & lis::<D>(b, &rb), "an envelope is not the interval of its ends");
    same_as::<D>(a.is_empty(), D::B::c(ra.is_none()), "is_empty");
    D::check(D::B::c(a.validate().is_ok()), "an interval of finite ends is not valid");
    same_as::<D>(a.intersects(b), meets(&ra, &rb), "intersects");
    same_as::<D>(b.intersects(a), meets(&ra, &rb), "intersects is not symmetric");
    same_as::<D>(a.contains(b), inside(&ra, &rb), "contains");
    same_as::<D>(a.contains(lpos::<D>(p)), inside(&ra, &rp), "contains a position");
    let h = lhull::<D>(&[ra, rb]);
    D::check(lis::<D>(a.merge(b), &h), "merge is not the smallest interval around both");
    D::check(lis::<D>(b.merge(a), &h), "merge is not commutative");
    let mut e = a;
    e.expand(b);
    D::check(lis::<D>(e, &h), "expand is not the smallest interval around both");
    e.expand(lpos::<D>(p));
    let h3 = lhull::<D>(&[h, rp]);
    D::check(lis::<D>(e, &h3), "expand by a position");
    D::check(lis::<D>(lp::Envelope::of([a, b].iter()), &h), "of is not the smallest interval around all");
    let mut l = [a, b].iter().copied().collect::<Vec<_>>();
    l.push(lpos::<D>(p).envelope());
    D::check(lis::<D>(lp::Envelope::of(l.iter()), &h3), "of is not the smallest interval around all");
    D::check(lis::<D>(a.envelope(), &ra), "the envelope of an envelope");
}

fn ltypes<D: Dom>((n, b): &(usize, i64)) {
    let ps: Vec<(D::I, D::I)> = (0..*n).map(|_| (D::var_g(-*b, *b, 1), D::var_g(-*b, *b, 1))).collect();
    let seg = |p: &(D::I, D::I)| lp::Segment::new(lpos::<D>(p.0), lpos::<D>(p.1));
    let int = |p: &(D::I, D::I)| -> Int<D> { Some((p.0.imin(p.1), p.0.imax(p.1))) };
    let all: Int<D> = lhull::<D>(&ps.iter().map(int).collect::<Vec<_>>());
    // multilines and multipoints: their intervals and their members
    let ml = lt::MultiLine::new(ps.iter().map(seg).collect());
    D::check(lis::<D>(ml.envelope(), &all), "the interval of a MultiLine");
    same_as::<D>(ml.is_empty(), D::B::c(*n == 0), "MultiLine is_empty");
    let mp = lt::MultiPoint::new(ps.iter().map(|p| lpos::<D>(p.0)).collect());
    let first: Int<D> = lhull::<D>(&ps.iter().map(|p| -> Int<D> { Some((p.0, p.0)) }).collect::<Vec<_>>());
    D::check(lis::<D>(mp.envelope(), &first), "the interval of a MultiPoint");
    D::check(D::B::c(mp.num_points() == *n), "num_points");
    for i in 0..*n + 1 {
        match (ml.get_line(i), mp.get_point(i)) {
            (Some(l), Some(p)) => {
                D::check(D::B::c(i < *n), "a member that does not exist");
                let (s, e) = (l.start().unwrap(), l.end().unwrap());
                D::check(D::eq_int(s.0.x, ps[i].0) & D::eq_int(e.0.x, ps[i].1), "get_line");
                D::check(lis::<D>(l.envelope(), &int(&ps[i])), "the interval of a Line");
                D::check(D::B::c(!l.is_empty()), "a Line is empty");
                D::check(D::eq_int(p.0.x, ps[i].0) & D::B::c(!p.is_empty()), "get_point");
                D::check(D::B::c(p.x().is_some()), "x of a point");
                D::check(lis::<D>(p.envelope(), &Some((ps[i].0, ps[i].0))), "the interval of a Point");
                let sg = seg(&ps[i]);
                D::check(lis::<D>(sg.envelope(), &int(&ps[i])) & D::eq_int(sg.min().x, ps[i].0.imin(ps[i].1)) & D::eq_int(sg.max().x, ps[i].0.imax(ps[i].1)), "the interval of a Segment");
                D::check(D::B::c(sg.validate().is_ok()), "a finite Segment is not valid");
            }
            (None, None) => D::check(D::B::c(i >= *n), "a member is missing"),
            _ => D::check(ff::<D>(), "a member is missing"),
        }
    }
    let (e1, e2, e3, e4) = (lt::MultiLine::<D::C>::empty(), lt::MultiPoint::<D::C>::empty(), lt::Line::<D::C>::empty(), lt::Point::<D::C>::empty());
    D::check(D::B::c(e1.envelope().is_empty() && e2.envelope().is_empty() && e3.envelope().is_empty() && e4.envelope().is_empty()), "the interval of an empty geometry");
    D::check(D::B::c(e1.is_empty() && e2.num_points() == 0 && e3.is_empty() && e4.is_empty() && e3.start().is_none() && e3.end().is_none() && e4.x().is_none()), "an empty geometry is not empty");
}

fn t_linear(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let n = if th { 1_000_000i64 } else { 1000 };
    for x in [Any(n), Dot(n), Empty] {
        for y in [Any(n), Dot(n), Empty] { task!(v, [], format!("{:?} with {:?}", x, y), lalgebra, x, y, n); }
    }
    task!(v, [], "explicit ends", lcorners, n);
    v
}
fn t_ltypes(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let n = if th { 1_000_000i64 } else { 1000 };
    for m in 0..(if th { 7usize } else { 4 }) { task!(v, [], format!("{} members", m), ltypes, m, n); }
    v
}

// ---------------------------------------------------------------- bounding boxes of geometries
fn box_of<D: Dom>(v: &[Pt<D>]) -> Rect<D> { hull::<D>(&v.iter().map(|&p| rect::<D>(p, p)).collect::<Vec<_>>()) }

fn boxes<D: Dom>((sizes, b): &(Vec<usize>, i64)) {
    let parts: Vec<Vec<Pt<D>>> = sizes.iter().map(|&n| points::<D>(&(0..n).map(|_| S(*b)).collect::<Vec<Slot>>())).collect();
    let rs: Vec<Rect<D>> = parts.iter().map(|p| box_of::<D>(p)).collect();
    let all = hull::<D>(&rs);
    let is = |e: Envelope<D::C>, r: &Rect<D>, m: &str| { D::check(env_is::<D>(e, r), m); };
    for (p, r) in parts.iter().zip(&rs) {
        is(ls::<D>(p).envelope(), r, "the box of a LineString");
        is(LineString::collect_from(p.iter().map(|&q| pos::<D>(q))).envelope(), r, "the box of a collected LineString");
        is(LineString::from(p.iter().map(|&q| pos::<D>(q)).collect::<Vec<_>>()).envelope(), r, "the box of a converted LineString");
        is(MultiPoint::new(p.iter().map(|&q| Point::new(pos::<D>(q))).collect()).envelope(), r, "the box of a MultiPoint");
        is(MultiPoint::from(p.iter().map(|&q| pos::<D>(q)).collect::<Vec<_>>()).envelope(), r, "the box of a converted MultiPoint");
        is(Polygon::from(ls::<D>(p)).envelope(), r, "the box of a converted Polygon");
        is(Geometry::from(ls::<D>(p)).envelope(), r, "the box of a LineString as a geometry");
        if p.len() == 2 { is(Segment::new(pos::<D>(p[0]), pos::<D>(p[1])).envelope(), r, "the box of a Segment"); }
        if p.len() == 1 {
            is(Point::new(pos::<D>(p[0])).envelope(), r, "the box of a Point");
            is(Geometry::from(Point::new(pos::<D>(p[0]))).envelope(), r, "the box of a Point as a geometry");
            is(pos::<D>(p[0]).envelope(), r, "the box of a Position");
        }
    }
    let lines = || parts.iter().map(|p| ls::<D>(p)).collect::<Vec<_>>();
    is(MultiLineString::new(lines()).envelope(), &all, "the box of a MultiLineString");
    is(MultiLineString::from(lines()).envelope(), &all, "the box of a converted MultiLineString");
    is(Geometry::from(MultiLineString::new(lines())).envelope(), &all, "the box of a MultiLineString as a geometry");
    // the first part as the exterior of a polygon, the others as its holes (a valid hole is within the exterior)
    let mut l = lines();
    if !l.is_empty() {
        let e = l.remove(0);
        let poly = Polygon::new(e, l);
        is(poly.envelope(), &rs[0], "the box of a Polygon");
        is(Geometry::from(poly).envelope(), &rs[0], "the box of a Polygon as a geometry");
    }
    let polys = || lines().into_iter().map(|l| Polygon::new(l, vec![])).collect::<Vec<_>>();
    is(MultiPolygon::new(polys()).envelope(), &all, "the box of a MultiPolygon");
    is(MultiPolygon::from(polys()).envelope(), &all, "the box of a converted MultiPolygon");
    is(Geometry::from(MultiPolygon::new(polys())).envelope(), &all, "the box of a MultiPolygon as a geometry");
    is(Geometry::<D::C>::empty().envelope(), &None, "the box of an empty geometry");
    is(Empty_::<D::C>::new().envelope(), &None, "the box of an Empty");
}
use magog::planar::types::Empty as Empty_;

fn t_boxes(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let n = if th { 1_000_000i64 } else { 1000 };
    let mut ss: Vec<Vec<usize>> = vec![vec![], vec![0], vec![1], vec![2], vec![3], vec![4], vec![5], vec![0, 2], vec![2, 0], vec![1, 1], vec![3, 3], vec![1, 0, 2], vec![2, 2, 2], vec![4, 4], vec![0, 0], vec![4, 3, 2, 1]];
    if th { ss.extend(vec![vec![8], vec![12], vec![4, 4, 4], vec![6, 0, 6], vec![1, 2, 3, 4, 5, 6], vec![20, 5]]); }
    for s in ss { task!(v, [], format!("sizes {:?}", s), boxes, s, n); }
    v
}

// ---------------------------------------------------------------- positions
fn arithmetic<D: Dom>((b,): &(i64,)) {
    let (p, q) = (pt::<D>(*b), pt::<D>(*b));
    let (a, c) = (pos::<D>(p), pos::<D>(q));
    D::check(at::<D>(a + c, (p.0 + q.0, p.1 + q.1)), "addition");
    D::check(at::<D>(a - c, (p.0 - q.0, p.1 - q.1)), "subtraction");
    let s = D::var(-*b, *b);
    let by = |c: D::C, n: D::I| D::eq_deg(c, n, k::<D>(1), 2);
    let sc = a * D::coord(s);
    D::check(by(sc.x, p.0 * s) & by(sc.y, p.1 * s), "scaling");
    D::check(by(Position::dot(a, c), p.0 * q.0 + p.1 * q.1), "dot product");
    D::check(by(Position::cross(a, c), p.0 * q.1 - p.1 * q.0), "cross product");
    let (mn, mx) = ((p.0.imin(q.0), p.1.imin(q.1)), (p.0.imax(q.0), p.1.imax(q.1)));
    D::check(at::<D>(a.min(c), mn) & at::<D>(a.max(c), mx), "minimum and maximum");
    let (u, v) = Position::min_max(a, c);
    D::check(at::<D>(u, mn) & at::<D>(v, mx), "min_max");
    D::check(at::<D>(Position::from((D::coord(p.0), D::coord(p.1))), p) & at::<D>(Position::from([D::coord(p.0), D::coord(p.1)]), p), "conversion");
    let pt = Point::new(a);
    D::check(D::eq_int(pt.x(), p.0) & D::eq_int(pt.y(), p.1), "coordinates of a point");
    let (l, m) = (lp::Position::new(D::coord(p.0)), lp::Position::new(D::coord(q.0)));
    D::check(D::eq_int((l + m).x, p.0 + q.0) & D::eq_int((l - m).x, p.0 - q.0) & by((l * D::coord(s)).x, p.0 * s), "arithmetic on a line");
    D::check(D::eq_int(l.min(m).x, mn.0) & D::eq_int(l.max(m).x, mx.0), "minimum and maximum on a line");
    let (u, v) = lp::Position::min_max(l, m);
    D::check(D::eq_int(u.x, mn.0) & D::eq_int(v.x, mx.0), "min_max on a line");
    let (u, v) = magog::Coordinate::min_max(&l.x, m.x);
    D::check(D::eq_int(u, mn.0) & D::eq_int(v, mx.0), "min_max of coordinates");
    D::check(D::B::c(a.validate().is_ok() && l.validate().is_ok() && pt.validate().is_ok()), "a finite position is not valid");
    match a.to_hashable() {
        Ok(h) => D::check(at::<D>(Position::from(h), p), "to_hashable changes the position"),
        Err(_) => D::check(ff::<D>(), "a finite position has no hashable form"),
    }
    match l.to_hashable() {
        Ok(h) => D::check(D::eq_int(lp::Position::from(h).x, p.0), "to_hashable changes the position"),
        Err(_) => D::check(ff::<D>(), "a finite position has no hashable form"),
    }
    if D::decide(!s.zero()) {
        let d = a / D::coord(s);
        D::check(D::near_deg(d.x, p.0, s, 0) & D::near_deg(d.y, p.1, s, 0), "division");
        D::check(D::near_deg((l / D::coord(s)).x, p.0, s, 0), "division on a line");
    }
}

/// min and max ignore a NaN; to_hashable refuses exactly NaN
fn nans<D: Dom>((b,): &(i64,)) {
    let odd = |n: i64| super::tree::odd_coord::<D>(n, 0);
    let (x1, y1, x2, y2) = (odd(*b), odd(*b), odd(*b), odd(*b));
    let (p, q) = (Position::new(x1, y1), Position::new(x2, y2));
    let check = |mn: D::C, mx: D::C, a: D::C, b: D::C| {
        let (na, nb) = (D::is_nan(a), D::is_nan(b));
        if na && nb { D::check(D::B::c(D::is_nan(mn) && D::is_nan(mx)), "extremes of two NaN"); }
        else if na { D::check(D::same(mn, b) & D::same(mx, b), "extremes with a NaN are not the other"); }
        else if nb { D::check(D::same(mn, a) & D::same(mx, a), "extremes with a NaN are not the other"); }
        else {
            let le = D::cmp_c(a, b, 3);
            D::check((le & D::same(mn, a) & D::same(mx, b)) | (!le & D::same(mn, b) & D::same(mx, a)), "extremes");
        }
    };
    let (u, v) = Position::min_max(p, q);
    check(u.x, v.x, x1, x2);
    check(u.y, v.y, y1, y2);
    let (u, v) = (p.min(q), p.max(q));
    check(u.x, v.x, x1, x2);
    check(u.y, v.y, y1, y2);
    let (u, v) = lp::Position::min_max(lp::Position::new(x1), lp::Position::new(x2));
    check(u.x, v.x, x1, x2);
    let (u, v) = magog::Coordinate::min_max(&x1, x2);
    check(u, v, x1, x2);
    let nan = D::is_nan(x1) || D::is_nan(y1);
    D::check(D::B::c(p.to_hashable().is_err() == nan), "to_hashable does not refuse exactly NaN");
    D::check(D::B::c(lp::Position::new(x1).to_hashable().is_err() == D::is_nan(x1)), "to_hashable does not refuse exactly NaN");
}

fn measure<D: Dom>((b,): &(i64,)) {
    let (p, q, r) = (pt::<D>(*b), pt::<D>(*b), pt::<D>(*b));
    let t = Triangle::new(pos::<D>(p), pos::<D>(q), pos::<D>(r));
    let o = orient::<D>(p, q, r);
    let two = k::<D>(2);
    D::check(D::eq_deg(t.signed_area(), o, two, 2), "signed area");
    D::check((D::eq_deg(t.area(), o, two, 2) & !o.neg_()) | (D::eq_deg(t.area(), -o, two, 2) & o.neg_()), "area");
    let a = t.to_array();
    D::check(at::<D>(a[0], p) & at::<D>(a[1], q) & at::<D>(a[2], r), "corners of a triangle");
    let s = Segment::new(pos::<D>(p), pos::<D>(q));
    let d2 = (q.0 - p.0) * (q.0 - p.0) + (q.1 - p.1) * (q.1 - p.1);
    D::check(D::eq_deg(s.length_squared(), d2, k::<D>(1), 2), "squared length");
    D::check(D::near_sum_sqrt(s.length(), &[d2]), "length");
    D::check(D::eq_deg(s.determinant(), p.0 * q.1 - p.1 * q.0, k::<D>(1), 2), "determinant");
    D::check(D::B::c(s.validate().is_ok()), "a finite segment is not valid");
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", tasks: t_algebra },
        Prop { id: "C09", tasks: t_linear },
        Prop { id: "C10", tasks: t_boxes },
        Prop { id: "C11", tasks: t_ltypes },
        Prop {
            id: "C27",
            tasks: |th| { let mut v: Vec<Task> = vec![]; task!(v, [], "measure", measure, if th { 30000i64 } else { 1000 }); v },
        },
        Prop {
            id: "C28",
            tasks: |th| { let mut v: Vec<Task> = vec![]; task!(v, [], "arithmetic", arithmetic, if th { 30000i64 } else { 1000 }); task!(v, [], "NaN", nans, 1000i64); v },
        },
    ]
}
