//! Polygons, MultiPolygons and convex hulls.
use super::env::at;
use super::line::{cs, ls, points, Slot, Slot::*};
use super::Prop;
use crate::dom::*;
use crate::engine::Task;
use crate::spec::*;
use crate::task;
use magog::planar::primitives::*;
use magog::planar::types::{LineString, MultiPolygon, Polygon};

/// A family of (multi)polygons: polygons of loops of vertices, numbered through all of them.
pub type Shape = Vec<Vec<Vec<Slot>>>;

fn build<D: Dom>(s: &Shape) -> Vec<Vec<Vec<Pt<D>>>> {
    let flat: Vec<Slot> = s.iter().flatten().flatten().copied().collect();
    let all = points::<D>(&flat);
    let mut i = 0;
    s.iter().map(|p| p.iter().map(|l| { let v = all[i..i + l.len()].to_vec(); i += l.len(); v }).collect()).collect()
}
fn poly<D: Dom>(l: &[Vec<Pt<D>>]) -> Polygon<D::C> { Polygon::new(ls::<D>(&l[0]), l[1..].iter().map(|p| ls::<D>(p)).collect()) }

fn closed_simple<D: Dom>(v: &[Pt<D>]) -> D::B {
    if v.len() < 4 { return ff::<D>(); }
    eqp::<D>(v[0], v[v.len() - 1]) & simple_polyline::<D>(v)
}
/// The loops are rings, the holes are inside of the exterior and outside of each other, and
/// they only touch in points.
pub fn polygon_ok<D: Dom>(l: &[Vec<Pt<D>>]) -> D::B {
    if l.len() == 1 && l[0].is_empty() { return tt::<D>(); }
    let mut ok = all(l.iter().map(|v| closed_simple::<D>(v)));
    if l.iter().any(|v| v.len() < 4) { return ff::<D>(); }
    for h in &l[1..] { ok = ok & ring_inside::<D>(&l[0], h); }
    for i in 1..l.len() { for j in 1..i { ok = ok & ring_separate::<D>(&l[j], &l[i]); } }
    ok
}
fn polygon<D: Dom>((s,): &(Shape,)) {
    let l = &build::<D>(s)[0];
    let p = poly::<D>(l);
    let want = polygon_ok::<D>(l);
    if p.validate().is_ok() { D::check(want, "a polygon that is not valid is accepted"); }
    else { D::check(!want, "a valid polygon is rejected"); }
}

/// Two valid polygons share no inner point, and only touch in points.
fn apart<D: Dom>(p: &[Vec<Pt<D>>], q: &[Vec<Pt<D>>]) -> D::B {
    if p[0].is_empty() || q[0].is_empty() { return tt::<D>(); }
    // one is outside of the other, or in one of its holes
    ring_separate::<D>(&p[0], &q[0]) | any(p[1..].iter().map(|h| ring_inside::<D>(h, &q[0]))) | any(q[1..].iter().map(|h| ring_inside::<D>(h, &p[0])))
}
fn multipolygon<D: Dom>((s,): &(Shape,)) {
    let l = build::<D>(s);
    let m = MultiPolygon::new(l.iter().map(|p| poly::<D>(p)).collect());
    let mut want = all(l.iter().map(|p| polygon_ok::<D>(p)));
    for i in 0..l.len() { for j in 0..i {
        if l[i].iter().chain(&l[j]).all(|v| v.is_empty() || v.len() >= 4) { want = want & apart::<D>(&l[j], &l[i]); }
    } }
    if m.validate().is_ok() { D::check(want, "polygons that overlap are accepted"); }
    else { D::check(!want, "polygons that do not overlap are rejected"); }
}

pub fn ring(v: &[(i64, i64)]) -> Vec<Slot> { let mut r = cs(v); r.push(r[0]); r }
fn rect(a: i64, b: i64, c: i64, d: i64) -> Vec<Slot> { ring(&[(a, b), (c, b), (c, d), (a, d)]) }
/// the same ring the other way round, from the same vertex
fn cw(mut v: Vec<Slot>) -> Vec<Slot> { v.reverse(); v }
/// a triangle with symbolic corners, the first of which is slot number i
fn tri(b: i64, i: usize) -> Vec<Slot> { vec![S(b), S(b), S(b), Same(i)] }
/// a triangle with one symbolic corner
fn tri1(b: i64, x: (i64, i64), y: (i64, i64)) -> Vec<Slot> { vec![C(x.0, x.1), C(y.0, y.1), S(b), C(x.0, x.1)] }
fn tri2(b: i64, x: (i64, i64)) -> Vec<Slot> { vec![C(x.0, x.1), S(b), S(b), C(x.0, x.1)] }

fn t_polygon(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 40;
    let mut add = |n: &str, s: Vec<Vec<Slot>>| { let s: Shape = vec![s]; task!(v, [2, 2], n, polygon, s) };
    let l_shape = || ring(&[(0, 0), (20, 0), (20, 10), (10, 10), (10, 20), (0, 20)]);
    let u_shape = || ring(&[(0, 0), (30, 0), (30, 20), (20, 20), (20, 10), (10, 10), (10, 20), (0, 20)]);
    let notch = || ring(&[(0, 0), (10, 10), (20, 0), (20, 20), (0, 20)]);
    let comb = || ring(&[(0, 0), (40, 0), (40, 20), (35, 5), (30, 20), (25, 5), (20, 20), (15, 5), (10, 20), (5, 5), (0, 20)]);
    add("empty", vec![vec![]]);
    add("empty with an empty hole", vec![vec![], vec![]]);
    add("one position", vec![vec![S(b)]]);
    add("two positions", vec![vec![S(b), S(b)]]);
    add("three positions", vec![vec![S(b), S(b), S(b)]]);
    add("open", vec![vec![S(b), S(b), S(b), S(b)]]);
    add("triangle", vec![tri(b, 0)]);
    add("open hole", vec![rect(-50, -50, 50, 50), vec![C(0, 0), C(5, 0), S(b), S(b)]]);
    add("short hole", vec![rect(-50, -50, 50, 50), vec![C(0, 0), S(b), C(0, 0)]]);
    add("square, hole with a symbolic corner", vec![rect(0, 0, 20, 20), tri1(b, (5, 5), (10, 20))]);
    add("L, hole with a symbolic corner", vec![l_shape(), tri1(b, (0, 0), (10, 10))]);
    add("U, hole with a symbolic corner", vec![u_shape(), tri1(b, (5, 5), (10, 10))]);
    // the corners of the hole may all be on the exterior, on either side of it
    add("U, hole across its gap", vec![u_shape(), tri1(b, (10, 14), (20, 16))]);
    add("square, hole across", vec![rect(0, 0, 20, 20), tri1(b, (0, 10), (20, 8))]);
    add("notch, hole with a symbolic corner", vec![notch(), tri1(b, (0, 20), (10, 10))]);
    add("comb, hole with a symbolic corner", vec![comb(), tri1(b, (2, 2), (38, 2))]);
    add("exterior with a symbolic corner", vec![tri1(b, (0, 0), (20, 0)), ring(&[(5, 2), (10, 2), (10, 7)])]);
    add("exterior with a symbolic corner, hole touching", vec![tri1(b, (0, 0), (20, 0)), ring(&[(5, 0), (10, 2), (10, 7)])]);
    add("triangle, hole with two symbolic corners", vec![ring(&[(0, 0), (20, 0), (0, 20)]), tri2(b, (0, 0))]);
    add("two holes, one with a symbolic corner", vec![rect(-50, -50, 50, 50), rect(0, 0, 10, 10), tri1(b, (0, 0), (-5, 20))]);
    add("two holes, one around the other", vec![rect(-50, -50, 50, 50), rect(0, 0, 3, 3), tri1(b, (-20, -5), (20, -5))]);
    add("two holes, L", vec![rect(-50, -50, 50, 50), l_shape(), tri1(b, (10, 10), (30, 30))]);
    add("three holes", vec![rect(-50, -50, 50, 50), rect(0, 0, 10, 10), rect(12, 0, 20, 10), tri1(b, (10, 10), (12, 10))]);
    add("clockwise square, hole with a symbolic corner", vec![cw(rect(0, 0, 20, 20)), tri1(b, (5, 5), (10, 20))]);
    add("clockwise L, hole with a symbolic corner", vec![cw(l_shape()), tri1(b, (10, 10), (0, 0))]);
    add("clockwise triangle around an L", vec![cw(tri1(b, (-20, -5), (35, -5))), l_shape()]);
    add("square, L hole with a symbolic corner", vec![rect(0, 0, 20, 20), vec![C(5, 0), C(20, 10), C(12, 10), S(b), C(5, 20), C(2, 5), C(5, 0)]]);
    add("clockwise square, L hole with a symbolic corner", vec![cw(rect(0, 0, 20, 20)), vec![C(5, 0), C(20, 10), C(12, 10), S(b), C(5, 20), C(2, 5), C(5, 0)]]);
    add("exterior with a notch, symbolic", vec![vec![C(0, 0), C(20, 0), C(20, 20), S(b), C(0, 20), C(0, 0)], rect(5, 5, 15, 10)]);
    // many holes out of reach, and two near each other
    for (n, at) in [(15i64, 13i64)] {
        let mut far: Vec<Vec<Slot>> = vec![rect(-60, -60, 140, 60), rect(-58, -58, -57, -57)];
        for i in 0..n { if i == at { far.push(tri1(b, (0, 0), (-5, 20))); far.push(rect(0, 0, 10, 10)); } far.push(rect(50 + i * 2, 50, 51 + i * 2, 51)); }
        far.push(rect(135, 58, 136, 59));
        add(&format!("{} far holes, two near", n), far);
    }
    // an exterior of many vertices
    let mut long = cs(&[(-60, -60), (60, -60), (60, 60), (30, 60), (10, 10), (-10, 60)]);
    for i in 0..20 { long.push(C(-58 - (i % 2) * 2, 59 - i * 4)); }
    long.push(C(-60, -60));
    if th { add("long exterior", vec![long, tri1(b, (0, -20), (10, 10))]); }
    let mut many: Vec<Vec<Slot>> = vec![rect(-30, -30, 300, 30), rect(-29, -29, -28, -28), rect(290, 28, 291, 29)];
    for i in 0..10 { many.push(if i == 7 { tri1(20, (70, 5), (75, 5)) } else { rect(i * 10 + if i > 7 { 100 } else { 0 }, 0, i * 10 + 5 + if i > 7 { 100 } else { 0 }, 5) }); }
    if th { add("ten holes", many); }
    if th {
        add("square, triangular hole", vec![rect(0, 0, 20, 20), tri(b, 5)]);
        add("triangle, triangular hole", vec![ring(&[(0, 0), (20, 0), (0, 20)]), tri(b, 4)]);
        add("symbolic triangle, triangular hole", vec![tri(b, 0), ring(&[(5, 2), (10, 2), (10, 7)])]);
        add("L, hole with two symbolic corners", vec![l_shape(), tri2(b, (0, 0))]);
        add("U, hole with two symbolic corners", vec![u_shape(), tri2(b, (5, 5))]);
        add("notch, hole with two symbolic corners", vec![notch(), tri2(b, (10, 10))]);
        add("two holes, one with two symbolic corners", vec![rect(-50, -50, 50, 50), rect(0, 0, 10, 10), tri2(b, (0, 0))]);
    }
    v
}

fn t_multipolygon(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 40;
    let mut add = |n: &str, s: Shape| task!(v, [2, 2], n, multipolygon, s);
    let l_shape = || ring(&[(0, 0), (20, 0), (20, 10), (10, 10), (10, 20), (0, 20)]);
    let u_shape = || ring(&[(0, 0), (30, 0), (30, 20), (20, 20), (20, 10), (10, 10), (10, 20), (0, 20)]);
    let frame = || vec![rect(-30, -30, 30, 30), rect(-20, -20, 20, 20)];
    add("none", vec![]);
    add("empty ones", vec![vec![vec![]], vec![vec![]]]);
    add("an invalid one", vec![vec![rect(100, 100, 120, 120)], vec![vec![S(b), S(b), S(b), S(b)]]]);
    add("one", vec![vec![tri(b, 0)]]);
    add("empty and one", vec![vec![vec![]], vec![tri(b, 0)], vec![vec![]]]);
    add("square and triangle", vec![vec![rect(0, 0, 20, 20)], vec![tri1(b, (20, 5), (25, 30))]]);
    add("triangle and square", vec![vec![tri1(b, (20, 5), (25, 30))], vec![rect(0, 0, 20, 20)]]);
    add("square in triangle", vec![vec![rect(0, 0, 3, 3)], vec![tri1(b, (-30, -5), (30, -5))]]);
    add("L and triangle", vec![vec![l_shape()], vec![tri1(b, (10, 10), (30, 30))]]);
    add("U and triangle across its gap", vec![vec![u_shape()], vec![tri1(b, (10, 14), (20, 16))]]);
    add("triangle across the gap of a U", vec![vec![tri1(b, (10, 14), (20, 16))], vec![u_shape()]]);
    if th { add("frame and triangle across it", vec![frame(), vec![tri1(b, (-20, 0), (20, -2))]]); }
    add("frame and triangle in it", vec![frame(), vec![tri1(b, (-20, 0), (0, -5))]]);
    add("triangle and frame around it", vec![vec![tri1(b, (-20, 0), (0, -5))], frame()]);
    add("frame with two holes", vec![vec![rect(-30, -30, 30, 30), rect(-20, -20, -5, 20), rect(0, -20, 20, 20)], vec![tri1(b, (1, 0), (10, 10))]]);
    let wshape = || ring(&[(0, 0), (8, 14), (10, 10), (12, 14), (20, 0), (20, 20), (0, 20)]);
    add("frame with a notched hole", vec![vec![rect(-30, -30, 30, 30), wshape()], vec![tri1(b, (0, 0), (20, 0))]]);
    add("frame with a symbolic hole", vec![vec![rect(-50, -50, 50, 50), tri1(b, (-20, -20), (20, -20))], vec![rect(-2, -15, 2, -10)]]);
    add("clockwise square and triangle", vec![vec![cw(rect(0, 0, 20, 20))], vec![tri1(b, (20, 5), (25, 30))]]);
    add("triangle and clockwise L", vec![vec![tri1(b, (10, 10), (30, 30))], vec![cw(l_shape())]]);
    add("clockwise frame and triangle in it", vec![vec![cw(rect(-30, -30, 30, 30)), cw(rect(-20, -20, 20, 20))], vec![tri1(b, (-20, 0), (0, -5))]]);
    for (n, at) in [(15i64, 13i64)] {
        let mut far: Shape = vec![vec![rect(-58, -58, -57, -57)], vec![rect(135, 58, 136, 59)]];
        for i in 0..n { if i == at { far.push(vec![tri1(b, (0, 0), (-5, 20))]); far.push(vec![rect(0, 0, 10, 10)]); } far.push(vec![rect(50 + i * 2, 50, 51 + i * 2, 51)]); }
        add(&format!("{} far polygons, two near", n), far);
    }
    let mut grid: Shape = vec![vec![rect(-60, -60, 140, 60)]];
    for i in 0..(if th { 20 } else { 4 }) { grid[0].push(rect(50 + i * 2, 50, 51 + i * 2, 51)); }
    grid[0].insert(3, rect(-20, -20, 20, 20));
    grid.push(vec![tri1(b, (-20, 0), (0, -5))]);
    add("many holes, and a triangle in one", grid);
    add("two squares and a triangle", vec![vec![rect(0, 0, 10, 10)], vec![rect(10, 10, 20, 20)], vec![tri1(b, (10, 10), (20, 9))]]);
    if th {
        add("two triangles from a corner", vec![vec![ring(&[(0, 0), (20, 0), (0, 20)])], vec![tri2(b, (0, 0))]]);
        add("nested frames", vec![frame(), vec![rect(-20, -20, 19, 19), rect(-10, -10, 10, 10)], vec![tri1(b, (0, 0), (5, 2))]]);
        add("three squares and a triangle", vec![vec![rect(0, 0, 10, 10)], vec![rect(10, 10, 20, 20)], vec![rect(-10, -10, 0, 0)], vec![tri1(b, (10, 10), (20, 9))]]);
        add("square and symbolic triangle", vec![vec![rect(0, 0, 20, 20)], vec![tri(b, 5)]]);
        add("symbolic triangle and triangle", vec![vec![tri(b, 0)], vec![ring(&[(0, 0), (20, 0), (0, 20)])]]);
        add("frame and triangle with two symbolic corners", vec![frame(), vec![tri2(b, (-20, -20))]]);
        add("L and triangle with two symbolic corners", vec![vec![l_shape()], vec![tri2(b, (10, 10))]]);
        let mut many: Shape = vec![vec![rect(-29, -29, -28, -28)], vec![rect(290, 28, 291, 29)]];
        for i in 0..10 { many.push(vec![if i == 7 { tri1(20, (70, 5), (75, 5)) } else { rect(i * 10 + if i > 7 { 100 } else { 0 }, 0, i * 10 + 5 + if i > 7 { 100 } else { 0 }, 5) }]); }
        add("ten polygons", many);
    }
    v
}

// ---------------------------------------------------------------- convex hulls
fn convex<D: Dom>((s,): &(Vec<Slot>,)) {
    let v = points::<D>(s);
    D::assume(closed_simple::<D>(&v));
    let p = Polygon::new(ls::<D>(&v), vec![]);
    let h: LineString<D::C> = p.convex_hull();
    let h: Vec<Position<D::C>> = h.positions;
    // the positions of the hull are positions of the loop: find which, on this path
    let n = v.len() - 1;
    let mut idx = vec![];
    for &q in &h {
        match (0..n).find(|&i| D::decide(at::<D>(q, v[i]))) { Some(i) => idx.push(i), None => { D::check(ff::<D>(), "the hull has a position that the loop has not"); return; } }
    }
    D::check(D::B::c(idx.len() >= 4 && idx[0] == idx[idx.len() - 1]), "the hull is not closed");
    let w: Vec<Pt<D>> = idx.iter().map(|&i| v[i]).collect();
    let mut u = idx[1..].to_vec();
    u.sort();
    u.dedup();
    D::check(D::B::c(u.len() == idx.len() - 1), "the hull visits a position twice");
    let mut ok = tt::<D>();
    for e in w.windows(2) { for &p in &v[..n] { ok = ok & !orient::<D>(e[0], e[1], p).neg_(); } }
    D::check(ok, "a position of the loop is outside of the hull");
    D::check(all(w.windows(2).map(|e| nep::<D>(e[0], e[1]))), "the hull has an edge without length");
    let m = w.len() - 1;
    D::check(all((0..m).map(|i| orient::<D>(w[i], w[i + 1], w[(i + 2) % m]).pos())), "a position of the hull is not a corner of it");
}
fn t_hull(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 60;
    let mut add = |n: &str, s: Vec<Slot>| task!(v, [], n, convex, s);
    add("triangle", tri(b, 0));
    add("quadrilateral", vec![S(b), S(b), S(b), S(b), Same(0)]);
    add("pentagon, two symbolic", vec![C(0, 0), C(20, 0), S(b), S(b), C(0, 20), Same(0)]);
    add("pentagon, two symbolic, clockwise", vec![C(0, 20), S(b), S(b), C(20, 0), C(0, 0), Same(0)]);
    add("comb, one symbolic", vec![C(0, 0), C(40, 0), C(40, 20), C(35, 5), C(30, 20), S(b), C(20, 20), C(15, 5), C(10, 20), C(5, 5), C(0, 20), Same(0)]);
    add("spiral, one symbolic", vec![C(0, 0), C(30, 0), C(30, 30), S(b), C(0, 10), C(20, 10), C(20, 20), C(10, 20), C(10, 25), C(25, 25), C(25, 5), Same(0)]);
    // a long way there and back, with teeth on both sides
    let lace = |n: i64| -> Vec<(i64, i64)> { (0..n).map(|i| (i * 20, -(i % 2) * 7)).chain((0..n).rev().map(|i| (i * 20, 30 + (i % 2) * 9))).collect() };
    for (n, i) in [(10, 4usize), (10, 17), (40, 1), (40, 77)] { let mut s = ring(&lace(n)); s[i] = S(b); add(&format!("lace of {}, vertex {}", 2 * n, i), s); }
    if th {
        for i in 0..20 { let mut s = ring(&lace(10)); s[i] = S(b); if i == 0 { s[20] = Same(0); } add(&format!("lace of 20, vertex {}", i), s); }
        add("pentagon, three symbolic", vec![C(0, 0), C(20, 0), S(b), S(b), S(b), Same(0)]);
        add("hexagon, two symbolic", vec![C(0, 0), S(b), C(20, 0), C(15, 20), S(b), C(0, 10), Same(0)]);
        add("hexagon, two symbolic, clockwise", vec![C(0, 10), S(b), C(15, 20), C(20, 0), S(b), C(0, 0), Same(0)]);
        for i in 0..10 { let mut s = ring(&[(0, 0), (40, 0), (40, 20), (35, 5), (30, 20), (25, 5), (20, 20), (15, 5), (10, 20), (0, 20)]); s[i] = S(b); if i == 0 { s[10] = Same(0); } add(&format!("comb, vertex {}", i), s); }
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", tasks: t_polygon },
        Prop { id: "C18", tasks: t_multipolygon },
        Prop { id: "C23", tasks: t_hull },
    ]
}
