//! MultiPoints, MultiLineStrings, boundaries, accessors, the Geometry enum and non-finite input.
use super::env::{at, same_as};
use super::line::{cs, ls, points, Slot, Slot::*};
use super::segment::{pos, pt};
use super::tree::{env_same, odd_coord, odd_pos};
use super::Prop;
use crate::dom::*;
use crate::engine::Task;
use crate::spec::*;
use crate::task;
use magog::flatbush::Flatbush;
use magog::linear::primitives as lp;
use magog::linear::types as lt;
use magog::planar::primitives::*;
use magog::planar::types::{Empty, Geometry, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon};

// ---------------------------------------------------------------- MultiPoint
pub fn mp<D: Dom>(v: &[Pt<D>]) -> MultiPoint<D::C> { MultiPoint::new(v.iter().map(|&p| Point::new(pos::<D>(p))).collect()) }
fn distinct<D: Dom>(v: &[Pt<D>]) -> D::B {
    let mut r = tt::<D>();
    for i in 0..v.len() { for j in 0..i { r = r & nep::<D>(v[i], v[j]); } }
    r
}
/// is the position of index i one of those before it?
fn repeated<D: Dom>(v: &[Pt<D>], i: usize) -> D::B { any((0..i).map(|j| eqp::<D>(v[i], v[j]))) }
fn before<D: Dom>(p: Position<D::C>, q: Position<D::C>) -> D::B { D::cmp_c(p.x, q.x, 1) | (D::same(p.x, q.x) & D::cmp_c(p.y, q.y, 1)) }
fn samep<D: Dom>(p: Position<D::C>, q: Position<D::C>) -> D::B { D::same(p.x, q.x) & D::same(p.y, q.y) }

fn multipoint<D: Dom>((s, b): &(Vec<Slot>, i64)) {
    let v = points::<D>(s);
    let m = mp::<D>(&v);
    let d = distinct::<D>(&v);
    same_as::<D>(m.validate().is_ok(), d, "a MultiPoint is valid exactly if no point is repeated");
    same_as::<D>(m.is_simple(), d, "a MultiPoint is simple exactly if no point is repeated");
    D::check(D::B::c(m.is_empty() == v.is_empty() && m.num_points() == v.len()), "the number of points");
    let p = pt::<D>(*b);
    same_as::<D>(m.contains_point(&Point::new(pos::<D>(p))), any(v.iter().map(|&q| eqp::<D>(p, q))), "contains_point");
    simple::<D>(&v, m.make_simple());
}
/// out is the geometry of the distinct positions of v, in ascending order
fn simple<D: Dom>(v: &[Pt<D>], out: Geometry<D::C>) {
    match out {
        Geometry::Empty(_) => D::check(D::B::c(v.is_empty()), "points are lost"),
        Geometry::MultiPoint(o) => {
            let o: Vec<Position<D::C>> = o.points.iter().map(|p| p.0).collect();
            D::check(D::B::c(!o.is_empty()), "an empty MultiPoint instead of an empty geometry");
            D::check(all(v.iter().map(|&p| any(o.iter().map(|&q| at::<D>(q, p))))), "a point is lost");
            D::check(all(o.iter().map(|&q| any(v.iter().map(|&p| at::<D>(q, p))))), "a point is invented");
            D::check(all(o.windows(2).map(|w| before::<D>(w[0], w[1]))), "the points are not distinct and in ascending order");
        }
        _ => D::check(ff::<D>(), "neither empty nor a MultiPoint"),
    }
}
/// points that are not finite are not valid, and are dropped by make_simple
fn multipoint_odd<D: Dom>((n, b): &(usize, i64)) {
    let v: Vec<Position<D::C>> = (0..*n).map(|_| odd_pos::<D>(*b)).collect();
    let fin = |p: &Position<D::C>| !D::is_nan(p.x) && !D::is_nan(p.y) && D::inf_sign(p.x) == 0 && D::inf_sign(p.y) == 0;
    let m = MultiPoint::new(v.iter().map(|&p| Point::new(p)).collect());
    let good: Vec<Position<D::C>> = v.iter().copied().filter(fin).collect();
    let mut d = D::B::c(good.len() == v.len());
    for i in 0..good.len() { for j in 0..i { d = d & !samep::<D>(good[i], good[j]); } }
    same_as::<D>(m.validate().is_ok(), d, "a MultiPoint is valid exactly if its points are finite and distinct");
    match m.make_simple() {
        Geometry::Empty(_) => D::check(D::B::c(good.is_empty()), "points are lost"),
        Geometry::MultiPoint(o) => {
            let o: Vec<Position<D::C>> = o.points.iter().map(|p| p.0).collect();
            D::check(D::B::c(!o.is_empty() && o.iter().all(fin)), "a point that is not finite is kept");
            D::check(all(good.iter().map(|&p| any(o.iter().map(|&q| samep::<D>(q, p))))), "a point is lost");
            D::check(all(o.iter().map(|&q| any(good.iter().map(|&p| samep::<D>(q, p))))), "a point is invented");
            D::check(all(o.windows(2).map(|w| before::<D>(w[0], w[1]))), "the points are not distinct and in ascending order");
        }
        _ => D::check(ff::<D>(), "neither empty nor a MultiPoint"),
    }
}
fn t_multipoint(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 1000;
    let mut shapes = vec![vec![], vec![S(b)], vec![S(b); 2], vec![S(b); 3], vec![S(b), Same(0)], vec![S(b), S(b), Same(0)], vec![S(b), C(1, 2), C(-3, 4), C(1, 2)], vec![C(0, 0), S(b), C(0, 1), C(1, 0), C(1, 1)]];
    if th { shapes.extend(vec![vec![S(b); 4], vec![S(b), S(b), S(b), Same(1)], (0..40).map(|i| if i == 17 { S(b) } else { C(i % 7, i / 7) }).collect()]); }
    for (i, s) in shapes.into_iter().enumerate() { task!(v, [], format!("shape {} of {} points", i, s.len()), multipoint, s, b); }
    for n in 1..(if th { 3usize } else { 2 }) + 1 { task!(v, [], format!("odd {}", n), multipoint_odd, n, b); }
    v
}

// ---------------------------------------------------------------- MultiLineString
fn ends<D: Dom>(v: &[Pt<D>]) -> (Pt<D>, Pt<D>) { (v[0], v[v.len() - 1]) }
/// all points that two simple polylines share are ends of both, neither of which is a ring
fn meet_at_ends<D: Dom>(a: &[Pt<D>], b: &[Pt<D>]) -> D::B {
    let mut ok = tt::<D>();
    if a.is_empty() || b.is_empty() { return ok; }
    let ((a0, a1), (b0, b1)) = (ends::<D>(a), ends::<D>(b));
    let open = nep::<D>(a0, a1) & nep::<D>(b0, b1);
    let end = |p: Pt<D>| (eqp::<D>(p, a0) | eqp::<D>(p, a1)) & (eqp::<D>(p, b0) | eqp::<D>(p, b1));
    for s in a.windows(2) {
        for t in b.windows(2) {
            ok = ok & !proper_cross::<D>(s[0], s[1], t[0], t[1]) & !overlap::<D>(s[0], s[1], t[0], t[1]);
            for (p, u) in [(s[0], t), (s[1], t), (t[0], s), (t[1], s)] {
                ok = ok & implies::<D>(on_seg::<D>(p, u[0], u[1]), open & end(p));
            }
        }
    }
    ok
}
fn multilinestring<D: Dom>((shape,): &(Vec<Vec<Slot>>,)) {
    // the slots are numbered through all line strings
    let flat: Vec<Slot> = shape.iter().flatten().copied().collect();
    let all_pts = points::<D>(&flat);
    let mut i = 0;
    let parts: Vec<Vec<Pt<D>>> = shape.iter().map(|s| { let p = all_pts[i..i + s.len()].to_vec(); i += s.len(); p }).collect();
    let m = MultiLineString::new(parts.iter().map(|p| ls::<D>(p)).collect());
    let mut want = all(parts.iter().map(|p| simple_polyline::<D>(p)));
    for i in 0..parts.len() { for j in 0..i { want = want & meet_at_ends::<D>(&parts[j], &parts[i]); } }
    if m.validate().is_ok() { D::check(want, "line strings that meet elsewhere than at their ends are accepted"); }
    else { D::check(!want, "line strings that meet at their ends at most are rejected"); }
}
fn t_multiline(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 60;
    let mut add = |n: &str, s: Vec<Vec<Slot>>| task!(v, [2, 2], n, multilinestring, s);
    add("none", vec![]);
    add("empty ones", vec![vec![], vec![]]);
    add("empty and one", vec![vec![], vec![S(b), S(b)], vec![]]);
    add("one point", vec![vec![S(b)], vec![C(0, 0), C(1, 1)]]);
    add("two segments", vec![vec![S(b), S(b)], vec![S(b), S(b)]]);
    add("two segments from one point", vec![vec![S(b), S(b)], vec![Same(0), S(b)]]);
    add("segment and V", vec![cs(&[(0, 0), (10, 0), (10, 10)]), vec![S(b), S(b)]]);
    add("V and segment", vec![vec![S(b), S(b)], cs(&[(0, 0), (10, 0), (10, 10)])]);
    add("triangle and segment", vec![cs(&[(0, 0), (10, 0), (0, 10), (0, 0)]), vec![S(b), S(b)]]);
    add("triangle and V from its corner", vec![cs(&[(0, 0), (10, 0), (0, 10), (0, 0)]), vec![C(0, 0), S(b)]]);
    add("three segments at a point", vec![vec![S(b), C(0, 0)], cs(&[(0, 0), (10, 10)]), cs(&[(5, -20), (0, 0)])]);
    add("three segments", vec![cs(&[(-10, 0), (10, 0)]), cs(&[(0, 5), (0, 20)]), vec![S(b), C(0, 30)]]);
    add("two triangles", vec![cs(&[(0, 0), (10, 0), (0, 10), (0, 0)]), vec![C(12, 10), C(12, 8), S(b), C(12, 10)]]);
    add("two triangles at a corner", vec![cs(&[(0, 0), (10, 0), (0, 10), (0, 0)]), vec![C(0, 0), S(b), C(-3, -20), C(0, 0)]]);
    add("square and triangle", vec![cs(&[(0, 0), (12, 0), (12, 12), (0, 12), (0, 0)]), vec![C(2, 2), C(4, 2), S(b), C(2, 2)]]);
    add("two Vs", vec![cs(&[(-10, 0), (0, 0), (10, 5)]), vec![C(3, 20), S(b), C(-10, 0)]]);
    let zig: Vec<(i64, i64)> = (0..12).map(|i| (i * 10, if i % 2 == 0 { 0 } else { 10 })).collect();
    add("zigzag and segment", vec![cs(&zig), vec![C(55, 40), S(b)]]);
    let many = |n: i64, b: i64| -> Vec<Vec<Slot>> { (0..n).map(|i| if i == 6 { vec![S(b), C(0, 3)] } else if i == 5 { cs(&[(0, 0), (2, 2)]) } else { cs(&[(i * 9 + 100, 0), (i * 9 + 103, 2)]) }).collect() };
    add("nine segments", many(9, 20));
    // many line strings out of reach, and two near each other; and a long line string near its end
    let far = |n: i64, at: i64| -> Vec<Vec<Slot>> {
        let mut v = vec![cs(&[(-60, -60), (-59, -60)])];
        for i in 0..n { if i == at { v.push(cs(&[(0, 0), (10, 0), (10, 10)])); v.push(vec![S(40), C(0, 30)]); } v.push(cs(&[(2 * i, 50), (2 * i + 1, 51)])); }
        v.push(cs(&[(60, 60), (59, 60)]));
        v
    };
    add("twenty far segments, two near", far(16, 15));
    for n in (if th { vec![40i64, 300] } else { vec![40i64] }) {
        let long: Vec<(i64, i64)> = (0..n).map(|i| ((i - n + 1) * 10, if i % 2 == 0 { 0 } else { 10 })).collect();
        add(&format!("end of a zigzag of {} and segment", n), vec![cs(&long), vec![C(5, 40), S(b)]]);
        add(&format!("segment and end of a zigzag of {}", n), vec![vec![S(b), C(-30, 40)], cs(&long)]);
    }
    if th {
        add("ten segments", (0..10).map(|i| if i == 6 { vec![S(b), C(0, 3)] } else { cs(&[(i * 4, 0), (i * 4 + 2, 2)]) }).collect());
        add("V and segment, symbolic", vec![vec![S(b), S(b), S(b)], vec![S(b), S(b)]]);
        add("triangle and segment, symbolic", vec![vec![S(b), S(b), S(b), Same(0)], vec![S(b), S(b)]]);
        add("two Vs, one symbolic", vec![cs(&[(0, 0), (10, 0), (10, 10)]), vec![S(b), S(b), S(b)]]);
        add("two triangles, one symbolic", vec![cs(&[(0, 0), (10, 0), (0, 10), (0, 0)]), vec![S(b), S(b), S(b), Same(4)]]);
        add("three segments from a point", vec![vec![S(b), S(b)], vec![Same(0), S(b)], vec![Same(0), S(b)]]);
    }
    v
}

// ---------------------------------------------------------------- boundaries
fn line_boundary<D: Dom>((s,): &(Vec<Slot>,)) {
    let v = points::<D>(s);
    let l = ls::<D>(&v);
    let closed = if v.len() < 4 { ff::<D>() } else { eqp::<D>(v[0], v[v.len() - 1]) };
    match l.boundary() {
        Geometry::Empty(_) => D::check(D::B::c(v.is_empty()) | closed, "an open LineString has no boundary"),
        Geometry::MultiPoint(o) => {
            D::check(D::B::c(!v.is_empty()) & !closed, "a closed LineString has a boundary");
            D::check(D::B::c(o.points.len() == 2), "the boundary of a LineString is not its two ends");
            let (a, b) = (o.points[0].0, o.points[1].0);
            let (s, e) = (v[0], v[v.len() - 1]);
            D::check(at::<D>(a, s) & at::<D>(b, e), "the boundary of a LineString is not its two ends");
        }
        _ => D::check(ff::<D>(), "the boundary of a LineString is neither empty nor points"),
    }
}
fn multi_boundary<D: Dom>((sizes, b): &(Vec<usize>, i64)) {
    let parts: Vec<Vec<Pt<D>>> = sizes.iter().map(|&n| {
        // only the ends matter; the last position may be a copy of the first
        (0..n).map(|i| if i == 0 || i == n - 1 { pt::<D>(*b) } else { (k::<D>(i as i64), k::<D>((i * i) as i64)) }).collect()
    }).collect();
    let m = MultiLineString::new(parts.iter().map(|p| ls::<D>(p)).collect());
    let e: Vec<Pt<D>> = parts.iter().filter(|p| !p.is_empty()).flat_map(|p| { let (a, b) = ends::<D>(p); vec![a, b] }).collect();
    let odd_ = |p: Pt<D>| e.iter().fold(ff::<D>(), |r, &q| r ^ eqp::<D>(p, q));
    let out: Vec<Position<D::C>> = match m.boundary() {
        Geometry::Empty(_) => vec![],
        Geometry::MultiPoint(o) => { D::check(D::B::c(!o.points.is_empty()), "an empty MultiPoint instead of an empty geometry"); o.points.iter().map(|p| p.0).collect() }
        _ => { D::check(ff::<D>(), "the boundary of a MultiLineString is neither empty nor points"); vec![] }
    };
    D::check(all(e.iter().map(|&p| iff::<D>(odd_(p), any(out.iter().map(|&q| at::<D>(q, p)))))), "the boundary is not the points that end an odd number of line strings");
    D::check(all(out.iter().map(|&q| any(e.iter().map(|&p| at::<D>(q, p))))), "a boundary point is no end");
    D::check(all(out.windows(2).map(|w| before::<D>(w[0], w[1]))), "the boundary points are not distinct and in ascending order");
}
fn poly_boundary<D: Dom>((sizes, b): &(Vec<Vec<usize>>, i64)) {
    let loops: Vec<Vec<Vec<Pt<D>>>> = sizes.iter().map(|p| p.iter().map(|&n| (0..n).map(|_| pt::<D>(*b)).collect()).collect()).collect();
    let poly = |l: &Vec<Vec<Pt<D>>>| Polygon::new(ls::<D>(&l[0]), l[1..].iter().map(|p| ls::<D>(p)).collect());
    let check = |g: Geometry<D::C>, want: Vec<Vec<Pt<D>>>| {
        match g {
            Geometry::MultiLineString(m) => {
                D::check(D::B::c(m.line_strings.len() == want.len()), "the boundary has not one line string per loop");
                for (l, w) in m.line_strings.iter().zip(&want) {
                    D::check(D::B::c(l.positions.len() == w.len()), "a loop of the boundary has other positions");
                    D::check(all(l.positions.iter().zip(w).map(|(&p, &q)| at::<D>(p, q))), "a loop of the boundary has other positions");
                    D::check(env_same::<D>(l.envelope(), ls::<D>(w).envelope()), "a loop of the boundary has another box");
                }
            }
            _ => D::check(ff::<D>(), "the boundary of a polygon is not line strings"),
        }
    };
    for l in &loops { check(poly(l).boundary(), l.clone()); }
    let m = MultiPolygon::new(loops.iter().map(poly).collect());
    check(m.boundary(), loops.iter().filter(|l| l.iter().any(|x| !x.is_empty())).flatten().cloned().collect());
}
fn t_boundary(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 1000;
    for n in 0..(if th { 9usize } else { 6 }) { let s = vec![S(b); n]; task!(v, [], format!("line string of {}", n), line_boundary, s); }
    for n in [4usize, 5, 9] { let mut s = vec![S(b); n]; s[n - 1] = Same(0); task!(v, [], format!("ring of {}", n), line_boundary, s); }
    let mut ss: Vec<Vec<usize>> = vec![vec![], vec![0], vec![2], vec![1], vec![3], vec![5], vec![2, 2], vec![2, 4], vec![4, 0, 5], vec![1, 2]];
    if th { ss.extend(vec![vec![2, 3, 4]]); }
    for s in ss { task!(v, [], format!("line strings of {:?}", s), multi_boundary, s, b); }
    for s in vec![vec![vec![4usize]], vec![vec![4, 4]], vec![vec![0]], vec![vec![4, 5, 4], vec![0], vec![5]], vec![], vec![vec![4], vec![4, 4, 4]]] { task!(v, [], format!("polygons of {:?}", s), poly_boundary, s, b); }
    v
}

// ---------------------------------------------------------------- construction and equality
/// the positions of a geometry in order, and its structure
fn flat<C: magog::Coordinate>(g: &Geometry<C>) -> (Vec<Position<C>>, Vec<usize>) {
    let (mut v, mut k) = (vec![], vec![]);
    let line = |l: &LineString<C>, v: &mut Vec<Position<C>>, k: &mut Vec<usize>| { v.extend(l.positions.iter().copied()); k.push(l.positions.len()); };
    let poly = |p: &Polygon<C>, v: &mut Vec<Position<C>>, k: &mut Vec<usize>| {
        k.push(p.interiors.len());
        line(&p.exterior, v, k);
        for i in &p.interiors { line(i, v, k); }
    };
    match g {
        Geometry::Empty(_) => k.push(100),
        Geometry::Point(p) => { k.push(101); v.push(p.0); }
        Geometry::LineString(l) => { k.push(102); line(l, &mut v, &mut k); }
        Geometry::Polygon(p) => { k.push(103); poly(p, &mut v, &mut k); }
        Geometry::MultiPoint(m) => { k.push(104); v.extend(m.points.iter().map(|p| p.0)); }
        Geometry::MultiLineString(m) => { k.push(105); for l in &m.line_strings { line(l, &mut v, &mut k); } }
        Geometry::MultiPolygon(m) => { k.push(106); for p in &m.polygons { poly(p, &mut v, &mut k); } }
    }
    (v, k)
}
fn holds<D: Dom>(g: Geometry<D::C>, v: &[Pt<D>], kind: &[usize], what: &str) {
    let (ps, k) = flat(&g);
    D::check(D::B::c(ps.len() == v.len() && k == kind), &format!("{}: its parts", what));
    D::check(all(ps.iter().zip(v).map(|(&p, &q)| at::<D>(p, q))), &format!("{}: its positions", what));
}
fn built<D: Dom>((n, b): &(usize, i64)) {
    let v: Vec<Pt<D>> = (0..*n).map(|_| pt::<D>(*b)).collect();
    let xy = |i: usize| (D::coord(v[i].0), D::coord(v[i].1));
    let (ts, arrs, ps): (Vec<(D::C, D::C)>, Vec<[D::C; 2]>, Vec<Position<D::C>>) = ((0..*n).map(xy).collect(), (0..*n).map(|i| [xy(i).0, xy(i).1]).collect(), v.iter().map(|&p| pos::<D>(p)).collect());
    for i in 0..*n {
        for (q, how) in [(Position::from(ts[i]), "tuple"), (Position::from(arrs[i]), "array"), (Position::new(ts[i].0, ts[i].1), "numbers")] { D::check(at::<D>(q, v[i]), &format!("a position from a {}", how)); }
        holds::<D>(Point::from(ts[i]).into(), &v[i..i + 1], &[101], "a point from a tuple");
        holds::<D>(Point::from(arrs[i]).into(), &v[i..i + 1], &[101], "a point from an array");
        holds::<D>(Point::new(ps[i]).into(), &v[i..i + 1], &[101], "a point");
        D::check(at::<D>(Position::new(Point::from(ps[i]).x(), Point::from(ps[i]).y()), v[i]), "x and y of a point");
    }
    let line = [102, *n];
    holds::<D>(LineString::from(ts.clone()).into(), &v, &line, "a line string from tuples");
    holds::<D>(LineString::from(arrs.clone()).into(), &v, &line, "a line string from arrays");
    holds::<D>(LineString::from(ps.clone()).into(), &v, &line, "a line string from positions");
    holds::<D>(LineString::collect_from(ps.iter().copied()).into(), &v, &line, "a line string from an iterator");
    holds::<D>(LineString::from(ts.clone()).clone().into(), &v, &line, "a copy of a line string");
    holds::<D>(MultiPoint::from(ts.clone()).into(), &v, &[104], "a multi-point from tuples");
    holds::<D>(MultiPoint::from(ps.clone()).into(), &v, &[104], "a multi-point from positions");
    holds::<D>(Polygon::from(ts.clone()).into(), &v, &[103, 0, *n], "a polygon from tuples");
    holds::<D>(Polygon::from(LineString::from(ps.clone())).into(), &v, &[103, 0, *n], "a polygon from a line string");
    let w: Vec<Pt<D>> = (0..2).flat_map(|_| v.iter().copied()).collect();
    let k2 = |k: usize| vec![k, *n, *n];
    holds::<D>(Polygon::new(ps.clone().into(), vec![ts.clone().into()]).into(), &w, &[103, 1, *n, *n], "a polygon with a hole");
    holds::<D>(MultiLineString::from(vec![ts.clone(), ts.clone()]).into(), &w, &k2(105), "a multi-line-string from tuples");
    holds::<D>(MultiLineString::new(vec![ps.clone().into(), ts.clone().into()]).into(), &w, &k2(105), "a multi-line-string");
    holds::<D>(MultiPolygon::from(vec![ts.clone(), ts.clone()]).into(), &w, &[106, 0, *n, 0, *n], "a multi-polygon from tuples");
    holds::<D>(MultiPolygon::new(vec![Polygon::new(ps.clone().into(), vec![ts.clone().into()])]).into(), &w, &[106, 1, *n, *n], "a multi-polygon");
    for i in 1..*n {
        let s = |s: Segment<D::C>| at::<D>(s.start, v[i - 1]) & at::<D>(s.end, v[i]);
        D::check(s(Segment::from((ts[i - 1], ts[i]))) & s(Segment::from((ps[i - 1], ps[i]))) & s(Segment::new(ps[i - 1], ps[i])), "a segment");
        let t = Triangle::from((ps[0], ps[i - 1], ps[i]));
        D::check(at::<D>(t.0, v[0]) & at::<D>(t.1, v[i - 1]) & at::<D>(t.2, v[i]), "a triangle");
        // on a line
        let (x, y) = (xy(i).0, xy(i).1);
        let s = |s: lp::Segment<D::C>| D::eq_int(s.start.x, v[i].0) & D::eq_int(s.end.x, v[i].1);
        D::check(s(lp::Segment::from((x, y))) & s(lp::Segment::from((lp::Position::new(x), lp::Position::new(y)))), "a segment on the line");
        let l = lt::Line::from((x, y));
        D::check(D::eq_int(l.start().unwrap().0.x, v[i].0) & D::eq_int(l.end().unwrap().0.x, v[i].1), "a line from a pair");
        let m = lt::MultiLine::from(vec![(y, x), (x, y)]);
        let l = m.get_line(1).unwrap();
        D::check(D::eq_int(l.start().unwrap().0.x, v[i].0) & D::eq_int(l.end().unwrap().0.x, v[i].1) & D::B::c(m.get_line(2).is_none()), "a multi-line from pairs");
        let m = lt::MultiPoint::from(vec![x, y]);
        D::check(D::eq_int(m.get_point(0).unwrap().0.x, v[i].0) & D::eq_int(m.get_point(1).unwrap().0.x, v[i].1) & D::B::c(m.num_points() == 2), "a multi-point on the line");
        D::check(D::eq_int(lt::Point::from(x).0.x, v[i].0), "a point on the line");
        match lp::Envelope::from((x, y)) {
            lp::Envelope::Bounds { min, max } => D::check(D::eq_int(min.x, v[i].0.imin(v[i].1)) & D::eq_int(max.x, v[i].0.imax(v[i].1)), "an interval from a pair"),
            _ => D::check(ff::<D>(), "an interval from a pair is empty"),
        }
    }
}
/// geometries are equal exactly when they are of the same kind, have the same parts and the same positions
fn equal<D: Dom>((ka, kb, n, b): &(usize, usize, usize, i64)) {
    let make = |kind: usize, v: &[Pt<D>]| -> Geometry<D::C> {
        let h = v.len() / 2;
        match kind {
            0 => Geometry::empty(),
            1 => Point::new(pos::<D>(v[0])).into(),
            2 => ls::<D>(v).into(),
            3 => Polygon::new(ls::<D>(v), vec![]).into(),
            4 => mp::<D>(v).into(),
            5 => MultiLineString::new(vec![ls::<D>(v)]).into(),
            6 => MultiPolygon::new(vec![Polygon::new(ls::<D>(v), vec![])]).into(),
            7 => Polygon::new(ls::<D>(&v[..h]), vec![ls::<D>(&v[h..])]).into(),
            8 => MultiLineString::new(vec![ls::<D>(&v[..h]), ls::<D>(&v[h..])]).into(),
            _ => MultiPolygon::new(vec![Polygon::new(ls::<D>(&v[..h]), vec![]), Polygon::new(ls::<D>(&v[h..]), vec![])]).into(),
        }
    };
    let v: Vec<Pt<D>> = (0..*n).map(|_| pt::<D>(*b)).collect();
    let w: Vec<Pt<D>> = (0..*n).map(|_| pt::<D>(*b)).collect();
    let (g, h) = (make(*ka, &v), make(*kb, &w));
    let used = if *ka == 0 { 0 } else if *ka == 1 { 1 } else { *n };
    same_as::<D>(g == h, if ka != kb { ff::<D>() } else { all((0..used).map(|i| eqp::<D>(v[i], w[i]))) }, "equal means: of the same kind, with the same parts and positions");
}
fn ordered<D: Dom>((b,): &(i64,)) {
    let (p, q) = (pt::<D>(*b), pt::<D>(*b));
    let less = crate::spec::lt::<D>(p.0, q.0) | (eqi::<D>(p.0, q.0) & crate::spec::lt::<D>(p.1, q.1));
    same_as::<D>(pos::<D>(p) < pos::<D>(q), less.clone(), "positions are ordered by x, then y");
    same_as::<D>(pos::<D>(p) == pos::<D>(q), eqp::<D>(p, q), "equality of positions");
    if let (Ok(a), Ok(c)) = (pos::<D>(p).to_hashable(), pos::<D>(q).to_hashable()) {
        same_as::<D>(a < c, less, "the hashable forms are ordered as the positions are");
        same_as::<D>(a == c, eqp::<D>(p, q), "equality of the hashable forms");
        D::check(at::<D>(Position::from(a), p), "the hashable form keeps the position");
    } else { D::check(ff::<D>(), "a finite position has no hashable form"); }
}
fn t_built(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 1000i64;
    for n in 0..(if th { 12usize } else { 6 }) { task!(v, [], format!("built of {}", n), built, n, b); }
    for ka in 0..10usize { for n in (if th { vec![1usize, 2, 3, 4, 6] } else { vec![1usize, 3, 4] }) { task!(v, [], format!("equality of kind {} with {}", ka, n), equal, ka, ka, n, b); } }
    for ka in 0..10usize { for kb in 0..10usize { if ka != kb { let n = 2usize; task!(v, [], format!("equality of kinds {} and {}", ka, kb), equal, ka, kb, n, b); } } }
    task!(v, [], "order of positions", ordered, b);
    v
}

// ---------------------------------------------------------------- accessors
fn accessors<D: Dom>((s,): &(Vec<Slot>,)) {
    let v = points::<D>(s);
    let n = v.len();
    let l = ls::<D>(&v);
    D::check(D::B::c(l.num_points() == n && l.is_empty() == (n == 0)), "the number of positions");
    D::check(D::B::c(l.positions.len() == n) & all(l.positions.iter().zip(&v).map(|(&p, &q)| at::<D>(p, q))), "the positions");
    for i in 0..n + 3 {
        match l.get_point(i) {
            Some(p) => { D::check(D::B::c(i < n), "a point that does not exist"); D::check(at::<D>(p.0, v[i]), "get_point"); }
            None => D::check(D::B::c(i >= n), "a point is missing"),
        }
    }
    match (l.start_point(), l.end_point()) {
        (Some(a), Some(b)) => { D::check(D::B::c(n > 0), "ends of an empty line string"); D::check(at::<D>(a.0, v[0]) & at::<D>(b.0, v[n - 1]), "start and end"); }
        (None, None) => D::check(D::B::c(n == 0), "no ends"),
        _ => D::check(ff::<D>(), "only one end"),
    }
    let seg = |s: &Segment<D::C>, i: usize| at::<D>(s.start, v[i]) & at::<D>(s.end, v[i + 1]);
    let segs: Vec<Segment<D::C>> = l.segments_iter().collect();
    D::check(D::B::c(segs.len() == n.saturating_sub(1)), "the number of segments");
    for (i, s) in segs.iter().enumerate() { D::check(seg(s, i) & seg(&l.get_segment(i), i), "a segment does not join successive positions"); }
    let closed = if n < 4 { ff::<D>() } else { eqp::<D>(v[0], v[n - 1]) };
    same_as::<D>(l.is_closed(), closed, "closed means at least four positions, the last being the first");
    same_as::<D>(MultiLineString::new(vec![ls::<D>(&v)]).is_closed(), closed, "closedness of a MultiLineString");
    D::check(D::B::c(MultiLineString::new(vec![ls::<D>(&v), ls::<D>(&[])]).is_closed() == false), "an empty line string is closed");
    let sq: Vec<D::I> = v.windows(2).map(|w| (w[1].0 - w[0].0) * (w[1].0 - w[0].0) + (w[1].1 - w[0].1) * (w[1].1 - w[0].1)).collect();
    D::check(D::near_sum_sqrt(l.length(), &sq), "length is not the sum of the distances");
}
fn lengths<D: Dom>((sizes, b): &(Vec<usize>, i64)) {
    let parts: Vec<Vec<Pt<D>>> = sizes.iter().map(|&n| (0..n).map(|_| pt::<D>(*b)).collect()).collect();
    let m = MultiLineString::new(parts.iter().map(|p| ls::<D>(p)).collect());
    let sq: Vec<D::I> = parts.iter().flat_map(|v| v.windows(2).map(|w| (w[1].0 - w[0].0) * (w[1].0 - w[0].0) + (w[1].1 - w[0].1) * (w[1].1 - w[0].1)).collect::<Vec<_>>()).collect();
    D::check(D::near_sum_sqrt(m.length(), &sq), "length is not the sum of the lengths");
    same_as::<D>(m.is_closed(), all(parts.iter().map(|v| if v.len() < 4 { ff::<D>() } else { eqp::<D>(v[0], v[v.len() - 1]) })), "closed means that all are closed");
    D::check(D::B::c(m.is_empty() == parts.iter().all(|p| p.is_empty())), "empty means that all are empty");
    // the point on the surface is on it
    let on = |g: Option<Point<D::C>>, l: Option<&Vec<Pt<D>>>| match (g, l) {
        (Some(p), Some(l)) => D::check(any(l.iter().map(|&q| at::<D>(p.0, q))), "the point on the surface is not on it"),
        (None, None) => {}
        _ => D::check(ff::<D>(), "a point on an empty surface, or none on a surface"),
    };
    for p in &parts {
        let g = Polygon::new(ls::<D>(p), vec![]);
        D::check(D::B::c(g.is_empty() == p.is_empty()), "a polygon is empty when its exterior is");
        on(g.point_on_surface(), if p.is_empty() { None } else { Some(p) });
    }
    let g = MultiPolygon::new(parts.iter().map(|p| Polygon::new(ls::<D>(p), vec![])).collect());
    D::check(D::B::c(g.is_empty() == parts.iter().all(|p| p.is_empty())), "empty means that all are empty");
    let all_pts: Vec<Pt<D>> = parts.iter().flatten().copied().collect();
    on(g.point_on_surface(), if all_pts.is_empty() { None } else { Some(&all_pts) });
}
fn ring<D: Dom>((s,): &(Vec<Slot>,)) {
    let v = points::<D>(s);
    let l = ls::<D>(&v);
    let closed = if v.len() < 4 { ff::<D>() } else { eqp::<D>(v[0], v[v.len() - 1]) };
    let simple = simple_polyline::<D>(&v);
    same_as::<D>(l.is_simple(), simple, "simple means that no point is visited twice");
    same_as::<D>(l.is_ring(), closed & simple, "a ring is closed and simple");
}
fn t_accessors(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 1000;
    for n in 0..(if th { 12usize } else { 6 }) { let s = vec![S(b); n]; task!(v, [], format!("line string of {}", n), accessors, s); }
    for n in [4usize, 5, 9] { let mut s = vec![S(b); n]; s[n - 1] = Same(0); task!(v, [], format!("closed line string of {}", n), accessors, s); }
    for s in [vec![], vec![0usize], vec![2, 2], vec![0, 4], vec![4, 4], vec![3, 0, 5], vec![1, 5, 6]] { task!(v, [], format!("line strings of {:?}", s), lengths, s, b); }
    let b = 60;
    for s in [vec![], vec![S(b)], vec![S(b), S(b)], vec![S(b), S(b), S(b)], vec![S(b), S(b), S(b), Same(0)]] { task!(v, [], format!("ring of {}", s.len()), ring, s); }
    v
}

// ---------------------------------------------------------------- the Geometry enum
fn make<D: Dom>(kind: usize, v: &[Pt<D>]) -> Geometry<D::C> {
    let tri = |v: &[Pt<D>]| { let mut w = v.to_vec(); if !w.is_empty() { w.push(w[0]); } ls::<D>(&w) };
    match kind {
        0 => Geometry::from(Empty::new()),
        1 => Geometry::from(Point::new(pos::<D>(v[0]))),
        2 => Geometry::from(ls::<D>(v)),
        3 => Geometry::from(Polygon::new(tri(v), vec![])),
        4 => Geometry::from(mp::<D>(v)),
        5 => Geometry::from(MultiLineString::new(vec![ls::<D>(v)])),
        _ => Geometry::from(MultiPolygon::new(vec![Polygon::new(tri(v), vec![])])),
    }
}
fn env_of<D: Dom>(v: &[Pt<D>]) -> Envelope<D::C> { Envelope::of(v.iter().map(|&p| pos::<D>(p)).collect::<Vec<_>>().iter()) }
fn geometry<D: Dom>((kind, n, b): &(usize, usize, i64)) {
    let v: Vec<Pt<D>> = (0..*n).map(|_| pt::<D>(*b)).collect();
    let g = make::<D>(*kind, &v);
    let names = ["Empty", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon"];
    let dims = [0, 0, 1, 2, 0, 1, 2];
    D::check(D::B::c(g.geometry_type() == names[*kind]), "geometry_type");
    D::check(D::B::c(g.dimension() == dims[*kind]), "dimension");
    D::check(D::B::c(g.is_empty() == (*kind == 0 || *n == 0)), "is_empty");
    let hull = if *kind == 0 { Envelope::empty() } else { env_of::<D>(&v) };
    D::check(env_same::<D>(g.envelope(), hull), "envelope");
    let mut tri = v.clone();
    if !tri.is_empty() { tri.push(tri[0]); }
    let valid = match *kind {
        0 | 1 => tt::<D>(),
        2 | 5 => simple_polyline::<D>(&v),
        4 => distinct::<D>(&v),
        _ => if tri.is_empty() { tt::<D>() } else if tri.len() < 4 { ff::<D>() } else { simple_polyline::<D>(&tri) },
    };
    same_as::<D>(g.is_simple(), valid, "is_simple");
    // conversion back to each type succeeds exactly for the type it is
    let mk = || make::<D>(*kind, &v);
    let opts = [mk().as_point().is_some(), mk().as_linestring().is_some(), mk().as_polygon().is_some(), mk().as_multipoint().is_some(), mk().as_multilinestring().is_some(), mk().as_multipolygon().is_some()];
    for (i, &o) in opts.iter().enumerate() { D::check(D::B::c(o == (i + 1 == *kind)), "conversion to a type"); }
    D::check(D::B::c(mk().as_empty().is_some() == g.is_empty()), "as_empty");
    let same = |l: &LineString<D::C>, w: &[Pt<D>]| { D::check(D::B::c(l.positions.len() == w.len()), "conversion changes the positions"); D::check(all(l.positions.iter().zip(w).map(|(&p, &q)| at::<D>(p, q))), "conversion changes the positions"); };
    match *kind {
        1 => D::check(at::<D>(mk().as_point().unwrap().0, v[0]), "conversion changes the position"),
        2 => same(&mk().as_linestring().unwrap(), &v),
        3 => same(&mk().as_polygon().unwrap().exterior, &tri),
        4 => { let m = mk().as_multipoint().unwrap(); D::check(D::B::c(m.points.len() == v.len()) & all(m.points.iter().zip(&v).map(|(p, &q)| at::<D>(p.0, q))), "conversion changes the positions") }
        5 => same(&mk().as_multilinestring().unwrap().line_strings[0], &v),
        6 => same(&mk().as_multipolygon().unwrap().polygons[0].exterior, &tri),
        _ => {}
    }
    // the boundary is that of the geometry itself
    let kind_of = |g: &Geometry<D::C>| match g { Geometry::Empty(_) => 0, Geometry::Point(_) => 1, Geometry::LineString(_) => 2, Geometry::Polygon(_) => 3, Geometry::MultiPoint(_) => 4, Geometry::MultiLineString(_) => 5, Geometry::MultiPolygon(_) => 6 };
    let bd = g.boundary();
    match *kind {
        0 | 1 | 4 => D::check(D::B::c(kind_of(&bd) == 0), "points have a boundary"),
        2 | 5 => {
            let e: Vec<Pt<D>> = if v.is_empty() { vec![] } else { vec![v[0], v[v.len() - 1]] };
            let some = D::B::c(kind_of(&bd) == 4);
            D::check(D::B::c(kind_of(&bd) == 0) | some, "the boundary of lines is neither empty nor points");
            if let Geometry::MultiPoint(m) = &bd { D::check(D::B::c(m.points.len() == 2) & all(e.iter().map(|&q| any(m.points.iter().map(|p| at::<D>(p.0, q))))), "the boundary of lines is not their ends"); }
            else { D::check(if e.is_empty() { tt::<D>() } else if *kind == 2 && v.len() < 4 { ff::<D>() } else { eqp::<D>(e[0], e[1]) }, "an open line has no boundary"); }
        }
        _ => D::check(D::B::c(kind_of(&bd) == 5), "the boundary of polygons is not line strings"),
    }
}
fn t_geometry(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = if th { 1000i64 } else { 60 };
    for kind in 0..7usize {
        for n in 0..4usize {
            if (kind == 0 && n > 0) || (kind == 1 && n != 1) { continue; }
            task!(v, [2, 2], format!("kind {} of {}", kind, n), geometry, kind, n, b);
        }
    }
    v
}

// ---------------------------------------------------------------- non-finite input
fn bad_positions<D: Dom>(n: usize, b: i64) -> Vec<Position<D::C>> {
    // at least one coordinate of one position is NaN or infinite
    let i = D::choose(2 * n as u32) as usize;
    let c = match D::choose(3) { 0 => f64::NAN, 1 => f64::INFINITY, _ => f64::NEG_INFINITY };
    (0..n).map(|j| {
        let p = pt::<D>(b);
        let (mut x, mut y) = (D::coord(p.0), D::coord(p.1));
        if i == 2 * j { x = D::konst(c); }
        if i == 2 * j + 1 { y = D::konst(c); }
        Position::new(x, y)
    }).collect()
}
fn rejected<D: Dom>((kind, n, b): &(usize, usize, i64)) {
    let mut v = bad_positions::<D>(*n, *b);
    let no = |r: Result<(), &'static str>, m: &str| D::check(D::B::c(r.is_err()), m);
    let square = |s: i64, t: i64| LineString::new([(s, s), (t, s), (t, t), (s, t), (s, s)].iter().map(|&(x, y)| pos::<D>((k::<D>(x), k::<D>(y)))).collect());
    let close = |v: &mut Vec<Position<D::C>>| { let f = v[0]; v.push(f); };
    let g: Geometry<D::C> = match *kind {
        0 => {
            no(v[0].validate(), "a position that is not finite is valid");
            no(Point::new(v[0]).validate(), "a point that is not finite is valid");
            if D::inf_sign(v[0].x) != 0 || D::is_nan(v[0].x) { D::check(D::B::c(lp::Position::new(v[0].x).validate().is_err()), "a position that is not finite is valid"); }
            Geometry::from(Point::new(v[0]))
        }
        1 => {
            no(Segment::new(v[0], v[1]).validate(), "a segment that is not finite is valid");
            let (x, y) = (lp::Position::new(v[0].x), lp::Position::new(v[1].x));
            if x.validate().is_err() || y.validate().is_err() { D::check(D::B::c(lp::Segment::new(x, y).validate().is_err()), "a segment that is not finite is valid"); }
            no(Envelope::Bounds { min: v[0], max: v[1] }.validate(), "an envelope that is not finite is valid");
            Geometry::from(LineString::new(v))
        }
        2 => { let l = LineString::new(v); no(l.validate(), "a line string that is not finite is valid"); D::check(D::B::c(!l.is_ring()), "a line string that is not finite is a ring"); Geometry::from(l) }
        3 => { close(&mut v); let l = LineString::new(v); no(l.validate(), "a line string that is not finite is valid"); Geometry::from(l) }
        4 => { let m = MultiPoint::new(v.into_iter().map(Point::new).collect()); no(m.validate(), "points that are not finite are valid"); Geometry::from(m) }
        5 => { let m = MultiLineString::new(vec![square(0, 5), LineString::new(v)]); no(m.validate(), "line strings that are not finite are valid"); Geometry::from(m) }
        6 => { close(&mut v); let p = Polygon::new(LineString::new(v), vec![]); no(p.validate(), "a polygon that is not finite is valid"); Geometry::from(p) }
        7 => { close(&mut v); let p = Polygon::new(square(-100, 100), vec![LineString::new(v)]); no(p.validate(), "a polygon that is not finite is valid"); Geometry::from(p) }
        8 => { close(&mut v); let p = MultiPolygon::new(vec![Polygon::new(square(0, 5), vec![]), Polygon::new(LineString::new(v), vec![])]); no(p.validate(), "polygons that are not finite are valid"); Geometry::from(p) }
        _ => { close(&mut v); let p = MultiPolygon::new(vec![Polygon::new(square(-100, 100), vec![LineString::new(v)]), Polygon::new(square(300, 301), vec![])]); no(p.validate(), "polygons that are not finite are valid"); Geometry::from(p) }
    };
    D::check(D::B::c(!g.is_simple()), "a geometry that is not finite is simple");
    // these must not panic
    let _ = (g.envelope(), g.is_empty(), g.dimension(), g.geometry_type());
    let _ = g.boundary();
}
/// The predicates return on any input; relations with a NaN do not hold.
fn calm<D: Dom>((kind, b): &(usize, i64)) {
    let c34 = pos::<D>((k::<D>(3), k::<D>(4)));
    let nan = |q: Position<D::C>| D::is_nan(q.x) || D::is_nan(q.y);
    match *kind {
        0 => {
            let s = Segment::new(odd_pos::<D>(*b), pos::<D>(pt::<D>(*b)));
            let t = Segment::new(pos::<D>((k::<D>(-1), k::<D>(2))), c34);
            let _ = s.intersect_segment(t);
            let _ = t.intersect_segment(s);
            let _ = (s.length(), s.determinant(), Triangle::new(s.start, s.end, c34).area());
        }
        1 => {
            let s = Segment::new(odd_pos::<D>(*b), c34);
            let t = Segment::new(odd_pos::<D>(*b), pos::<D>((k::<D>(-1), k::<D>(2))));
            let _ = s.intersect_segment(t);
        }
        2 => {
            let q = odd_pos::<D>(*b);
            let s = Segment::new(odd_pos::<D>(*b), pos::<D>(pt::<D>(*b)));
            let _ = s.position_location(q);
            D::check(D::B::c(!(s.contains(q) && nan(q))), "a segment contains NaN");
        }
        3 => {
            let (p, q) = (odd_pos::<D>(*b), odd_pos::<D>(*b));
            let e = Envelope::new(p, q);
            let f = Envelope::new(pos::<D>(pt::<D>(*b)), c34);
            let r = odd_pos::<D>(*b);
            D::check(D::B::c(!(f.contains(r) && nan(r))), "an envelope contains NaN");
            D::check(D::B::c(!(f.intersects(r.envelope()) && nan(r))), "an envelope meets NaN");
            let _ = (e.intersects(f), f.contains(e), e.merge(f), e.center(), e.validate());
        }
        4 => {
            let e = Envelope::new(odd_pos::<D>(*b), pos::<D>(pt::<D>(*b)));
            let _ = (e.buffer(odd_coord::<D>(*b, 0)), e.merge(Envelope::empty()), e.is_empty());
            let (x, y) = (lp::Position::new(odd_coord::<D>(*b, 0)), lp::Position::new(odd_coord::<D>(*b, 0)));
            let me = lp::HasEnvelope::envelope(&lt::MultiLine::new(vec![lp::Segment::new(x, y)]));
            let l = lp::Envelope::new(lp::Position::new(D::coord(k::<D>(1))), lp::Position::new(D::coord(k::<D>(2))));
            D::check(D::B::c(!(l.contains(x) && D::is_nan(x.x))), "an envelope contains NaN");
            let _ = (me.intersects(l), me.contains(l), me.merge(l), me.validate());
        }
        _ => {
            let p = odd_pos::<D>(*b);
            let tree = Flatbush::new(&[Envelope::new(p, c34), Envelope::new(c34, c34)], 2);
            let _ = tree.find_candidates_within(odd_pos::<D>(*b), odd_coord::<D>(*b, 0));
            let _ = (tree.find_self_intersection_candidates(), tree.find_other_rtree_intersection_candidates(&tree));
        }
    }
    D::check(tt::<D>(), "");
}
fn t_finite(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 50;
    for (kind, ns) in [(0usize, vec![1usize]), (1, vec![2]), (2, vec![1, 2, 3, 4]), (3, vec![3]), (4, vec![1, 2, 3]), (5, vec![1, 2, 3]), (6, vec![3, 4]), (7, vec![3]), (8, vec![3, 4]), (9, vec![3, 4])] {
        for n in ns { task!(v, [2, 2], format!("kind {} of {}", kind, n), rejected, kind, n, b); }
    }
    let b = if th { 100 } else { 10 };
    for kind in 0..6usize { task!(v, [2, 2], format!("predicates {}", kind), calm, kind, b); }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C14", tasks: t_built },
        Prop { id: "C16", tasks: t_multiline },
        Prop { id: "C19", tasks: t_multipoint },
        Prop { id: "C20", tasks: t_finite },
        Prop { id: "C21", tasks: t_boundary },
        Prop { id: "C22", tasks: t_accessors },
        Prop { id: "C24", tasks: t_geometry },
    ]
}
