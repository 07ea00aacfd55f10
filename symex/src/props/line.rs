//! LineStrings and MultiLineStrings.
use super::segment::{pos, pt};
use super::Prop;
use crate::dom::*;
use crate::engine::Task;
use crate::spec::*;
use crate::task;
use magog::planar::types::*;

/// A vertex of a family: symbolic with |x|,|y| <= n; concrete; or a copy of an earlier vertex.
#[derive(Clone, Copy)]
pub enum Slot { S(i64), C(i64, i64), Same(usize) }
pub use Slot::*;

pub fn points<D: Dom>(s: &[Slot]) -> Vec<Pt<D>> {
    let mut v: Vec<Pt<D>> = vec![];
    for x in s {
        let p = match *x { S(b) => pt::<D>(b), C(x, y) => (k::<D>(x), k::<D>(y)), Same(i) => v[i] };
        v.push(p);
    }
    v
}
pub fn ls<D: Dom>(v: &[Pt<D>]) -> LineString<D::C> { LineString::new(v.iter().map(|&p| pos::<D>(p)).collect()) }
pub fn cs(v: &[(i64, i64)]) -> Vec<Slot> { v.iter().map(|&(x, y)| C(x, y)).collect() }

pub fn linestring_valid<D: Dom>((s,): &(Vec<Slot>,)) {
    let v = points::<D>(s);
    let l = ls::<D>(&v);
    let r = l.validate().is_ok();
    if r { D::check(simple_polyline::<D>(&v), "a LineString that meets itself is accepted"); }
    else { D::check(!simple_polyline::<D>(&v), "a simple LineString is rejected"); }
}

pub fn tasks_valid(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let b = 60;
    let mut add = |n: &str, s: Vec<Slot>| task!(v, [], n, linestring_valid, s);
    add("n=1", vec![S(b)]);
    add("n=2", vec![S(b), S(b)]);
    add("n=3", vec![S(b), S(b), S(b)]);
    add("n=4", vec![S(b), S(b), S(b), S(b)]);
    add("ring n=4", vec![S(b), S(b), S(b), Same(0)]);
    add("ring n=5", vec![S(b), S(b), S(b), S(b), Same(0)]);
    // longer lines, whose segments fill a tree of several levels
    let zig = |n: usize, m: &[usize]| -> Vec<Slot> { (0..n as i64).map(|i| if m.contains(&(i as usize)) { S(b) } else { C((i - if n > 12 { m[0] as i64 - 5 } else { 0 }) * 4, (i % 2) * 6) }).collect() };
    add("zigzag of 12, first symbolic", zig(12, &[0]));
    add("zigzag of 12, middle symbolic", zig(12, &[5]));
    add("zigzag of 12, last symbolic", zig(12, &[11]));
    let spiral = [(0, 0), (30, 0), (30, 30), (0, 30), (0, 10), (20, 10), (20, 20), (10, 20), (10, 25), (25, 25), (25, 5)];
    let mut s = cs(&spiral); s[10] = S(b); add("spiral, end symbolic", s);
    let mut s = cs(&spiral); s[4] = S(b); add("spiral, inner vertex symbolic", s);
    let comb = [(0, 0), (40, 0), (40, 20), (35, 5), (30, 20), (25, 5), (20, 20), (15, 5), (10, 20), (0, 20)];
    let mut s = cs(&comb); s.push(Same(0)); s[0] = S(b); add("closed comb, first symbolic", s);
    let mut s = cs(&comb); s.push(Same(0)); s[5] = S(b); add("closed comb, inner vertex symbolic", s);
    let mut s = cs(&comb); s.push(S(b)); add("comb, last symbolic", s);
    add("zigzag of 30, one symbolic", zig(30, &[14]));
    add("zigzag of 30, last symbolic", zig(30, &[29]));
    add("zigzag of 30, first symbolic", zig(30, &[0]));
    add("zigzag of 300, last symbolic", zig(300, &[299]));
    // a long line round which a loop is closed, far away from the symbolic vertex
    let far = |n: usize| -> Vec<Slot> { let mut s: Vec<Slot> = (0..n as i64 - 3).map(|i| C(-1000 - i * 4, (i % 2) * 6)).collect(); s.extend([S(b), C(0, 0), C(10, 0)]); s };
    for n in [70usize, 300] { add(&format!("far line of {}", n), far(n)); }
    let ring = |n: usize| -> Vec<Slot> { let mut s: Vec<Slot> = (0..n as i64 - 3).map(|i| C(20 + i * 4, 50 + (i % 2) * 6)).collect(); s.extend([C(20 + n as i64 * 4, 0), S(b), Same(0)]); s };
    for n in [40usize, 270] { add(&format!("long ring of {}", n), ring(n)); }
    if th { add("zigzag of 12, two ends symbolic", zig(12, &[0, 11]));
    for i in 0..10 { let mut s = cs(&comb); s.push(Same(0)); s[i] = S(b); add(&format!("closed comb, vertex {}", i), s); }
    add("n=5", vec![S(b), S(b), S(b), S(b), S(b)]);
    add("ring n=6", vec![S(b), S(b), S(b), S(b), S(b), Same(0)]); }
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C15", tasks: tasks_valid }]
}
