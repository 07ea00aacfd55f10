//! The spatial index.
use super::segment::{pos, pt};
use super::Prop;
use crate::dom::*;
use crate::engine::Task;
use crate::spec::*;
use crate::task;
use magog::flatbush::*;
use magog::planar::primitives::*;

/// A box of a family.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bx {
    /// any box with coordinates in -n..=n
    Any(i64),
    /// any single position
    Dot(i64),
    Empty,
    At(i64, i64, i64, i64),
    /// corners each finite, NaN or infinite
    Odd(i64),
}
use Bx::*;

#[derive(Clone, Debug)]
pub struct Fam { pub boxes: Vec<Bx>, pub pat: Vec<usize>, pub deg: usize, pub sorted: bool }

pub type Rect<D> = Option<(<D as Dom>::I, <D as Dom>::I, <D as Dom>::I, <D as Dom>::I)>;
pub fn rect<D: Dom>(p: Pt<D>, q: Pt<D>) -> Rect<D> { Some((p.0.imin(q.0), p.1.imin(q.1), p.0.imax(q.0), p.1.imax(q.1))) }
pub fn meets<D: Dom>(a: &Rect<D>, b: &Rect<D>) -> D::B {
    match (a, b) {
        (Some(a), Some(b)) => a.0.le(b.2) & b.0.le(a.2) & a.1.le(b.3) & b.1.le(a.3),
        _ => D::B::c(false),
    }
}
pub fn odd_coord<D: Dom>(b: i64, g: u8) -> D::C {
    match D::choose(4) { 0 => D::coord(D::var_g(-b, b, g)), 1 => D::konst(f64::NAN), 2 => D::konst(f64::INFINITY), _ => D::konst(f64::NEG_INFINITY) }
}
pub fn odd_pos<D: Dom>(b: i64) -> Position<D::C> { let x = odd_coord::<D>(b, 0); let y = odd_coord::<D>(b, 0); Position::new(x, y) }

pub fn make<D: Dom>(b: Bx) -> (Envelope<D::C>, Rect<D>) {
    match b {
        Any(r) => { let (p, q) = (pt::<D>(r), pt::<D>(r)); (Envelope::new(pos::<D>(p), pos::<D>(q)), rect::<D>(p, q)) }
        Dot(r) => { let p = pt::<D>(r); (Envelope::new(pos::<D>(p), pos::<D>(p)), rect::<D>(p, p)) }
        Empty => (Envelope::empty(), None),
        At(a, b, c, d) => { let (p, q) = ((k::<D>(a), k::<D>(b)), (k::<D>(c), k::<D>(d))); (Envelope::new(pos::<D>(p), pos::<D>(q)), rect::<D>(p, q)) }
        Odd(r) => { let (p, q) = (odd_pos::<D>(r), odd_pos::<D>(r)); (Envelope::new(p, q), None) }
    }
}

pub fn build<D: Dom>(f: &Fam) -> (Flatbush<D::C>, Vec<(Envelope<D::C>, Rect<D>)>) {
    let made: Vec<_> = f.boxes.iter().map(|&b| make::<D>(b)).collect();
    let items: Vec<_> = f.pat.iter().map(|&i| made[i]).collect();
    let envs: Vec<Envelope<D::C>> = items.iter().map(|x| x.0).collect();
    let t = if f.deg == 0 { Flatbush::new_empty() } else if f.sorted { Flatbush::new(&envs, f.deg) } else { Flatbush::new_unsorted(&envs, f.deg) };
    (t, items)
}

fn exactly<D: Dom>(n: usize, got: &[usize], want: impl Fn(usize) -> D::B, what: &str) {
    let mut count = vec![0u32; n];
    for &i in got { D::check(D::B::c(i < n), what); count[i] += 1; }
    D::check(D::B::c(count.iter().all(|&c| c <= 1)), "an item is reported twice");
    let mut miss = D::B::c(true);
    let mut extra = D::B::c(true);
    for i in 0..n { if count[i] == 1 { extra = extra & want(i) } else { miss = miss & !want(i) } }
    D::check(miss, "an item that matches is not reported");
    D::check(extra, "an item that does not match is reported");
}

fn box_query<D: Dom>((f, q): &(Fam, Bx)) {
    let (t, items) = build::<D>(f);
    let (qe, qr) = make::<D>(*q);
    let got = t.find_intersection_candidates(qe);
    exactly::<D>(items.len(), &got, |i| meets::<D>(&items[i].1, &qr), "an item that does not exist is reported");
}

fn within<D: Dom>((f, r): &(Fam, i64)) {
    let (t, items) = build::<D>(f);
    let p = pt::<D>(*r);
    let d = D::var(0, *r);
    let got = t.find_candidates_within(pos::<D>(p), D::coord(d));
    let qr: Rect<D> = Some((p.0 - d, p.1 - d, p.0 + d, p.1 + d));
    exactly::<D>(items.len(), &got, |i| meets::<D>(&items[i].1, &qr), "an item that does not exist is reported");
}

fn pairs<D: Dom>(n: usize, m: usize, own: bool, got: &[(usize, usize)], want: impl Fn(usize, usize) -> D::B) {
    let mut count = vec![0u32; n * m];
    for &(i, j) in got {
        D::check(D::B::c(i < n && j < m), "a pair of items that do not exist is reported");
        if own { D::check(D::B::c(i < j), "a pair is not of two different items in order"); }
        count[i * m + j] += 1;
    }
    D::check(D::B::c(count.iter().all(|&c| c <= 1)), "a pair is reported twice");
    let (mut miss, mut extra) = (D::B::c(true), D::B::c(true));
    for i in 0..n { for j in (if own { i + 1 } else { 0 })..m {
        if count[i * m + j] == 1 { extra = extra & want(i, j) } else { miss = miss & !want(i, j) }
    } }
    D::check(miss, "a pair that meets is not reported");
    D::check(extra, "a pair that does not meet is reported");
}

fn self_join<D: Dom>((f,): &(Fam,)) {
    let (t, items) = build::<D>(f);
    let got = t.find_self_intersection_candidates();
    pairs::<D>(items.len(), items.len(), true, &got, |i, j| meets::<D>(&items[i].1, &items[j].1));
}

fn cross_join<D: Dom>((f, g): &(Fam, Fam)) {
    let (t, a) = build::<D>(f);
    let (u, b) = build::<D>(g);
    let got = t.find_other_rtree_intersection_candidates(&u);
    pairs::<D>(a.len(), b.len(), false, &got, |i, j| meets::<D>(&a[i].1, &b[j].1));
}

pub fn env_is<D: Dom>(e: Envelope<D::C>, r: &Rect<D>) -> D::B {
    match (e, r) {
        (Envelope::Empty, None) => D::B::c(true),
        (Envelope::Bounds { min, max }, Some(r)) => D::eq_int(min.x, r.0) & D::eq_int(min.y, r.1) & D::eq_int(max.x, r.2) & D::eq_int(max.y, r.3),
        _ => D::B::c(false),
    }
}
pub fn env_same<D: Dom>(a: Envelope<D::C>, b: Envelope<D::C>) -> D::B {
    match (a, b) {
        (Envelope::Empty, Envelope::Empty) => D::B::c(true),
        (Envelope::Bounds { min, max }, Envelope::Bounds { min: m2, max: x2 }) => D::same(min.x, m2.x) & D::same(min.y, m2.y) & D::same(max.x, x2.x) & D::same(max.y, x2.y),
        _ => D::B::c(false),
    }
}
pub fn hull<D: Dom>(v: &[Rect<D>]) -> Rect<D> {
    let mut r: Rect<D> = None;
    for x in v { r = match (r, x) { (None, x) => *x, (r, None) => r, (Some(a), Some(b)) => Some((a.0.imin(b.0), a.1.imin(b.1), a.2.imax(b.2), a.3.imax(b.3))) }; }
    r
}

fn structure<D: Dom>((f,): &(Fam,)) {
    let (t, items) = build::<D>(f);
    let n = items.len();
    let root = t.root_node();
    let all: Vec<Rect<D>> = items.iter().map(|x| x.1).collect();
    D::check(env_is::<D>(t.envelope(), &hull::<D>(&all)), "the index does not cover its items exactly");
    D::check(env_same::<D>(t.envelope(), root.envelope), "the root does not cover the index");
    let mut seen = vec![0; n];
    let mut todo = vec![root];
    let mut ok = D::B::c(true);
    while let Some(x) = todo.pop() {
        // an empty node covers nothing: no query follows it
        if x.envelope.is_empty() { continue; }
        if x.level == 0 {
            D::check(D::B::c(x.sibling_index < n), "a leaf stands for no item");
            seen[x.sibling_index] += 1;
            ok = ok & env_is::<D>(x.envelope, &items[x.sibling_index].1);
        } else {
            let ch = t.get_children(x);
            let mut e = Envelope::empty();
            for c in &ch {
                D::check(D::B::c(c.level + 1 == x.level), "a child is not one level down");
                e = e.merge(c.envelope);
            }
            ok = ok & env_same::<D>(e, x.envelope);
            todo.extend(ch);
        }
    }
    D::check(ok, "a node does not cover its children exactly, or a leaf its item");
    D::check(D::B::c((0..n).all(|i| seen[i] == if items[i].1.is_some() { 1 } else { 0 } || (items[i].1.is_none() && seen[i] == 0))), "an item is not in exactly one leaf");
}

/// With arbitrary coordinates, including non-finite ones: both constructions succeed, and
/// queries on them report exactly the items whose own boxes meet the query's.
fn total<D: Dom>((f, q): &(Fam, Bx)) {
    let made: Vec<_> = f.boxes.iter().map(|&b| make::<D>(b).0).collect();
    let envs: Vec<Envelope<D::C>> = f.pat.iter().map(|&i| made[i]).collect();
    let a = Flatbush::new(&envs, f.deg);
    let b = Flatbush::new_unsorted(&envs, f.deg);
    let qe = make::<D>(*q).0;
    let mut x = a.find_intersection_candidates(qe);
    let mut y = b.find_intersection_candidates(qe);
    x.sort();
    y.sort();
    D::check(D::B::c(x == y), "sorting the items changes what a query reports");
    let want: Vec<usize> = (0..envs.len()).filter(|&i| envs[i].intersects(qe)).collect();
    D::check(D::B::c(x == want), "a query does not report exactly the items whose boxes meet it");
    let mut x = a.find_self_intersection_candidates();
    let mut y = b.find_self_intersection_candidates();
    x.sort();
    y.sort();
    D::check(D::B::c(x == y), "sorting the items changes what the self-join reports");
}

pub fn fam(boxes: &[Bx], n: usize, pat: impl Fn(usize) -> usize, deg: usize, sorted: bool) -> Fam {
    Fam { boxes: boxes.to_vec(), pat: (0..n).map(pat).collect(), deg, sorted }
}
const R: i64 = 1000;

struct Pat<'a>(&'a [Bx], &'a [usize]);
impl std::fmt::Debug for Pat<'_> {
    fn fmt(&self, o: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.0.len() > 5 { return write!(o, "grid with an arbitrary box at {}", self.0.iter().position(|b| matches!(b, Any(_))).unwrap_or(0)); }
        write!(o, "{:?} as ", self.0)?;
        // runs of the pattern
        let mut i = 0;
        let mut runs = 0;
        while i < self.1.len() {
            let j = (i..self.1.len()).find(|&j| self.1[j] != self.1[i]).unwrap_or(self.1.len());
            if runs < 6 { write!(o, "{}x{} ", self.1[i], j - i)?; } else if runs == 6 { write!(o, "..")?; }
            runs += 1;
            i = j;
        }
        Ok(())
    }
}
fn name(f: &Fam) -> String { format!("n={} deg={} {}{:?}", f.pat.len(), f.deg, if f.deg == 0 { "without items " } else if f.sorted { "sorted " } else { "" }, Pat(&f.boxes, &f.pat)) }

fn fams(th: bool, large: bool) -> Vec<Fam> {
    let mut v = vec![];
    // no, one, two, three arbitrary items
    for s in [false, true] {
        v.push(fam(&[], 0, |_| 0, 8, s));
        v.push(fam(&[Empty], 3, |_| 0, 2, s));
        v.push(fam(&[Any(R)], 1, |i| i, 8, s));
        v.push(fam(&[Any(R), Any(R)], 2, |i| i, 2, s));
        v.push(fam(&[Empty, Any(R), Empty], 3, |i| i, 2, s));
    }
    v.push(fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, false));
    v.push(fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 4, false));
    // the index made without items
    v.push(fam(&[], 0, |_| 0, 0, false));
    // two arbitrary boxes, repeated in patterns through trees of several levels
    for &(n, d) in &[(4, 2), (5, 2), (8, 8), (9, 8), (17, 4), (33, 2), (64, 8), (65, 8)] {
        v.push(fam(&[Any(R), Any(R)], n, |i| i % 2, d, false));
        v.push(fam(&[Any(R), Any(R)], n, move |i| (i * 2) / n, d, true));
        v.push(fam(&[Any(R), Any(R)], n, move |i| (i * 2) / n, d, false));
        for p in [0, n / 2, n - 2, n - 1] { v.push(fam(&[Any(R), Dot(R)], n, move |i| (i == p) as usize, d, false)); }
        for p in [0, n / 2, n - 1] { v.push(fam(&[Empty, Any(R)], n, move |i| (i == p) as usize, d, true)); }
    }
    // many items: a needle, and two halves
    for &(n, d) in &[(5000usize, 16usize), (70001, 16)] { for (p, s) in [(2, false), (n - 1, false), (n - 1, true)] { v.push(fam(&[Empty, Any(R)], n, move |i| (i == p) as usize, d, s)); } }
    for &(n, d) in &[(300, 16), (513, 8)] {
        for (p, s) in [(0, false), (n / 2 + 1, true), (n - 1, true), (n - 1, false)] { v.push(fam(&[Empty, Any(R)], n, move |i| (i == p) as usize, d, s)); }
        v.push(fam(&[Dot(R), Any(R)], n, move |i| (i == 261) as usize, d, false));
    }
    // a grid of concrete boxes and one arbitrary one anywhere in it
    for &(n, d) in (if th { &[(9usize, 2usize), (20, 4), (30, 8)][..] } else if large { &[(9, 2), (20, 4)][..] } else { &[(9, 2)][..] }) {
        for &p in &[0, n / 2, n - 1] {
            let boxes: Vec<Bx> = (0..n as i64).map(|i| if i == p as i64 { Any(R) } else { At(40 * i - 400, 30 * (i % 5), 40 * i - 390, 30 * (i % 5) + 10) }).collect();
            v.push(fam(&boxes, n, |i| i, d, false));
        }
    }
    if th {
        v.push(fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, true));
        for s in [false, true] { v.push(fam(&[Any(R), Any(R), Any(R), Any(R)], 4, |i| i, 2, s)); }
        v.push(fam(&[Any(R), Any(R), Any(R), Any(R)], 4, |i| i, 4, false));
        for &(n, d) in &[(6, 2), (17, 16), (100, 8), (257, 2), (600, 8)] {
            for s in [false, true] {
                v.push(fam(&[Any(R), Any(R), Any(R)], n, |i| i % 3, d, s));
                v.push(fam(&[Any(R), Any(R), Any(R)], n, move |i| (i * 3) / n, d, s));
            }
        }
    }
    v
}

fn t01(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    for f in fams(th, false) { let q = Any(R); task!(v, [2, 2], format!("query {}", name(&f)), box_query, f, q); }
    for q in [Dot(R), Empty] { let f = fam(&[Any(R), Any(R)], 5, |i| i % 2, 2, true); task!(v, [2, 2], format!("{:?} query {}", q, name(&f)), box_query, f, q); }
    v
}
fn t02(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    for f in fams(th, true) { if f.pat.len() < 10000 { task!(v, [2, 2], format!("self {}", name(&f)), self_join, f); } }
    v
}
fn t03(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    // trees of different heights and degrees against each other
    let none = fam(&[], 0, |_| 0, 8, true);
    let nothing = fam(&[], 0, |_| 0, 0, false);
    let empty = fam(&[Empty], 5, |_| 0, 2, true);
    let one = |s| fam(&[Any(R)], 1, |i| i, 8, s);
    let two = |d, s| fam(&[Any(R), Any(R)], 2, |i| i, d, s);
    let alt = |n: usize, d, s| fam(&[Any(R), Any(R)], n, |i| i % 2, d, s);
    let half = |n: usize, d, s| fam(&[Any(R), Any(R)], n, move |i| (i * 2) / n, d, s);
    let needle = |n: usize, p: usize, d, s| fam(&[Empty, Any(R)], n, move |i| (i == p) as usize, d, s);
    let dot = |n: usize, p: usize, d| fam(&[Any(R), Dot(R)], n, move |i| (i == p) as usize, d, false);
    let mut ps = vec![
        (none.clone(), none.clone()), (none.clone(), one(false)), (one(true), none), (nothing.clone(), two(2, false)), (two(2, true), nothing), (empty.clone(), alt(3, 2, false)), (alt(3, 2, false), empty),
        (one(false), one(false)), (one(true), one(true)), (two(2, false), one(false)), (one(false), two(8, false)), (two(2, false), two(8, false)), (two(2, true), two(2, false)), (two(2, false), two(2, true)),
        (alt(5, 2, false), one(false)), (one(false), alt(5, 2, false)), (half(9, 2, true), one(false)), (one(false), half(9, 2, true)),
        (alt(17, 2, false), two(8, false)), (two(8, false), half(17, 2, false)), (half(20, 4, false), dot(9, 4, 8)), (dot(9, 8, 8), half(33, 2, false)),
        (needle(17, 16, 2, false), alt(5, 4, false)), (alt(5, 4, false), needle(65, 64, 8, false)), (needle(65, 33, 8, true), needle(9, 5, 2, true)), (needle(9, 8, 2, true), needle(65, 64, 8, true)),
        (needle(300, 299, 16, true), needle(65, 64, 2, false)), (needle(5000, 4999, 16, false), needle(300, 2, 4, false)), (dot(65, 64, 2), needle(300, 257, 16, false)),
        (fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, false), one(false)), (one(false), fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, false)),
    ];
    if th {
        ps.push((fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, false), two(2, false)));
        ps.push((two(2, false), fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, false)));
        ps.push((fam(&[Any(R), Any(R), Any(R)], 3, |i| i, 2, true), one(true)));
        ps.push((half(257, 2, true), half(100, 8, false)));
        ps.push((half(100, 8, true), half(257, 2, false)));
        ps.push((alt(100, 8, true), alt(257, 2, true)));
    }
    for (f, g) in ps { task!(v, [2, 2], format!("join {} with {}", name(&f), name(&g)), cross_join, f, g); }
    v
}
fn t04(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    for f in fams(th, false) { let q = R; task!(v, [2, 2], format!("within {}", name(&f)), within, f, q); }
    v
}
fn t05(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    for f in fams(th, true) { task!(v, [2, 2], format!("structure {}", name(&f)), structure, f); }
    v
}
fn t06(th: bool) -> Vec<Task> {
    let mut v: Vec<Task> = vec![];
    let mut fs = vec![
        (fam(&[Odd(50)], 1, |i| i, 2, true), Any(50)),
        (fam(&[Any(50), Any(50)], 2, |i| i, 2, true), Any(50)),
        (fam(&[Dot(50), Dot(50)], 5, |i| i % 2, 2, true), Any(50)),
        (fam(&[Empty, Dot(50), Dot(50)], 9, |i| i % 3, 8, true), Any(50)),
        (fam(&[Any(50)], 9, |_| 0, 8, true), Odd(50)),
        (fam(&[Odd(50), At(0, 0, 10, 10)], 3, |i| i % 2, 2, true), At(-5, -5, 5, 5)),
        (fam(&[At(0, 0, 10, 10), Odd(50), At(0, 0, 10, 10)], 9, |i| i % 3, 2, true), Any(50)),
    ];
    if th { fs.push((fam(&[Odd(50), Odd(50)], 2, |i| i, 2, true), Any(50))); fs.push((fam(&[Any(50), Any(50), Any(50)], 3, |i| i, 2, true), Any(50))); }
    for (f, q) in fs { task!(v, [2, 2], format!("{} query {:?}", name(&f), q), total, f, q); }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", tasks: t01 },
        Prop { id: "C02", tasks: t02 },
        Prop { id: "C03", tasks: t03 },
        Prop { id: "C04", tasks: t04 },
        Prop { id: "C05", tasks: t05 },
        Prop { id: "C06", tasks: t06 },
    ]
}
