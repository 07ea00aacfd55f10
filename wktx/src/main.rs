//! parse_wkt, executed with symbolic coordinates.
use magog::planar::primitives::Position;
use magog::planar::types::{Geometry, LineString, Polygon};
use symex::dom::*;
use symex::engine::Task;
use symex::props::{meta::Meta, Prop};
pub use symex::sym::Sym;
use symex::task;

/// The wkt crate (0.5.0), with the symbolic number in the place of f64.
#[allow(dead_code)]
mod wktgen;
pub type N = Sym;
/// /repo/src/serde/wkt.rs, with the symbolic number in the place of f64 (see build.rs)
mod reader { include!(concat!(env!("OUT_DIR"), "/wkt.rs")); }

trait WktDom: Dom {
    fn text(c: Self::C) -> String;
    fn parse(s: &str) -> Result<Vec<Geometry<Self::C>>, String>;
}
impl WktDom for SymDom {
    fn text(c: Sym) -> String { format!("{}", c) }
    fn parse(s: &str) -> Result<Vec<Geometry<Sym>>, String> { reader::parse_wkt(s).map_err(|e| e.to_string()) }
}
impl WktDom for NatDom<f64> {
    fn text(c: f64) -> String { format!("{}", c) }
    fn parse(s: &str) -> Result<Vec<Geometry<f64>>, String> { magog::serde::wkt::parse_wkt(s).map_err(|e| e.to_string()) }
}

const KINDS: [&str; 6] = ["POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON"];

// ---------------------------------------------------------------- texts
#[derive(Clone, Debug)]
enum T { W(String), Open, Close, Comma, N(String), Bad }

fn recase(w: &str, case: u8) -> String {
    match case {
        0 => w.to_string(),
        1 => w.to_lowercase(),
        _ => w.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_lowercase() } else { c }).collect(),
    }
}
fn render(t: &[T], style: u8) -> String {
    let wordlike = |t: &T| matches!(t, T::W(_) | T::N(_) | T::Bad);
    let mut s = String::new();
    if style == 2 { s.push_str(" \n"); }
    for (i, k) in t.iter().enumerate() {
        if i > 0 {
            let tight = !(wordlike(&t[i - 1]) && wordlike(k));
            match style {
                0 => if !tight { s.push(' ') },
                1 => if !tight || matches!(t[i - 1], T::Comma | T::W(_)) { s.push(' ') },
                _ => s.push_str(["\t", "  ", "\r\n"][i % 3]),
            }
        }
        match k {
            T::W(w) => s.push_str(w),
            T::Open => s.push('('),
            T::Close => s.push(')'),
            T::Comma => s.push(','),
            T::N(n) => s.push_str(n),
            T::Bad => s.push_str("1.2.3"),
        }
    }
    if style == 2 { s.push_str("\n "); }
    s
}

type P<D> = (<D as Dom>::I, <D as Dom>::I);
fn point<D: WktDom>(b: i64) -> P<D> { (D::var(-b, b), D::var(-b, b)) }
fn put<D: WktDom>(t: &mut Vec<T>, p: P<D>) { for c in [p.0, p.1] { t.push(T::N(D::text(D::coord(c)))); } }
fn empty(t: &mut Vec<T>, case: u8) { t.push(T::W(recase("EMPTY", case))) }
/// 'EMPTY' for no parts, otherwise the parts in parentheses
fn list<X>(t: &mut Vec<T>, case: u8, v: &[X], f: &mut dyn FnMut(&mut Vec<T>, &X)) {
    if v.is_empty() { return empty(t, case); }
    t.push(T::Open);
    for (i, x) in v.iter().enumerate() {
        if i > 0 { t.push(T::Comma); }
        f(t, x);
    }
    t.push(T::Close);
}

fn line<D: WktDom>(lo: u32, k: u32, b: i64) -> Vec<P<D>> { (0..lo + D::choose(k)).map(|_| point::<D>(b)).collect() }
fn at<D: Dom>(q: Position<D::C>, p: P<D>) -> D::B { D::eq_int(q.x, p.0) & D::eq_int(q.y, p.1) }
fn is_line<D: Dom>(l: &LineString<D::C>, v: &[P<D>]) -> D::B {
    if l.positions.len() != v.len() { return D::B::c(false); }
    all((0..v.len()).map(|i| at::<D>(l.positions[i], v[i])))
}
/// the lines that are not empty are these, in their order
fn are_lines<D: Dom>(l: &[LineString<D::C>], v: &[Vec<P<D>>]) -> D::B {
    let l: Vec<_> = l.iter().filter(|l| !l.positions.is_empty()).collect();
    let v: Vec<_> = v.iter().filter(|l| !l.is_empty()).collect();
    if l.len() != v.len() { return D::B::c(false); }
    all((0..v.len()).map(|i| is_line::<D>(l[i], v[i])))
}
fn is_poly<D: Dom>(p: &Polygon<D::C>, v: &[Vec<P<D>>]) -> D::B { is_line::<D>(&p.exterior, &v[0]) & are_lines::<D>(&p.interiors, &v[1..]) }

// ---------------------------------------------------------------- C25
fn well_formed<D: WktDom>((kind, style, case, big, b): &(usize, u8, u8, bool, i64)) {
    let (kind, case, b) = (*kind, *case, *b);
    let big = *big as u32;
    let mut t = vec![T::W(recase(KINDS[kind], case))];
    let (mut pts, mut lines, mut polys): (Vec<Vec<P<D>>>, Vec<Vec<P<D>>>, Vec<Vec<Vec<P<D>>>>) = (vec![], vec![], vec![]);
    let t1 = &mut t;
    match kind {
        0 => {
            let v = line::<D>(0, 2, b);
            if v.is_empty() { empty(t1, case) } else { t1.push(T::Open); put::<D>(t1, v[0]); t1.push(T::Close) }
            pts.push(v);
        }
        1 => {
            let v = line::<D>(0, 5 + big, b);
            list(t1, case, &v, &mut |t, &p| put::<D>(t, p));
            lines.push(v);
        }
        2 | 4 => {
            lines = (0..D::choose(4)).map(|_| line::<D>(0, 4 + big, b)).collect();
            list(t1, case, &lines, &mut |t, l| list(t, case, l, &mut |t, &p| put::<D>(t, p)));
        }
        3 => {
            pts = (0..D::choose(4 + big)).map(|_| line::<D>(0, 2, b)).collect();
            list(t1, case, &pts, &mut |t, l| list(t, case, l, &mut |t, &p| put::<D>(t, p)));
        }
        _ => {
            polys = (0..D::choose(3 + big)).map(|_| (0..D::choose(3)).map(|_| line::<D>(0, 3, b)).collect()).collect();
            list(t1, case, &polys, &mut |t, p| list(t, case, p, &mut |t, l| list(t, case, l, &mut |t, &p| put::<D>(t, p))));
        }
    }
    let s = render(&t, *style);
    let r = D::parse(&s);
    let g = match r {
        Ok(v) if v.len() == 1 => v.into_iter().next().unwrap(),
        _ => return D::check(D::B::c(false), "a well-formed text does not give one geometry"),
    };
    let none = pts.iter().all(|v| v.is_empty()) && lines.iter().all(|v| v.is_empty()) && polys.iter().all(|p| p.iter().all(|v| v.is_empty()));
    if none && t.len() <= 2 {
        D::check(D::B::c(g.is_empty()), "the geometry of an EMPTY text is not empty");
        let name = g.geometry_type().to_uppercase();
        return D::check(D::B::c(name == "EMPTY" || name == KINDS[kind]), "the geometry of an EMPTY text is of another type");
    }
    let ok = match (kind, g) {
        (0, Geometry::Point(p)) => at::<D>(p.0, pts[0][0]),
        (1, Geometry::LineString(l)) => is_line::<D>(&l, &lines[0]),
        (2, Geometry::Polygon(p)) => is_poly::<D>(&p, &lines),
        (3, Geometry::MultiPoint(m)) => {
            let v: Vec<P<D>> = pts.iter().flatten().copied().collect();
            if m.points.len() != v.len() { D::B::c(false) } else { all((0..v.len()).map(|i| at::<D>(m.points[i].0, v[i]))) }
        }
        (4, Geometry::MultiLineString(m)) => are_lines::<D>(&m.line_strings, &lines),
        (5, Geometry::MultiPolygon(m)) => {
            let keep: Vec<_> = m.polygons.iter().filter(|p| !(p.exterior.positions.is_empty() && p.interiors.iter().all(|l| l.positions.is_empty()))).collect();
            let v: Vec<_> = polys.iter().filter(|p| p.iter().any(|l| !l.is_empty())).collect();
            if keep.len() != v.len() { D::B::c(false) } else { all((0..v.len()).map(|i| is_poly::<D>(keep[i], v[i]))) }
        }
        _ => return D::check(D::B::c(false), "the geometry is not of the type named"),
    };
    D::check(ok, "the coordinates are not those of the text, in their order");
}

// ---------------------------------------------------------------- C26
/// What the text is: a geometry, malformed, or one of the forms that are not decided here.
#[derive(PartialEq, Clone, Copy)]
enum Is { Good, Malformed, Undecided }

struct Reader<'a> { t: &'a [T], i: usize }
impl<'a> Reader<'a> {
    fn next(&mut self) -> Option<&'a T> { let r = self.t.get(self.i); self.i += 1; r }
    fn peek(&self) -> Option<&'a T> { self.t.get(self.i) }
    fn coord(&mut self) -> bool { matches!(self.next(), Some(T::N(_))) && matches!(self.next(), Some(T::N(_))) }
    fn many(&mut self, f: &dyn Fn(&mut Self) -> bool) -> bool {
        if !f(self) { return false; }
        while let Some(T::Comma) = self.peek() { self.next(); if !f(self) { return false; } }
        true
    }
    fn parens(&mut self, f: &dyn Fn(&mut Self) -> bool) -> bool {
        match self.next() {
            Some(T::W(w)) => w.eq_ignore_ascii_case("EMPTY"),
            Some(T::Open) => f(self) && matches!(self.next(), Some(T::Close)),
            _ => false,
        }
    }
    fn line(&mut self) -> bool { self.parens(&|s| s.many(&|s| s.coord())) }
    fn poly(&mut self) -> bool { self.parens(&|s| s.many(&|s| s.line())) }
    fn pt(&mut self) -> bool { self.parens(&|s| s.coord()) }
}
fn kind_of(t: &[T]) -> Option<usize> {
    match t.first() { Some(T::W(w)) => KINDS.iter().position(|k| k.eq_ignore_ascii_case(w)), _ => None }
}
fn judge(t: &[T]) -> Is {
    if matches!(t.first(), None | Some(T::Bad)) { return Is::Undecided; }
    let Some(k) = kind_of(t) else { return Is::Malformed };
    let mut r = Reader { t, i: 1 };
    let ok = match k {
        0 => r.pt(),
        1 => r.line(),
        2 => r.poly(),
        3 => r.parens(&|s| s.many(&|s| s.pt())),
        4 => r.parens(&|s| s.many(&|s| s.line())),
        _ => r.parens(&|s| s.many(&|s| s.poly())),
    };
    // points of a MULTIPOINT without parentheses of their own: accepted by some readers
    let bare = k == 3 && { let mut r = Reader { t, i: 1 }; r.parens(&|s| s.many(&|s| if let Some(T::N(_)) = s.peek() { s.coord() } else { s.pt() })) };
    // text after the geometry: ignored by some readers
    if ok && r.i == t.len() { Is::Good } else if ok || bare { Is::Undecided } else { Is::Malformed }
}

const BASES: [&[&str]; 7] = [
    &["POINT(NN)"],
    &["LINESTRING(NN,NN)", "LINESTRING E"],
    &["POLYGON((NN,NN,NN),(NN))", "POLYGON((NN),E)"],
    &["MULTIPOINT((NN),(NN))", "MULTIPOINT(E,(NN))"],
    &["MULTILINESTRING((NN,NN),(NN))", "MULTILINESTRING((NN),E)"],
    &["MULTIPOLYGON(((NN,NN),(NN)),((NN)))", "MULTIPOLYGON(E,((NN)))"],
    &["GEOMETRYCOLLECTION(POINT(NN))", "GEOMETRYCOLLECTION E", "TRIANGLE((NN,NN,NN))", "CIRCULARSTRING(NN,NN)", "POINTS(NN)", "EMPTY", "(NN)", "NN", ",", ")"],
];
fn base<D: WktDom>(s: &str, b: i64) -> Vec<T> {
    let mut t: Vec<T> = vec![];
    let mut w = String::new();
    let c: Vec<char> = s.chars().collect();
    for (i, &ch) in c.iter().enumerate() {
        let alone = |ch: char| w.is_empty() && !(i + 1 < c.len() && c[i + 1].is_alphabetic() && c[i + 1] != 'N') && (ch == 'N' || ch == 'E');
        match ch {
            '(' | ')' | ',' | ' ' => {
                if !w.is_empty() { t.push(T::W(std::mem::take(&mut w))); }
                match ch { '(' => t.push(T::Open), ')' => t.push(T::Close), ',' => t.push(T::Comma), _ => {} }
            }
            'N' if w.is_empty() => t.push(T::N(D::text(D::coord(D::var(-b, b))))),
            'E' if alone('E') => t.push(T::W("EMPTY".into())),
            ch => w.push(ch),
        }
    }
    if !w.is_empty() { t.push(T::W(w)); }
    t
}
fn token<D: WktDom>(k: u32, b: i64) -> T {
    match k {
        0 => T::Open,
        1 => T::Close,
        2 => T::Comma,
        3 => T::N(D::text(D::coord(D::var(-b, b)))),
        4 => T::Bad,
        5 => T::W("EMPTY".into()),
        6 => T::W("POINT".into()),
        7 => T::W("x1".into()),
        8 => T::W("MULTIPOLYGON".into()),
        9 => T::W("NaN(".chars().take(3).collect()),
        _ => T::W("é".into()),
    }
}
fn edit<D: WktDom>(t: &mut Vec<T>, b: i64) {
    let op = D::choose(4);
    let n = t.len() as u32;
    match op {
        0 => { let i = D::choose(n); t.remove(i as usize); }
        1 => { let i = D::choose(n); let k = D::choose(11); t[i as usize] = token::<D>(k, b); }
        2 => { let i = D::choose(n + 1); let k = D::choose(11); t.insert(i as usize, token::<D>(k, b)); }
        _ => { let i = D::choose(n); t.truncate(i as usize); }
    }
}
fn malformed<D: WktDom>((s, style, edits, b): &(&'static str, u8, u32, i64)) {
    let mut t = base::<D>(s, *b);
    for _ in 0..*edits { if t.is_empty() { break; } edit::<D>(&mut t, *b); }
    let is = judge(&t);
    let r = D::parse(&render(&t, *style));
    match (&r, is) {
        (Ok(_), Is::Malformed) => D::check(D::B::c(false), "a malformed or unsupported text is not reported as an error"),
        (Err(_), Is::Good) => D::check(D::B::c(false), "a well-formed text is reported as an error"),
        (Ok(v), Is::Good) => D::check(D::B::c(v.len() == 1), "a well-formed text does not give one geometry"),
        _ => D::check(D::B::c(true), "an error, or not decided"),
    }
}

fn c25(thorough: bool) -> Vec<Task> {
    let mut v = vec![];
    let b = if thorough { 1_000_000 } else { 1000 };
    for k in 0..6 {
        for style in 0..3u8 {
            for case in 0..3u8 {
                if !thorough && style != case && (style + case) % 3 != (k % 3) as u8 { continue; }
                task!(v, [], format!("{} style {} case {}", KINDS[k], style, case), well_formed, k, style, case, thorough, b);
            }
        }
    }
    v
}
fn c26(thorough: bool) -> Vec<Task> {
    let mut v = vec![];
    let b = 1000i64;
    for (k, l) in BASES.iter().enumerate() {
        for (j, s) in l.iter().enumerate() {
            let s: &'static str = s;
            for e in 0..=if thorough || s.len() < 20 { 2 } else { 1 } {
                let style = ((k + j) % 3) as u8;
                task!(v, [], format!("{} edits {}", s, e), malformed, s, style, e, b);
            }
        }
    }
    v
}

fn props() -> Vec<Prop> { vec![Prop { id: "C25", tasks: c25 }, Prop { id: "C26", tasks: c26 }] }

const META: &[Meta] = &[
    Meta { id: "C25", scales: &[0, 28], each: true, bounds: "each of the six types; up to 4 positions in a line, 3 rings or lines of up to 3 positions, 3 points, 2 polygons of up to 2 rings of up to 2 positions (thorough: one more of each), EMPTY in the place of any part; upper, lower and mixed case, three styles of white space; coordinates symbolic", outside: "the decimal notation of numbers (read by the standard library); longer texts; Z and M ordinates; comments of other dialects",
        functions: &["serde::wkt::parse_wkt", "serde::wkt::from_wkt_geometry and the functions it calls", "wkt::Wkt::from_str (the wkt crate, 0.5.0, a dependency)"] },
    Meta { id: "C26", scales: &[0], each: true, bounds: "17 texts of up to 26 tokens with up to two (the longer texts: one; thorough: two) tokens deleted, replaced, inserted or the rest cut off, anywhere; 11 kinds of token; coordinates symbolic", outside: "text after a complete geometry; MULTIPOINT with bare points; texts that begin with a malformed number; nesting deeper than a MULTIPOLYGON's",
        functions: &["serde::wkt::parse_wkt", "serde::wkt::from_wkt_geometry and the functions it calls", "wkt::Wkt::from_str (the wkt crate, 0.5.0, a dependency)"] },
];

fn main() { symex::props::cli(props(), META) }
