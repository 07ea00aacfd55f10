//! Points, segments and triangles.
use super::Prop;
use crate::dom::*;
use crate::engine::Task;
use crate::spec::*;
use crate::task;
use magog::planar::primitives::*;

pub fn pt<D: Dom>(b: i64) -> Pt<D> { let x = D::var_g(-b, b, 1); let y = D::var_g(-b, b, 2); (x, y) }
pub fn pos<D: Dom>(p: Pt<D>) -> Position<D::C> { Position::new(D::coord(p.0), D::coord(p.1)) }

fn intersection<D: Dom>(&(b,): &(i64,)) {
    let (a, e, p, q) = (pt::<D>(b), pt::<D>(b), pt::<D>(b), pt::<D>(b));
    let s1 = Segment::new(pos::<D>(a), pos::<D>(e));
    let s2 = Segment::new(pos::<D>(p), pos::<D>(q));
    D::assume(nep::<D>(a, e) | nep::<D>(p, q));
    let r = s1.intersect_segment(s2);
    let eqpos = |c: Position<D::C>, p: Pt<D>| D::eq_int(c.x, p.0) & D::eq_int(c.y, p.1);
    match r {
        SegmentIntersection::None => D::check(!meet::<D>(a, e, p, q), "segments that meet are reported as disjoint"),
        SegmentIntersection::Position(c) => {
            D::check(meet::<D>(a, e, p, q), "disjoint segments are reported as meeting");
            D::check(!overlap::<D>(a, e, p, q), "overlapping segments are reported as meeting in a point");
            // the reported point: an end that lies on both, exactly; otherwise the crossing point
            let end = (eqpos(c, a) & on_seg::<D>(a, p, q)) | (eqpos(c, e) & on_seg::<D>(e, p, q)) | (eqpos(c, p) & on_seg::<D>(p, a, e)) | (eqpos(c, q) & on_seg::<D>(q, a, e));
            // crossing: a + (e-a) * ((p-a) x (q-p)) / ((e-a) x (q-p))
            let den = (e.0 - a.0) * (q.1 - p.1) - (e.1 - a.1) * (q.0 - p.0);
            let num = (p.0 - a.0) * (q.1 - p.1) - (p.1 - a.1) * (q.0 - p.0);
            let cross = proper_cross::<D>(a, e, p, q);
            if D::decide(cross) {
                let near = D::near_frac(c.x, a.0 * den + (e.0 - a.0) * num, den) & D::near_frac(c.y, a.1 * den + (e.1 - a.1) * num, den);
                D::check(near, "the crossing point is wrong");
            } else {
                D::check(end, "segments touching at an end do not meet exactly there");
                // as the floats compare: not a rounded neighbour of the end
                let same = [a, e, p, q].iter().any(|&v| c == pos::<D>(v));
                D::check(D::B::c(same), "segments touching at an end meet near it, not exactly there");
            }
        }
        SegmentIntersection::Segment(s) => {
            D::check(overlap::<D>(a, e, p, q), "segments that do not overlap are reported as overlapping");
            let ends = [a, e, p, q];
            let is = |c: Position<D::C>| any(ends.iter().map(|&v| eqpos(c, v) & on_seg::<D>(v, a, e) & on_seg::<D>(v, p, q)));
            D::check(is(s.start) & is(s.end), "the overlap does not end at ends of the segments");
            D::check(!(D::same(s.start.x, s.end.x) & D::same(s.start.y, s.end.y)), "the overlap is degenerate");
        }
    }
}

fn location<D: Dom>(&(b,): &(i64,)) {
    let (a, e, p) = (pt::<D>(b), pt::<D>(b), pt::<D>(b));
    let s = Segment::new(pos::<D>(a), pos::<D>(e));
    let o = orient::<D>(a, e, p);
    match s.position_location(pos::<D>(p)) {
        PositionLocation::Left => D::check(o.pos(), "not left"),
        PositionLocation::On => D::check(o.zero(), "not on the line"),
        PositionLocation::Right => D::check(o.neg_(), "not right"),
    }
    let c = s.contains(pos::<D>(p));
    D::check(iff::<D>(D::B::c(c), on_seg::<D>(p, a, e)), "contains");
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            tasks: |th| { let mut v: Vec<Task> = vec![]; task!(v, [], "location", location, if th { 100i64 } else { 20 }); v },
        },
        Prop {
            id: "C13",
            tasks: |th| { let mut v: Vec<Task> = vec![]; task!(v, [], "intersection", intersection, if th { 1000i64 } else { 100 }); v },
        },
    ]
}
