//! The symbolic coordinate: a number type the real code is instantiated with.
use crate::arena::*;
use crate::ctx::*;
use num_traits::{Bounded, Float, FromPrimitive, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl fmt::Debug for Sym {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", val(*self).sh) }
}

const EXACT: i128 = 1 << 53;

pub fn val(s: Sym) -> Val { cx().vals[s.0 as usize] }
fn push(v: Val) -> Sym {
    let c = cx();
    if c.vals.len() > 3_000_000 { std::panic::panic_any(crate::engine::Stop::Abort("hang".into())); }
    c.vals.push(v);
    Sym(c.vals.len() as u32 - 1)
}
/// The largest magnitude of the significand: common powers of two do not count.
fn maxabs(p: P) -> i128 {
    let ar = &cx().ar;
    let q = &ar.polys[p as usize];
    let k = ar.content(p);
    q.lo.abs().max(q.hi.abs()) >> if k == 0 { 0 } else { k.trailing_zeros() }
}

/// A float constant.
pub fn konst(f: f64) -> Sym {
    if f.is_nan() { return push(Val { k: Kind::NaN, sh: f }); }
    if f.is_infinite() { return push(Val { k: Kind::Inf(f < 0.0), sh: f }); }
    let (m, e, s) = f.integer_decode();
    let mut m = m as i128 * s as i128;
    let mut e = e as i32;
    while m != 0 && m % 2 == 0 { m /= 2; e += 1; }
    if m == 0 { e = 0 }
    if e < -60 && m.abs() >= 1 << 24 {
        // a tiny tolerance: its leading 24 bits stand for it (no modelled value is that near)
        let s = 128 - m.abs().leading_zeros() as i32 - 24;
        m >>= s;
        e += s;
        while m != 0 && m % 2 == 0 { m /= 2; e += 1; }
    }
    if e < -90 { m = m.signum(); e = -70; }
    if e > 60 { abort(format!("constant {} out of the modelled range", f)); }
    let c = cx();
    let (n, d) = if e >= 0 { (m << e, 1) } else { (m, 1i128 << -e) };
    let (n, d) = (c.ar.konst(n), c.ar.konst(d));
    mk(n, d, Cls::Exact, 0, f)
}

/// An exact integer as a coordinate.
pub fn of_poly(p: P) -> Sym { scaled(p, 0) }
/// An integer times 2^-s as a coordinate.
pub fn scaled(p: P, s: i32) -> Sym {
    let c = cx();
    let v = c.eval(p) as f64 * (2f64).powi(-s);
    let (n, d) = if s >= 0 { (p, c.ar.konst(1 << s)) } else { (c.ar.scale(p, 1 << -s), 1) };
    mk(n, d, Cls::Exact, 0, v)
}

fn mk(mut n: P, mut d: P, mut cls: Cls, mut xid: u32, sh: f64) -> Sym {
    let c = cx();
    if n == 0 { d = 1; if cls == Cls::Rounded { cls = Cls::Exact } }
    if n == d && d != 1 { n = 1; d = 1; if cls == Cls::Rounded { cls = Cls::Exact } }
    if let Some(dc) = c.ar.as_const(d) {
        let mut dc = dc;
        if dc < 0 { n = c.ar.neg(n); dc = -dc; }
        let mut g = dc;
        for (_, k) in c.ar.polys[n as usize].terms.iter() { let (mut a, mut b) = (g, k.abs()); while b != 0 { let t = a % b; a = b; b = t; } g = a; }
        if g > 1 { n = c.ar.divide(n, g); dc /= g; }
        d = c.ar.konst(dc);
        if cls == Cls::Rounded && (dc & (dc - 1)) == 0 && maxabs(n) < EXACT { cls = Cls::Exact }
    }
    if c.ar.as_const(d).is_none() && n != 0 {
        let (mut g, mut b) = (c.ar.content(n), c.ar.content(d));
        while b != 0 { let t = g % b; g = b; b = t; }
        if g > 1 { n = c.ar.divide(n, g); d = c.ar.divide(d, g); }
    }
    if cls == Cls::Exact {
        let dc = c.ar.as_const(d);
        let ok = matches!(dc, Some(k) if k > 0 && (k & (k - 1)) == 0) && maxabs(n) < EXACT && !c.ar.polys[n as usize].opaque;
        if !ok { cls = Cls::Approx }
    }
    if cls != Cls::Approx { xid = c.ar.xid(100 + cls as u8, n, d); }
    else if xid == 0 { xid = c.ar.xid(110, n, d); }
    push(Val { k: Kind::Fin { n, d, cls, xid }, sh })
}

fn xid_of(v: &Val) -> u32 { match v.k { Kind::Fin { xid, .. } => xid, Kind::NaN => 1 << 30, Kind::Inf(s) => (1 << 30) + 1 + s as u32 } }

fn special(sh: f64) -> Sym {
    let k = if sh.is_nan() { Kind::NaN } else if sh.is_infinite() { Kind::Inf(sh < 0.0) } else { abort("special value expected") };
    push(Val { k, sh })
}

#[derive(Clone, Copy, PartialEq)]
enum Op { Add, Sub, Mul }

fn arith(a: Sym, b: Sym, op: Op) -> Sym {
    let (va, vb) = (val(a), val(b));
    let sh = match op { Op::Add => va.sh + vb.sh, Op::Sub => va.sh - vb.sh, Op::Mul => va.sh * vb.sh };
    let (n1, d1, c1, n2, d2, c2) = match (va.k, vb.k) {
        (Kind::Fin { n, d, cls, .. }, Kind::Fin { n: n2, d: d2, cls: c2, .. }) => (n, d, cls, n2, d2, c2),
        (Kind::NaN, _) | (_, Kind::NaN) => return special(f64::NAN),
        (ka, kb) => {
            // an infinity is involved: the other operand's sign may matter (multiplication only)
            if op == Op::Mul {
                let fin = match (ka, kb) { (Kind::Fin { .. }, _) => Some(a), (_, Kind::Fin { .. }) => Some(b), _ => None };
                if let Some(f) = fin {
                    let z = konst(0.0);
                    if cmp(f, z, ZERO) { return special(f64::NAN); }
                    let _ = cmp(f, z, POS);
                }
            }
            return special(sh);
        }
    };
    let c = cx();
    let both = c1 == Cls::Exact && c2 == Cls::Exact;
    // identities that preserve the float exactly
    match op {
        Op::Add => { if n1 == 0 && c1 == Cls::Exact { return b; } if n2 == 0 && c2 == Cls::Exact { return a; } }
        Op::Sub => {
            if n2 == 0 && c2 == Cls::Exact { return a; }
            if n1 == 0 && c1 == Cls::Exact { return -b; }
            if xid_of(&va) == xid_of(&vb) { return konst(0.0); }
        }
        Op::Mul => {
            if n1 == 1 && d1 == 1 && c1 == Cls::Exact { return b; }
            if n2 == 1 && d2 == 1 && c2 == Cls::Exact { return a; }
            if (n1 == 0 && c1 == Cls::Exact) || (n2 == 0 && c2 == Cls::Exact) { return mk(0, 1, Cls::Exact, 0, 0.0); }
        }
    }
    let (n, d) = match op {
        Op::Add | Op::Sub => {
            let (x, y, d) = if d1 == d2 { (n1, n2, d1) }
                else if let (Some(k1), Some(k2)) = (c.ar.as_const(d1), c.ar.as_const(d2)) {
                    let (mut g, mut h) = (k1, k2);
                    while h != 0 { let t = g % h; g = h; h = t; }
                    (c.ar.scale(n1, k2 / g), c.ar.scale(n2, k1 / g), c.ar.konst(k1 / g * k2))
                } else { (c.ar.mul(n1, d2), c.ar.mul(n2, d1), c.ar.mul(d1, d2)) };
            (if op == Op::Add { c.ar.add(x, y) } else { c.ar.sub(x, y) }, d)
        }
        Op::Mul => {
            // cancel a common factor
            if d1 == n2 && d1 != 1 { (n1, d2) } else if d2 == n1 && d2 != 1 { (n2, d1) }
            else { (c.ar.mul(n1, n2), c.ar.mul(d1, d2)) }
        }
    };
    let cls = if both { Cls::Exact }
        else if op == Op::Mul && ((c1 == Cls::Rounded && is_pow2(n2, d2, c2)) || (c2 == Cls::Rounded && is_pow2(n1, d1, c1))) { Cls::Rounded }
        else { Cls::Approx };
    let (xa, xb) = (xid_of(&va), xid_of(&vb));
    let xid = if cls == Cls::Approx || both {
        match op { Op::Add => c.ar.xid(1, xa.min(xb), xa.max(xb)), Op::Sub => c.ar.xid(2, xa, xb), Op::Mul => c.ar.xid(3, xa.min(xb), xa.max(xb)) }
    } else { 0 };
    mk(n, d, cls, xid, sh)
}

fn is_pow2(n: P, d: P, cls: Cls) -> bool {
    let c = cx();
    cls == Cls::Exact && matches!(c.ar.as_const(n), Some(k) if k != 0 && (k.abs() & (k.abs() - 1)) == 0) && c.ar.as_const(d).is_some()
}

fn divide(a: Sym, b: Sym) -> Sym {
    let (va, vb) = (val(a), val(b));
    let sh = va.sh / vb.sh;
    match (va.k, vb.k) {
        (Kind::NaN, _) | (_, Kind::NaN) => special(f64::NAN),
        (Kind::Inf(_), Kind::Inf(_)) => special(f64::NAN),
        (Kind::Inf(s), Kind::Fin { .. }) => {
            let z = konst(0.0);
            if cmp(b, z, ZERO) { return inf_choice(sh); }
            let neg = cmp(b, z, NEG);
            special(if s != neg { f64::NEG_INFINITY } else { f64::INFINITY })
        }
        (Kind::Fin { .. }, Kind::Inf(_)) => konst(0.0),
        (Kind::Fin { n: n1, d: d1, cls: c1, .. }, Kind::Fin { n: n2, d: d2, cls: c2, .. }) => {
            let z = konst(0.0);
            if cmp(b, z, ZERO) {
                if cmp(a, z, ZERO) { return special(f64::NAN); }
                let _ = n2;
                return inf_choice(sh);
            }
            let c = cx();
            if n2 == 1 && d2 == 1 && c2 == Cls::Exact { return a; }
            if xid_of(&va) == xid_of(&vb) { return konst(1.0); }
            let (n, d) = if d1 == d2 { (n1, n2) } else { (c.ar.mul(n1, d2), c.ar.mul(d1, n2)) };
            let cls = if c1 == Cls::Exact && c2 == Cls::Exact { Cls::Rounded }
                else if c1 == Cls::Rounded && is_pow2(n2, d2, c2) { Cls::Rounded }
                else { Cls::Approx };
            let xid = c.ar.xid(4, xid_of(&va), xid_of(&vb));
            mk(n, d, cls, xid, sh)
        }
    }
}

/// x/0 for x != 0: the sign of the zero is not modelled, so both infinities are explored.
fn inf_choice(sh: f64) -> Sym {
    let c = cx();
    c.luck = true;
    let s = c.choose(2, (sh < 0.0) as u32, true);
    push(Val { k: Kind::Inf(s == 1), sh: if s == 1 { f64::NEG_INFINITY } else { f64::INFINITY } })
}

/// The two numerators over a common denominator, without their common factor.
fn cross(c: &mut Ctx, n1: P, d1: P, n2: P, d2: P) -> (P, P) {
    let (x, y) = match (c.ar.as_const(d1), c.ar.as_const(d2)) {
        _ if d1 == d2 => (n1, n2),
        (Some(a), Some(b)) => { let (mut g, mut h) = (a, b); while h != 0 { let t = g % h; g = h; h = t; } (c.ar.scale(n1, b / g), c.ar.scale(n2, a / g)) }
        _ => (c.ar.mul(n1, d2), c.ar.mul(n2, d1)),
    };
    if x == 0 || y == 0 { let (a, b) = (c.ar.norm(x).0, c.ar.norm(y).0); return (a, b); }
    let (mut g, mut b) = (c.ar.content(x), c.ar.content(y));
    while b != 0 { let t = g % b; g = b; b = t; }
    (c.ar.divide(x, g), c.ar.divide(y, g))
}

/// Formula for sign(n1/d1 - n2/d2) in mask; both denominators are non-zero.
pub fn frac_cmp(n1: P, d1: P, n2: P, d2: P, mask: u8) -> F {
    let c = cx();
    if n1 == n2 && d1 == d2 { return if mask & ZERO != 0 { TRUE } else { FALSE }; }
    let pos = |c: &Ctx, d: P| c.ar.polys[d as usize].lo > 0 || c.know.get(&d) == Some(&POS);
    if d1 == d2 || n1 == 0 && n2 == 0 {
        if pos(c, d1) { return c.cmp_poly(n1, n2, mask); }
        let lt = c.atom(d1, NEG);
        let nlt = c.ar.not(lt);
        let (a, b) = (c.cmp_poly(n1, n2, mask), c.cmp_poly(n1, n2, Arena::flip_mask(mask)));
        return ite(lt, nlt, b, a);
    }
    let (k1, k2) = (c.ar.as_const(d1), c.ar.as_const(d2));
    let (x, y) = match (k1, k2) {
        (Some(a), Some(b)) => { let (mut g, mut h) = (a, b); while h != 0 { let t = g % h; g = h; h = t; } (c.ar.scale(n1, b / g), c.ar.scale(n2, a / g)) }
        _ => (c.ar.mul(n1, d2), c.ar.mul(n2, d1)),
    };
    let (l1, l2) = (if pos(c, d1) { FALSE } else { c.atom(d1, NEG) }, if pos(c, d2) { FALSE } else { c.atom(d2, NEG) });
    if l1 == FALSE && l2 == FALSE { return c.cmp_poly(x, y, mask); }
    let (m1, m2) = (c.ar.not(l1), c.ar.not(l2));
    let (p, q) = (c.ar.and(vec![l1, m2]), c.ar.and(vec![m1, l2]));
    let ng = c.ar.or(vec![p, q]);
    let nng = c.ar.not(ng);
    let (a, b) = (c.cmp_poly(x, y, mask), c.cmp_poly(x, y, Arena::flip_mask(mask)));
    ite(ng, nng, b, a)
}

fn ite(i: F, ni: F, t: F, e: F) -> F {
    if t == e { return t; }
    let c = cx();
    let (x, y) = (c.ar.and(vec![i, t]), c.ar.and(vec![ni, e]));
    c.ar.or(vec![x, y])
}

/// sign(a-b) in mask, as the float comparison sees it; forks.
fn cmp(a: Sym, b: Sym, mask: u8) -> bool {
    let (va, vb) = (val(a), val(b));
    let shadow = |m: u8| match va.sh.partial_cmp(&vb.sh) { Some(Ordering::Less) => m & NEG != 0, Some(Ordering::Equal) => m & ZERO != 0, Some(Ordering::Greater) => m & POS != 0, None => false };
    match (va.k, vb.k) {
        (Kind::NaN, _) | (_, Kind::NaN) => false,
        (Kind::Fin { n: n1, d: d1, cls: c1, xid: x1 }, Kind::Fin { n: n2, d: d2, cls: c2, xid: x2 }) => {
            if x1 == x2 { return mask & ZERO != 0; }
            let f = frac_cmp(n1, d1, n2, d2, mask);
            if c1 != Cls::Approx && c2 != Cls::Approx {
                if c1 == Cls::Rounded || c2 == Cls::Rounded {
                    let c = cx();
                    let (x, y) = cross(c, n1, d1, n2, d2);
                    if maxabs(x) + maxabs(y) >= EXACT / 4 { abort("rounded comparison beyond the precision bound"); }
                }
                let r = cx().branch(f);
                if r != shadow(mask) { abort(format!("float/exact mismatch {:?} {:?}", va, vb)); }
                return r;
            }
            // at least one side carries rounding error: exact ties may fall either way
            let t = frac_cmp(n1, d1, n2, d2, ZERO);
            if t == TRUE || cx().branch(t) {
                let c = cx();
                c.luck = true;
                // the choice is read relative to the operands of its first use on this path,
                // which does not depend on the numbering of the expressions
                let c = cx();
                let s = if let Some(&s) = c.ties.get(&(x1, x2)) { s } else if let Some(&s) = c.ties.get(&(x2, x1)) { -s } else {
                    let (p, q) = (va.sh, vb.sh);
                    let def = if p == q { 0 } else if p < q { 1 } else { 2 };
                    let s = match c.choose(3, def, true) { 0 => 0i8, 1 => -1, _ => 1 };
                    c.ties.insert((x1, x2), s);
                    s
                };
                return mask & sign_bit(s as i128) != 0;
            }
            let c = cx();
            let (x, y) = cross(c, n1, d1, n2, d2);
            if maxabs(x) + maxabs(y) >= 1 << 46 { abort("approximate comparison beyond the precision bound"); }
            let r = c.branch(f);
            if r != shadow(mask) && c.ties.is_empty() { abort(format!("float/approx mismatch {:?} {:?}", va, vb)); }
            r
        }
        (ka, kb) => {
            let o = |k: Kind| match k { Kind::Inf(true) => -1, Kind::Inf(false) => 1, _ => 0 };
            let (x, y) = (o(ka), o(kb));
            mask & sign_bit((x - y) as i128) != 0
        }
    }
}

impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool { cmp(*self, *o, ZERO) }
    fn ne(&self, o: &Sym) -> bool { !cmp(*self, *o, ZERO) }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if matches!(val(*self).k, Kind::NaN) || matches!(val(*o).k, Kind::NaN) { return None; }
        Some(if cmp(*self, *o, NEG) { Ordering::Less } else if cmp(*self, *o, ZERO) { Ordering::Equal } else { Ordering::Greater })
    }
    fn lt(&self, o: &Sym) -> bool { cmp(*self, *o, NEG) }
    fn le(&self, o: &Sym) -> bool { cmp(*self, *o, NEG | ZERO) }
    fn gt(&self, o: &Sym) -> bool { cmp(*self, *o, POS) }
    fn ge(&self, o: &Sym) -> bool { cmp(*self, *o, POS | ZERO) }
}
impl Add for Sym { type Output = Sym; fn add(self, o: Sym) -> Sym { arith(self, o, Op::Add) } }
impl Sub for Sym { type Output = Sym; fn sub(self, o: Sym) -> Sym { arith(self, o, Op::Sub) } }
impl Mul for Sym { type Output = Sym; fn mul(self, o: Sym) -> Sym { arith(self, o, Op::Mul) } }
impl Div for Sym { type Output = Sym; fn div(self, o: Sym) -> Sym { divide(self, o) } }
impl Rem for Sym { type Output = Sym; fn rem(self, _: Sym) -> Sym { abort("float remainder") } }
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        let v = val(self);
        match v.k {
            Kind::Fin { n, d, cls, xid } => {
                let c = cx();
                let x = if cls == Cls::Approx { c.ar.xid(5, xid, 0) } else { 0 };
                let m = c.ar.neg(n);
                mk(m, d, cls, x, -v.sh)
            }
            _ => special(-v.sh),
        }
    }
}
macro_rules! assign { ($t:ident, $f:ident, $op:tt) => { impl $t for Sym { fn $f(&mut self, o: Sym) { *self = *self $op o; } } } }
assign!(AddAssign, add_assign, +);
assign!(SubAssign, sub_assign, -);
assign!(MulAssign, mul_assign, *);
assign!(DivAssign, div_assign, /);
impl Zero for Sym { fn zero() -> Sym { konst(0.0) } fn is_zero(&self) -> bool { *self == konst(0.0) } }
impl One for Sym { fn one() -> Sym { konst(1.0) } }
impl Num for Sym { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> { Err(()) } }
impl std::iter::Sum for Sym { fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym { let mut a = konst(0.0); for x in it { a = a + x; } a } }
impl<'a> std::iter::Sum<&'a Sym> for Sym { fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym { let mut a = konst(0.0); for x in it { a = a + *x; } a } }
impl Bounded for Sym { fn min_value() -> Sym { bounded(f64::MIN) } fn max_value() -> Sym { bounded(f64::MAX) } }
/// The extreme finite values only ever serve as sentinels; in the bounded integer domain an
/// infinity orders the same way.
fn bounded(f: f64) -> Sym { konst(if f < 0.0 { f64::NEG_INFINITY } else { f64::INFINITY }) }

impl ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> { to_int(*self) }
    fn to_u64(&self) -> Option<u64> { to_int(*self).and_then(|x| if x < 0 { None } else { Some(x as u64) }) }
    fn to_u32(&self) -> Option<u32> { to_int(*self).and_then(|x| if x < 0 || x > u32::MAX as i64 { None } else { Some(x as u32) }) }
    fn to_f64(&self) -> Option<f64> { match val(*self).k { Kind::Fin { n, d, .. } if cx().ar.as_const(n).is_some() && cx().ar.as_const(d).is_some() => Some(val(*self).sh), Kind::Fin { .. } => abort("symbolic to_f64"), _ => Some(val(*self).sh) } }
}

/// Conversion to a machine integer. A constant is converted; for a symbolic value the result
/// is one of a few stand-ins, all explored (over-approximating the orders they can induce).
fn to_int(s: Sym) -> Option<i64> {
    let v = val(s);
    match v.k {
        Kind::NaN | Kind::Inf(_) => None,
        Kind::Fin { n, d, xid, .. } => {
            let c = cx();
            if let (Some(_), Some(_)) = (c.ar.as_const(n), c.ar.as_const(d)) { return Some(v.sh as i64); }
            if let Some(&r) = c.int_memo.get(&xid) { return r; }
            let below = match c.ar.polys[n as usize].build {
                // floor(a/b) <= -1 exactly when a/b < 0
                Build::Sym(y) if d == 1 => match c.ar.sym(y) {
                    SymDef::Floor(a, b) => Some((*a, *b)),
                    _ => None,
                },
                _ => None,
            };
            let neg = match below {
                Some((a, b)) => { let f = frac_cmp(a, b, 0, 1, NEG); cx().branch(f) }
                None => cmp(s, konst(-1.0), NEG | ZERO),
            };
            if neg { cx().int_memo.insert(xid, None); return None; }
            let c = cx();
            let i = c.u32_calls;
            c.u32_calls += 1;
            let k = if c.u32_choices.is_empty() { 1 } else { c.u32_choices[i % c.u32_choices.len()] };
            if k > 1 { c.luck = true; }
            // spread by the shadow value, so that the default order is the real one
            let def = ((v.sh / 65536.0 * k as f64).floor().max(0.0) as u32).min(k - 1);
            let ch = c.choose(k, def, true);
            let r = Some(ch as i64 * (65535 / (k.max(2) as i64 - 1)));
            c.int_memo.insert(xid, r);
            r
        }
    }
}
impl NumCast for Sym { fn from<T: ToPrimitive>(n: T) -> Option<Sym> { n.to_f64().map(konst) } }
impl FromPrimitive for Sym { fn from_i64(n: i64) -> Option<Sym> { Some(konst(n as f64)) } fn from_u64(n: u64) -> Option<Sym> { Some(konst(n as f64)) } fn from_f64(n: f64) -> Option<Sym> { Some(konst(n)) } }

impl Signed for Sym {
    fn abs(&self) -> Sym { Float::abs(*self) }
    fn abs_sub(&self, o: &Sym) -> Sym { if *self <= *o { konst(0.0) } else { *self - *o } }
    fn signum(&self) -> Sym { Float::signum(*self) }
    fn is_positive(&self) -> bool { *self > konst(0.0) }
    fn is_negative(&self) -> bool { *self < konst(0.0) }
}

fn minmax(a: Sym, b: Sym, mn: bool) -> Sym {
    let (va, vb) = (val(a), val(b));
    match (va.k, vb.k) {
        (Kind::NaN, _) => return b,
        (_, Kind::NaN) => return a,
        (Kind::Fin { n: n1, d: d1, cls: Cls::Exact, .. }, Kind::Fin { n: n2, d: d2, cls: Cls::Exact, .. }) => {
            let c = cx();
            // over a common denominator (both are powers of two)
            let (k1, k2) = (c.ar.as_const(d1).unwrap(), c.ar.as_const(d2).unwrap());
            let (n1, n2, d1) = (if k1 < k2 { c.ar.scale(n1, k2 / k1) } else { n1 }, if k2 < k1 { c.ar.scale(n2, k1 / k2) } else { n2 }, if k1 < k2 { d2 } else { d1 });
            let f = c.cmp_poly(n1, n2, NEG | ZERO);
            if f == TRUE { return if mn { a } else { b }; }
            if f == FALSE { return if mn { b } else { a }; }
            let m = c.ar.minmax_set(vec![n1, n2], mn);
            let sh = if mn { va.sh.min(vb.sh) } else { va.sh.max(vb.sh) };
            return mk(m, d1, Cls::Exact, 0, sh);
        }
        _ => {}
    }
    if (a <= b) == mn { a } else { b }
}

fn rounding(s: Sym, f: fn(f64) -> f64, kind: u8) -> Sym {
    let v = val(s);
    match v.k {
        Kind::NaN | Kind::Inf(_) => s,
        Kind::Fin { n, d, .. } => {
            let c = cx();
            if d == 1 { return s; }
            if let (Some(_), Some(_)) = (c.ar.as_const(n), c.ar.as_const(d)) { return konst(f(v.sh)); }
            let q = match kind {
                0 => c.ar.symbol(SymDef::Floor(n, d)),
                1 => { let m = c.ar.neg(n); let q = c.ar.symbol(SymDef::Floor(m, d)); c.ar.neg(q) }
                _ => abort("rounding mode"),
            };
            let x = c.ar.xid(6 + kind, xid_of(&v), 0);
            mk(q, 1, Cls::Approx, x, f(v.sh))
        }
    }
}

macro_rules! unsup {
    ($($n:ident ( $($a:ident : $t:ty),* ) -> $r:ty);* $(;)?) => { $(
        fn $n(self $(, $a: $t)*) -> $r { $(let _ = $a;)* abort(concat!("unsupported float operation ", stringify!($n))) }
    )* }
}

impl Float for Sym {
    fn nan() -> Sym { konst(f64::NAN) }
    fn infinity() -> Sym { konst(f64::INFINITY) }
    fn neg_infinity() -> Sym { konst(f64::NEG_INFINITY) }
    fn neg_zero() -> Sym { konst(0.0) }
    fn min_value() -> Sym { bounded(f64::MIN) }
    fn max_value() -> Sym { bounded(f64::MAX) }
    fn min_positive_value() -> Sym { konst(f64::MIN_POSITIVE) }
    fn epsilon() -> Sym { konst(f64::EPSILON) }
    fn is_nan(self) -> bool { matches!(val(self).k, Kind::NaN) }
    fn is_infinite(self) -> bool { matches!(val(self).k, Kind::Inf(_)) }
    fn is_finite(self) -> bool { matches!(val(self).k, Kind::Fin { .. }) }
    fn is_normal(self) -> bool { self.is_finite() && self != konst(0.0) }
    fn classify(self) -> FpCategory {
        match val(self).k { Kind::NaN => FpCategory::Nan, Kind::Inf(_) => FpCategory::Infinite, _ => if self == konst(0.0) { FpCategory::Zero } else { FpCategory::Normal } }
    }
    fn floor(self) -> Sym { rounding(self, f64::floor, 0) }
    fn ceil(self) -> Sym { rounding(self, f64::ceil, 1) }
    fn round(self) -> Sym { let h = konst(0.5); if self >= konst(0.0) { (self + h).floor() } else { (self - h).ceil() } }
    fn trunc(self) -> Sym { if self >= konst(0.0) { self.floor() } else { self.ceil() } }
    fn fract(self) -> Sym { self - self.trunc() }
    fn abs(self) -> Sym {
        let v = val(self);
        match v.k {
            Kind::Fin { n, d, cls: Cls::Exact, .. } => {
                let c = cx();
                let m = c.ar.neg(n);
                let f = c.atom(n, POS | ZERO);
                if f == TRUE { return self; }
                if f == FALSE { return -self; }
                let q = c.ar.minmax_set(vec![n, m], false);
                mk(q, d, Cls::Exact, 0, v.sh.abs())
            }
            Kind::Fin { .. } => if self < konst(0.0) { -self } else { self },
            _ => special(v.sh.abs()),
        }
    }
    fn signum(self) -> Sym { if Float::is_nan(self) { return self; } if self >= konst(0.0) { konst(1.0) } else { konst(-1.0) } }
    fn is_sign_positive(self) -> bool { match val(self).k { Kind::NaN => true, _ => self >= konst(0.0) } }
    fn is_sign_negative(self) -> bool { match val(self).k { Kind::NaN => false, _ => self < konst(0.0) } }
    fn mul_add(self, a: Sym, b: Sym) -> Sym { self * a + b }
    fn recip(self) -> Sym { konst(1.0) / self }
    fn powi(self, n: i32) -> Sym { let mut r = konst(1.0); for _ in 0..n.abs() { r = r * self; } if n < 0 { konst(1.0) / r } else { r } }
    fn sqrt(self) -> Sym {
        let v = val(self);
        match v.k {
            Kind::Fin { n, d, .. } => {
                let c = cx();
                if d != 1 {
                    // of a fraction by a power of four
                    match c.ar.as_const(d) {
                        Some(k) if k > 0 && (k & (k - 1)) == 0 => {
                            let (n, t) = if k.trailing_zeros() % 2 == 0 { (n, k.trailing_zeros() / 2) } else { (c.ar.scale(n, 2), k.trailing_zeros() / 2 + 1) };
                            if cmp(self, konst(0.0), NEG) { return konst(f64::NAN); }
                            let c = cx();
                            c.opaque_used = true;
                            let s = c.ar.symbol(SymDef::Sqrt(n));
                            let d = c.ar.konst(1 << t);
                            return mk(s, d, Cls::Approx, 0, v.sh.sqrt());
                        }
                        _ => abort("square root of a fraction"),
                    }
                }
                if let (Some(_), true) = (c.ar.as_const(n), v.sh >= 0.0 && v.sh.sqrt().fract() == 0.0) { return konst(v.sh.sqrt()); }
                if cmp(self, konst(0.0), NEG) { return konst(f64::NAN); }
                let c = cx();
                c.opaque_used = true;
                let s = c.ar.symbol(SymDef::Sqrt(n));
                mk(s, 1, Cls::Approx, 0, v.sh.sqrt())
            }
            Kind::Inf(true) => konst(f64::NAN),
            _ => self,
        }
    }
    fn hypot(self, o: Sym) -> Sym { (self * self + o * o).sqrt() }
    fn max(self, o: Sym) -> Sym { minmax(self, o, false) }
    fn min(self, o: Sym) -> Sym { minmax(self, o, true) }
    fn abs_sub(self, o: Sym) -> Sym { if self <= o { konst(0.0) } else { self - o } }
    fn integer_decode(self) -> (u64, i16, i8) {
        match val(self).k { Kind::NaN => (1 << 52, 972, 1), Kind::Inf(s) => (0, 972, if s { -1 } else { 1 }), _ => (0, 0, 1) }
    }
    fn to_degrees(self) -> Sym { abort("to_degrees") }
    fn to_radians(self) -> Sym { abort("to_radians") }
    unsup! {
        powf(b: Self) -> Self; exp() -> Self; exp2() -> Self; ln() -> Self; log(b: Self) -> Self;
        log2() -> Self; log10() -> Self; cbrt() -> Self; sin() -> Self; cos() -> Self; tan() -> Self;
        asin() -> Self; acos() -> Self; atan() -> Self; atan2(b: Self) -> Self; sin_cos() -> (Self, Self);
        exp_m1() -> Self; ln_1p() -> Self; sinh() -> Self; cosh() -> Self; tanh() -> Self;
        asinh() -> Self; acosh() -> Self; atanh() -> Self;
    }
}

// A number as the text of a symbolic program's input: the name of the value.
impl fmt::Display for Sym { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl std::str::FromStr for Sym {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Sym, Self::Err> {
        let i: u32 = s.parse()?;
        if i as usize >= cx().vals.len() { abort("text names no value"); }
        Ok(Sym(i))
    }
}
impl Default for Sym { fn default() -> Sym { konst(0.0) } }
// Code that is not generic mixes in literals.
impl PartialEq<f64> for Sym { fn eq(&self, o: &f64) -> bool { *self == konst(*o) } }
impl PartialOrd<f64> for Sym {
    fn partial_cmp(&self, o: &f64) -> Option<Ordering> { self.partial_cmp(&konst(*o)) }
    fn lt(&self, o: &f64) -> bool { *self < konst(*o) }
    fn le(&self, o: &f64) -> bool { *self <= konst(*o) }
    fn gt(&self, o: &f64) -> bool { *self > konst(*o) }
    fn ge(&self, o: &f64) -> bool { *self >= konst(*o) }
}
impl Add<f64> for Sym { type Output = Sym; fn add(self, o: f64) -> Sym { self + konst(o) } }
impl Sub<f64> for Sym { type Output = Sym; fn sub(self, o: f64) -> Sym { self - konst(o) } }
impl Mul<f64> for Sym { type Output = Sym; fn mul(self, o: f64) -> Sym { self * konst(o) } }
impl Div<f64> for Sym { type Output = Sym; fn div(self, o: f64) -> Sym { self / konst(o) } }
