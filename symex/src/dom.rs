//! Harnesses are written once against `Dom`: with symbolic coordinates for the solver, and with
//! ordinary floats for replays and for validating the symbolic run.
use crate::arena::{self, Arena, F, NEG, P, POS, ZERO};
use crate::ctx::*;
use crate::engine::Stop;
use crate::sym::{self, Sym};
use magog::Coordinate;
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
use std::ops::{Add, BitAnd, BitOr, BitXor, Mul, Neg, Not, Sub};

pub trait BoolT: Copy + BitAnd<Output = Self> + BitOr<Output = Self> + Not<Output = Self> + BitXor<Output = Self> + 'static {
    fn c(b: bool) -> Self;
}
pub trait IntT<B>: Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> + 'static {
    fn k(v: i128) -> Self;
    fn sgn(self, mask: u8) -> B;
    fn lt(self, o: Self) -> B;
    fn le(self, o: Self) -> B;
    fn eq(self, o: Self) -> B;
    fn imin(self, o: Self) -> Self;
    fn imax(self, o: Self) -> Self;
    fn ne(self, o: Self) -> B;
    fn gt(self, o: Self) -> B { o.lt(self) }
    fn ge(self, o: Self) -> B { o.le(self) }
    fn zero(self) -> B { self.sgn(ZERO) }
    fn pos(self) -> B { self.sgn(POS) }
    fn neg_(self) -> B { self.sgn(NEG) }
}

/// A finite coordinate as an exact fraction, or a non-finite one.
#[derive(Clone, Copy, Debug)]
pub enum Num<I> { Frac(I, I), NaN, Inf(bool) }

pub trait Dom: 'static {
    type C: Coordinate + 'static;
    type B: BoolT;
    type I: IntT<Self::B>;
    fn var(lo: i64, hi: i64) -> Self::I { Self::var_g(lo, hi, 0) }
    /// an input of a group of inputs that may be translated together (only a hint to the solver)
    fn var_g(lo: i64, hi: i64, g: u8) -> Self::I;
    /// a concrete value of 0..k (every one explored)
    fn choose(k: u32) -> u32;
    fn coord(i: Self::I) -> Self::C;
    fn konst(f: f64) -> Self::C;
    fn assume(b: Self::B);
    fn check(b: Self::B, msg: &str);
    /// decide b on this path (both sides explored)
    fn decide(b: Self::B) -> bool;
    /// c equals the fraction n/d exactly, as a real number (d > 0)
    fn eq_frac(c: Self::C, n: Self::I, d: Self::I) -> Self::B { Self::eq_deg(c, n, d, 1) }
    /// as eq_frac, for a product of k coordinates
    fn eq_deg(c: Self::C, n: Self::I, d: Self::I, k: i32) -> Self::B;
    /// c equals n/d up to rounding; d != 0
    fn near_frac(c: Self::C, n: Self::I, d: Self::I) -> Self::B { Self::near_deg(c, n, d, 1) }
    fn near_deg(c: Self::C, n: Self::I, d: Self::I, k: i32) -> Self::B;
    fn eq_int(c: Self::C, n: Self::I) -> Self::B { Self::eq_frac(c, n, Self::I::k(1)) }
    fn is_nan(c: Self::C) -> bool;
    fn inf_sign(c: Self::C) -> i8;
    /// c equals the sum of the square roots of v, up to rounding
    fn near_sum_sqrt(c: Self::C, v: &[Self::I]) -> Self::B;
    fn same(a: Self::C, b: Self::C) -> Self::B;
    fn cmp_c(a: Self::C, b: Self::C, mask: u8) -> Self::B;
    fn symbolic() -> bool;
    fn tick() {}
}

pub fn all<B: BoolT>(v: impl IntoIterator<Item = B>) -> B { v.into_iter().fold(B::c(true), |a, b| a & b) }
pub fn any<B: BoolT>(v: impl IntoIterator<Item = B>) -> B { v.into_iter().fold(B::c(false), |a, b| a | b) }

// ---------------------------------------------------------------- symbolic
#[derive(Clone, Copy)]
pub struct SB(pub F);
#[derive(Clone, Copy)]
pub struct SI(pub P);
impl BitAnd for SB { type Output = SB; fn bitand(self, o: SB) -> SB { SB(cx().ar.and(vec![self.0, o.0])) } }
impl BitOr for SB { type Output = SB; fn bitor(self, o: SB) -> SB { SB(cx().ar.or(vec![self.0, o.0])) } }
impl BitXor for SB { type Output = SB; fn bitxor(self, o: SB) -> SB { (self & !o) | (!self & o) } }
impl Not for SB { type Output = SB; fn not(self) -> SB { SB(cx().ar.not(self.0)) } }
impl BoolT for SB { fn c(b: bool) -> SB { SB(if b { arena::TRUE } else { arena::FALSE }) } }
impl Add for SI { type Output = SI; fn add(self, o: SI) -> SI { SI(cx().ar.add(self.0, o.0)) } }
impl Sub for SI { type Output = SI; fn sub(self, o: SI) -> SI { SI(cx().ar.sub(self.0, o.0)) } }
impl Mul for SI { type Output = SI; fn mul(self, o: SI) -> SI { SI(cx().ar.mul(self.0, o.0)) } }
impl Neg for SI { type Output = SI; fn neg(self) -> SI { SI(cx().ar.neg(self.0)) } }
impl IntT<SB> for SI {
    fn k(v: i128) -> SI { SI(cx().ar.konst(v)) }
    fn sgn(self, mask: u8) -> SB { SB(cx().cmp_poly(self.0, 0, mask)) }
    fn lt(self, o: SI) -> SB { SB(cx().cmp_poly(self.0, o.0, NEG)) }
    fn le(self, o: SI) -> SB { SB(cx().cmp_poly(self.0, o.0, NEG | ZERO)) }
    fn eq(self, o: SI) -> SB { SB(cx().cmp_poly(self.0, o.0, ZERO)) }
    fn ne(self, o: SI) -> SB { SB(cx().cmp_poly(self.0, o.0, NEG | POS)) }
    fn imin(self, o: SI) -> SI { SI(cx().ar.minmax_set(vec![self.0, o.0], true)) }
    fn imax(self, o: SI) -> SI { SI(cx().ar.minmax_set(vec![self.0, o.0], false)) }
}

pub struct SymDom;
impl Dom for SymDom {
    type C = Sym;
    type B = SB;
    type I = SI;
    fn var_g(lo: i64, hi: i64, g: u8) -> SI {
        let k = cx().inputs.len() as u64;
        SI(cx().input(lo, hi, default_input(k, lo, hi), false, g))
    }
    fn choose(k: u32) -> u32 { cx().choose(k, 0, false) }
    fn coord(i: SI) -> Sym { sym::scaled(i.0, scale()) }
    fn konst(f: f64) -> Sym { sym::konst(f) }
    fn assume(b: SB) {
        let c = cx();
        if !c.branch(b.0) { std::panic::panic_any(Stop::Discard) }
    }
    fn check(b: SB, msg: &str) {
        let c = cx();
        c.checks += 1;
        let f = c.simp(b.0);
        if f == arena::TRUE { c.trivial_checks += 1; }
        if !c.branch_ex(f, true, true) { std::panic::panic_any(Stop::Violation(msg.to_string())) }
    }
    fn decide(b: SB) -> bool { cx().branch(b.0) }
    fn eq_deg(c: Sym, n: SI, d: SI, k: i32) -> SB {
        let (n, d) = unscale(n, d, k);
        let v = sym::val(c);
        match v.k {
            Kind::Fin { n: n1, d: d1, cls, .. } => {
                let _ = cls;
                SB(sym::frac_cmp(n1, d1, n.0, d.0, ZERO))
            }
            _ => SB::c(false),
        }
    }
    fn near_deg(c: Sym, n: SI, d: SI, k: i32) -> SB {
        let (n, d) = unscale(n, d, k);
        match sym::val(c).k { Kind::Fin { n: n1, d: d1, .. } => SB(sym::frac_cmp(n1, d1, n.0, d.0, ZERO)), _ => SB::c(false) }
    }
    fn is_nan(c: Sym) -> bool { matches!(sym::val(c).k, Kind::NaN) }
    fn inf_sign(c: Sym) -> i8 { match sym::val(c).k { Kind::Inf(true) => -1, Kind::Inf(false) => 1, _ => 0 } }
    fn near_sum_sqrt(c: Sym, v: &[SI]) -> SB {
        let mut s = sym::konst(0.0);
        for x in v { s = s + num_traits::Float::sqrt(sym::scaled(x.0, 2 * scale())); }
        match (sym::val(c).k, sym::val(s).k) {
            (Kind::Fin { n: n1, d: d1, .. }, Kind::Fin { n, d, .. }) if n == n1 && d == d1 => SB::c(true),
            (Kind::Fin { n: n1, d: d1, .. }, Kind::Fin { n, d, .. }) => SB(sym::frac_cmp(n1, d1, n, d, ZERO)),
            _ => SB::c(false),
        }
    }
    fn same(a: Sym, b: Sym) -> SB {
        match (sym::val(a).k, sym::val(b).k) {
            (Kind::Fin { n, d, .. }, Kind::Fin { n: n2, d: d2, .. }) => SB(sym::frac_cmp(n, d, n2, d2, ZERO)),
            (Kind::NaN, Kind::NaN) => SB::c(true),
            (Kind::Inf(x), Kind::Inf(y)) => SB::c(x == y),
            _ => SB::c(false),
        }
    }
    fn cmp_c(a: Sym, b: Sym, mask: u8) -> SB {
        let o = |k: Kind| match k { Kind::Inf(true) => -1, Kind::Inf(false) => 1, _ => 0i128 };
        match (sym::val(a).k, sym::val(b).k) {
            (Kind::NaN, _) | (_, Kind::NaN) => SB::c(false),
            (Kind::Fin { n, d, .. }, Kind::Fin { n: n2, d: d2, .. }) => SB(sym::frac_cmp(n, d, n2, d2, mask)),
            (x, y) => SB::c(mask & sign_bit(o(x) - o(y)) != 0),
        }
    }
    fn symbolic() -> bool { true }
}

pub fn default_input(k: u64, lo: i64, hi: i64) -> i64 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut h = k.wrapping_add(seed.wrapping_mul(0x9E37_79B9)).wrapping_mul(0xD129_0D3B_2C1F_5B97) ^ 0x5bd1_e995;
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^= h >> 32;
    lo + (h % ((hi - lo + 1) as u64)) as i64
}

// ---------------------------------------------------------------- native
impl BoolT for bool { fn c(b: bool) -> bool { b } }
impl IntT<bool> for i128 {
    fn k(v: i128) -> i128 { v }
    fn sgn(self, mask: u8) -> bool { mask & sign_bit(self) != 0 }
    fn lt(self, o: i128) -> bool { self < o }
    fn le(self, o: i128) -> bool { self <= o }
    fn eq(self, o: i128) -> bool { self == o }
    fn ne(self, o: i128) -> bool { self != o }
    fn imin(self, o: i128) -> i128 { self.min(o) }
    fn imax(self, o: i128) -> i128 { self.max(o) }
}

// A task may read its integers as multiples of a power of two: 2^-scale.
thread_local! { static SCALE: Cell<i32> = Cell::new(0); }
pub fn scale() -> i32 { SCALE.with(|s| s.get()) }
pub fn set_scale(s: i32) { SCALE.with(|c| c.set(s)) }
fn unscale(n: SI, d: SI, k: i32) -> (SI, SI) {
    let s = scale() * k;
    let c = cx();
    if s == 0 { (n, d) } else if s > 0 { (n, SI(c.ar.scale(d.0, 1 << s))) } else { (SI(c.ar.scale(n.0, 1 << -s)), d) }
}

thread_local! { static NAT: RefCell<(Vec<i64>, usize)> = RefCell::new((vec![], 0)); }
pub fn nat_start(v: &[i64]) { NAT.with(|n| *n.borrow_mut() = (v.to_vec(), 0)); }
fn nat_next(lo: i64, hi: i64, k0: bool) -> i64 {
    NAT.with(|n| {
        let mut n = n.borrow_mut();
        let i = n.1;
        n.1 += 1;
        match n.0.get(i) { Some(&v) => v, None => if k0 { 0 } else { default_input(i as u64, lo, hi) } }.max(lo).min(hi)
    })
}

pub struct NatDom<T>(PhantomData<T>);
impl<T: Coordinate + 'static> Dom for NatDom<T> {
    type C = T;
    type B = bool;
    type I = i128;
    fn var_g(lo: i64, hi: i64, _: u8) -> i128 { nat_next(lo, hi, false) as i128 }
    fn choose(k: u32) -> u32 { if k <= 1 { 0 } else { nat_next(0, k as i64 - 1, true) as u32 } }
    fn coord(i: i128) -> T { T::from(i as f64 * (2f64).powi(-scale())).unwrap() }
    fn konst(f: f64) -> T { T::from(f).unwrap() }
    fn assume(b: bool) { if !b { std::panic::panic_any(Stop::Discard) } }
    fn check(b: bool, msg: &str) { if !b { std::panic::panic_any(Stop::Violation(msg.to_string())) } }
    fn decide(b: bool) -> bool { b }
    fn eq_deg(c: T, n: i128, d: i128, k: i32) -> bool {
        // correctly rounded fraction
        let c = c.to_f64().unwrap() * (2f64).powi(scale() * k);
        c == T::from(n as f64 / d as f64).unwrap().to_f64().unwrap() || (c.is_finite() && (c - n as f64 / d as f64).abs() <= 1e-9 * (1.0 + c.abs()) && d & (d - 1) != 0)
    }
    fn near_deg(c: T, n: i128, d: i128, k: i32) -> bool {
        let c = c.to_f64().unwrap() * (2f64).powi(scale() * k);
        c.is_finite() && (c - n as f64 / d as f64).abs() <= 1e-9 * (1.0 + c.abs())
    }
    fn is_nan(c: T) -> bool { num_traits::Float::is_nan(c) }
    fn inf_sign(c: T) -> i8 { if num_traits::Float::is_infinite(c) { if c > T::zero() { 1 } else { -1 } } else { 0 } }
    fn near_sum_sqrt(c: T, v: &[i128]) -> bool {
        let c = c.to_f64().unwrap() * (2f64).powi(scale());
        let e: f64 = v.iter().map(|x| (*x as f64).sqrt()).sum();
        c.is_finite() && (c - e).abs() <= 1e-9 * (1.0 + e)
    }
    fn same(a: T, b: T) -> bool { a == b || (num_traits::Float::is_nan(a) && num_traits::Float::is_nan(b)) }
    fn cmp_c(a: T, b: T, mask: u8) -> bool {
        match a.partial_cmp(&b) { Some(std::cmp::Ordering::Less) => mask & NEG != 0, Some(std::cmp::Ordering::Equal) => mask & ZERO != 0, Some(_) => mask & POS != 0, None => false }
    }
    fn symbolic() -> bool { false }
}
#[allow(unused)]
fn _u(_: &Arena) {}
