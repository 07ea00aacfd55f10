//! Hash-consed term store: exact integer polynomials, defined symbols (min/max/floor/sqrt),
//! and quantifier-free formulas over signs of polynomials.
use crate::map::HashMap;
use std::rc::Rc;

pub type P = u32; // polynomial id
pub type F = u32; // formula id
pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const TRUE: F = 1;
pub const FALSE: F = 0;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SymDef {
    /// k-th input of a run, with its range.
    /// g: inputs that translate together (1: abscissas, 2: ordinates; 0: none)
    Input { k: u32, lo: i64, hi: i64, g: u8 },
    Min(Vec<P>),
    Max(Vec<P>),
    /// floor(n/d), d != 0 on the path that creates it
    Floor(P, P),
    /// real square root; opaque to the solver
    Sqrt(P),
}

/// Symbols are named by what they stand for, so that terms and their order do not depend on
/// what else the arena holds.
pub type S = u64;
pub type Mono = Vec<S>;

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Build {
    Const,
    Sym(S),
    Add(P, P),
    Sub(P, P),
    Mul(P, P),
    Scale(P, i128),
}

pub struct Poly {
    pub terms: Rc<Vec<(Mono, i128)>>,
    pub lo: i128,
    pub hi: i128,
    pub build: Build,
    /// contains an opaque (sqrt) symbol
    pub opaque: bool,
    /// a name that depends on the terms only
    pub sig: u64,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Form {
    False,
    True,
    /// sign(p) in mask
    Atom(P, u8),
    And(Vec<F>),
    Or(Vec<F>),
}

pub struct Arena {
    pub polys: Vec<Poly>,
    pmap: HashMap<Rc<Vec<(Mono, i128)>>, P>,
    syms: HashMap<S, SymDef>,
    opmemo: HashMap<(u8, P, P), P>,
    pub forms: Vec<Form>,
    fmap: HashMap<Form, F>,
    negmemo: HashMap<F, F>,
    normmemo: HashMap<P, (P, bool)>,
    xmap: HashMap<(u8, u32, u32), u32>,
    next_x: u32,
    degmemo: Vec<u8>,
    fsigmemo: HashMap<F, u64>,
    fvmemo: HashMap<F, Rc<Vec<P>>>,
    pvmemo: HashMap<P, Rc<Vec<P>>>,
}

pub const LIM: i128 = 1 << 100;

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 { a.abs() } else { gcd(b, a % b) }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            polys: vec![], pmap: HashMap::default(), syms: HashMap::default(), opmemo: HashMap::default(),
            forms: vec![Form::False, Form::True], fmap: HashMap::default(), negmemo: HashMap::default(),
            normmemo: HashMap::default(), xmap: HashMap::default(), next_x: 0, degmemo: vec![], fsigmemo: HashMap::default(), fvmemo: HashMap::default(), pvmemo: HashMap::default(),
        };
        a.fmap.insert(Form::False, 0);
        a.fmap.insert(Form::True, 1);
        let z = a.konst(0);
        assert_eq!(z, 0);
        let o = a.konst(1);
        assert_eq!(o, 1);
        a
    }

    pub fn size(&self) -> usize { self.polys.len() + self.forms.len() }

    fn intern(&mut self, terms: Vec<(Mono, i128)>, build: Build) -> P {
        let rc = Rc::new(terms);
        if let Some(&p) = self.pmap.get(&rc) { return p; }
        let (mut lo, mut hi) = (0i128, 0i128);
        let mut opaque = false;
        for (m, c) in rc.iter() {
            let (mut l, mut h) = (1i128, 1i128);
            let mut i = 0;
            while i < m.len() {
                let mut j = i;
                while j < m.len() && m[j] == m[i] { j += 1; }
                let e = (j - i) as u32;
                let (sl, sh) = self.sym_range(m[i]);
                if matches!(self.sym(m[i]), SymDef::Sqrt(_)) { opaque = true; }
                let (pl, ph) = if e % 2 == 0 {
                    let mx = sl.abs().max(sh.abs());
                    let mn = if sl <= 0 && sh >= 0 { 0 } else { sl.abs().min(sh.abs()) };
                    (mn.pow(e), mx.pow(e))
                } else { (sl.pow(e), sh.pow(e)) };
                let c4 = [l * pl, l * ph, h * pl, h * ph];
                l = *c4.iter().min().unwrap();
                h = *c4.iter().max().unwrap();
                i = j;
            }
            let (a, b) = (l * c, h * c);
            lo += a.min(b);
            hi += a.max(b);
            if lo < -LIM || hi > LIM { std::panic::panic_any(crate::engine::Stop::Abort("polynomial range exceeds 2^100".into())); }
        }
        let p = self.polys.len() as P;
        let sig = hash_of(&*rc);
        self.polys.push(Poly { terms: rc.clone(), lo, hi, build, opaque, sig });
        self.pmap.insert(rc, p);
        p
    }

    pub fn sym(&self, s: S) -> &SymDef { &self.syms[&s] }

    pub fn sym_range(&self, s: S) -> (i128, i128) {
        match self.sym(s) {
            SymDef::Input { lo, hi, .. } => (*lo as i128, *hi as i128),
            SymDef::Min(v) => (
                v.iter().map(|p| self.polys[*p as usize].lo).min().unwrap(),
                v.iter().map(|p| self.polys[*p as usize].hi).min().unwrap(),
            ),
            SymDef::Max(v) => (
                v.iter().map(|p| self.polys[*p as usize].lo).max().unwrap(),
                v.iter().map(|p| self.polys[*p as usize].hi).max().unwrap(),
            ),
            SymDef::Floor(n, _) => {
                let q = &self.polys[*n as usize];
                let m = q.lo.abs().max(q.hi.abs()) + 1;
                (-m, m)
            }
            SymDef::Sqrt(p) => (0, self.polys[*p as usize].hi.max(0)),
        }
    }

    pub fn konst(&mut self, c: i128) -> P {
        let t = if c == 0 { vec![] } else { vec![(vec![], c)] };
        self.intern(t, Build::Const)
    }

    pub fn as_const(&self, p: P) -> Option<i128> {
        let t = &self.polys[p as usize].terms;
        if t.is_empty() { Some(0) } else if t.len() == 1 && t[0].0.is_empty() { Some(t[0].1) } else { None }
    }

    pub fn symbol(&mut self, def: SymDef) -> P {
        let sigs = |v: &Vec<P>| v.iter().map(|&p| self.polys[p as usize].sig).collect::<Vec<_>>();
        let s: S = match &def {
            SymDef::Input { k, lo, hi, g } => ((*k as u64) << 40) | (hash_of(&(lo, hi, g)) >> 24),
            SymDef::Min(v) => (1 << 63) | hash_of(&(1, sigs(v))),
            SymDef::Max(v) => (1 << 63) | hash_of(&(2, sigs(v))),
            SymDef::Floor(n, d) => (1 << 63) | hash_of(&(3, sigs(&vec![*n, *d]))),
            SymDef::Sqrt(p) => (1 << 63) | hash_of(&(4, sigs(&vec![*p]))),
        };
        match self.syms.get(&s) {
            Some(d) => assert!(*d == def, "two symbols share a name"),
            None => { self.syms.insert(s, def); }
        }
        self.intern(vec![(vec![s], 1)], Build::Sym(s))
    }

    pub fn sym_poly(&mut self, s: S) -> P { self.intern(vec![(vec![s], 1)], Build::Sym(s)) }

    /// If p is exactly one defined symbol, that symbol's id.
    pub fn as_symbol(&self, p: P) -> Option<S> {
        let t = &self.polys[p as usize].terms;
        if t.len() == 1 && t[0].1 == 1 && t[0].0.len() == 1 { Some(t[0].0[0]) } else { None }
    }

    pub fn lattice(&self, p: P) -> Option<(bool, Vec<P>)> {
        match self.as_symbol(p).map(|s| self.sym(s)) {
            Some(SymDef::Min(v)) => Some((true, v.clone())),
            Some(SymDef::Max(v)) => Some((false, v.clone())),
            _ => None,
        }
    }

    fn add_terms(&self, a: P, b: P, sb: i128) -> Vec<(Mono, i128)> {
        let (ta, tb) = (self.polys[a as usize].terms.clone(), self.polys[b as usize].terms.clone());
        let mut out = Vec::with_capacity(ta.len() + tb.len());
        let (mut i, mut j) = (0, 0);
        while i < ta.len() || j < tb.len() {
            if j >= tb.len() || (i < ta.len() && ta[i].0 < tb[j].0) {
                out.push(ta[i].clone());
                i += 1;
            } else if i >= ta.len() || tb[j].0 < ta[i].0 {
                out.push((tb[j].0.clone(), tb[j].1 * sb));
                j += 1;
            } else {
                let c = ta[i].1 + tb[j].1 * sb;
                if c != 0 { out.push((ta[i].0.clone(), c)); }
                i += 1;
                j += 1;
            }
        }
        out
    }

    /// A multiple by a large constant, kept outermost.
    fn big(&mut self, p: P) -> Option<(P, i128)> {
        let k = self.content(p);
        if k < 1 << 16 || self.as_const(p).is_some() { return None; }
        let (x, flip) = self.norm(p);
        Some((x, if flip { -k } else { k }))
    }
    /// The greatest common divisor of the coefficients.
    pub fn content(&self, p: P) -> i128 {
        let mut g = 0;
        for (_, c) in self.polys[p as usize].terms.iter() { g = gcd(g, c.abs()); if g == 1 { break; } }
        g
    }
    /// p / g, for a divisor g > 0 of its content
    pub fn divide(&mut self, p: P, g: i128) -> P {
        if g == 1 || p == 0 { return p; }
        if let Some(c) = self.as_const(p) { return self.konst(c / g); }
        let k = self.content(p);
        let (x, flip) = self.norm(p);
        self.scale(x, if flip { -k / g } else { k / g })
    }
    fn common(&mut self, a: P, b: P) -> Option<(P, P, i128)> {
        let part = |ar: &mut Arena, p: P| match (ar.big(p), ar.as_const(p)) { (Some(x), _) => Some(x), (_, Some(c)) if c.abs() >= 1 << 16 => Some((1, c)), _ => None };
        let ((x, k), (y, h)) = (part(self, a)?, part(self, b)?);
        let g = gcd(k, h);
        if g < 1 << 16 { return None; }
        Some((self.scale(x, k / g), self.scale(y, h / g), g))
    }

    pub fn add(&mut self, a: P, b: P) -> P {
        if a == 0 { return b; }
        if b == 0 { return a; }
        if let Some((x, y, g)) = self.common(a, b) { let r = self.add(x, y); return self.scale(r, g); }
        let key = (0u8, a.min(b), a.max(b));
        if let Some(&r) = self.opmemo.get(&key) { return r; }
        let r = if let Some(r) = self.dist(a, b, false) { r } else {
            let t = self.add_terms(a, b, 1);
            self.intern(t, Build::Add(a, b))
        };
        self.opmemo.insert(key, r);
        r
    }

    pub fn sub(&mut self, a: P, b: P) -> P {
        if b == 0 { return a; }
        if a == b { return 0; }
        if let Some((x, y, g)) = self.common(a, b) { let r = self.sub(x, y); return self.scale(r, g); }
        let key = (1u8, a, b);
        if let Some(&r) = self.opmemo.get(&key) { return r; }
        let r = if let Some(r) = self.dist(a, b, true) { r } else {
            let t = self.add_terms(a, b, -1);
            self.intern(t, Build::Sub(a, b))
        };
        self.opmemo.insert(key, r);
        r
    }

    /// Distribute addition of a plain polynomial over a min/max symbol.
    fn dist(&mut self, a: P, b: P, sub: bool) -> Option<P> {
        let (la, lb) = (self.lattice(a), self.lattice(b));
        match (la, lb) {
            (None, None) => None,
            (Some((mn, v)), None) => {
                let w = v.iter().map(|&x| if sub { self.sub(x, b) } else { self.add(x, b) }).collect();
                Some(self.minmax_set(w, mn))
            }
            (None, Some((mn, v))) => {
                let w = v.iter().map(|&x| if sub { self.sub(a, x) } else { self.add(a, x) }).collect();
                Some(self.minmax_set(w, mn != sub))
            }
            (Some((m1, v1)), Some((m2, v2))) => {
                if m1 == (m2 != sub) && v1.len() * v2.len() <= 16 {
                    let mut w = vec![];
                    for &x in &v1 { for &y in &v2 { w.push(if sub { self.sub(x, y) } else { self.add(x, y) }); } }
                    Some(self.minmax_set(w, m1))
                } else { None }
            }
        }
    }

    pub fn neg(&mut self, a: P) -> P { self.scale(a, -1) }

    pub fn scale(&mut self, a: P, c: i128) -> P {
        if c == 1 { return a; }
        if c == 0 { return 0; }
        if let Some((mn, v)) = self.lattice(a) {
            let w = v.iter().map(|&x| self.scale(x, c)).collect();
            return self.minmax_set(w, if c > 0 { mn } else { !mn });
        }
        if let Build::Scale(x, k) = self.polys[a as usize].build { return self.scale(x, k * c); }
        let t = self.polys[a as usize].terms.iter().map(|(m, k)| (m.clone(), k * c)).collect();
        self.intern(t, Build::Scale(a, c))
    }

    pub fn mul(&mut self, a: P, b: P) -> P {
        if a == 0 || b == 0 { return 0; }
        if let Some(c) = self.as_const(a) { return self.scale(b, c); }
        if let Some(c) = self.as_const(b) { return self.scale(a, c); }
        if let Some((x, k)) = self.big(a) { let r = self.mul(x, b); return self.scale(r, k); }
        if let Some((x, k)) = self.big(b) { let r = self.mul(a, x); return self.scale(r, k); }
        let key = (2u8, a.min(b), a.max(b));
        if let Some(&r) = self.opmemo.get(&key) { return r; }
        let (ta, tb) = (self.polys[a as usize].terms.clone(), self.polys[b as usize].terms.clone());
        if ta.len() * tb.len() > 40000 {
            std::panic::panic_any(crate::engine::Stop::Abort("polynomial too large".into()));
        }
        let mut acc: HashMap<Mono, i128> = HashMap::default();
        for (ma, ca) in ta.iter() {
            for (mb, cb) in tb.iter() {
                let mut m = Vec::with_capacity(ma.len() + mb.len());
                let (mut i, mut j) = (0, 0);
                while i < ma.len() || j < mb.len() {
                    if j >= mb.len() || (i < ma.len() && ma[i] <= mb[j]) { m.push(ma[i]); i += 1 } else { m.push(mb[j]); j += 1 }
                }
                *acc.entry(m).or_insert(0) += ca * cb;
            }
        }
        let mut t: Vec<(Mono, i128)> = acc.into_iter().filter(|(_, c)| *c != 0).collect();
        t.sort();
        let r = self.intern(t, Build::Mul(a, b));
        self.opmemo.insert(key, r);
        r
    }

    /// min (mn) or max of a set of polynomials, flattened and interval-pruned.
    pub fn minmax_set(&mut self, v: Vec<P>, mn: bool) -> P {
        let mut w: Vec<P> = vec![];
        for p in v {
            match self.lattice(p) {
                Some((m2, inner)) if m2 == mn => w.extend(inner),
                _ => w.push(p),
            }
        }
        w.sort_by_key(|&p| (self.polys[p as usize].sig, p));
        w.dedup();
        // drop elements dominated by interval or by constant difference
        let mut keep: Vec<P> = vec![];
        'o: for (i, &p) in w.iter().enumerate() {
            for (j, &q) in w.iter().enumerate() {
                if i == j { continue; }
                let (pp, qq) = (&self.polys[p as usize], &self.polys[q as usize]);
                let dominated = if mn { qq.hi < pp.lo || (qq.hi == pp.lo && j < i) || (qq.hi == pp.lo && qq.lo != pp.lo) }
                    else { qq.lo > pp.hi || (qq.lo == pp.hi && j < i) || (qq.lo == pp.hi && qq.hi != pp.hi) };
                if dominated { continue 'o; }
            }
            keep.push(p);
        }
        if keep.is_empty() { keep = vec![w[0]]; }
        if keep.len() == 1 { return keep[0]; }
        self.symbol(if mn { SymDef::Min(keep) } else { SymDef::Max(keep) })
    }

    // ---------- formulas ----------
    fn fintern(&mut self, f: Form) -> F {
        if let Some(&i) = self.fmap.get(&f) { return i; }
        let i = self.forms.len() as F;
        self.forms.push(f.clone());
        self.fmap.insert(f, i);
        i
    }

    /// Normalise the sign of p: returns (q, flipped) with sign(p) = flipped ? -sign(q) : sign(q).
    pub fn norm(&mut self, p: P) -> (P, bool) {
        if let Some(&r) = self.normmemo.get(&p) { return r; }
        let t = self.polys[p as usize].terms.clone();
        if t.is_empty() { return (p, false); }
        let mut g = 0;
        for (_, c) in t.iter() { g = gcd(g, *c); }
        // sign by the last monomial (never the constant term, unless p is constant)
        let flip = t[t.len() - 1].1 < 0;
        let r = if g == 1 && !flip { (p, false) } else {
            let s = if flip { -g } else { g };
            let q: Vec<(Mono, i128)> = t.iter().map(|(m, c)| (m.clone(), c / s)).collect();
            let build = match self.polys[p as usize].build {
                Build::Sub(a, b) if g == 1 => Build::Sub(b, a),
                Build::Scale(a, c) if c == s => { self.normmemo.insert(p, (a, flip)); return (a, flip); }
                _ if g == 1 => Build::Scale(p, -1),
                b => {
                    // content division: re-build from monomials
                    let _ = b;
                    Build::Const
                }
            };
            let q = if build == Build::Const && !q.iter().all(|(m, _)| m.is_empty()) {
                self.from_terms(q)
            } else { self.intern(q, build) };
            (q, flip)
        };
        self.normmemo.insert(p, r);
        r
    }

    fn from_terms(&mut self, t: Vec<(Mono, i128)>) -> P {
        let rc = Rc::new(t);
        if let Some(&p) = self.pmap.get(&rc) { return p; }
        let mut acc: Option<P> = None;
        for (m, c) in rc.iter() {
            let mut q: P = 1;
            for &s in m {
                let sp = self.intern(vec![(vec![s], 1)], Build::Sym(s));
                q = if q == 1 { sp } else {
                    let mut mm: Mono = self.polys[q as usize].terms[0].0.clone();
                    mm.push(s);
                    mm.sort();
                    self.intern(vec![(mm, 1)], Build::Mul(q, sp))
                };
            }
            if *c != 1 {
                q = if m.is_empty() { self.konst(*c) } else { self.intern(vec![(m.clone(), *c)], Build::Scale(q, *c)) };
            }
            acc = Some(match acc {
                None => q,
                Some(a) => {
                    let t = self.add_terms(a, q, 1);
                    self.intern(t, Build::Add(a, q))
                }
            });
        }
        acc.unwrap_or(0)
    }

    pub fn flip_mask(m: u8) -> u8 { ((m & NEG) << 2) | (m & ZERO) | ((m & POS) >> 2) }

    pub fn interval_mask(&self, p: P) -> u8 {
        let q = &self.polys[p as usize];
        let mut m = 0;
        if q.lo < 0 { m |= NEG }
        if q.hi > 0 { m |= POS }
        if q.lo <= 0 && q.hi >= 0 { m |= ZERO }
        m
    }

    pub fn raw_atom(&mut self, p: P, mask: u8) -> F { self.fintern(Form::Atom(p, mask)) }

    pub fn and(&mut self, v: Vec<F>) -> F { self.nary(v, true) }
    pub fn or(&mut self, v: Vec<F>) -> F { self.nary(v, false) }

    fn nary(&mut self, v: Vec<F>, and: bool) -> F {
        let (unit, zero) = if and { (TRUE, FALSE) } else { (FALSE, TRUE) };
        let mut w = vec![];
        for f in v {
            if f == zero { return zero; }
            if f == unit { continue; }
            match (&self.forms[f as usize], and) {
                (Form::And(x), true) | (Form::Or(x), false) => w.extend(x.iter().copied()),
                _ => w.push(f),
            }
        }
        w.sort();
        w.dedup();
        // merge atoms on the same polynomial
        let mut masks: HashMap<P, u8> = HashMap::default();
        let mut rest = vec![];
        let mut order = vec![];
        for f in &w {
            if let Form::Atom(p, m) = self.forms[*f as usize] {
                match masks.get_mut(&p) {
                    Some(x) => if and { *x &= m } else { *x |= m },
                    None => { masks.insert(p, m); order.push(p); }
                }
            } else { rest.push(*f); }
        }
        let mut out = rest;
        for p in order {
            let m = masks[&p];
            if and && m == 0 { return FALSE; }
            if !and && m == 7 { return TRUE; }
            out.push(self.raw_atom(p, m));
        }
        out.sort();
        if out.is_empty() { return unit; }
        if out.len() == 1 { return out[0]; }
        self.fintern(if and { Form::And(out) } else { Form::Or(out) })
    }

    pub fn not(&mut self, f: F) -> F {
        if let Some(&g) = self.negmemo.get(&f) { return g; }
        let g = match self.forms[f as usize].clone() {
            Form::True => FALSE,
            Form::False => TRUE,
            Form::Atom(p, m) => self.raw_atom(p, 7 ^ m),
            Form::And(v) => { let w = v.iter().map(|&x| self.not(x)).collect(); self.or(w) }
            Form::Or(v) => { let w = v.iter().map(|&x| self.not(x)).collect(); self.and(w) }
        };
        self.negmemo.insert(f, g);
        self.negmemo.insert(g, f);
        g
    }

    /// Largest degree of a polynomial in f; 100 if it mentions a floor or a square root.
    pub fn fdeg(&mut self, f: F) -> u8 {
        if let Some(&d) = self.degmemo.get(f as usize) { if d != 255 { return d; } }
        let d = match self.forms[f as usize].clone() {
            Form::True | Form::False => 0,
            Form::Atom(p, _) => self.pdeg(p),
            Form::And(v) | Form::Or(v) => v.iter().map(|&x| self.fdeg(x)).max().unwrap_or(0),
        };
        if self.degmemo.len() <= f as usize { self.degmemo.resize(f as usize + 64, 255); }
        self.degmemo[f as usize] = d;
        d
    }
    fn pdeg(&self, p: P) -> u8 {
        self.polys[p as usize].terms.iter().map(|(m, _)| m.iter().map(|&s| match self.sym(s) {
            SymDef::Input { .. } => 1,
            SymDef::Min(v) | SymDef::Max(v) => v.iter().map(|&x| self.pdeg(x)).max().unwrap_or(0),
            _ => 100,
        }).fold(0u8, |a, b| a.saturating_add(b).min(100))).max().unwrap_or(0)
    }

    /// A name for f that depends on what it says only.
    pub fn fsig(&mut self, f: F) -> u64 {
        if let Some(&h) = self.fsigmemo.get(&f) { return h; }
        let h = match self.forms[f as usize].clone() {
            Form::True => 1,
            Form::False => 2,
            Form::Atom(p, m) => hash_of(&(self.polys[p as usize].sig, m)),
            Form::And(v) => { let mut w: Vec<u64> = v.iter().map(|&x| self.fsig(x)).collect(); w.sort(); hash_of(&(1, w)) }
            Form::Or(v) => { let mut w: Vec<u64> = v.iter().map(|&x| self.fsig(x)).collect(); w.sort(); hash_of(&(2, w)) }
        };
        self.fsigmemo.insert(f, h);
        h
    }

    /// The inputs a formula depends on.
    pub fn fvars(&mut self, f: F) -> Rc<Vec<P>> {
        if let Some(v) = self.fvmemo.get(&f) { return v.clone(); }
        let mut out: Vec<P> = vec![];
        match self.forms[f as usize].clone() {
            Form::True | Form::False => {}
            Form::Atom(p, _) => out.extend(self.pvars(p).iter()),
            Form::And(v) | Form::Or(v) => for x in v { out.extend(self.fvars(x).iter()); },
        }
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.fvmemo.insert(f, r.clone());
        r
    }
    fn pvars(&mut self, p: P) -> Rc<Vec<P>> {
        if let Some(v) = self.pvmemo.get(&p) { return v.clone(); }
        let mut syms: Vec<S> = self.polys[p as usize].terms.iter().flat_map(|(m, _)| m.iter().copied()).collect();
        syms.sort();
        syms.dedup();
        let mut out: Vec<P> = vec![];
        for s in syms {
            match self.sym(s).clone() {
                SymDef::Input { .. } => { let q = self.intern(vec![(vec![s], 1)], Build::Sym(s)); out.push(q) }
                SymDef::Min(v) | SymDef::Max(v) => for x in v { out.extend(self.pvars(x).iter()); },
                SymDef::Floor(a, b) => { out.extend(self.pvars(a).iter()); out.extend(self.pvars(b).iter()); }
                SymDef::Sqrt(a) => out.extend(self.pvars(a).iter()),
            }
        }
        out.sort();
        out.dedup();
        let r = Rc::new(out);
        self.pvmemo.insert(p, r.clone());
        r
    }

    /// identity of a float expression (op, a, b)
    pub fn xid(&mut self, op: u8, a: u32, b: u32) -> u32 {
        if let Some(&x) = self.xmap.get(&(op, a, b)) { return x; }
        self.next_x += 1;
        self.xmap.insert((op, a, b), self.next_x);
        self.next_x
    }
}
