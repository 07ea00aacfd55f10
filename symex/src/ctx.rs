//! State of one symbolic run: path condition, sign knowledge, concrete witness.
use crate::arena::*;
use crate::engine::Stop;
use std::cell::Cell;
use crate::map::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls { Exact, Rounded, Approx }

#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Fin { n: P, d: P, cls: Cls, xid: u32 },
    NaN,
    Inf(bool), // negative?
}

#[derive(Clone, Copy, Debug)]
pub struct Val { pub k: Kind, pub sh: f64 }

#[derive(Clone, Copy, Debug)]
pub struct Dec { pub f: F, pub dir: bool, pub flip: bool, pub check: bool }

pub struct Ctx {
    pub ar: Arena,
    pub vals: Vec<Val>,
    pub path: Vec<Dec>,
    pub know: HashMap<P, u8>,
    pub known_f: HashMap<F, bool>,
    pub witness: Vec<Option<i64>>,
    pub inputs: Vec<(P, i64, bool)>,
    pub ncoice: u32,
    pub luck: bool,
    pub ties: HashMap<(u32, u32), i8>,
    pub u32_choices: Vec<u32>,
    pub u32_calls: usize,
    pub int_memo: HashMap<u32, Option<i64>>,
    pub checks: u64,
    pub trivial_checks: u64,
    pub max_path: usize,
    pub expect: Vec<(bool, u64)>,
    gen: u32,
    pcache: Vec<(u32, i128)>,
    fcache: Vec<(u32, bool)>,
    pub vmap: HashMap<(P, P, u8, u32), u32>,
    pub opaque_used: bool,
}

static SIGS: std::sync::Mutex<Option<HashMap<u64, String>>> = std::sync::Mutex::new(None);
thread_local! { static CTX: Cell<*mut Ctx> = Cell::new(std::ptr::null_mut()); }

pub fn enter(c: &mut Ctx) { CTX.with(|x| x.set(c as *mut Ctx)); }
pub fn leave() { CTX.with(|x| x.set(std::ptr::null_mut())); }
pub fn cx() -> &'static mut Ctx {
    let p = CTX.with(|x| x.get());
    assert!(!p.is_null(), "no symbolic run");
    unsafe { &mut *p }
}
pub fn abort(msg: impl Into<String>) -> ! { std::panic::panic_any(Stop::Abort(msg.into())) }

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { ar: Arena::new(), vals: vec![], path: vec![], know: HashMap::default(), known_f: HashMap::default(), witness: vec![],
            inputs: vec![], ncoice: 0, luck: false, ties: HashMap::default(), u32_choices: vec![], u32_calls: 0, int_memo: HashMap::default(), checks: 0,
            trivial_checks: 0, max_path: 4000, expect: vec![], gen: 0, pcache: vec![], fcache: vec![], vmap: HashMap::default(), opaque_used: false }
    }
    pub fn reset(&mut self, witness: Vec<Option<i64>>, expect: Vec<(bool, u64)>) {
        self.vals.clear();
        self.path.clear();
        self.know.clear();
        self.known_f.clear();
        self.witness = witness;
        self.inputs.clear();
        self.luck = false;
        self.ties.clear();
        self.u32_calls = 0;
        self.int_memo.clear();
        self.expect = expect;
        self.gen += 1;
        self.vmap.clear();
        self.opaque_used = false;
    }

    pub fn show(&self, f: F) -> String {
        match &self.ar.forms[f as usize] {
            Form::True => "T".into(), Form::False => "F".into(),
            Form::Atom(p, m) => format!("[{} in {}]", self.show_p(*p), m),
            Form::And(v) => format!("({})", v.iter().map(|&x| self.show(x)).collect::<Vec<_>>().join(" & ")),
            Form::Or(v) => format!("({})", v.iter().map(|&x| self.show(x)).collect::<Vec<_>>().join(" | ")),
        }
    }
    fn show_p(&self, p: P) -> String {
        self.ar.polys[p as usize].terms.iter().map(|(m, c)| format!("{}{}", c, m.iter().map(|&s| match self.ar.sym(s) {
            SymDef::Input { k, .. } => format!("*x{}", k),
            SymDef::Min(v) => format!("*min({})", v.iter().map(|&x| self.show_p(x)).collect::<Vec<_>>().join(",")),
            SymDef::Max(v) => format!("*max({})", v.iter().map(|&x| self.show_p(x)).collect::<Vec<_>>().join(",")),
            SymDef::Floor(a, b) => format!("*floor({} / {})", self.show_p(*a), self.show_p(*b)),
            SymDef::Sqrt(a) => format!("*sqrt({})", self.show_p(*a)),
        }).collect::<String>())).collect::<Vec<_>>().join(" + ")
    }

    /// A new input of this run.
    pub fn input(&mut self, lo: i64, hi: i64, default: i64, engine: bool, g: u8) -> P {
        let k = self.inputs.len();
        let p = self.ar.symbol(SymDef::Input { k: k as u32, lo, hi, g });
        let v = self.witness.get(k).copied().flatten().unwrap_or(default).max(lo).min(hi);
        self.inputs.push((p, v, engine));
        if self.pcache.len() < self.ar.polys.len() { self.pcache.resize(self.ar.polys.len() + 64, (0, 0)); }
        self.pcache[p as usize] = (self.gen, v as i128);
        p
    }

    pub fn eval(&mut self, p: P) -> i128 {
        if self.pcache.len() <= p as usize { self.pcache.resize(self.ar.polys.len() + 64, (0, 0)); }
        let (g, v) = self.pcache[p as usize];
        if g == self.gen { return v; }
        let v = match self.ar.polys[p as usize].build {
            Build::Const => self.ar.as_const(p).unwrap(),
            Build::Sym(s) => match self.ar.sym(s).clone() {
                SymDef::Input { .. } => abort("input evaluated before its creation"),
                SymDef::Min(v) => v.iter().map(|&x| self.eval(x)).min().unwrap(),
                SymDef::Max(v) => v.iter().map(|&x| self.eval(x)).max().unwrap(),
                SymDef::Floor(n, d) => {
                    let (n, d) = (self.eval(n), self.eval(d));
                    if d == 0 { 0 } else { let q = n / d; if q * d != n && ((n < 0) != (d < 0)) { q - 1 } else { q } }
                }
                SymDef::Sqrt(_) => abort("square root has no exact value"),
            },
            Build::Add(a, b) => self.eval(a) + self.eval(b),
            Build::Sub(a, b) => self.eval(a) - self.eval(b),
            Build::Mul(a, b) => self.eval(a) * self.eval(b),
            Build::Scale(a, c) => self.eval(a) * c,
        };
        self.pcache[p as usize] = (self.gen, v);
        v
    }

    pub fn feval(&mut self, f: F) -> bool {
        if self.fcache.len() <= f as usize { self.fcache.resize(self.ar.forms.len() + 64, (0, false)); }
        let (g, v) = self.fcache[f as usize];
        if g == self.gen { return v; }
        let v = match self.ar.forms[f as usize].clone() {
            Form::False => false,
            Form::True => true,
            Form::Atom(p, m) => { let v = self.eval(p); m & sign_bit(v) != 0 }
            Form::And(v) => v.iter().all(|&x| self.feval(x)),
            Form::Or(v) => v.iter().any(|&x| self.feval(x)),
        };
        self.fcache[f as usize] = (self.gen, v);
        v
    }

    fn possible(&self, p: P) -> u8 { self.ar.interval_mask(p) & self.know.get(&p).copied().unwrap_or(7) }

    /// Formula for sign(p) in mask, simplified under the path's knowledge.
    pub fn atom(&mut self, p: P, mask: u8) -> F {
        if mask == 7 { return TRUE; }
        if mask == 0 { return FALSE; }
        if self.ar.polys[p as usize].opaque {
            let im = self.ar.interval_mask(p);
            if im & mask == 0 { return FALSE; }
            if im & !mask == 0 { return TRUE; }
            return self.root_atom(p, mask);
        }
        let (q, fl) = self.ar.norm(p);
        let m = if fl { Arena::flip_mask(mask) } else { mask };
        let pos = self.possible(q);
        if pos & m == 0 { return FALSE; }
        if pos & !m == 0 { return TRUE; }
        self.ar.raw_atom(q, m)
    }

    /// sign(p) in mask where p mentions square roots: p = b s + r with s = sqrt(a), and the sign
    /// follows from those of b, r, a and b^2 a - r^2.
    fn root_atom(&mut self, p: P, mask: u8) -> F {
        let terms = self.ar.polys[p as usize].terms.clone();
        let s = terms.iter().flat_map(|(m, _)| m.iter().copied()).filter(|&s| matches!(self.ar.sym(s), SymDef::Sqrt(_))).max().unwrap();
        let SymDef::Sqrt(a) = *self.ar.sym(s) else { unreachable!() };
        if self.ar.polys[a as usize].opaque { abort("nested square roots"); }
        let (mut b, mut r) = (0, 0);
        for (m, k) in terms.iter() {
            let e = m.iter().filter(|&&x| x == s).count();
            let mut t = self.ar.konst(*k);
            for &x in m.iter().filter(|&&x| x != s) { let y = self.ar.sym_poly(x); t = self.ar.mul(t, y); }
            for _ in 0..e / 2 { t = self.ar.mul(t, a); }
            if e % 2 == 1 { b = self.ar.add(b, t) } else { r = self.ar.add(r, t) }
        }
        if b == 0 { return self.atom(r, mask); }
        let (b2, r2) = (self.ar.mul(b, b), self.ar.mul(r, r));
        let b2a = self.ar.mul(b2, a);
        let d = self.ar.sub(b2a, r2);
        let a0 = self.atom(a, NEG | ZERO);
        let ap = self.ar.not(a0);
        let mut cases = vec![];
        for (bit, sb) in [(NEG, NEG), (POS, POS)] {
            if mask & bit == 0 { continue; }
            // both point that way, or the one that does outweighs the other
            let o = Arena::flip_mask(sb);
            let (bs, bo, b0) = (self.atom(b, sb), self.atom(b, o), self.atom(b, ZERO));
            let (rs, ro, r0) = (self.atom(r, sb), self.atom(r, o), self.atom(r, ZERO));
            let (dp, dn) = (self.atom(d, POS), self.atom(d, NEG));
            let ts = self.ar.and(vec![bs, ap]);
            let to = self.ar.and(vec![bo, ap]);
            let t0 = self.ar.or(vec![b0, a0]);
            let x1 = self.ar.or(vec![ts, t0]);
            let x1 = self.ar.and(vec![x1, rs]);
            let x2 = self.ar.and(vec![ts, r0]);
            let x3 = self.ar.and(vec![ts, ro, dp]);
            let x4 = self.ar.and(vec![to, rs, dn]);
            cases.extend([x1, x2, x3, x4]);
        }
        if mask & ZERO != 0 {
            let (b0, r0, d0) = (self.atom(b, ZERO), self.atom(r, ZERO), self.atom(d, ZERO));
            let t0 = self.ar.or(vec![b0, a0]);
            let x1 = self.ar.and(vec![t0, r0]);
            let (bp, bn, rp, rn) = (self.atom(b, POS), self.atom(b, NEG), self.atom(r, POS), self.atom(r, NEG));
            let x2 = self.ar.and(vec![bp, rn, d0]);
            let x3 = self.ar.and(vec![bn, rp, d0]);
            cases.extend([x1, x2, x3]);
        }
        self.ar.or(cases)
    }

    /// sign(a - b) in mask, expanding min/max symbols.
    pub fn cmp_poly(&mut self, a: P, b: P, mask: u8) -> F {
        match mask {
            0 => return FALSE,
            7 => return TRUE,
            _ => {}
        }
        if a == b { return if mask & ZERO != 0 { TRUE } else { FALSE }; }
        if self.ar.lattice(a).is_none() && self.ar.lattice(b).is_none() {
            let d = self.ar.sub(a, b);
            return self.atom(d, mask);
        }
        match mask {
            1 | 3 => self.lat_le(a, b, mask),
            4 | 6 => { let m = Arena::flip_mask(mask); self.lat_le(b, a, m) }
            2 => { let x = self.lat_le(a, b, 3); let y = self.lat_le(b, a, 3); self.ar.and(vec![x, y]) }
            _ => { let x = self.lat_le(a, b, 1); let y = self.lat_le(b, a, 1); self.ar.or(vec![x, y]) }
        }
    }

    fn lat_le(&mut self, a: P, b: P, mask: u8) -> F {
        if let Some((mn, v)) = self.ar.lattice(a) {
            let w = v.iter().map(|&x| self.lat_le(x, b, mask)).collect();
            return if mn { self.ar.or(w) } else { self.ar.and(w) };
        }
        if let Some((mn, v)) = self.ar.lattice(b) {
            let w = v.iter().map(|&x| self.lat_le(a, x, mask)).collect();
            return if mn { self.ar.and(w) } else { self.ar.or(w) };
        }
        let d = self.ar.sub(a, b);
        self.atom(d, mask)
    }

    /// Three-valued simplification of f under what the path knows.
    pub fn simp(&mut self, f: F) -> F {
        let mut memo = HashMap::default();
        self.simp_m(f, &mut memo)
    }
    fn simp_m(&mut self, f: F, memo: &mut HashMap<F, F>) -> F {
        if let Some(&r) = memo.get(&f) { return r; }
        let r = self.simp_1(f, memo);
        memo.insert(f, r);
        r
    }
    fn simp_1(&mut self, f: F, memo: &mut HashMap<F, F>) -> F {
        if let Some(&v) = self.known_f.get(&f) { return if v { TRUE } else { FALSE }; }
        match self.ar.forms[f as usize].clone() {
            Form::True | Form::False => f,
            Form::Atom(p, m) => {
                let pos = self.possible(p);
                if pos & m == 0 { FALSE } else if pos & !m == 0 { TRUE } else { f }
            }
            Form::And(v) => { let w = v.iter().map(|&x| self.simp_m(x, memo)).collect(); self.ar.and(w) }
            Form::Or(v) => { let w = v.iter().map(|&x| self.simp_m(x, memo)).collect(); self.ar.or(w) }
        }
    }

    fn learn(&mut self, f: F, dir: bool) {
        let g = if dir { f } else { self.ar.not(f) };
        let ng = self.ar.not(g);
        self.known_f.insert(g, true);
        self.known_f.insert(ng, false);
        match self.ar.forms[g as usize].clone() {
            Form::Atom(p, m) => {
                let pos = self.possible(p) & m;
                self.know.insert(p, pos);
            }
            Form::And(v) => for x in v { self.learn(x, true) },
            _ => {}
        }
    }

    /// Decide f on this path, following the witness.
    pub fn branch_ex(&mut self, f: F, flip: bool, check: bool) -> bool {
        let f = self.simp(f);
        if f == TRUE { return true; }
        if f == FALSE { return false; }
        let dir = self.feval(f);
        let i = self.path.len();
        if i >= self.max_path { abort("path too long"); }
        if std::env::var("SYMEX_SIG").is_ok() { let h = self.ar.fsig(f); let t = self.show(f); SIGS.lock().unwrap().get_or_insert_with(HashMap::default).insert(h, t); }
        if i < self.expect.len() {
            let h = self.ar.fsig(f);
            if self.expect[i] != (dir, h) {
                if std::env::var("SYMEX_SIG").is_ok() { eprintln!("at {} of {}: expected {} {}\n got {} {}", i, self.expect.len(), self.expect[i].0, SIGS.lock().unwrap().as_ref().unwrap()[&self.expect[i].1], dir, self.show(f)); }
                abort(format!("divergence at decision {}", i));
            }
        }
        self.path.push(Dec { f, dir, flip, check });
        self.learn(f, dir);
        dir
    }
    pub fn branch(&mut self, f: F) -> bool { self.branch_ex(f, true, false) }

    pub fn choose(&mut self, k: u32, default: u32, engine: bool) -> u32 {
        if k <= 1 { return 0; }
        let p = self.input(0, k as i64 - 1, default as i64, engine, 0);
        for c in 0..k - 1 {
            let cp = self.ar.konst(c as i128);
            let f = self.cmp_poly(p, cp, ZERO);
            if self.branch(f) { return c; }
        }
        k - 1
    }
}

pub fn sign_bit(v: i128) -> u8 { if v < 0 { NEG } else if v == 0 { ZERO } else { POS } }
