//! The same queries over the reals: a refutation here holds for every range of the inputs.
use crate::arena::*;
use crate::map::HashSet;
use crate::map::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub enum Ans { Unsat, Sat(Option<HashMap<S, (i128, i128)>>), Unknown }

struct Proc { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }

/// Solver configurations tried in turn: the run time of a refutation varies widely with them.
const CONFIGS: &[(&str, &[&str])] = &[("z3", &[]), ("z3-new", &[]), ("z3-new", &["nlsat.shuffle_vars=true", "nlsat.seed=3"]),
    ("z3", &["nlsat.shuffle_vars=true", "nlsat.seed=5"]), ("z3-new", &["nlsat.shuffle_vars=true", "nlsat.seed=11"]), ("z3", &["nlsat.seed=7"])];
pub const NCONF: usize = CONFIGS.len();

pub struct Nra { p: Vec<Option<Proc>>, pub queries: u64, pub time: Duration, pub max_time: Duration }

impl Nra {
    pub fn new() -> Nra { Nra { p: (0..NCONF).map(|_| None).collect(), queries: 0, time: Duration::ZERO, max_time: Duration::ZERO } }

    /// None: not expressible here.
    pub fn check(&mut self, ar: &Arena, fs: &[F], ranges: bool, timeout_ms: u64, conf: usize) -> Option<Ans> {
        let body = text(ar, fs, ranges)?;
        let t = Instant::now();
        if self.p[conf].is_none() {
            let mut child = {
                let go = |exe: &str| Command::new(exe).arg("-in").arg("-smt2").args(CONFIGS[conf].1).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
                go(CONFIGS[conf].0).or_else(|_| go("z3")).expect("cannot start z3")
            };
            let inp = child.stdin.take().unwrap();
            let out = BufReader::new(child.stdout.take().unwrap());
            self.p[conf] = Some(Proc { child, inp, out });
        }
        let p = self.p[conf].as_mut().unwrap();
        let msg = format!("(reset)\n(set-option :produce-models true)\n(set-option :pp.decimal false)\n(set-logic QF_NRA)\n{}(check-sat)\n", body);
        let mut ans = Ans::Unknown;
        crate::solver::watchdog::arm(p.child.id(), timeout_ms);
        let mut dead = p.inp.write_all(msg.as_bytes()).is_err() || p.inp.flush().is_err();
        let mut line = String::new();
        if !dead && p.out.read_line(&mut line).unwrap_or(0) == 0 { dead = true; }
        crate::solver::watchdog::arm(p.child.id(), timeout_ms + 5000);
        match line.trim() {
            "unsat" => ans = Ans::Unsat,
            "sat" => {
                let mut names: Vec<S> = vec![];
                for l in body.lines() {
                    if let Some(r) = l.strip_prefix("(declare-const s") { names.push(r.split(' ').next().unwrap().parse().unwrap()); }
                }
                let q = format!("(get-value ({}))\n", names.iter().map(|n| format!("s{}", n)).collect::<Vec<_>>().join(" "));
                let _ = p.inp.write_all(q.as_bytes());
                let _ = p.inp.flush();
                let (mut txt, mut depth) = (String::new(), 0i32);
                loop {
                    let mut l = String::new();
                    if p.out.read_line(&mut l).unwrap_or(0) == 0 { break; }
                    for c in l.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
                    txt.push_str(&l);
                    if depth == 0 { break; }
                }
                ans = Ans::Sat(model(&txt));
            }
            _ => { dead = true; }
        }
        crate::solver::watchdog::disarm(p.child.id());
        if dead { if let Some(mut p) = self.p[conf].take() { let _ = p.child.kill(); let _ = p.child.wait(); } }
        let e = t.elapsed();
        self.time += e;
        self.max_time = self.max_time.max(e);
        self.queries += 1;
        Some(ans)
    }
}
impl Drop for Nra { fn drop(&mut self) { for mut p in self.p.drain(..).flatten() { let _ = p.child.kill(); let _ = p.child.wait(); } } }

/// Rational models only; an algebraic number makes the model unusable.
fn model(t: &str) -> Option<HashMap<S, (i128, i128)>> {
    if t.contains("root-obj") || t.contains("error") { return None; }
    let mut toks: Vec<String> = vec![];
    for c in t.chars() {
        match c {
            '(' | ')' => toks.push(c.to_string()),
            c if c.is_whitespace() => toks.push(String::new()),
            c => match toks.last_mut() { Some(l) if !l.is_empty() && l != "(" && l != ")" => l.push(c), _ => toks.push(c.to_string()) },
        }
    }
    toks.retain(|t| !t.is_empty());
    fn val(t: &[String], i: &mut usize) -> Option<(i128, i128)> {
        if t.get(*i)? == "(" {
            *i += 1;
            let op = t.get(*i)?.clone();
            *i += 1;
            let a = val(t, i)?;
            let r = match op.as_str() {
                "-" => (-a.0, a.1),
                "/" => { let b = val(t, i)?; (a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?) }
                _ => return None,
            };
            if t.get(*i)? != ")" { return None; }
            *i += 1;
            Some(r)
        } else {
            let s = t[*i].trim_end_matches(".0");
            *i += 1;
            Some((s.parse().ok()?, 1))
        }
    }
    let mut m = HashMap::default();
    let mut i = 1;
    while i < toks.len() && toks[i] == "(" {
        i += 1;
        let n: S = toks[i].strip_prefix('s')?.parse().ok()?;
        i += 1;
        m.insert(n, val(&toks, &mut i)?);
        i += 1;
    }
    Some(m)
}


fn polys(ar: &Arena, f: F, seen: &mut HashSet<F>, out: &mut HashSet<P>) {
    if !seen.insert(f) { return; }
    match &ar.forms[f as usize] {
        Form::Atom(p, _) => { out.insert(*p); }
        Form::And(v) | Form::Or(v) => for &x in v { polys(ar, x, seen, out); },
        _ => {}
    }
}

/// Inputs that can be set to zero: one of each group by whose translation no polynomial of the
/// query changes.
fn origin(ar: &Arena, fs: &[F]) -> HashSet<S> {
    let (mut seen, mut ps) = (HashSet::default(), HashSet::default());
    for &f in fs { polys(ar, f, &mut seen, &mut ps); }
    let mut zero = HashSet::default();
    for g in 1..=2u8 {
        let mut first: Option<S> = None;
        let mut ok = true;
        'p: for &p in &ps {
            let mut d: HashMap<Mono, i128> = HashMap::default();
            for (m, c) in ar.polys[p as usize].terms.iter() {
                for (i, &s) in m.iter().enumerate() {
                    match ar.sym(s) {
                        SymDef::Input { g: h, .. } => if *h == g {
                            if first.map_or(true, |f| s < f) { first = Some(s); }
                            let mut m2 = m.clone();
                            m2.remove(i);
                            *d.entry(m2).or_insert(0) += c;
                        },
                        _ => { ok = false; break 'p; }
                    }
                }
            }
            if d.values().any(|&c| c != 0) { ok = false; break; }
        }
        if let (true, Some(s)) = (ok, first) { zero.insert(s); }
    }
    zero
}

pub fn text(ar: &Arena, fs: &[F], ranges: bool) -> Option<String> {
    let mut o = String::new();
    let (mut sp, mut sf, mut ss) = (HashSet::default(), HashSet::default(), HashSet::default());
    if !ranges { for s in origin(ar, fs) { ss.insert(s); let _ = writeln!(o, "(define-fun s{} () Real 0.0)", s); } }
    for &f in fs { if !form(ar, f, &mut o, &mut sf, &mut sp, &mut ss, ranges) { return None; } }
    for &f in fs { let _ = writeln!(o, "(assert f{})", f); }
    Some(o)
}

fn num(c: i128) -> String { if c < 0 { format!("(- {})", -c) } else { format!("{}", c) } }

fn poly(ar: &Arena, p: P, o: &mut String, sp: &mut HashSet<P>, ss: &mut HashSet<S>, ranges: bool) -> bool {
    if !sp.insert(p) { return true; }
    let terms = ar.polys[p as usize].terms.clone();
    for (m, _) in terms.iter() { for &s in m {
        if !ss.insert(s) { continue; }
        match ar.sym(s) {
            SymDef::Input { lo, hi, .. } => {
                let _ = writeln!(o, "(declare-const s{} Real)", s);
                if ranges { let _ = writeln!(o, "(assert (<= {} s{s} {}))", num(*lo as i128), num(*hi as i128)); }
            }
            SymDef::Min(v) | SymDef::Max(v) => {
                let mn = matches!(ar.sym(s), SymDef::Min(_));
                for &x in v { if !poly(ar, x, o, sp, ss, ranges) { return false; } }
                let _ = writeln!(o, "(declare-const s{} Real)", s);
                let _ = write!(o, "(assert (or");
                for x in v { let _ = write!(o, " (= s{} p{})", s, x); }
                let _ = writeln!(o, "))");
                for x in v { let _ = writeln!(o, "(assert ({} s{} p{}))", if mn { "<=" } else { ">=" }, s, x); }
            }
            _ => return false,
        }
    } }
    let mut t = vec![];
    for (m, c) in terms.iter() {
        let mut e: Vec<String> = m.iter().map(|s| format!("s{}", s)).collect();
        if *c != 1 || e.is_empty() { e.insert(0, num(*c)); }
        t.push(if e.len() == 1 { e.remove(0) } else { format!("(* {})", e.join(" ")) });
    }
    let body = match t.len() { 0 => "0".to_string(), 1 => t.remove(0), _ => format!("(+ {})", t.join(" ")) };
    let _ = writeln!(o, "(define-fun p{} () Real {})", p, body);
    true
}

fn form(ar: &Arena, f: F, o: &mut String, sf: &mut HashSet<F>, sp: &mut HashSet<P>, ss: &mut HashSet<S>, ranges: bool) -> bool {
    if !sf.insert(f) { return true; }
    let body = match &ar.forms[f as usize] {
        Form::True => "true".to_string(),
        Form::False => "false".to_string(),
        Form::Atom(p, m) => {
            if !poly(ar, *p, o, sp, ss, ranges) { return false; }
            match *m { NEG => format!("(< p{p} 0)"), ZERO => format!("(= p{p} 0)"), POS => format!("(> p{p} 0)"), 3 => format!("(<= p{p} 0)"), 6 => format!("(>= p{p} 0)"), _ => format!("(not (= p{p} 0))") }
        }
        Form::And(v) | Form::Or(v) => {
            let mut e = String::from(if matches!(ar.forms[f as usize], Form::And(_)) { "(and" } else { "(or" });
            for &x in v { if !form(ar, x, o, sf, sp, ss, ranges) { return false; } let _ = write!(e, " f{}", x); }
            e.push(')');
            e
        }
    };
    let _ = writeln!(o, "(define-fun f{} () Bool {})", f, body);
    true
}
