//! One z3 process per worker, driven over a pipe; terms are bit-blasted at widths derived from
//! the exact interval of every polynomial, so that no bit-vector operation can wrap.
use crate::arena::*;
use crate::map::HashMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    buf: String,
    emitted_p: Vec<bool>,
    emitted_f: Vec<bool>,
    timeout: u64,
    /// gave no answer; must be restarted
    pub dead: bool,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: Duration,
    pub max_time: Duration,
    dump: Option<std::fs::File>,
}

/// Solver processes with the time by which they must have answered; overdue ones are killed.
pub mod watchdog {
    use crate::map::HashMap;
    use std::sync::{Mutex, Once};
    use std::time::{Duration, Instant};
    static W: Mutex<Option<HashMap<u32, Instant>>> = Mutex::new(None);
    static START: Once = Once::new();
    extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
    pub fn arm(pid: u32, ms: u64) {
        START.call_once(|| { std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(50));
            let now = Instant::now();
            if let Some(m) = W.lock().unwrap().as_mut() { m.retain(|&p, &mut t| if t < now { unsafe { kill(p as i32, 9); } false } else { true }); }
        }); });
        W.lock().unwrap().get_or_insert_with(HashMap::default).insert(pid, Instant::now() + Duration::from_millis(ms));
    }
    pub fn disarm(pid: u32) { if let Some(m) = W.lock().unwrap().as_mut() { m.remove(&pid); } }
}

pub enum Res { Sat, Unsat, Unknown(String) }

pub fn z3_path() -> String { std::env::var("SYMEX_Z3").unwrap_or_else(|_| "z3".into()) }

impl Solver {
    pub fn new(timeout_ms: u64) -> Solver {
        let mut child = Command::new(z3_path()).arg("-in").arg("-smt2")
            .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let dump = std::env::var("SYMEX_DUMP").ok().map(|d| {
            std::fs::File::create(format!("{}/q{}.smt2", d, child.id())).unwrap()
        });
        let mut s = Solver { child, inp, out, buf: String::new(), emitted_p: vec![], emitted_f: vec![], timeout: timeout_ms, dead: false,
            queries: 0, sat: 0, unsat: 0, time: Duration::ZERO, max_time: Duration::ZERO, dump };
        let logic = std::env::var("SYMEX_LOGIC").unwrap_or_else(|_| "QF_FD".into());
        let _ = write!(s.buf, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n(set-logic {})\n", timeout_ms, logic);
        s
    }

    fn width(ar: &Arena, p: P) -> u32 {
        let q = &ar.polys[p as usize];
        let mut w = 2;
        while !(q.lo >= -(1i128 << (w - 1)) && q.hi < (1i128 << (w - 1))) { w += 1; }
        w
    }

    fn lit(v: i128, w: u32) -> String {
        let m = if w >= 127 { v as u128 } else { (v as u128) & ((1u128 << w) - 1) };
        format!("(_ bv{} {})", m, w)
    }

    fn resized(ar: &Arena, p: P, w: u32) -> String {
        if let Some(c) = ar.as_const(p) { return Self::lit(c, w); }
        let q = Self::width(ar, p);
        if q == w { format!("p{}", p) }
        else if q < w { format!("((_ sign_extend {}) p{})", w - q, p) }
        else { format!("((_ extract {} 0) p{})", w - 1, p) }
    }

    pub fn emit_p(&mut self, ar: &Arena, p: P) {
        if self.emitted_p.len() < ar.polys.len() { self.emitted_p.resize(ar.polys.len(), false); }
        if self.emitted_p[p as usize] { return; }
        self.emitted_p[p as usize] = true;
        if ar.as_const(p).is_some() { return; }
        let w = Self::width(ar, p);
        let body = match ar.polys[p as usize].build {
            Build::Const => unreachable!(),
            Build::Sym(s) => match ar.sym(s).clone() {
                SymDef::Input { lo, hi, .. } => {
                    let _ = writeln!(self.buf, "(declare-const p{} (_ BitVec {}))", p, w);
                    let _ = (lo, hi);
                    return;
                }
                SymDef::Min(v) | SymDef::Max(v) => {
                    let mn = matches!(ar.sym(s), SymDef::Min(_));
                    for &x in &v { self.emit_p(ar, x); }
                    let ww = v.iter().map(|&x| Self::width(ar, x)).max().unwrap().max(w);
                    let mut e = Self::resized(ar, v[0], ww);
                    for &x in &v[1..] {
                        let t = Self::resized(ar, x, ww);
                        e = format!("(let ((m {}) (n {})) (ite ({} m n) m n))", e, t, if mn { "bvsle" } else { "bvsge" });
                    }
                    if ww > w { format!("((_ extract {} 0) {})", w - 1, e) } else { e }
                }
                SymDef::Floor(n, d) => {
                    self.emit_p(ar, n);
                    self.emit_p(ar, d);
                    let ww = Self::width(ar, n).max(Self::width(ar, d)).max(w) + 1;
                    let (n, d) = (Self::resized(ar, n, ww), Self::resized(ar, d, ww));
                    let e = format!("(let ((n {n}) (d {d})) (let ((q (bvsdiv n d))) (ite (and (not (= (bvmul q d) n)) (xor (bvslt n {z}) (bvslt d {z}))) (bvsub q {o}) q)))",
                        z = Self::lit(0, ww), o = Self::lit(1, ww));
                    format!("((_ extract {} 0) {})", w - 1, e)
                }
                SymDef::Sqrt(_) => std::panic::panic_any(crate::engine::Stop::Abort("square root reached the solver".into())),
            },
            Build::Add(a, b) | Build::Sub(a, b) | Build::Mul(a, b) => {
                self.emit_p(ar, a);
                self.emit_p(ar, b);
                let op = match ar.polys[p as usize].build { Build::Add(..) => "bvadd", Build::Sub(..) => "bvsub", _ => "bvmul" };
                format!("({} {} {})", op, Self::resized(ar, a, w), Self::resized(ar, b, w))
            }
            Build::Scale(a, c) => {
                self.emit_p(ar, a);
                if c == -1 { format!("(bvneg {})", Self::resized(ar, a, w)) }
                else { format!("(bvmul {} {})", Self::lit(c, w), Self::resized(ar, a, w)) }
            }
        };
        let _ = writeln!(self.buf, "(define-fun p{} () (_ BitVec {}) {})", p, w, body);
    }

    pub fn emit_f(&mut self, ar: &Arena, f: F) {
        if self.emitted_f.len() < ar.forms.len() { self.emitted_f.resize(ar.forms.len(), false); }
        if self.emitted_f[f as usize] { return; }
        self.emitted_f[f as usize] = true;
        let body = match &ar.forms[f as usize] {
            Form::True => "true".to_string(),
            Form::False => "false".to_string(),
            Form::Atom(p, m) => {
                self.emit_p(ar, *p);
                // compare a difference as a comparison of its sides
                let w = Self::width(ar, *p);
                let (a, b) = match ar.polys[*p as usize].build {
                    Build::Sub(x, y) => {
                        let ww = Self::width(ar, x).max(Self::width(ar, y));
                        (Self::resized(ar, x, ww), Self::resized(ar, y, ww))
                    }
                    _ => (format!("p{}", p), Self::lit(0, w)),
                };
                match *m {
                    NEG => format!("(bvslt {a} {b})"),
                    ZERO => format!("(= {a} {b})"),
                    POS => format!("(bvsgt {a} {b})"),
                    3 => format!("(bvsle {a} {b})"),
                    6 => format!("(bvsge {a} {b})"),
                    5 => format!("(not (= {a} {b}))"),
                    _ => unreachable!(),
                }
            }
            Form::And(v) | Form::Or(v) => {
                let and = matches!(ar.forms[f as usize], Form::And(_));
                let mut e = String::from(if and { "(and" } else { "(or" });
                for &x in v.iter() {
                    self.emit_f(ar, x);
                    let _ = write!(e, " f{}", x);
                }
                e.push(')');
                e
            }
        };
        let _ = writeln!(self.buf, "(define-fun f{} () Bool {})", f, body);
    }

    pub fn push(&mut self) { self.buf.push_str("(push)\n"); }
    pub fn pop(&mut self) { self.buf.push_str("(pop)\n"); }
    /// Ranges of the given inputs (the assertions made with their declarations are popped);
    /// with a limit, narrower ones around zero.
    pub fn assert_ranges(&mut self, ar: &Arena, ps: &[P], limit: Option<i128>) {
        for &p in ps {
            self.emit_p(ar, p);
            let w = Self::width(ar, p);
            let q = &ar.polys[p as usize];
            let (mut lo, mut hi) = (q.lo, q.hi);
            if let Some(l) = limit { if lo <= 0 && hi >= 0 { lo = lo.max(-l); hi = hi.min(l); } }
            let _ = writeln!(self.buf, "(assert (and (bvsle {} p{p}) (bvsle p{p} {})))", Self::lit(lo, w), Self::lit(hi, w));
        }
    }
    pub fn set_timeout(&mut self, ms: u64) { if ms != self.timeout { self.timeout = ms; let _ = writeln!(self.buf, "(set-option :timeout {})", ms); } }
    pub fn assert(&mut self, ar: &Arena, f: F) {
        self.emit_f(ar, f);
        let _ = writeln!(self.buf, "(assert f{})", f);
    }

    fn flush(&mut self) {
        if let Some(d) = &mut self.dump { let _ = d.write_all(self.buf.as_bytes()); }
        if self.inp.write_all(self.buf.as_bytes()).is_err() || self.inp.flush().is_err() { self.dead = true; }
        self.buf.clear();
    }

    pub fn check(&mut self) -> Res {
        self.buf.push_str("(check-sat)\n");
        let t = Instant::now();
        watchdog::arm(self.child.id(), self.timeout + 5000);
        self.flush();
        let mut line = String::new();
        let r = loop {
            line.clear();
            if self.out.read_line(&mut line).unwrap_or(0) == 0 { break Res::Unknown("solver died".into()); }
            match line.trim() {
                "sat" => { self.sat += 1; break Res::Sat }
                "unsat" => { self.unsat += 1; break Res::Unsat }
                "" => continue,
                l => break Res::Unknown(l.to_string()),
            }
        };
        watchdog::disarm(self.child.id());
        if matches!(r, Res::Unknown(_)) { self.dead = true; }
        let e = t.elapsed();
        self.time += e;
        if e > self.max_time { self.max_time = e; }
        self.queries += 1;
        r
    }

    pub fn values(&mut self, ar: &Arena, ps: &[P]) -> HashMap<P, i64> {
        let mut m = HashMap::default();
        if ps.is_empty() { return m; }
        self.buf.push_str("(get-value (");
        for p in ps { let _ = write!(self.buf, "p{} ", p); }
        self.buf.push_str("))\n");
        self.flush();
        let mut text = String::new();
        let mut depth = 0i32;
        loop {
            let mut line = String::new();
            if self.out.read_line(&mut line).unwrap_or(0) == 0 { break; }
            for c in line.chars() { if c == '(' { depth += 1 } else if c == ')' { depth -= 1 } }
            text.push_str(&line);
            if depth == 0 && !text.trim().is_empty() { break; }
        }
        if text.contains("error") { std::panic::panic_any(crate::engine::Stop::Abort(format!("solver: {}", text))); }
        let toks: Vec<&str> = text.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|t| !t.is_empty()).collect();
        for c in toks.chunks(2) {
            if c.len() < 2 { break; }
            let p: P = c[0][1..].parse().unwrap();
            let w = Self::width(ar, p);
            let v: u64 = if let Some(b) = c[1].strip_prefix("#b") { u64::from_str_radix(b, 2).unwrap() }
                else { u64::from_str_radix(c[1].strip_prefix("#x").expect("value"), 16).unwrap() };
            let v = if w < 64 && v >> (w - 1) & 1 == 1 { v as i64 - (1i64 << w) } else { v as i64 };
            m.insert(p, v);
        }
        m
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
