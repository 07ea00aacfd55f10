//! Exhaustive path exploration: every run follows a witness, every untaken side of every
//! decision is put to the solver, and every satisfiable side becomes a new run.
use crate::arena::*;
use crate::ctx::*;
use crate::dom;
use crate::solver::*;
use crate::nra::*;
use crate::map::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Stop {
    Abort(String),
    Violation(String),
    Discard,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome { Ok, Violation(String), Panic(String), Discard, Abort(String), Hang }

impl Outcome {
    pub fn bad(&self) -> bool { matches!(self, Outcome::Violation(_) | Outcome::Panic(_) | Outcome::Hang) }
    pub fn text(&self) -> String {
        match self { Outcome::Violation(m) => m.clone(), Outcome::Panic(m) => format!("panic: {}", m), Outcome::Hang => "does not terminate".into(), o => format!("{:?}", o) }
    }
}

pub type Body = Box<dyn Fn() + Send + Sync>;

pub struct Task {
    pub name: String,
    pub sym: Body,
    pub nat: Body,
    pub u32_choices: Vec<u32>,
    pub scale: i32,
}

struct Job { task: usize, witness: Vec<Option<i64>>, bound: usize, expect: Vec<(bool, u64)>, prefix_hash: u64 }

#[derive(Clone, Debug)]
pub struct Violation { pub task: String, pub inputs: Vec<i64>, pub msg: String, pub native: String }

#[derive(Default, Clone, Debug)]
pub struct TaskStat { pub paths: u64, pub ok: u64, pub discarded: u64, pub decisions: u64, pub queries: u64, pub checks: u64, pub depth: u64, pub time: f64 }

#[derive(Default)]
pub struct Shared {
    pub stats: BTreeMap<String, TaskStat>,
    pub sat: u64,
    pub unsat: u64,
    pub hits: u64,
    pub by_nra: u64,
    pub by_bv: u64,
    pub solver_time: f64,
    pub max_query: f64,
    pub native_runs: u64,
    pub checks_discharged: u64,
    pub trivial: u64,
    pub violations: Vec<Violation>,
    pub unconfirmed: Vec<Violation>,
    pub errors: Vec<String>,
    pub samples: Vec<String>,
}

pub struct Report { pub sh: Shared, pub complete: bool, pub wall: f64, pub pending: usize }

pub fn payload(e: &(dyn std::any::Any + Send)) -> Outcome {
    if let Some(s) = e.downcast_ref::<Stop>() {
        match s { Stop::Abort(m) if m == "hang" => Outcome::Hang, Stop::Abort(m) => Outcome::Abort(m.clone()), Stop::Violation(m) => Outcome::Violation(m.clone()), Stop::Discard => Outcome::Discard }
    } else if let Some(s) = e.downcast_ref::<&str>() { Outcome::Panic(s.to_string()) }
    else if let Some(s) = e.downcast_ref::<String>() { Outcome::Panic(s.clone()) }
    else { Outcome::Panic("?".into()) }
}

fn run_sym(ctx: &mut Ctx, task: &Task) -> Outcome {
    // A fresh thread per run: std's hash seeds are per thread, and getrandom is overridden.
    struct Ptr(*mut Ctx);
    unsafe impl Send for Ptr {}
    let p = Ptr(ctx as *mut Ctx);
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let p = p;
            enter(unsafe { &mut *p.0 });
            dom::set_scale(task.scale);
            crate::SEED.with(|s| s.set(task.name.bytes().fold(0u8, |a, b| a.wrapping_mul(31).wrapping_add(b))));
            let r = catch_unwind(AssertUnwindSafe(|| (task.sym)()));
            leave();
            match r { Ok(()) => Outcome::Ok, Err(e) => payload(&*e) }
        }).expect("spawn").join().unwrap_or(Outcome::Abort("thread".into()))
    })
}

/// Run the harness over ordinary floats with the given inputs.
pub fn run_native(task: &Task, inputs: &[i64]) -> Outcome {
    dom::nat_start(inputs);
    dom::set_scale(task.scale);
    let r = catch_unwind(AssertUnwindSafe(|| (task.nat)()));
    match r { Ok(()) => Outcome::Ok, Err(e) => payload(&*e) }
}

/// As run_native, but a run that does not finish is reported as such.
pub fn run_native_timed(task: &'static Task, inputs: &[i64]) -> Outcome {
    let (tx, rx) = std::sync::mpsc::channel();
    let inp = inputs.to_vec();
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || { let _ = tx.send(run_native(task, &inp)); }).unwrap();
    rx.recv_timeout(Duration::from_secs(10)).unwrap_or(Outcome::Hang)
}

pub struct Opts { pub workers: usize, pub deadline: Duration, pub timeout_ms: u64, pub max_violations: usize, pub verbose: bool }

pub fn explore(tasks: &'static [Task], o: &Opts) -> Report {
    let start = Instant::now();
    let queue: Mutex<(Vec<Job>, usize)> = Mutex::new((
        tasks.iter().enumerate().rev().map(|(i, _)| Job { task: i, witness: vec![], bound: 0, expect: vec![], prefix_hash: 0 }).collect(), 0));
    let cv = Condvar::new();
    let stop = AtomicBool::new(false);
    let timed = AtomicBool::new(false);
    let shared = Mutex::new(Shared::default());
    let seen = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..o.workers {
            s.spawn(|| {
                let mut ctx = Box::new(Ctx::new());
                let mut solver = Solvers::new(o.timeout_ms);
                loop {
                    let job = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if stop.load(Ordering::Relaxed) { break None; }
                            if start.elapsed() > o.deadline { timed.store(true, Ordering::Relaxed); stop.store(true, Ordering::Relaxed); cv.notify_all(); break None; }
                            if let Some(j) = q.0.pop() { q.1 += 1; break Some(j); }
                            if q.1 == 0 { cv.notify_all(); break None; }
                            q = cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
                        }
                    };
                    let Some(job) = job else { break };
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        step(tasks, job, &mut ctx, &mut solver, &queue, &cv, &stop, &shared, o, &seen, start, &timed);
                    }));
                    if let Err(e) = r {
                        shared.lock().unwrap().errors.push(payload(&*e).text());
                        stop.store(true, Ordering::Relaxed);
                    }
                    let mut q = queue.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 && q.0.is_empty() { cv.notify_all(); }
                    drop(q);
                    if ctx.ar.size() > 60_000 {
                        let mut g = shared.lock().unwrap();
                        flush_solver(&mut g, &mut solver);
                        drop(g);
                        ctx = Box::new(Ctx::new());
                        solver = Solvers::new(o.timeout_ms);
                    }
                }
                flush_solver(&mut shared.lock().unwrap(), &mut solver);
                cv.notify_all();
            });
        }
    });
    let q = queue.into_inner().unwrap();
    let sh = shared.into_inner().unwrap();
    let complete = !timed.load(Ordering::Relaxed) && q.0.is_empty() && sh.errors.is_empty();
    Report { complete, pending: q.0.len(), sh, wall: start.elapsed().as_secs_f64() }
}

fn flush_solver(g: &mut Shared, s: &mut Solvers) {
    g.sat += s.sat;
    g.unsat += s.unsat;
    g.hits += s.hits;
    g.by_nra += s.by_nra;
    g.by_bv += s.by_bv;
    g.solver_time += (s.bv.time + s.nra.time).as_secs_f64();
    g.max_query = g.max_query.max(s.bv.max_time.max(s.nra.max_time).as_secs_f64());
    s.sat = 0; s.unsat = 0; s.hits = 0; s.by_nra = 0; s.by_bv = 0; s.bv.time = Duration::ZERO; s.nra.time = Duration::ZERO;
}

/// Names a path prefix: which formulas were decided, and how.
fn mix(h: u64, f: u64, dir: bool) -> u64 { (h.rotate_left(7) ^ f).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(dir as u64 + 1) }

#[allow(clippy::too_many_arguments)]
fn step(tasks: &'static [Task], job: Job, ctx: &mut Ctx, sv: &mut Solvers, queue: &Mutex<(Vec<Job>, usize)>, cv: &Condvar,
        stop: &AtomicBool, shared: &Mutex<Shared>, o: &Opts, seen: &AtomicU64, start: Instant, timed: &AtomicBool) {
    let t0 = Instant::now();
    let task = &tasks[job.task];
    ctx.reset(job.witness, job.expect);
    ctx.u32_choices = task.u32_choices.clone();
    ctx.checks = 0;
    ctx.trivial_checks = 0;
    let out = run_sym(ctx, task);
    let native_inputs: Vec<i64> = ctx.inputs.iter().filter(|i| !i.2).map(|i| i.1).collect();
    if o.verbose { eprintln!("{} {:?} {:?} path={} bound={}", task.name, out, ctx.inputs.iter().map(|i| i.1).collect::<Vec<_>>(), ctx.path.len(), job.bound); }
    // A path the engine cannot follow is an error of the check, unless a violation turns up:
    // its witness still runs natively, and what branches off it is still explored.
    let lost = if let Outcome::Abort(m) = &out {
        let mut g = shared.lock().unwrap();
        if g.errors.len() < 50 { g.errors.push(format!("{} at {:?}: {}", task.name, native_inputs, m)); }
        true
    } else { false };
    let nat = if out == Outcome::Hang || lost { run_native_timed(task, &native_inputs) } else { run_native(task, &native_inputs) };
    let n = seen.fetch_add(1, Ordering::Relaxed);
    if out.bad() || nat.bad() {
        let v = Violation { task: task.name.clone(), inputs: native_inputs.clone(), msg: if out.bad() && !lost { out.text() } else { nat.text() }, native: nat.text() };
        if nat.bad() {
            let mut g = shared.lock().unwrap();
            g.violations.push(v);
            if g.violations.len() >= o.max_violations { stop.store(true, Ordering::Relaxed); cv.notify_all(); }
        } else if ctx.luck {
            // an over-approximated choice: look for an input on this path that shows it for real
            // (many fruitless searches already: this kind of rounding does not come out; look less far)
            let n = shared.lock().unwrap().unconfirmed.len();
            let found = search(ctx, sv, task, o, if n < 8 { 48 } else if n < 40 { 12 } else { 3 });
            let mut g = shared.lock().unwrap();
            match found {
                Some(f) => { g.violations.push(f); if g.violations.len() >= o.max_violations { stop.store(true, Ordering::Relaxed); cv.notify_all(); } }
                None => g.unconfirmed.push(v),
            }
        } else {
            shared.lock().unwrap().errors.push(format!("not reproducible: {:?}", v));
        }
    } else if !lost && !ctx.luck && std::mem::discriminant(&out) != std::mem::discriminant(&nat) {
        shared.lock().unwrap().errors.push(format!("symbolic and native runs differ on {} {:?}: {:?} / {:?}", task.name, native_inputs, out, nat));
    }
    // the untaken sides
    let path = ctx.path.clone();
    let (mut q_n, mut disch) = (0u64, 0u64);
    let bound = job.bound;
    if lost && (path.len() <= bound || seen.load(Ordering::Relaxed) > 200_000) { return; }
    if path.len() < bound { shared.lock().unwrap().errors.push(format!("{}: divergence (path ended before its bound)", task.name)); stop.store(true, Ordering::Relaxed); return; }
    let mut h = 0u64;
    for d in &path[..bound] { h = mix(h, ctx.ar.fsig(d.f), d.dir); }
    if job.bound > 0 && h != job.prefix_hash { shared.lock().unwrap().errors.push(format!("{}: divergence", task.name)); stop.store(true, Ordering::Relaxed); return; }
    {
        let inputs = ctx.inputs.clone();
        let ar = &mut ctx.ar;
        let facts: Vec<F> = path.iter().map(|d| if d.dir { d.f } else { ar.not(d.f) }).collect();
        let mut hh = h;
        for i in bound..path.len() {
            if start.elapsed() > o.deadline { timed.store(true, Ordering::Relaxed); stop.store(true, Ordering::Relaxed); }
            if stop.load(Ordering::Relaxed) { break; }
            let d = path[i];
            if d.flip {
                let no = ar.not(facts[i]);
                let fs = slice(ar, &facts[..i], no);
                q_n += 1;
                match query(ar, sv, &fs, o.timeout_ms, &|| stop.load(Ordering::Relaxed) || start.elapsed() > o.deadline) {
                    Ask::Sat(m) => {
                        let mut fixed: HashSet<P> = HashSet::default();
                        for f in facts[..i].iter().chain([&no]) { fixed.extend(ar.fvars(*f).iter()); }
                        // later engine choices stay open
                        let w: Vec<Option<i64>> = inputs.iter().map(|x| if x.2 && !fixed.contains(&x.0) { None } else { Some(m.get(&x.0).copied().unwrap_or(x.1)) }).collect();
                        let mut expect: Vec<(bool, u64)> = path[..i].iter().map(|d| (d.dir, ar.fsig(d.f))).collect();
                        expect.push((!d.dir, ar.fsig(d.f)));
                        let ph = mix(hh, ar.fsig(d.f), !d.dir);
                        let j = Job { task: job.task, witness: w, bound: i + 1, expect, prefix_hash: ph };
                        let mut q = queue.lock().unwrap();
                        q.0.push(j);
                        cv.notify_one();
                    }
                    Ask::Unsat => { if d.check { disch += 1 } }
                    Ask::Unknown(m) if m == "stopped" => {}
                    Ask::Unknown(m) => {
                        shared.lock().unwrap().errors.push(format!("{}: solver gave no answer ({})", task.name, m));
                    }
                }
            }
            hh = mix(hh, ar.fsig(d.f), d.dir);
        }
    }
    let mut g = shared.lock().unwrap();
    g.native_runs += 1;
    g.checks_discharged += disch + ctx.trivial_checks;
    g.trivial += ctx.trivial_checks;
    if n < 6 || (n < 4000 && n % 700 == 0) { g.samples.push(format!("{}: inputs {:?}, {} decisions, {:?}", task.name, native_inputs, path.len(), out)); }
    let st = g.stats.entry(task.name.clone()).or_default();
    st.paths += 1;
    match out { Outcome::Ok => st.ok += 1, Outcome::Discard => st.discarded += 1, _ => {} }
    st.decisions += path.len() as u64 - bound as u64;
    st.queries += q_n;
    st.checks += ctx.checks;
    st.depth = st.depth.max(path.len() as u64);
    st.time += t0.elapsed().as_secs_f64();
    let _ = start;
}

pub enum Ask { Sat(HashMap<P, i64>), Unsat, Unknown(String) }

/// The facts that share inputs with f, directly or through other facts, and f itself.
fn slice(ar: &mut Arena, facts: &[F], f: F) -> Vec<F> {
    let mut vars: HashSet<P> = ar.fvars(f).iter().copied().collect();
    let fv: Vec<_> = facts.iter().map(|&x| ar.fvars(x)).collect();
    let mut inn = vec![false; facts.len()];
    loop {
        let mut grown = false;
        for i in 0..facts.len() {
            if !inn[i] && fv[i].iter().any(|v| vars.contains(v)) {
                inn[i] = true;
                for &v in fv[i].iter() { if vars.insert(v) { grown = true; } }
            }
        }
        if !grown { break; }
    }
    let mut out: Vec<F> = (0..facts.len()).filter(|&i| inn[i]).map(|i| facts[i]).collect();
    out.sort();
    out.dedup();
    out.push(f);
    out
}

/// Both solver back ends and the answers they gave.
pub struct Solvers { pub bv: Solver, pub nra: Nra, cache: HashMap<Vec<F>, Option<HashMap<P, i64>>>, pub sat: u64, pub unsat: u64, pub hits: u64, pub by_nra: u64, pub by_bv: u64 }
impl Solvers {
    fn new(t: u64) -> Solvers { Solvers { bv: Solver::new(t), nra: Nra::new(), cache: HashMap::default(), sat: 0, unsat: 0, hits: 0, by_nra: 0, by_bv: 0 } }
}

fn query(ar: &mut Arena, sv: &mut Solvers, fs: &[F], timeout_ms: u64, quit: &dyn Fn() -> bool) -> Ask {
    if let Some(r) = sv.cache.get(fs) {
        sv.hits += 1;
        return match r { Some(m) => { sv.sat += 1; Ask::Sat(m.clone()) } None => { sv.unsat += 1; Ask::Unsat } };
    }
    let r = query1(ar, sv, fs, timeout_ms, quit);
    match &r {
        Ask::Sat(m) => { sv.sat += 1; sv.cache.insert(fs.to_vec(), Some(m.clone())); }
        Ask::Unsat => { sv.unsat += 1; sv.cache.insert(fs.to_vec(), None); }
        _ => {}
    }
    r
}

fn query1(ar: &mut Arena, sv: &mut Solvers, fs: &[F], timeout_ms: u64, quit: &dyn Fn() -> bool) -> Ask {
    let deg = fs.iter().map(|&f| ar.fdeg(f)).max().unwrap_or(0);
    let mut vars: Vec<P> = fs.iter().flat_map(|&f| ar.fvars(f).iter().copied().collect::<Vec<_>>()).collect();
    vars.sort();
    vars.dedup();
    let bv = |ar: &Arena, sv: &mut Solvers, limit: Option<i128>, ms: u64| -> Ask {
        if sv.bv.dead {
            let (t, m) = (sv.bv.time, sv.bv.max_time);
            sv.bv = Solver::new(timeout_ms);
            sv.bv.time = t;
            sv.bv.max_time = m;
        }
        sv.bv.set_timeout(ms);
        sv.bv.push();
        sv.bv.assert_ranges(ar, &vars, limit);
        for &f in fs { sv.bv.assert(ar, f); }
        let r = match sv.bv.check() {
            Res::Sat => Ask::Sat(sv.bv.values(ar, &vars)),
            Res::Unsat => Ask::Unsat,
            Res::Unknown(m) => Ask::Unknown(m),
        };
        sv.bv.pop();
        if !matches!(r, Ask::Unknown(_)) { sv.by_bv += 1; }
        r
    };
    if deg < 2 || deg >= 100 { return bv(ar, sv, None, timeout_ms); }
    let stopped = || Ask::Unknown("stopped".into());
    let mut spent = 0;
    for (round, scale) in [(0, 1u64), (1, 4), (2, 16), (3, 64)] {
        for conf in 0..NCONF {
            if quit() { return stopped(); }
            let ms = (600 * scale).min(timeout_ms);
            match sv.nra.check(ar, fs, false, ms, conf) {
                None => return bv(ar, sv, None, timeout_ms),
                Some(Ans::Unsat) => { sv.by_nra += 1; return Ask::Unsat; }
                Some(Ans::Sat(m)) => {
                    if let Some(m) = m.and_then(|m| fit(ar, fs, &vars, &m)) { sv.by_nra += 1; return Ask::Sat(m); }
                    // satisfiable over the reals: look for integers
                    for limit in [Some(3), Some(12), None] {
                        if quit() { return stopped(); }
                        match bv(ar, sv, limit, (2000 * scale).min(timeout_ms)) {
                            Ask::Sat(m) => return Ask::Sat(m),
                            Ask::Unsat if limit.is_none() => return Ask::Unsat,
                            _ => {}
                        }
                    }
                }
                Some(Ans::Unknown) => spent += ms,
            }
            if conf == 2 {
                if quit() { return stopped(); }
                if let Ask::Sat(m) = bv(ar, sv, Some(3), 1000 * scale) { return Ask::Sat(m); }
            }
        }
        if round > 0 || std::env::var("SYMEX_SLOW").is_ok() {
            if let Ok(d) = std::env::var("SYMEX_SLOW") {
                let t = crate::nra::text(ar, fs, false).unwrap();
                let f = format!("{}/{}_{}.smt2", d, std::process::id(), sv.nra.queries);
                let _ = std::fs::write(&f, format!("(set-logic QF_NRA)\n{}(check-sat)\n", t));
                eprintln!("slow: {} facts, {} vars, degree {}, round {}: {}", fs.len(), vars.len(), deg, round, f);
            }
        }
        if spent > timeout_ms { break; }
    }
    Ask::Unknown("timeout".into())
}

/// An integer model within the ranges from a rational one, by scaling.
fn fit(ar: &mut Arena, fs: &[F], vars: &[P], m: &HashMap<S, (i128, i128)>) -> Option<HashMap<P, i64>> {
    let mut l = 1i128;
    let mut vals = vec![];
    for &p in vars {
        let s = ar.as_symbol(p)?;
        let (n, d) = m.get(&s).copied().unwrap_or((0, 1));
        let (mut a, mut b) = (l, d);
        while b != 0 { let t = a % b; a = b; b = t; }
        l = l.checked_mul(d / a)?.abs();
        if l > 1 << 30 { return None; }
        vals.push((p, n, d));
    }
    let mut w: HashMap<P, i128> = HashMap::default();
    for (p, n, d) in &vals { w.insert(*p, n.checked_mul(l / d)?); }
    // centre the groups that translate together
    let group = |ar: &Arena, p: P| match ar.as_symbol(p).map(|s| ar.sym(s)) { Some(SymDef::Input { g, .. }) => *g, _ => 0 };
    let inside = |ar: &Arena, w: &HashMap<P, i128>| w.iter().all(|(&p, &v)| v >= ar.polys[p as usize].lo && v <= ar.polys[p as usize].hi);
    if !inside(ar, &w) {
        for g in 1..=2u8 {
            let v: Vec<i128> = w.iter().filter(|(&p, _)| group(ar, p) == g).map(|(_, &v)| v).collect();
            if let (Some(a), Some(b)) = (v.iter().min(), v.iter().max()) {
                let c = (a + b) / 2;
                for (&p, v) in w.iter_mut() { if group(ar, p) == g { *v -= c; } }
            }
        }
        if !inside(ar, &w) { return None; }
    }
    let mut memo = HashMap::default();
    for &f in fs { if !holds(ar, f, &w, &mut memo) { return None; } }
    Some(w.into_iter().map(|(p, v)| (p, v as i64)).collect())
}

fn holds(ar: &Arena, f: F, w: &HashMap<P, i128>, memo: &mut HashMap<P, i128>) -> bool {
    match &ar.forms[f as usize] {
        Form::True => true,
        Form::False => false,
        Form::Atom(p, m) => m & sign_bit(value(ar, *p, w, memo)) != 0,
        Form::And(v) => v.iter().all(|&x| holds(ar, x, w, memo)),
        Form::Or(v) => v.iter().any(|&x| holds(ar, x, w, memo)),
    }
}

fn value(ar: &Arena, p: P, w: &HashMap<P, i128>, memo: &mut HashMap<P, i128>) -> i128 {
    if let Some(&v) = w.get(&p) { return v; }
    if let Some(&v) = memo.get(&p) { return v; }
    let v = match ar.polys[p as usize].build {
        Build::Const => ar.as_const(p).unwrap(),
        Build::Sym(s) => match ar.sym(s) {
            SymDef::Min(v) => v.iter().map(|&x| value(ar, x, w, memo)).min().unwrap(),
            SymDef::Max(v) => v.iter().map(|&x| value(ar, x, w, memo)).max().unwrap(),
            _ => 0,
        },
        Build::Add(a, b) => value(ar, a, w, memo) + value(ar, b, w, memo),
        Build::Sub(a, b) => value(ar, a, w, memo) - value(ar, b, w, memo),
        Build::Mul(a, b) => value(ar, a, w, memo) * value(ar, b, w, memo),
        Build::Scale(a, c) => value(ar, a, w, memo) * c,
    };
    memo.insert(p, v);
    v
}

/// More models of the current path, tried natively.
fn search(ctx: &mut Ctx, sv: &mut Solvers, task: &'static Task, o: &Opts, tries: u32) -> Option<Violation> {
    let path = ctx.path.clone();
    let ar = &mut ctx.ar;
    let mut fs: Vec<F> = path.iter().map(|d| if d.dir { d.f } else { ar.not(d.f) }).collect();
    let mut r = 0x9e37_79b9_7f4a_7c15u64;
    for k in 0..tries {
        // after the solver's own (small) models, models in scattered parts of the ranges
        let mut gs = fs.clone();
        if k >= 12 {
            for x in ctx.inputs.iter().filter(|x| !x.2) {
                r ^= r << 13; r ^= r >> 7; r ^= r << 17;
                if r % 4 == 0 { continue; }
                let at = ar.konst(((r >> 8) % 61) as i128 - 30);
                let d = ar.sub(x.0, at);
                gs.push(ar.raw_atom(d, if (r >> 40) & 1 == 0 { NEG } else { POS }));
            }
        }
        let Ask::Sat(m) = query1(ar, sv, &gs, o.timeout_ms.min(if k < 12 { 20_000 } else { 2_000 }), &|| false) else { if k < 12 { break } else { continue } };
        let inputs: Vec<i64> = ctx.inputs.iter().filter(|x| !x.2).map(|x| m.get(&x.0).copied().unwrap_or(x.1)).collect();
        let nat = run_native(task, &inputs);
        if nat.bad() { return Some(Violation { task: task.name.clone(), inputs, msg: nat.text(), native: nat.text() }); }
        let mut diff = vec![];
        for x in ctx.inputs.iter().filter(|x| !x.2) {
            if let Some(v) = m.get(&x.0) {
                let k = ar.konst(*v as i128);
                let d = ar.sub(x.0, k);
                diff.push(ar.raw_atom(d, NEG | POS));
            }
        }
        if diff.is_empty() { break; }
        let f = ar.or(diff);
        fs.push(f);
    }
    None
}
