//! Properties, their tasks and the command line.
use crate::dom::*;
use crate::engine::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

pub mod env;
pub mod line;
pub mod loops;
pub mod meta;
pub mod segment;
pub mod tree;
pub mod types;

pub struct Prop {
    pub id: &'static str,
    pub tasks: fn(bool) -> Vec<Task>,
}

#[macro_export]
macro_rules! task {
    ($v:expr, [$($u:expr),*], $name:expr, $f:ident, $($a:expr),*) => {{
        let name: String = $name.into();
        let (s, n) = ({ let a = ($($a.clone(),)*); a }, { let a = ($($a.clone(),)*); a });
        $v.push($crate::engine::Task {
            name,
            sym: { let a = s; Box::new(move || $f::<$crate::dom::SymDom>(&a)) },
            nat: { let a = n; Box::new(move || $f::<$crate::dom::NatDom<f64>>(&a)) },
            u32_choices: vec![$($u),*],
            scale: 0,
        });
    }};
}

pub fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(segment::props());
    v.extend(line::props());
    v.extend(tree::props());
    v.extend(env::props());
    v.extend(types::props());
    v.extend(loops::props());
    v
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}

static METAS: std::sync::OnceLock<&'static [meta::Meta]> = std::sync::OnceLock::new();
fn meta_of(p: &Prop) -> &'static meta::Meta { METAS.get().unwrap().iter().find(|m| m.id == p.id).expect("metadata") }

/// The tasks, with their coordinates read as multiples of powers of two.
fn all_tasks(p: &Prop, thorough: bool) -> Vec<Task> {
    let m = meta_of(p);
    let mut v = vec![];
    for (i, &s) in m.scales.iter().enumerate() {
        for (j, mut t) in (p.tasks)(thorough).into_iter().enumerate() {
            if !m.each && j % m.scales.len() != i { continue; }
            t.scale = s;
            if s != 0 { t.name = format!("{} times 2^{}", t.name, -s); }
            v.push(t);
        }
    }
    v
}

fn tasks_of(p: &Prop, thorough: bool) -> &'static [Task] {
    let mut t = all_tasks(p, thorough);
    if let Some(x) = std::env::var("SYMEX_SCALE").ok().and_then(|x| x.parse().ok()) { for t in &mut t { t.scale = x; } }
    if let Some(f) = arg("--task") { t.retain(|x| x.name.contains(&f)); }
    Box::leak(t.into_boxed_slice())
}

pub fn cli(all: Vec<Prop>, metas: &'static [meta::Meta]) {
    let _ = METAS.set(metas);
    std::panic::set_hook(Box::new(|i| { if std::env::var("SYMEX_PANICS").is_ok() { eprintln!("{}", i); } }));
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let id = a.get(2).cloned().unwrap_or_default();
    let thorough = arg("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() == Some("thorough");
    match cmd {
        "list" => for p in &all { println!("{} tasks={}", p.id, all_tasks(p, thorough).len()); },
        "check" => {
            let p = all.iter().find(|p| p.id == id).expect("unknown property");
            std::process::exit(check(p, thorough));
        }
        "native" => {
            let p = all.iter().find(|p| p.id == id).expect("unknown property");
            native(p, thorough, arg("--n").and_then(|s| s.parse().ok()).unwrap_or(100_000));
        }
        "replay" => {
            // replay FILE: "property=..", "task=..", "inputs=a,b,c"
            let text = std::fs::read_to_string(&id).expect("replay file");
            let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
            let p = all.iter().find(|p| p.id == get("property")).expect("unknown property");
            let inputs: Vec<i64> = get("inputs").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            for th in [false, true] {
                let ts: &'static [Task] = Box::leak(all_tasks(p, th).into_boxed_slice());
                if let Some(t) = ts.iter().find(|t| t.name == get("task")) {
                    let r = run_native_timed(t, &inputs);
                    println!("{} {:?}: {}", t.name, inputs, r.text());
                    std::process::exit(if r.bad() { 1 } else { 0 });
                }
            }
            std::process::exit(2);
        }
        _ => { eprintln!("usage: symex list | check ID | native ID | replay FILE"); std::process::exit(2); }
    }
}

fn native(p: &Prop, thorough: bool, n: u64) {
    let tasks = tasks_of(p, thorough);
    let mut s = 88172645463325252u64;
    let mut rnd = move || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
    for t in tasks {
        let (mut ok, mut disc, mut bad) = (0, 0, 0);
        for _ in 0..n {
            let v: Vec<i64> = (0..64).map(|_| {
                let r = rnd();
                if r % 3 == 0 { (r >> 8) as i64 % 4 - 1 } else { (r >> 8) as i64 % 41 - 20 }
            }).collect();
            match run_native(t, &v) {
                Outcome::Ok => ok += 1,
                Outcome::Discard => disc += 1,
                o => { bad += 1; if bad <= 3 { println!("  BAD {} {:?}: {}", t.name, v, o.text()); } }
            }
        }
        println!("{}: ok {} discarded {} bad {}", t.name, ok, disc, bad);
    }
}

const ASSUMED: &[&str] = &[
    "coordinates are modelled exactly; where f64 would round (division, square root), comparisons that tie exactly are explored in every outcome, and results are compared up to rounding",
    "the sign of zero is not modelled (x/0 is explored as both infinities)",
    "trusted: rustc, z3, the symbolic coordinate type in symex/src; every path's witness is also run on the real code over f64 and must agree",
];

fn check(p: &Prop, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let tasks = tasks_of(p, thorough);
    let workers = std::env::var("SYMEX_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4));
    let secs = arg("--deadline").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 780 });
    let o = Opts { workers, deadline: Duration::from_secs(secs), timeout_ms: if thorough { 600_000 } else { 120_000 }, max_violations: 1, verbose: std::env::var("SYMEX_VERBOSE").map_or(false, |v| v == "1") };
    let r = explore(tasks, &o);
    let paths: u64 = r.sh.stats.values().map(|s| s.paths).sum();
    let ok: u64 = r.sh.stats.values().map(|s| s.ok).sum();
    let decisions: u64 = r.sh.stats.values().map(|s| s.decisions).sum();
    let queries: u64 = r.sh.stats.values().map(|s| s.queries).sum();
    let checks: u64 = r.sh.stats.values().map(|s| s.checks).sum();
    for (n, s) in &r.sh.stats {
        println!("  {:<40} paths {:>7} ok {:>7} discarded {:>6} decisions {:>8} queries {:>8} depth {:>4} cpu {:.1}s", n, s.paths, s.ok, s.discarded, s.decisions, s.queries, s.depth, s.time);
    }
    // a task none of whose paths reaches its assertions would pass vacuously
    let mut errors = r.sh.errors.clone();
    if r.sh.violations.is_empty() && errors.is_empty() {
        if !r.complete { errors.push(format!("time limit reached with {} paths pending", r.pending)); }
        for t in tasks {
            match r.sh.stats.get(&t.name) {
                Some(s) if s.ok > 0 && s.checks > 0 => {}
                _ => if r.complete { errors.push(format!("vacuous: no path of {} reaches its assertions", t.name)) },
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    println!("{}: {} paths, {} solver queries (sat {} unsat {}; {} cached, {} nra, {} bv), solver {:.1}s cpu (max {:.2}s), wall {:.1}s", p.id, paths, queries, r.sh.sat, r.sh.unsat, r.sh.hits, r.sh.by_nra, r.sh.by_bv, r.sh.solver_time, r.sh.max_query, wall);
    for u in &r.sh.unconfirmed { println!("UNCONFIRMED {} {:?}: {}", u.task, u.inputs, u.msg); }
    let mut code = 0;
    let mut violation_text = String::new();
    for v in &r.sh.violations {
        let dir = "evidence/replay";
        let _ = std::fs::create_dir_all(dir);
        let path = format!("{}/{}.txt", dir, p.id);
        violation_text = format!("property={}\ntask={}\ninputs={}\nwhat={}\n", p.id, v.task, v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), v.msg);
        let _ = std::fs::write(&path, &violation_text);
        println!("  {} inputs {:?}: {}", v.task, v.inputs, v.msg);
        println!("VIOLATION property={} replay={}", p.id, path);
        code = 1;
    }
    if code == 0 && !errors.is_empty() {
        for e in errors.iter().take(5) { println!("ERROR {}", e); }
        code = 2;
    }
    // evidence
    let mut e = String::new();
    let per: Vec<String> = r.sh.stats.iter().map(|(n, s)| format!("{{\"task\":{},\"paths\":{},\"completed\":{},\"discarded\":{},\"decisions\":{},\"queries\":{},\"max_depth\":{},\"cpu_s\":{:.2}}}", json_str(n), s.paths, s.ok, s.discarded, s.decisions, s.queries, s.depth, s.time)).collect();
    let samples: Vec<String> = r.sh.samples.iter().take(12).map(|s| json_str(s)).collect();
    let m = meta_of(p);
    let funcs: Vec<String> = m.functions.iter().map(|s| json_str(s)).collect();
    let unconf: Vec<String> = r.sh.unconfirmed.iter().map(|u| json_str(&format!("{} {:?} {}", u.task, u.inputs, u.msg))).collect();
    let assum: Vec<String> = ASSUMED.iter().map(|s| s.to_string()).chain([format!("outside: {}", m.outside)]).map(|s| json_str(&s)).collect();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let _ = write!(e, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {},\n  \"explanation\": {},\n  \"functions_encoded\": [{}],\n  \"bounds\": {},\n  \"paths_completed\": {}, \"assertions_evaluated\": {}, \"assertions_discharged\": {}, \"solver_queries\": {}, \"solver_sat\": {}, \"solver_unsat\": {}, \"solver_cpu_s\": {:.2}, \"longest_query_s\": {:.3}, \"decided_by_bit_vectors\": {}, \"refuted_over_the_reals\": {}, \"decided_by_cache\": {}, \"assertions_discharged_by_normal_form\": {}, \"solver\": \"z3 (bit-vectors, nonlinear real arithmetic)\",\n  \"unconfirmed_overapproximations\": [{}],\n  \"tasks\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n",
        json_str(p.id), json_str(if thorough { "thorough" } else { "quick" }), seed, paths, decisions, r.sh.native_runs, r.complete && r.sh.violations.is_empty(),
        json_str("states = feasible symbolic paths of the real code; transitions = symbolic decisions on them; every untaken side of a decision was put to the solver; each path's witness was re-run on the real code over f64"),
        funcs.join(","), json_str(m.bounds), ok, checks, r.sh.checks_discharged, queries, r.sh.sat, r.sh.unsat, r.sh.solver_time, r.sh.max_query, r.sh.by_bv, r.sh.by_nra, r.sh.hits, r.sh.trivial, unconf.join(","), per.join(","), samples.join(","), assum.join(","), wall, r.sh.violations.len());
    let _ = std::fs::create_dir_all("evidence");
    let _ = std::fs::write(format!("evidence/{}.json", p.id), e);
    let _ = violation_text;
    code
}

#[allow(unused)]
fn _u<D: Dom>() {}
