#!/usr/bin/env python3
"""run.py CRATE ID TIER: the harnesses of property ID in CRATE (fx or hx), with Kani.

Every harness is compiled from /repo's current source to a CBMC program and decided by a SAT
solver over all values of its inputs. A counterexample is replayed against the real code.
Exit 0: all hold; 1: a confirmed violation; 2: no answer."""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

crate, pid, tier = sys.argv[1:4]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(VERIF, crate)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
LIMIT = 3000 if tier == "thorough" else 600
src = open(f"{D}/src/lib.rs").read()
m = re.search(r"harnesses!\((c\d\d_[^)]*)\);", src)
names = [n for n in re.split(r"[,\s]+", m.group(1)) if n.startswith(pid.lower() + "_")]
WORKERS = min(len(names), os.cpu_count() or 4)
slots = list(range(WORKERS))

def kani(name, slot, extra):
    cmd = ["cargo", "kani", "--no-overflow-checks", "--target-dir", f"{D}/target/slot{slot}", "--exact", "--harness", f"k::k::{name}"] + extra
    p = subprocess.Popen(cmd, cwd=D, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=LIMIT)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return "time limit", out
    if "VERIFICATION:- SUCCESSFUL" in out and p.returncode == 0: return "ok", out
    if "VERIFICATION:- FAILED" in out: return "failed", out
    return "error", out

def num(rx, out):
    v = re.findall(rx, out)
    return float(v[-1]) if v else 0

def one(name):
    slot = slots.pop()
    try:
        t = time.time()
        st, out = kani(name, slot, [])
        r = dict(harness=name, result=st, steps=int(num(r"size of program expression: (\d+) steps", out)), vccs=int(num(r"Generated (\d+) VCC", out)),
                 remaining=int(num(r"Generated \d+ VCC\(s\), (\d+) remaining", out)), checks=int(num(r"\*\* \d+ of (\d+) failed", out)),
                 variables=int(num(r"(\d+) variables, \d+ clauses", out)), clauses=int(num(r"\d+ variables, (\d+) clauses", out)),
                 solver_s=sum(float(x) for x in re.findall(r"Runtime Solver: ([\d.e+-]+)s", out)), wall_s=round(time.time() - t, 2))
        if st == "failed":
            st2, out2 = kani(name, slot, ["-Z", "concrete-playback", "--concrete-playback=print"])
            r["failed"] = re.findall(r"Failed Checks: (.*)", out)[:3]
            r["playbacks"] = [re.findall(r"vec!\[([\d, ]*)\]", b) for b in re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out2, re.S)]
        if st == "error": r["log"] = out[-1500:]
        return r
    finally:
        slots.append(slot)

t0 = time.time()
with cf.ThreadPoolExecutor(WORKERS) as ex: res = list(ex.map(one, names))
code, violations, lines = 0, 0, []
for r in res:
    print(f"  {r['harness']:<20} {r['result']:<8} steps {r['steps']} vccs {r['vccs']} solver {r['solver_s']:.1f}s wall {r['wall_s']}s")
    if r["result"] == "ok": continue
    confirmed = False
    if r["result"] == "failed":
        b = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", f"{D}/target"], cwd=D, env=dict(ENV, RUSTUP_TOOLCHAIN="stable"), capture_output=True, text=True)
        for pb in r["playbacks"]:
            words = ["%x" % int.from_bytes(bytes(int(x) for x in v.split(",") if x.strip()), "little") for v in pb]
            q = subprocess.run([f"{D}/target/debug/{crate}", r["harness"]] + words, capture_output=True, text=True, timeout=120) if b.returncode == 0 else None
            if q and q.returncode in (1, 101):
                os.makedirs(f"{VERIF}/evidence/replay", exist_ok=True)
                rp = f"evidence/replay/{pid}.txt"
                open(f"{VERIF}/{rp}", "w").write(f"property={pid}\ncommand={crate}/target/debug/{crate} {r['harness']} {' '.join(words)}\n{q.stdout}{q.stderr}")
                print(f"  {q.stdout.strip()[:300]}: {'; '.join(r['failed'])}")
                lines.append(f"VIOLATION property={pid} replay={rp}")
                confirmed = True
                break
    if confirmed: violations += 1
    else: lines.append(f"ERROR {r['harness']}: {r['result']} {'; '.join(r.get('failed', []))} {r.get('log', '')}")
for l in lines: print(l)
code = 1 if violations else 2 if lines else 0
wall = round(time.time() - t0, 2)
print(f"{pid}: {len(res)} Kani harnesses, {sum(r['vccs'] for r in res)} conditions, solver {sum(r['solver_s'] for r in res):.1f}s cpu, wall {wall}s")

BOUNDS = {
 "C07": "all 2^32 cells; all boxes and positions of f64, with NaN and infinities; the map from positions to cells on the box of 65535 units (all cells), elsewhere only its range",
 "C08": "all pairs of f64 that are not NaN as corners (all of them, for validate), empty boxes included",
 "C09": "all f64 that are not NaN as ends (all of them, for validate), empty intervals included",
 "C20": "all f64, NaN and infinities included, for every coordinate of positions, segments, boxes and intervals",
 "C28": "all f64, NaN and infinities included",
}
FUNCS = {"C07": ["flatbush::hilbert::Hilbert::{new, safe_hilbert, hilbert, hilbert_normalized}"]}
bp = dict(tool="Kani (CBMC, CaDiCaL)", bounds=BOUNDS.get(pid, ""), harnesses=res, solver_cpu_s=round(sum(r["solver_s"] for r in res), 2), wall_s=wall)
path = f"{VERIF}/evidence/{pid}.json"
trust = "bit-precise part: trusted are Kani, CBMC and CaDiCaL; arithmetic overflow of integers is not checked there (wrapping)"
try:
    if FUNCS.get(pid): raise FileNotFoundError
    e = json.load(open(path))
    e["coverage"]["bit_precise"] = bp
    e["wall_s"] = round(e["wall_s"] + wall, 2)
    e["violations"] = e.get("violations", 0) + violations
    e.setdefault("assumptions", []).append(trust)
except (FileNotFoundError, ValueError, KeyError):
    e = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", wall_s=wall, violations=violations, assumptions=[trust],
        coverage=dict(states=sum(r["steps"] for r in res), transitions=sum(r["vccs"] for r in res), traces_validated_against_impl=sum(len(r.get("playbacks", [])) for r in res),
            explanation="states = steps of the unwound CBMC programs; transitions = verification conditions generated from them; counterexamples (only) are replayed on the real code",
            functions_encoded=FUNCS.get(pid, []), bounds=BOUNDS.get(pid, ""), bit_precise=bp,
            samples=[f"{r['harness']}: {r['result']}, {r['variables']} variables, {r['clauses']} clauses" for r in res]))
json.dump(e, open(path, "w"), indent=1)
sys.exit(code)
