#!/usr/bin/env python3
"""Try out planted bugs: plant.py FILE.py [ID...]

FILE.py defines BUGS = {id: dict(property, needs, what_it_breaks, edits=[(file, old, new)], demo=rust)}.
Each bug is applied in a scratch copy of /repo; it is kept under /verif/seeded/ID when it
builds, the stable tests pass, and its demonstration passes without it and fails with it.
"""
import importlib.util, json, re, os, shutil, subprocess, sys
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable')
DEMO_SH = '''#!/bin/bash
# Demonstration: exits 0 when the behaviour is right, nonzero when it is not.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d /tmp/magog-demo-XXXXXX)"
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || true
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
magog = { path = "$repo" }
[workspace]
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
cd "$work"
cargo run --offline --quiet
'''
PRE = '''use magog::flatbush::Flatbush;
use magog::planar::primitives::*;
use magog::planar::types::*;
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    base = '/tmp/plant-copy'
    for bid, b in m.BUGS.items():
        if want and bid not in want: continue
        if os.path.exists(base): shutil.rmtree(base)
        shutil.copytree('/repo', base, symlinks=True)
        ok = True
        d = f'/tmp/plant-out/{bid}'
        if os.path.exists(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + '/main.rs', 'w').write('#![allow(unused_imports)]\n' + PRE + b['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        r0 = sh([d + '/demo.sh'], base)
        if r0.returncode != 0:
            print(bid, 'DEMO FAILS ON UNCHANGED TREE\n', r0.stdout[-1500:]); continue
        for f, old, new in b['edits']:
            p = os.path.join(base, f); s = open(p).read()
            if s.count(old) < 1: print(bid, 'OLD TEXT NOT FOUND in', f, repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new, 1))
        if not ok: continue
        diff = sh(['git', 'diff'], base).stdout
        r1 = sh(['cargo', 'test', '--offline', '--quiet', '--no-fail-fast'], base)
        if r1.returncode != 0:
            fl = [l for l in r1.stdout.splitlines() if re.match(r'    [a-z_0-9:]+$', l) or l.startswith('error')]
            print(bid, 'TESTS FAIL:', '; '.join(l.strip() for l in fl[:6])); continue
        r2 = sh([d + '/demo.sh'], base)
        if r2.returncode == 0: print(bid, 'DEMO PASSES WITH PATCH'); continue
        out = f'/verif/seeded/{bid}'
        if os.path.exists(out): shutil.rmtree(out)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
        print(bid, 'KEPT', b['property'])
    shutil.rmtree(base, ignore_errors=True)
main()
