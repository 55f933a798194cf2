#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the table below and validates each entry in a
scratch copy of /repo: it compiles, passes the stable tests, the demo passes
before and fails after. Usage: seed.py [id...]"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS

SCR = "/tmp/w/scratch"
DEMO_SH = '''#!/bin/bash
# Builds and runs demo.rs against the crate in the current directory.
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$d/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
raw-cpuid = { path = "$r" @FEATURES@}
EOF
cd "$t" && CARGO_NET_OFFLINE=true RUSTFLAGS= cargo run -q --offline --target-dir "$t/target" 2>&1 | tail -5
exit ${PIPESTATUS[0]}
'''
def demo_sh(features):
    if not features:
        return DEMO_SH.replace("@FEATURES@", "")
    return DEMO_SH.replace("@FEATURES@}", ', features = [' + ", ".join(f'"{f}"' for f in features) + '] }\nserde_json = "1"')

PRE = '''use raw_cpuid::*;
#[allow(unused)]
fn r(eax: u32, ebx: u32, ecx: u32, edx: u32) -> CpuIdResult { CpuIdResult { eax, ebx, ecx, edx } }
#[allow(unused)]
fn vendor(s: &[u8; 12], max: u32) -> CpuIdResult {
    let w = |i: usize| u32::from_le_bytes([s[i], s[i + 1], s[i + 2], s[i + 3]]);
    r(max, w(0), w(8), w(4))
}
#[allow(unused)]
fn intel() -> CpuIdResult { vendor(b"GenuineIntel", 0x20) }
#[allow(unused)]
fn amd() -> CpuIdResult { vendor(b"AuthenticAMD", 0x20) }
#[allow(unused)]
fn ext() -> CpuIdResult { r(0x8000_0028, 0, 0, 0) }
'''

def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    ids = sys.argv[1:] or list(SEEDS)
    if not os.path.exists(SCR):
        sh(f"cp -a /repo {SCR}")
    sh(f"git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD", cwd=SCR)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        s = SEEDS[i]
        sh("git checkout -q -f .", cwd=SCR)
        ok = True
        for f, a, b in s["edits"]:
            p = os.path.join(SCR, f); t = open(p).read()
            n = t.count(a)
            if n != 1:
                print(i, "EDIT matches", n, repr(a)[:60]); ok = False; break
            open(p, "w").write(t.replace(a, b))
        if not ok: continue
        d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", cwd=SCR).stdout)
        open(d + "/demo.rs", "w").write(PRE + "fn main() {\n" + s["demo"] + "\n}\n")
        open(d + "/demo.sh", "w").write(demo_sh(s.get("features", []))); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = sh("CARGO_NET_OFFLINE=true cargo test --offline 2>&1 | tail -400", cwd=SCR)
        passed = {l.split()[1] for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("... ok")}
        failed = [l for l in t.stdout.splitlines() if l.startswith("test ") and "FAILED" in l]
        comp = "error" in t.stdout and "could not compile" in t.stdout
        bad = sh(d + "/demo.sh", cwd=SCR)
        sh("git checkout -q -f .", cwd=SCR)
        good = sh(d + "/demo.sh", cwd=SCR)
        v = not comp and not failed and len(passed) > 80 and bad.returncode != 0 and "error[" not in bad.stdout and good.returncode == 0
        print(i, "OK" if v else "BAD", "tests", len(passed), failed[:2], "compile-error" if comp else "", "demo", good.returncode, bad.returncode)
        if not v: print(good.stdout[-600:], "----", bad.stdout[-600:])

main()
