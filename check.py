#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Discharges every proof obligation of one property on /repo's current source with
Kani (CBMC back end) and writes evidence/<PROPERTY>.json. See DESIGN.md.

Exit 0: every obligation discharged (or listed in known-findings.txt).
Exit 1: a VIOLATION line names the property and a replay file.
Exit 2: undecided (the tree does not compile, a solver ran out of time, ...).
"""
import argparse
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import coretext

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
SRC = os.path.join(HARNESS, "src")

# Properties with contracts that need the hooks (--cfg verif), and whether the
# states those contracts construct are tied to the public API by an anchor.
# Contracts in induct.rs are found by name: cNN_anchor, cNN_step*, cNN_loop*.
BOUNDED = {"C08"}  # has a native bounded stand-in (harness/src/bounded.rs)

TRUSTED = {
    "*": [
        "Kani 0.68.0 / CBMC 6.11.0 / CaDiCaL: translation of MIR to GOTO and bit-blasting",
        "the specification constants in harness/src (bit positions, tables, gates), transcribed from the Intel SDM and AMD APM",
        "CpuIdReader implementations are functions of (EAX, ECX): the harness machine answers the same query with the same registers",
        "termination is not proved by Kani; every loop in the harnesses is unwound with unwinding assertions, except the two loops under loop contracts",
    ],
    "C14": [
        "core::str::from_utf8 and str::trim are replaced by their contracts, which are proved for every text of at most 48 bytes on the text of the installed library/core (coretext.py says what the extraction changes; slice::Iter<u8>, the trait dispatch from trim to its searcher and from_utf8's wrapping of run_utf8_validation are trusted), and checked on the linked functions for short texts",
    ],
    "C07": ["core::str::from_utf8 and str::trim are replaced by their contracts (see C14)",
            "Debug/Display formatting and the display feature are outside the claim"],
    "C15": ["Z3 4.8 decides the division in tsc_frequency (c15_smt_*)"],
    "C19": ["serde's data formats are represented by two minimal ones in harness/src/rt.rs"],
    "C21": ["core::arch::x86_64::__cpuid_count and __cpuid are replaced by the contract that they return a fixed function of (EAX, ECX); that the intrinsic executes the CPUID instruction is trusted (natively, in a replay, it does)",
            "the 32-bit x86 build uses the same lines with core::arch::x86; it is not built here"],
    "C20": ["core::fmt::DebugStruct::field/finish and DebugList::entry/finish are replaced by contracts that record name and value, or the items; Formatter::debug_struct, Formatter::debug_list and the printing of a value by core::fmt are trusted",
            "tsc_frequency's shown value: EAX <= 1, EBX <= 255 only; SGX without EPC sections; lists of at most two items (leaf 2: two fixed descriptors)"],
}
def harnesses(prop):
    """(public, hooked, core, functions) harness names of a property, found in the harness sources."""
    tag = prop.lower() + "_"
    public, hooked, core, functions = [], [], [], []
    for f in sorted(os.listdir(SRC)):
        mod = f[:-3]
        if not f.endswith(".rs") or mod in ("lib", "replay", "bounded", "core_"):
            continue
        text = open(os.path.join(SRC, f)).read()
        text = re.sub(r"//.*", "", text)
        text = re.sub(r'"(?:[^"\\]|\\.)*"', '""', text)
        for n in dict.fromkeys(re.findall(r"\b(c\d\d_[a-z0-9_]+)\b", text)):
            if n.startswith(tag):
                {"induct": hooked, "coretext": core, "func": functions}.get(mod, public).append(f"{mod}::{n}")
    return public, hooked, core, functions


class Run:
    """One cargo-kani invocation."""

    def __init__(self, work, name, names, hook, timeout, wall, extra=()):
        self.name, self.names, self.hook, self.extra = name, names, hook, list(extra)
        self.dir = os.path.join(work, name)
        self.json = os.path.join(work, name + ".json")
        self.log = os.path.join(work, name + ".log")
        self.timeout, self.wall = timeout, wall
        self.core = name == "core"  # proofs about the text of library/core
        self.features = ["--features", "serialize"] if any(n.startswith("rt::") for n in names) else []
        self.results, self.stats, self.tools = {}, {}, {}
        self.seconds = 0.0
        self.error = None
        # Contracts with a stand-in: undecided is a lost proof, not a verdict.
        # Function contracts inside the crate, and proofs that rest on them: how the
        # code is organised, not what it does. A failure is reported as a note.
        self.advisory = name in ("functions", "modular")
        self.soft = hook or self.core or self.advisory or name in ("smt", "debug")
        # A refuted obligation the real code does not show is a lost proof, not a violation.
        self.weak = hook or name == "debug"

    def cmd(self):
        c = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "unstable-options"] + self.features
        if self.hook or self.core:
            c += ["-Z", "loop-contracts"]
        if self.advisory:
            c += ["-Z", "function-contracts"]
        c += ["-j", "8", "--output-format", "terse", "--target-dir", self.dir, "--harness-timeout", f"{self.timeout}s",
              "--export-json", self.json, "--exact"] + self.extra
        for n in self.names:
            c += ["--harness", n]
        if self.core or self.name == "functions":
            c += ["--cbmc-args", "--object-bits", "8"]
        return c

    def env(self):
        e = dict(os.environ, CARGO_NET_OFFLINE="true")
        e.pop("RUSTFLAGS", None)
        if self.hook:
            e["RUSTFLAGS"] = "--cfg verif"
        if self.advisory:
            e["RUSTFLAGS"] = "--cfg verif --cfg contracts" + (" --cfg modular" if self.name == "modular" else "")
        if self.core:
            e["RUSTFLAGS"] = "--cfg core_text"
            e["CORE_TEXT"] = self.dir + ".rs"
        return e

    def go(self):
        t = time.time()
        if self.core:
            try:
                coretext.extract(self.dir + ".rs")
            except (OSError, ValueError, AttributeError) as e:
                self.error = f"text of library/core: {e}"
                return
        with open(self.log, "w") as out:
            rc = call(self.cmd(), self.env(), out, self.wall)
        self.seconds = time.time() - t
        try:
            j = json.load(open(self.json))
        except (OSError, ValueError):
            self.error = f"no verification result (exit status {rc})"
            return
        self.tools = j.get("tools", {})
        for r in j["verification_results"]["results"]:
            self.results[r["harness_id"]] = r
        for c in j.get("cbmc", []):
            self.stats[c["harness_id"]] = c.get("cbmc_stats") or {}
        missing = [n for n in self.names if n not in self.results]
        if missing:
            self.error = "no result for " + " ".join(missing[:5])

    def tail(self):
        try:
            lines = [l for l in open(self.log, errors="replace").read().splitlines() if l.startswith(("error", "  -->")) or "panicked" in l]
            return "\n".join(lines[:12])
        except OSError:
            return ""


def call(cmd, env, out, wall):
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        return p.wait(timeout=wall)
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)  # with the solvers it left behind
        except ProcessLookupError:
            pass
        p.wait()


def unwound(r):
    """A loop was not unwound far enough (and nothing else failed)."""
    failed = [c for c in r["checks"] if c["status"] == "Failure" and c.get("category") != "cover"]
    return bool(failed) and all("unwind" in c.get("category", "") for c in failed)


UNDECIDED = ("unwind", "unsupported_construct", "recursion")


def judge(r):
    """Sorts the checks of one harness."""
    ok = failed = covers = unreachable = 0
    bad, undecided, vacuous, named, functions = [], [], [], [], set()
    for c in r["checks"]:
        cat, st, what = c.get("category", ""), c["status"], c["description"]
        if cat == "cover":
            covers += 1
            if st != "Satisfied":
                vacuous.append(what)
            continue
        fn = c.get("function") or ""
        m = re.findall(r"raw_cpuid::[A-Za-z0-9_:<>]*", fn)
        if m:
            functions.add(fn)
        if st == "Success":
            ok += 1
        elif st == "Unreachable":
            unreachable += 1
        elif st == "Failure" and not any(u in cat for u in UNDECIDED):
            bad.append(c)
        else:
            undecided.append(f"{what} ({cat}, {st})")
        loc = (c.get("location") or {}).get("file", "")
        if cat == "assertion" and "/repo/" not in loc and loc.startswith("src/") or "/harness/src/" in loc:
            named.append((what, st))
    if r["status"] != "Success" and not bad and not undecided:
        undecided.append("no verdict (time or memory)")
    return dict(ok=ok, bad=bad, undecided=undecided, covers=covers, vacuous=vacuous, unreachable=unreachable,
                named=named, functions=functions)


def known_findings(prop):
    """Entries `known: property=.. harness=.. obligation="..": text`."""
    out = {}
    for l in known_lines():
        m = re.match(r'known: property=(\S+) harness=(\S+) obligation="([^"]*)" (.*)', l)
        if m and m.group(1) == prop:
            out[(m.group(2), m.group(3))] = m.group(4)
    return out


def known_lines():
    try:
        return open(os.path.join(HERE, "known-findings.txt")).read().splitlines()
    except OSError:
        return []


class Native:
    """The same contracts, compiled natively against /repo."""

    def __init__(self, work, skip, features):
        self.work = work
        self.features = features
        self.built = {}
        self.skip = "\n".join(skip)  # obligations of known findings

    def build(self, hook):
        if hook not in self.built:
            d = os.path.join(self.work, "native-hook" if hook else "native")
            e = dict(os.environ, CARGO_NET_OFFLINE="true")
            e.pop("RUSTFLAGS", None)
            if hook:
                e["RUSTFLAGS"] = "--cfg verif"
            with open(d + ".log", "w") as out:
                rc = call(["cargo", "build", "--offline", "--release", "--bins", "--target-dir", d] + self.features, e, out, 300)
            self.built[hook] = os.path.join(d, "release") if rc == 0 else None
        return self.built[hook]

    def run(self, hook, binary, args, wall=120):
        d = self.build(hook)
        if d is None:
            return None, "native build failed"
        try:
            p = subprocess.run([os.path.join(d, binary)] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=wall,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)),
                               env=dict(os.environ, CONTRACT_SKIP=self.skip))
            return p.returncode, p.stdout[-2000:]
        except subprocess.TimeoutExpired:
            return None, "native replay ran out of time"


def counterexamples(run, harness, wall):
    """The verifier's values for the nondeterministic inputs, per failed check."""
    # Sequential, one harness, printed values.
    c = ["cargo", "kani", "--lib", "-Z", "stubbing", "-Z", "unstable-options"] + run.features + ["-Z", "concrete-playback",
         "--concrete-playback=print", "--target-dir", run.dir, "--harness-timeout", f"{run.timeout}s", "--exact", "--harness", harness]
    if run.hook:
        c += ["-Z", "loop-contracts"]
    log = run.log + "." + harness.split("::")[-1]
    with open(log, "w") as out:
        call(c, run.env(), out, wall)
    text = open(log, errors="replace").read()
    tapes = []
    for block in re.findall(r"let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", text, re.S):
        tape = []
        for v in re.findall(r"^\s*vec!\[([0-9, ]*)\]", block, re.M):
            b = bytes(int(x) for x in v.split(",") if x.strip())
            tape.append(int.from_bytes(b[:4], "little"))
        if tape not in tapes:
            tapes.append(tape)
    return tapes, text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    start = time.time()
    work = tempfile.mkdtemp(prefix=f"cpuid-{prop}-")
    try:
        return decide(prop, tier, work, start)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, work, start):
    deadline = start + 840
    left = lambda: max(10, deadline - time.time())
    public, hooked, core, inner = harnesses(prop)
    if tier == "quick":
        public = [n for n in public if "_deep_" not in n]
    if not public:
        print(f"no contracts for {prop}")
        return 2
    per = 500 if tier == "quick" else 700
    smt = [n for n in public if "_smt_" in n]
    public = [n for n in public if n not in smt]
    runs = [Run(work, "debug" if prop == "C20" else "public", public, False, per, 640 if tier == "quick" else 780)]
    if hooked:
        runs.append(Run(work, "hooked", hooked, True, 400, 640))
    if smt:
        runs.append(Run(work, "smt", smt, False, 200, 400))
    if core:
        runs.append(Run(work, "core", core, False, 640, 700))
    if inner:
        runs.append(Run(work, "functions", inner, False, 200, 400))
    if tier == "thorough":
        # The public contracts against the callees' contracts instead of their
        # bodies, and a second decision procedure.
        if not runs[0].features:
            callers = [n for n in public if not re.search("_deep_|_dep_|descriptor_c3", n)]
            runs.append(Run(work, "modular", callers, False, 400, 780))
        alt = [n for n in public if not re.search("_deep_|_dep_|brand", n)]
        runs.append(Run(work, "second-solver", alt, False, 300, 780, ["--solver", "minisat"]))
    ts = [threading.Thread(target=r.go) for r in runs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    # Changed code may loop more often than the contract unwinds: once more, deeper.
    for r in list(runs):
        again = [n for n in r.names if r.name in ("public", "debug") and n in r.results and unwound(r.results[n])]
        if again and left() > 120:
            deep = Run(work, "unwind", again, False, int(left() - 60), int(left() - 30), ["--unwind", "66"])
            deep.go()
            for n in again:
                if n in deep.results:
                    r.results[n] = deep.results[n]
                    r.stats[n] = deep.stats.get(n, {})
    known = known_findings(prop)
    native = Native(work, [o for _, o in known], runs[0].features)
    notes, undecided, violations, found = [], [], [], []
    count = dict(obligations=0, discharged=0, covers=0, covers_satisfied=0, harnesses=0)
    named, functions = {}, set()
    solver_s = symex_s = 0.0
    backends = set()
    fallback = False
    standins = []

    hook_ok = True
    hook = next((r for r in runs if r.hook), None)
    if hook:
        anchors = [n for n in hooked if n.endswith("_anchor")]
        if hook.error and not hook.results:
            hook_ok = False
            notes.append("the hooked build gave no result, its contracts were not used: " + hook.error + " " + hook.tail())
        elif any(hook.results.get(n, {"status": "none"})["status"] != "Success" for n in anchors):
            hook_ok = False
            notes.append("a hook no longer constructs the state the public API starts from; the contracts that use it were not used")
        fallback = not hook_ok

    violated = False
    for r in runs:
        if r.hook and not hook_ok:
            continue
        if r.error:
            if r.soft:
                notes.append(f"{r.name}: {r.error} {r.tail()}")
                fallback = fallback or not r.advisory
            else:
                fallback = True
                notes.append(f"{r.name}: no verdict, {r.error} {r.tail()}")
                standins += [n for n in r.names if n not in r.results]
        for c in r.tools.get("solvers") or []:
            backends.add(c["name"])
        for n in r.names:
            if n not in r.results:
                continue
            j = judge(r.results[n])
            count["harnesses"] += 1
            s = r.stats.get(n, {})
            solver_s += s.get("runtime_solver_s") or 0
            symex_s += s.get("runtime_symex_s") or 0
            functions |= j["functions"]
            if r.core and (j["bad"] or j["undecided"] or j["vacuous"]):
                # Says nothing about /repo: the contract stays assumed in this run.
                fallback = True
                notes.append(f"{n}: the contract of library/core is assumed, not proved: {'; '.join([c['description'] for c in j['bad'][:3]] + j['undecided'][:3])}")
                continue
            if r.advisory and any((n.split("::")[-1], c["description"]) not in known for c in j["bad"]) or r.advisory and j["undecided"]:
                notes.append(f"{r.name}, {n}: {'; '.join([c['description'] for c in j['bad'][:3]] + j['undecided'][:3])} (the public contracts decide)")
                continue
            new = []
            for c in j["bad"]:
                key = (n.split("::")[-1], c["description"])
                if key in known:
                    if key not in found:
                        found.append(key)
                else:
                    new.append(c)
            for w, st in j["named"]:
                if named.get(w) != "Failure":
                    named[w] = st
            if j["undecided"] or r.soft and new:
                # Decided below or by the stand-in; not counted as discharged.
                fallback = True
            if j["undecided"] and not new:
                standins += [n] if not r.hook and n not in standins else []
                notes.append(f"{n} not proved: {'; '.join(j['undecided'][:3])}")
                continue
            count["obligations"] += j["ok"] + j["unreachable"] + len(j["bad"])
            count["discharged"] += j["ok"] + j["unreachable"]
            count["covers"] += j["covers"]
            count["covers_satisfied"] += j["covers"] - len(j["vacuous"])
            if j["vacuous"] and not j["bad"]:
                undecided.append(f"{n}: vacuous, {'; '.join(j['vacuous'][:3])}")
            if new:
                violations.append((r, n, new))

    reported = []
    if violations:
        # The most telling counterexamples first; a handful is enough.
        for r, n, new in violations:
            shown = [x for x in reported if x[3] or not x[0].weak]
            if (shown and (len(shown) >= 2 or left() < 300)) or (reported and left() < 150):
                break
            reported.append(confirm(prop, r, n, new, native, left()))
        # A failed inductive contract whose counterexample the real code does not
        # show is a lost proof: the stand-ins decide.
        lost = [x for x in reported if x[0].weak and not x[3]]
        for x in lost:
            notes.append(f"{x[1]}: obligation not discharged ({x[2][0]['description']}), and no input fails on the real code")
            standins += [x[1]] if not x[0].hook else []
            fallback = True
        reported = [x for x in reported if x not in lost]

    bounded_note = None
    if prop in BOUNDED and (fallback or tier == "thorough") and not reported:
        rc, out = native.run(False, "bounded", [])
        line = next((l for l in out.splitlines() if l.startswith("BOUNDED")), out.strip())
        if rc == 1 and line.startswith("BOUNDED-VIOLATED"):
            _, h, *tape = line.split()
            reported.append((None, h, [{"description": "bounded stand-in", "location": {}}], True,
                             replay_file(prop, h, "bounded stand-in for the leaf 2 walk", tape, out, True, False)))
        elif rc != 0:
            undecided.append("bounded stand-in: " + line)
        bounded_note = line
    if standins and not native.build(False):
        undecided.append("the contracts do not compile: " + "; ".join(standins[:3]))
        standins = []
    for k, n in enumerate(standins):
        # Bounded stand-in of a contract that the verifier no longer decides.
        h = n.split("::")[-1]
        if re.search("_dep_|_deep_", h):
            continue  # about library/core
        tries = 100000 if prop == "C20" else 2000000
        seconds = min(100, max(2, (left() - 40) / (len(standins) - k)))
        rc, out = native.run(False, "replay", ["--search", h, str(tries), str(int(seconds))])
        m = re.search(r"SEARCH-FOUND ([0-9 ]*)", out or "")
        if m:
            reported.append((None, h, [], True, replay_file(prop, h, "stand-in", m.group(1).split(), out, True, False)))
        elif rc != 0:
            undecided.append(f"stand-in of {h}: {out}")
        m = re.search(r"SEARCH-NONE \S+ (\d+)", out or "")
        bounded_note = (bounded_note + "; " if bounded_note else "") + f"{h}: {m.group(1) if m else '?'} generated inputs"
    if fallback and not reported:
        notes.append("part of this property is bounded in this run, not proved")

    for k in found:
        print(f"KNOWN-FINDING: property={prop} {known[k]}")
    for x in reported:
        print(f"VIOLATION property={prop} replay={x[4]}" + ("" if x[3] else " no-failing-input-found"))
    for m in undecided:
        print(f"UNDECIDED property={prop} {m}")
    for m in notes:
        print(f"NOTE property={prop} {m}")

    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": "proof" if not fallback else "other",
        "coverage": {
            "obligations": count["obligations"], "discharged": count["discharged"],
            "checker_cmd": " ; ".join((f"RUSTFLAGS='{r.env()['RUSTFLAGS']}' " if "RUSTFLAGS" in r.env() else "") + " ".join(
                x if not x.startswith(work) else os.path.basename(x) for x in r.cmd()[:16]) + f" + {len(r.names)} harnesses" for r in runs),
            "trusted_base": TRUSTED["*"] + TRUSTED.get(prop, []),
            "harnesses": count["harnesses"], "harness_names": public + smt + core + inner + (hooked if hook_ok else []),
            "reachability_covers": count["covers"], "reachability_covers_satisfied": count["covers_satisfied"],
            "named_obligations": sorted(named), "repo_functions_with_obligations": sorted(functions),
            "back_end": sorted(backends), "solver_seconds": round(solver_s, 1), "symbolic_execution_seconds": round(symex_s, 1),
            "known_findings": [known[k] for k in found], "notes": notes, "undecided": undecided,
            "bounded_stand_in": bounded_note,
            "explanation": "every obligation of every contract harness of this property, generated from /repo's source in this run",
        },
        "assumptions": [],
        "wall_s": round(time.time() - start, 1), "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {count['discharged']}/{count['obligations']} obligations discharged in {count['harnesses']} harnesses, "
          f"{count['covers_satisfied']}/{count['covers']} covers, {ev['wall_s']} s")
    if reported:
        return 1
    return 2 if undecided else 0


def confirm(prop, r, n, new, native, wall):
    """Replays the verifier's counterexample against the real code."""
    h = n.split("::")[-1]
    what = "; ".join(f"{c['description']} [{(c.get('location') or {}).get('file', '?')}:{(c.get('location') or {}).get('line', '?')}]" for c in new[:8])
    tapes, log = counterexamples(r, n, min(240, max(60, wall - 120)))
    for tape in tapes:
        rc, out = native.run(r.hook, "replay", [h] + [str(v) for v in tape])
        if rc is not None and rc not in (0, 3):
            return (r, n, new, True, replay_file(prop, h, what, tape, out, True, r.hook))
    # The verifier refuted the contract and printed no values, or not the ones that
    # matter: look for some.
    rc, out = native.run(r.hook, "replay", ["--search", h, "200000"])
    m = re.search(r"SEARCH-FOUND ([0-9 ]*)", out or "")
    if rc == 1 and m:
        tape = m.group(1).split()
        rc, out = native.run(r.hook, "replay", [h] + tape)
        if rc is not None and rc not in (0, 3):
            return (r, n, new, True, replay_file(prop, h, what, tape, out, True, r.hook))
    return (r, n, new, False, replay_file(prop, h, what, tapes[0] if tapes else [], log[-6000:], False, r.hook))


def replay_file(prop, harness, what, tape, output, reproduced, hook):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{prop}-{harness}.txt")
    flag = "RUSTFLAGS='--cfg verif' " if hook else ""
    feature = " --features serialize" if prop == "C19" else ""
    with open(p, "w") as f:
        f.write(f"property: {prop}\ncontract: {harness} (harness/src)\nfailed obligations: {what}\n"
                f"counterexample (u32 values in the order the contract draws them): {' '.join(map(str, tape))}\n"
                f"reproduced on the real code: {reproduced}\n"
                f"replay: cd /verif/harness && {flag}cargo run --offline{feature} --bin replay -- {harness} {' '.join(map(str, tape))}\n"
                f"output:\n{output}\n")
    return p


if __name__ == "__main__":
    sys.exit(main())
