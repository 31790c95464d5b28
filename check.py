#!/usr/bin/env python3
"""Decide one property of EllenNyan/Ellecs by static analysis of /repo's current source.

usage: check.py <property> [--thorough] [--repo DIR] [--dump DIR]
exit 0: no violation; 1: VIOLATION line printed; 2: the analysis could not be carried out.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
MODULES = ("rules_world", "rules_groups", "rules_basic", "rules_mem", "rules_api", "rules_query", "rules_cache", "rules_bits", "rules_builder", "rules_types", "rules_array")


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True, check=True).stdout.strip()
    e["LD_LIBRARY_PATH"] = sysroot + "/lib"
    return e


def build_driver(e):
    exe = os.path.join(HERE, "driver", "target", "release", "mirdump")
    src = [os.path.join(HERE, "driver", p) for p in ("src/main.rs", "Cargo.toml")]
    if os.path.exists(exe) and all(os.path.getmtime(exe) >= os.path.getmtime(s) for s in src):
        return exe
    x = dict(e)
    x["CARGO_TARGET_DIR"] = os.path.join(HERE, "driver", "target")
    r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(HERE, "driver"), env=x, capture_output=True, text=True)
    if r.returncode or not os.path.exists(exe):
        sys.stderr.write(r.stderr[-3000:])
        raise SystemExit("cannot build the MIR front end")
    return exe


def dump(repo, tmp, e, exe):
    out = os.path.join(tmp, "out")
    os.makedirs(out)
    x = dict(e)
    x.update(CARGO_TARGET_DIR=os.path.join(tmp, "t"), CARGO_INCREMENTAL="0", MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=exe,
             RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=off -Cdebug-assertions=off -Zmir-enable-passes=-CheckAlignment,-CheckNull")
    r = subprocess.run(["cargo", "check", "--offline", "-p", "arche-tape", "-p", "untyped-vec"], cwd=repo, env=x, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-3000:])
        raise SystemExit("the front end cannot compile " + repo)
    res = []
    for c in ("untyped_vec", "arche_tape"):
        with open(os.path.join(out, c + ".json")) as f:
            res.append(json.load(f))
    return res


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.json")
    if os.path.exists(p):
        for f in json.load(open(p))["findings"]:
            out.append(f)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build the MIR front end")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--dump")
    ap.add_argument("--skip", default="", help="properties left out of `all`")
    ap.add_argument("--evidence", default=os.path.join(HERE, "evidence"), help="where the evidence goes")
    a = ap.parse_args()
    global EVIDENCE
    EVIDENCE = a.evidence
    if a.setup:
        build_driver(env())
        return 0
    t0 = time.time()
    tier = "thorough" if a.thorough else "quick"
    from sa import analysis
    rules = {}
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, "sa", m + ".py")):
            for k, v in importlib.import_module("sa." + m).RULES.items():
                rules.setdefault(k, []).extend(v)
    props = [a.prop] if a.prop != "all" else sorted(set(rules) - set(a.skip.split(",")))
    tmp = tempfile.mkdtemp(prefix="sa-ellecs-")
    try:
        if a.dump:
            dumps = [json.load(open(os.path.join(a.dump, c + ".json"))) for c in ("untyped_vec", "arche_tape")]
            e = env()
        else:
            e = env()
            dumps = dump(a.repo, tmp, e, build_driver(e))
        an = analysis.Analysis(dumps)
        an.thorough = a.thorough
        an.repo = a.repo
        an.tmp = tmp
        an.env = e
        an.here = HERE
        rc = 0
        for p in props:
            rc = max(rc, decide(p, rules, an, tier, t0))
        return rc
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# Obligations of other properties a property directly rests on (None: all of them).  They are decided again for it, so a
# change that breaks the premise is reported for both.
PREMISES = {
    "C03": {"C01": ("alive-test", "generation-step", "spawn-generation", "spawn-reuse", "despawn-slot-dead")},
    "C06": {"C07": ("ids-sorted", "columns-sorted", "ids", "columns", "lookup", "derived-group")},
    "C08": {"C09": ("all-components",)},
    "C09": {"C19": ("bit", "other-bits", "length", "set-of-id")},
    "C11": {"C09": ("all-components", "all-groups"), "C19": None},
    "C13": {"C09": ("locks",)},
    "C16": {"C05": ("every-column", "once-per-column", "changed-column", "every-staged-value")},
}

EXPLAIN = {
    "C14": "Type-level witnesses: each obligation is one client program compiled (metadata only) against the current tree's crates; a violating "
           "program must be rejected by rustc for the expected kind of reason and its legal twin must compile. No program is run.",
}


def guarded(f, an, rep):
    """A rule that meets code it was not written for leaves its remaining obligations undecided; the other rules still run."""
    try:
        f(an, rep)
    except Exception as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        rep.und(f.__name__, "%s:%d" % (os.path.basename(t.filename), t.lineno), "the rule does not cover this code (%s: %s)" % (type(e).__name__, e))


def decide(prop, rules, an, tier, t0):
    from sa.analysis import Report
    rep = Report(prop)
    an.seen = {}
    for f in rules.get(prop, ()):
        guarded(f, an, rep)
    premises = {}
    for q, names in PREMISES.get(prop, {}).items():
        sub = Report(q)
        for f in rules.get(q, ()):
            guarded(f, an, sub)
        got = [o for o in sub.obls if names is None or o.rule in names]
        premises[q] = len(got)
        for o in got:
            if o.status == "bad":
                rep.bad("%s (premise, %s)" % (o.rule, q), o.where, o.detail)
    rep.functions |= {p for p, _ in an.seen.values()}
    rep.paths = max(rep.paths, sum(n for _, n in an.seen.values()))
    ok = [o for o in rep.obls if o.status == "ok"]
    bad = {}
    for o in rep.obls:
        if o.status == "bad":
            bad.setdefault((o.rule, o.where, o.detail), 0)
            bad[(o.rule, o.where, o.detail)] += 1
    und = {}
    for o in rep.obls:
        if o.status == "undecided":
            und[(o.rule, o.where, o.detail)] = und.get((o.rule, o.where, o.detail), 0) + 1
    known, viol = [], []
    kf = [f for f in known_findings() if f["property"] == prop and f["status"] == "known"]
    for (r, w, d) in bad:
        fn = w.split(" (")[0]
        hit = next((f for f in kf if f["rule"] == r and f["function"] == fn and f.get("detail", d) == d), None)
        (known if hit else viol).append((r, w, d, hit))
    for f in kf:
        if any(h is f for *_, h in known):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    byrule = {}
    for o in ok:
        byrule[o.rule] = byrule.get(o.rule, 0) + 1
    sites = {}
    for o in rep.obls:
        sites.setdefault(o.where.split(" (")[0], 0)
        sites[o.where.split(" (")[0]] += 1
    cov = {
        "explanation": EXPLAIN.get(prop) or "Static analysis of the compiler's MIR of /repo: every listed function is analysed on arbitrary arguments by "
                       "path-partitioned abstract interpretation (loops summarised by fixpoint); an obligation is one rule at one "
                       "construct on one abstract path. See DESIGN.md for the rules.",
        "functions_analysed": sorted(rep.functions),
        "abstract_paths": rep.paths,
        "obligations": len(rep.obls),
        "discharged": len(ok),
        "undecided": sum(und.values()),
        "violations": len(viol),
        "known_findings": len(known),
        "obligations_by_rule": byrule,
        "premises_checked": premises,
        "obligations_by_construct": sites,
        "undecided_list": [{"rule": r, "where": w, "why": d, "paths": n} for (r, w, d), n in list(und.items())[:40]],
        "notes": rep.notes,
    }
    if prop == "C14":
        cov["witness_programs"] = cov.pop("abstract_paths")
    if tier == "thorough":
        cov["engine_errors"] = dict(an.errors)
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3)}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for (r, w, d), n in und.items():
        print("UNDECIDED: property=%s rule=%s at %s: %s (%d paths)" % (prop, r, w, d, n))
    if viol:
        rp = os.path.join(EVIDENCE, prop + ".violations.json")
        with open(rp, "w") as f:
            json.dump([{"rule": r, "where": w, "detail": d} for r, w, d, _ in viol], f, indent=1)
        for r, w, d, _ in viol[:20]:
            print("  violation of rule '%s' at %s: %s" % (r, w, d))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if not ok:
        print("ERROR: no obligation of %s was discharged: its anchors are gone (%d undecided)" % (prop, sum(und.values())))
        return 2
    print("OK property=%s: %d obligations on %d abstract paths of %d functions, %d undecided, %d known findings (%.1f s)" %
          (prop, len(ok), rep.paths, len(rep.functions), sum(und.values()), len(known), time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            print("ERROR: " + e.code)
            sys.exit(2)
        raise
