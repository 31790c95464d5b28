#!/usr/bin/env python3
"""Development tool: writes MANIFEST.json from the list of claimed properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check, importlib
rules = set()
for m in check.MODULES:
    if os.path.exists(os.path.join(HERE, "sa", m + ".py")):
        rules |= set(importlib.import_module("sa." + m).RULES)
TECH = "path-partitioned abstract interpretation of the compiler's MIR (fixpoint loop summaries, linear-arithmetic domain, effect traces) with per-property rules"
SPECIAL = {
    "C14": "type-level compile-fail witnesses (each violating program must be rejected by rustc, its legal twin accepted) and signature/auto-trait rules on the type-checked program",
    "C24": "effect analysis over the call graph and abstract paths of the compiler's MIR: no blocking lock acquisition reachable from a public operation",
}
NOTE = ("Static analysis of /repo's current source on arbitrary arguments; no code of /repo is run. The rules (DESIGN.md, section %s) are "
        "checked on every abstract path of the functions listed in the evidence. An alarm needs positive evidence on a path; what the "
        "analysis cannot decide is printed as UNDECIDED, counted in the evidence and not an alarm. Trusted: rustc's MIR, the models of std, "
        "the models of the UntypedVec operations (whose bodies C15 checks), absence of arithmetic overflow.")
NA = {
    "C23": "Equivalence with an abstract map over whole histories of arbitrary length is a relational property of runtime values; "
           "the static rules for its ingredients (C01, C03-C08, C11, C12) are claimed instead, but their conjunction is not an equivalence proof.",
}
for p in ["C%02d" % i for i in range(1, 26)]:
    if p not in rules and p not in NA:
        NA[p] = "No static rule for this property is in place yet."
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                "technique": SPECIAL.get(p, TECH), "level": "other", "level_note": NOTE % p} for p in sorted(rules)],
    "not_applicable": [{"property": p, "reason": NA[p]} for p in sorted(NA) if p not in rules],
    "notes": "check.py builds the MIR front end (driver/) if it is missing, compiles /repo's current tree with it into a temporary directory and runs the rules in sa/.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
