#!/usr/bin/env python3
"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, subprocess, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
sys.dont_write_bytecode = True
import registry
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
for k in registry.CHECKS:
    assert k in props, k
checks, na = [], []
for i in props:
    if i not in registry.CHECKS:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "No check built yet.")))
        continue
    c = registry.CHECKS[i]
    checks.append(dict(
        property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
        technique="bounded symbolic execution of the compiled Rust code (Kani: MIR to CBMC, SAT solver), counterexamples replayed natively",
        level="other",
        level_note="Holds for every value within the stated bounds: " + c["what"] + ". " + c.get("note", "")
        + " Trusts rustc/Kani/CBMC and the SAT solver" + ("; assumes: " + "; ".join(c["assumptions"]) if c.get("assumptions") else "") + "."
        + (" Outside the bounds: " + c["outside"] + "." if c.get("outside") else "")))
g = lambda *a: subprocess.run(["git", "-C", "/repo", *a], capture_output=True, text=True).stdout.split()
hooks = g("log", "--format=%h", "--grep=^verif hook", "HEAD")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="tlsn_verif_small", enable="RUSTFLAGS=\"--cfg tlsn_verif_small\" (set by check.py for the harness crates listed in registry.RUSTFLAGS)",
                    source_commits=hooks),
         checks=checks, not_applicable=na,
         notes="check.py runs cargo kani on harness crates in h/ that depend on /repo's crates through .ws (generated). See DESIGN.md.")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
