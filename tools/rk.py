#!/usr/bin/env python3
"""Developer helper: rk.py CRATE SECONDS HARNESS-SUBSTRING...   runs harnesses and prints one line each."""
import json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import registry
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c, t, hs = sys.argv[1], sys.argv[2], sys.argv[3:]
out = f"/tmp/rk-{c}.json"
if os.path.exists(out): os.remove(out)
env = dict(os.environ, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")
if registry.RUSTFLAGS.get(c): env["RUSTFLAGS"] = registry.RUSTFLAGS[c]
cmd = ["cargo", "kani", "--manifest-path", f"{root}/h/{c}/Cargo.toml", "--lib", "--target-dir", f"{root}/.build/kani-{c}",
       "-Z", "unstable-options", "-Z", "stubbing", "--no-assertion-reach-checks", "--no-memory-safety-checks", "--harness-timeout", t + "s",
       "--output-format", "terse", "-j", "8", "--export-json", out]
for h in hs: cmd += ["--harness", h]
p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=root)
open("/tmp/rk.out", "w").write(p.stdout)
if not os.path.exists(out):
    i = re.search(r"^error", p.stdout, re.M)
    print(p.stdout[i.start() if i else -3000:][:4000]); sys.exit(1)
for r in sorted(json.load(open(out))["verification_results"]["results"], key=lambda r: r.get("duration_ms", 0)):
    bad = [(x.get("description") or "")[:70] + " @" + str((x.get("location") or {}).get("line")) for x in r.get("checks", []) if x["status"] not in ("Success", "Unreachable", "Satisfied") and x.get("category") != "cover"]
    cov = [str((x.get("location") or {}).get("line")) for x in r.get("checks", []) if x.get("category") == "cover" and x["status"] != "Satisfied"]
    print(f"{r['status']:9}{r.get('duration_ms',0)/1000:7.1f}s {r['harness_id']}  {'; '.join(bad[:5])} {'UNCOVERED '+','.join(cov) if cov else ''}")
