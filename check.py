#!/usr/bin/env python3
"""Decides one property of /repo by bounded symbolic execution (Kani/CBMC) of the real code.

    check.py ID [--tier quick|thorough]

Exit 0: every harness of the property holds within its bounds (and its witnesses are reachable).
Exit 1: a counterexample reproduces natively; a line `VIOLATION property=ID replay=PATH` is printed.
Exit 2: no answer (timeout, unsupported construct, unreachable witness, non-reproducing model).
"""
import argparse
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import registry  # noqa: E402
import ws  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, ".build"))
NATIVE_TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
START = time.time()
BUDGET = float(os.environ.get("VERIF_BUDGET") or 840)


def left():
    return BUDGET - (time.time() - START)


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, env=None, cwd=None):
    """Runs cmd in its own process group, returns (rc, output); rc None on timeout."""
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, env=e, cwd=cwd)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out


def kani_cmd(crate, harnesses, outdir, extra):
    cdir = ws.crate_dir(ROOT, crate)
    cmd = ["cargo", "kani", "--manifest-path", os.path.join(cdir, "Cargo.toml"), "--lib",
           "--target-dir", os.path.join(BUILD, "kani-" + crate), "-Z", "unstable-options", "-Z", "stubbing",
           "--exact", "--no-assertion-reach-checks", "--no-memory-safety-checks"]
    for h in harnesses:
        cmd += ["--harness", h]
    return cmd + extra


KENV = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}


def crate_env(crate, env):
    """Environment of a build of harness crate `crate` (some need a hook switched on)."""
    flags = registry.RUSTFLAGS.get(crate)
    return dict(env, RUSTFLAGS=flags) if flags else dict(env)


def kani(crate, harnesses, tag, timeout, jobs, extra=()):
    """One cargo-kani invocation. Returns {harness: result}."""
    out = os.path.join(BUILD, f"{tag}.json")
    if os.path.exists(out):
        os.remove(out)
    cmd = kani_cmd(crate, harnesses, out, ["--output-format", "terse", "-j", str(jobs), "--export-json", out,
                                           "--harness-timeout", f"{int(timeout)}s", *extra])
    rc, text = run(cmd, left() - 5, crate_env(crate, KENV))
    with open(os.path.join(BUILD, f"{tag}.log"), "w") as f:
        f.write(text)
    if not os.path.exists(out):
        log(text[-6000:])
        return None, text
    try:
        return json.load(open(out)), text
    except ValueError:
        log(text[-3000:])
        return None, text


class Result:
    def __init__(self, name):
        self.name = name
        self.status = "missing"
        self.failed = []      # checks that failed
        self.total = 0
        self.discharged = 0
        self.covers = []      # (description, status)
        self.functions = set()
        self.stats = {}
        self.ms = 0
        self.timeout = False


def collect(data, names):
    res = {}
    short = lambda h: h
    stats = {c["harness_id"]: c.get("cbmc_stats", {}) for c in data.get("cbmc", [])}
    for r in data["verification_results"]["results"]:
        x = Result(short(r["harness_id"]))
        x.ms = r.get("duration_ms", 0)
        x.status = r["status"]
        for c in r.get("checks", []):
            if c.get("category") == "cover":
                x.covers.append((c["description"], c["status"]))
                continue
            x.total += 1
            st = c["status"]
            if st in ("Success", "Unreachable"):
                x.discharged += 1
            elif st == "Failure":
                x.failed.append(c)
            f = (c.get("location") or {}).get("file") or ""
            m = re.search(r"crates/[\w./-]+\.rs", f)
            if m:
                x.functions.add(m.group(0) + "::" + re.sub(r"<.*", "", c.get("function", "")) if False else (m.group(0), c.get("function", "")))
        x.stats = stats.get(r["harness_id"], {}) or {}
        res[x.name] = x
    return res


def is_unwind(c):
    return c.get("category") in ("unwind", "unwinding") or "unwinding assertion" in (c.get("description") or "") \
        or "recursion unwinding" in (c.get("description") or "")


def is_unsupported(c):
    d = (c.get("description") or "")
    return c.get("category") in ("unsupported_construct",) or "is not currently supported by Kani" in d \
        or "Function with missing definition" in d or "missing definition" in d


def playback_values(text):
    """Concrete values of every generated playback test: [(check description, [bytes])]."""
    tests = []
    for m in re.finditer(r"```\n(.*?)```", text, re.S):
        body = m.group(1)
        if "concrete_vals" not in body:
            continue
        desc = re.search(r"/// Check for `([^`]*)`: (.*)", body)
        vals = []
        arr = body[body.index("concrete_vals"):]
        for v in re.finditer(r"vec!\[([0-9, \n]*)\],?\s*(?=\n)", arr):
            s = v.group(1).strip()
            vals.append(bytes(int(t) for t in s.split(",") if t.strip()) if s else b"")
        tests.append((desc.groups() if desc else ("?", "?"), vals))
    return tests


def native_build(crate, profile):
    cdir = ws.crate_dir(ROOT, crate)
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(cdir, "Cargo.toml"), "--bin", "replay",
           "--target-dir", os.path.join(BUILD, "native-" + crate)]
    if profile == "release":
        cmd.append("--release")
    env = {"RUSTUP_TOOLCHAIN": NATIVE_TOOLCHAIN, "CARGO_NET_OFFLINE": "true"}
    rc, out = run(cmd, min(300, left() - 5), crate_env(crate, env))
    if rc != 0:
        log(out[-3000:])
        return None
    return os.path.join(BUILD, "native-" + crate, "debug" if profile == "dev" else "release", "replay")


def replay_counterexample(prop, crate, h, unwind_only, extra):
    """Returns the path of a reproducing replay file, or None."""
    tag = f"{prop}-{h}-pb"
    cmd = kani_cmd(crate, [h], None, ["--output-format", "terse", "--harness-timeout", f"{int(max(30, min(400, left() - 60)))}s",
                                      "-Z", "concrete-playback", "--concrete-playback=print", *extra])
    rc, text = run(cmd, left() - 40, crate_env(crate, KENV))
    with open(os.path.join(BUILD, f"{tag}.log"), "w") as f:
        f.write(text)
    tests = [t for t in playback_values(text) if t[0][0] != "cover"]
    if not tests:
        log(f"  {h}: no concrete values were produced")
        return None
    d = os.path.join(ROOT, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    files = []
    for i, (desc, vals) in enumerate(tests[:12]):
        path = os.path.join(d, f"{prop}-{h}-{i}.txt")
        with open(path, "w") as f:
            f.write(f"# property {prop}, harness {h} (crate h/{crate})\n# failed check: {desc[0]}: {desc[1]}\n"
                    f"# run: check.py --replay {path}\n# crate={crate} harness={h}\n")
            for v in vals:
                f.write((v.hex() if v else "") + "\n")
        files.append((path, desc))
    for profile in ("dev", "release"):
        exe = native_build(crate, profile)
        if not exe:
            log(f"  native {profile} build failed")
            continue
        for path, desc in files:
            if left() < 10:
                return None
            rc, out = run([exe, h, path], min(60, left() - 5))
            last = out.strip().splitlines()[-1] if out.strip() else ""
            log(f"  replay {profile} {os.path.basename(path)} [{desc[1].strip()}]: rc={rc} {last[:300]}")
            if rc is None or (rc != 0 and rc != 3):
                # a hang, a failed assertion, a panic, or an abort on the real code
                if rc is None or rc < 0 or "REPLAY-FAILED" in out or rc in (101, 134):
                    with open(path, "a") as f:
                        f.write(f"# reproduced natively ({profile}): {'hang' if rc is None else last[:300]}\n")
                    return path
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", help="only harnesses whose name matches this regex (development)")
    ap.add_argument("--replay", help="run a replay file natively")
    ap.add_argument("--setup", action="store_true", help="generate the shadow workspaces and check the tools")
    a = ap.parse_args()
    global BUDGET
    if a.tier == "thorough" and not os.environ.get("VERIF_BUDGET"):
        BUDGET = 6 * 3600
    os.makedirs(BUILD, exist_ok=True)
    ws.generate(ROOT, REPO)
    if a.setup:
        rc, out = run(["cargo", "kani", "--version"], 60)
        log(out.strip())
        return rc
    if a.replay:
        head = open(a.replay).read()
        m = re.search(r"# crate=(\S+) harness=(\S+)", head)
        rcs = []
        for profile in ("dev", "release"):
            exe = native_build(m.group(1), profile)
            rc, out = run([exe, m.group(2), a.replay], 120)
            log(profile, out)
            rcs.append(rc)
        return 1 if any(r != 0 for r in rcs) else 0
    prop = a.prop
    spec = registry.CHECKS[prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    hs = [h for h in spec["harnesses"] if tier == "thorough" or h.get("tier", "quick") == "quick"]
    if a.only:
        hs = [h for h in hs if re.search(a.only, h["name"])]
    by_crate = {}
    for h in hs:
        by_crate.setdefault(h["crate"], []).append(h)

    results, errors, violations, known = {}, [], [], []
    listed = load_known(prop)
    for crate, group in by_crate.items():
        names = [h["name"] for h in group]
        tmo = max(h.get("timeout", 300) for h in group)
        if tier == "thorough":
            tmo = max(tmo, 1500)
        tmo = min(tmo, max(20, left() - 60)) if tier == "quick" else tmo
        jobs = min(spec.get("jobs", 8), len(names))
        data, text = kani(crate, names, f"{prop}-{crate}", tmo, jobs)
        if data is None:
            errors.append(f"cargo kani failed for crate {crate}")
            continue
        res = collect(data, names)
        for h in group:
            x = res.get(h["name"])
            if x is None:
                errors.append(f"{h['name']}: no result (timeout or memory)")
                continue
            x.crate, x.spec = crate, h
            results[h["name"]] = x

        def unwind_only(x):
            return x.failed and all(is_unwind(c) for c in x.failed)

        # A loop that runs longer than the bound: raise the bound before concluding anything.
        for factor in (2, 5):
            again = [x for x in results.values() if x.crate == crate and unwind_only(x)]
            for x in again:
                u = unwind_of(x.name, crate)
                if not u or left() < 90:
                    continue
                tag = f"{prop}-{x.name}-u{factor}"
                data, text = kani(crate, [x.name], tag, min(300, left() - 60), 1, ["--unwind", str(u * factor)])
                if data:
                    y = collect(data, [x.name]).get(x.name)
                    if y and (y.status == "Success" or (y.failed and not unwind_only(y))):
                        y.crate, y.spec, y.unwind = crate, x.spec, u * factor
                        results[x.name] = y

    for name, x in results.items():
        real = [c for c in x.failed if not is_unwind(c) and not is_unsupported(c)]
        if x.status == "Success" and not x.failed:
            bad = [d for d, s in x.covers if s != "Satisfied"]
            if bad and not x.spec.get("finding"):
                errors.append(f"{name}: witness not reachable: {bad}")
            if x.spec.get("finding"):
                log(f"  {name}: listed finding no longer fails")
            continue
        if not x.failed:
            errors.append(f"{name}: {x.status} without a verdict (timeout or memory)")
            continue
        for c in x.failed[:6]:
            log(f"  {name}: {c.get('category')}: {c.get('description')} at {(c.get('location') or {}).get('file')}:{(c.get('location') or {}).get('line')}")
        extra = ["--unwind", str(x.unwind)] if hasattr(x, "unwind") else []
        if violations and (len(violations) >= 3 or time.time() - START > BUDGET / 3):
            log(f"  {name}: not replayed, {len(violations)} violations are enough")
            continue
        path = replay_counterexample(prop, x.crate, name, not real, extra) if left() > 60 else None
        if path:
            if x.spec.get("finding") and any(k["harness"] == name for k in listed):
                known.append((name, next(k for k in listed if k["harness"] == name), path))
            else:
                violations.append((name, path))
        else:
            errors.append(f"{name}: counterexample does not reproduce natively"
                          if real else f"{name}: bound too small or unsupported construct: "
                          + "; ".join((c.get('description') or '') for c in x.failed[:3]))

    if not a.only:
        write_evidence(prop, tier, spec, results, violations, known, errors)
    for x in sorted(results.values(), key=lambda x: -x.ms)[:60]:
        log(f"  {x.status:8} {x.ms/1000:7.1f}s {x.name}  checks={x.total} covers={sum(s == 'Satisfied' for _, s in x.covers)}/{len(x.covers)}")
    for name, k, path in known:
        log(f"KNOWN-FINDING: property={prop} {k['what']}")
    for e in errors:
        log("UNDECIDED:", e)
    log(f"{prop} {tier}: {len(results)} harnesses, {len(violations)} violations, {len(errors)} errors, {time.time()-START:.0f} s")
    if violations:
        for name, path in violations:
            log(f"VIOLATION property={prop} replay={path}")
        return 1
    # What was decided held. Fewer than half of the harnesses decided is no answer at all.
    done = sum(x.status == "Success" and not x.failed and all(s == "Satisfied" for _, s in x.covers) for x in results.values())
    if 2 * (done + len(known)) < len(hs) or not results:
        return 2
    return 0


def unwind_of(name, crate):
    d = os.path.join(ws.crate_dir(ROOT, crate), "src")
    for r, _, fs in os.walk(d):
        for f in fs:
            m = re.search(r"fn " + re.escape(name.split("::")[-1]) + r"\(\) unwind (\d+)", open(os.path.join(r, f)).read())
            if m:
                return int(m.group(1))
    return None


def load_known(prop):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def write_evidence(prop, tier, spec, results, violations, known, errors):
    funcs = sorted({f"{m}: {f}" for x in results.values() for m, f in x.functions})
    tot = sum(x.total for x in results.values())
    dis = sum(x.discharged for x in results.values())
    sat = sum(s == "Satisfied" for x in results.values() for _, s in x.covers)
    st = lambda k: sum((x.stats.get(k) or 0) for x in results.values())
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 1), level="other",
        coverage=dict(
            explanation="Bounded symbolic execution of the library's compiled code (Kani: rustc MIR to CBMC): inputs are "
                        "symbolic, each harness assertion and each implicit check (panic, overflow, bounds, unwinding) is one "
                        "obligation decided by a SAT solver for all values within the stated bounds.",
            harnesses=[dict(name=x.name, crate=x.crate, bounds=x.spec.get("bounds", ""), unwind=getattr(x, "unwind", None) or unwind_of(x.name, x.crate),
                            result=x.status, obligations=x.total, discharged=x.discharged,
                            witnesses=[dict(cond=d, status=s) for d, s in x.covers], seconds=round(x.ms / 1000, 2),
                            solver_s=x.stats.get("runtime_solver_s"), symex_s=x.stats.get("runtime_symex_s"),
                            vccs=x.stats.get("vccs_generated"), vccs_after_simplification=x.stats.get("vccs_remaining"),
                            program_steps=x.stats.get("size_program_expression")) for x in results.values()],
            functions_encoded=funcs, obligations=tot, discharged=dis, witnesses_reached=sat,
            queries_to_solver=st("vccs_remaining"), solver_s=round(st("runtime_decision_procedure_s"), 3),
            symbolic_execution_s=round(st("runtime_symex_s"), 3),
            outside=spec.get("outside", ""), errors=errors,
            known_findings=[k["what"] for _, k, _ in known],
            samples=[dict(harness=x.name, bounds=x.spec.get("bounds", ""), decided=spec.get("what", "")) for x in list(results.values())[:8]],
        ),
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - START, 2), violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
