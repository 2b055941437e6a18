#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property; --setup prebuilds; --replay FILE replays a counterexample."""
import hashlib, json, os, subprocess, sys, time, re, signal

import vlib
from vlib import B, V, CheckError
from checks import CHECKS

TIERS = ("quick", "thorough")


def load_known(pid):
    out = []
    f = V / "KNOWN_FINDINGS.txt"
    if f.exists():
        for l in f.read_text().splitlines():
            m = re.match(r"known: property=(\S+) match=<<(.*?)>> (.*)$", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run_engine(h, entry, params, timeout, seed, known, opts):
    d = B / "tmp"
    d.mkdir(parents=True, exist_ok=True)
    out = d / ("%s.%d.json" % (entry, os.getpid()))
    cmd = [str(B / "wsym/release/wsym"), "--module", str(vlib.wasm_of(h)), "--entry", entry, "--params",
           ",".join(map(str, params)), "--out", str(out), "--timeout", str(timeout), "--seed", str(seed),
           "--procs", "8", "--samples", str(opts.get("samples", 24)), "--max-fails", str(opts.get("max_fails", 12))]
    for o in ("max_instrs", "rlimit"):
        if o in opts:
            cmd += ["--" + o.replace("_", "-"), str(opts[o])]
    for k, _ in known:
        cmd += ["--known", k]
    if opts.get("dump"):
        cmd += ["--dump", opts["dump"]]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=timeout + 60)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("%s: the executor did not stop" % entry)
    if p.returncode != 0 or not out.exists():
        raise CheckError("%s: executor exit %s\n%s" % (entry, p.returncode, txt.decode("utf-8", "replace")[-3000:]))
    res = json.loads(out.read_text())
    ev = []
    evf = str(out) + ".events"
    if os.path.exists(evf):
        for l in open(evf, errors="replace"):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
        os.unlink(evf)
    out.unlink()
    return res, ev, txt.decode("utf-8", "replace")


def decide(pid, tier):
    c = CHECKS[pid]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = load_known(pid)
    budget = c.get("budget", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    harnesses = sorted({r["h"] for r in c["runs"]})
    vlib.build_engine()
    vlib.build_harness(harnesses)
    tot = dict.fromkeys("paths_ok paths_fail paths_assumed incomplete instructions branches forks queries cache_hits sat unsat domain_steps".split(), 0)
    solver_s = 0.0
    funcs, samples, runs, problems, violations, known_seen = set(), [], [], [], [], {}
    validated = 0
    mism = []
    for r in c["runs"]:
        params = r.get(tier, r["quick"])
        if params is None:
            continue
        left = budget - (time.time() - t0)
        if left < 5:
            problems.append("%s: no time left" % r["entry"])
            break
        res, ev, txt = run_engine(r["h"], r["entry"], params, int(left), seed, known, r)
        for k in tot:
            tot[k] += res[k]
        solver_s += res["solver_s"]
        funcs.update(res["functions"])
        runs.append({"entry": r["entry"], "params": params, "bound": r.get("bound", ""), "paths": res["paths_ok"] + res["paths_fail"],
                     "paths_outside_assumptions": res["paths_assumed"], "queries": res["queries"], "unsat": res["unsat"], "sat": res["sat"],
                     "solver_s": res["solver_s"], "wall_s": res["wall_s"], "instructions": res["instructions"], "reach": res["reach"],
                     "symbolic_inputs": res["vars"][:40]})
        found = False
        for e in ev:
            if e["kind"] == "path":
                continue
            out, text, _ = vlib.replay(r["h"], r["entry"], e["model"], params, timeout=r.get("replay_timeout", 20))
            bad = out in ("fail", "crash", "hang")
            if e["kind"] == "fail" and e.get("known"):
                k = next((k for k in known if k[0] in e["msg"]), None)
                if k and bad:
                    known_seen.setdefault(k[0], e)
                elif k:
                    problems.append("%s: known finding does not reproduce natively: %s" % (r["entry"], e["msg"][:300]))
                continue
            if bad:
                msg = text if out == "fail" else "%s (%s)" % (e["msg"], out)
                if any(k[0] in msg for k in known):
                    known_seen.setdefault(next(k[0] for k in known if k[0] in msg), e)
                    continue
                violations.append((r, params, e, msg))
                found = True
            elif e["kind"] == "fail":
                problems.append("%s: counterexample does not reproduce natively (%s): %s model=%s" % (r["entry"], out, e["msg"][:600], json.dumps(e["model"])[:600]))
            elif e["kind"] == "incomplete":
                problems.append("%s: incomplete: %s" % (r["entry"], e["msg"][:600]))
        if res["incomplete"] and not found and not any(p.startswith(r["entry"]) for p in problems):
            problems.append("%s: incomplete paths: %d %s" % (r["entry"], res["incomplete"], txt[-500:]))
        # translator validation: sampled path models must give the same observations natively
        n = 0
        for e in ev:
            if e["kind"] != "path":
                continue
            out, text, obs = vlib.replay(r["h"], r["entry"], e["model"], params, timeout=r.get("replay_timeout", 20))
            want = [(o[0], o[1], str(o[2])) for o in e["obs"]]
            got = [(o[0], o[1], str(o[2])) for o in obs]
            if out == "ok" and want == got:
                validated += 1
                n += 1
                if len(samples) < 12 and n <= 3:
                    samples.append({"entry": r["entry"], "model": e["model"], "observed": len(want)})
            else:
                mism.append("%s: native run differs from the executor (%s, %s vs %s): model %s" % (r["entry"], out, want, got, json.dumps(e["model"])[:500]))
        if not found and not res["stopped"]:
            for tag in r.get("reach", []):
                if not res["reach"].get(str(tag)):
                    problems.append("%s: witness %s not reached (vacuous)" % (r["entry"], tag))
        if res["paths_ok"] == 0 and not found and not res["paths_fail"]:
            problems.append("%s: no path completed" % r["entry"])
    problems += mism[:3]
    known_ok = [k for k in known if k[0] in known_seen]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths_ok"] + tot["paths_fail"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"entry": runs[0]["entry"] if runs else "", "note": "no sampled path"}],
            "rule": "states = symbolic execution paths decided (each stands for every input satisfying its path condition); transitions = branch decisions on symbolic conditions; traces validated = solver models of paths re-run on the natively compiled code with equal observations",
            "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "query_cache_hits": tot["cache_hits"],
            "solver_s": round(solver_s, 3), "solver": "z3 4.8.12 (C API)", "instructions_executed_symbolically": tot["instructions"],
            "paths_outside_assumptions": tot["paths_assumed"], "incomplete_paths": tot["incomplete"],
            "functions_encoded": len(funcs),
            "functions_of_the_repository": sorted(f for f in funcs if is_repo(f))[:400],
            "bounds": c["bounds"], "runs": runs,
            "known_findings_seen": [k[0] for k in known_ok],
        },
        "assumptions": c["assumptions"] + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    (V / "evidence").mkdir(exist_ok=True)
    (V / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1) + "\n")
    for k in known_ok:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))
    print("%s %s: %d paths, %d branch decisions, %d queries (%.1f s solver), %d functions, %d native validations, %.1f s"
          % (pid, tier, ev["coverage"]["states"], tot["branches"], tot["queries"], solver_s, len(funcs), validated, time.time() - t0))
    if violations:
        for i, (r, params, e, msg) in enumerate(violations[:5]):
            rp = B / "replay"
            rp.mkdir(exist_ok=True)
            f = rp / ("%s-%d.json" % (pid, i))
            f.write_text(json.dumps({"property": pid, "harness": r["h"], "entry": r["entry"], "params": params, "model": e["model"], "message": msg}, indent=1) + "\n")
            print("  %s: %s" % (r["entry"], msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if problems:
        for p in problems[:10]:
            print("ERROR " + p)
        return 3
    return 0


REPO_CRATES = None


def is_repo(f):
    global REPO_CRATES
    if REPO_CRATES is None:
        REPO_CRATES = set()
        for p in (vlib.REPO / "crates").rglob("Cargo.toml"):
            if "target" in p.parts:
                continue
            m = re.search(r'(?m)^name = "([^"]+)"', p.read_text())
            if m:
                REPO_CRATES.add(m.group(1).replace("-", "_"))
    return any(w in REPO_CRATES for w in re.findall(r"(?:^|[<( ])([a-z_0-9]+)::", f))


COMMON_ASSUMPTIONS = [
    "the executor interprets the wasm32 code rustc 1.90 generates (opt-level 2, overflow checks off) from /repo's current sources; usize is 32 bits there",
    "rustc/LLVM, the executor (/verif/wsym) and z3 4.8.12 are trusted; every violation and a sample of path models are re-run on the natively compiled x86-64 code",
    "hash seeds, randomness and the clock are stubbed with fixed or harness-chosen values",
]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        vlib.build_engine()
        vlib.build_harness(sorted({r["h"] for c in CHECKS.values() for r in c["runs"]}))
        return 0
    if a and a[0] == "--replay":
        d = json.loads(open(a[1]).read())
        vlib.build_harness([d["harness"]])
        out, text, obs = vlib.replay(d["harness"], d["entry"], d["model"], d["params"], show=True)
        print(out, text)
        return 1 if out in ("fail", "crash", "hang") else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in TIERS:
        tier = "quick"
    return decide(pid, tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR %s" % e)
        sys.exit(3)
