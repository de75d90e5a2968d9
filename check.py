#!/usr/bin/env python3
"""Decides one property of /repo: contracts (Verus, tier 1) and bounded search on the real code (tier 2).

usage: check.py <property> [quick|thorough]
Exit 0: held.  Exit 1 and a VIOLATION line: broken.  See DESIGN.md for the verdict rules.
"""
import json, os, resource, subprocess, sys, time, threading, shutil

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, VERIF)
BUILD = os.path.join(VERIF, "build")          # git-ignored
OUT = os.path.join(VERIF, "out")              # git-ignored: replay files
HARNESS = os.path.join(VERIF, "harness")
CONFIGS = [("a", [], "default features"), ("b", ["--features", "alt"], "triangulation, fast_trig, byte_rw, tokio_runtime")]
MEM = 9 << 30


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build_harness(name, args):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target-" + name), CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", *args], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout[-6000:], os.path.join(BUILD, "target-" + name, "release", "tmfcheck")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_exe(exe, args, timeout):
    try:
        p = subprocess.run([exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           timeout=timeout, preexec_fn=limits)
        return p.returncode, p.stdout, p.stderr[-4000:]
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def bounded(prop, seed, thorough, secs, scale, cfg, exe):
    """Runs the bounded search in one configuration. -> dict with either 'result' or 'failure'"""
    marks = os.path.join(BUILD, f"marks-{prop}-{cfg}")
    digests = os.path.join(BUILD, f"digests-{prop}-{cfg}")
    base = [prop, "--seed", str(seed)] + (["--thorough"] if thorough else [])
    for attempt, threads in enumerate((8, 2)):
        args = base + ["--secs", str(secs), "--scale", str(scale), "--marks", marks, "--digests", digests, "--threads", str(threads)]
        rc, out, err = run_exe(exe, args, secs * 2 + 240)
        if rc in (0, 1):
            try:
                res = json.loads(out)
            except ValueError:
                rc = "garbled"
        if rc in (0, 1):
            if res["failure"]:
                f = res["failure"]
                return {"result": res, "failure": {"config": cfg, "case": f"{f['kind']}:{f['idx']}", "seed": seed,
                        "message": f["message"], "input": f["input"]}}
            return {"result": res, "failure": None, "digests": digests}
        # the process died (stack overflow, abort) or hung: find the case among the ones that were running
        log(f"{prop} config {cfg}: harness ended with {rc}: {err[-300:]}")
        cases = []
        try:
            raw = open(marks, "rb").read()
            for t in range(len(raw) // 16):
                cases.append((int.from_bytes(raw[16 * t:16 * t + 8], "little"), int.from_bytes(raw[16 * t + 8:16 * t + 16], "little")))
        except OSError:
            pass
        for k, i in cases:
            rc1, out1, err1 = run_exe(exe, base + ["--case", f"{k}:{i}"], 120)
            if rc1 != 0:
                what = "did not end within 120 s" if rc1 == "timeout" else f"ended with {rc1}"
                return {"result": None, "failure": {"config": cfg, "case": f"{k}:{i}", "seed": seed,
                        "message": f"the process {what}: {err1[-600:]}", "input": out1[:20000]}}
    return {"result": None, "failure": None, "broken": f"harness ended with {rc} and no single case reproduces it: {err[-500:]}"}


def compare_digests(prop, runs, exes, seed, thorough):
    """C18: both configurations must compute the same results from the same files."""
    d = {}
    for c, r in runs.items():
        d[c] = {}
        for line in open(r["digests"]):
            a, b = line.split()
            d[c][int(a)] = b
    bad = sorted(i for i in d["a"] if i in d["b"] and d["a"][i] != d["b"][i])
    return bad, len([i for i in d["a"] if i in d["b"]])


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    for d in (BUILD, OUT, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    import prove
    proof = {}
    t = threading.Thread(target=lambda: proof.update(prove.run(prop, tier, seed)))
    t.start()
    built = {}
    threads = [threading.Thread(target=lambda n=n, a=a: built.__setitem__(n, build_harness(n, a))) for n, a, _ in CONFIGS]
    for x in threads:
        x.start()
    for x in threads:
        x.join()
    t.join()
    for n, _, _ in CONFIGS:
        if not built[n][0]:
            log(f"building config {n} failed:\n{built[n][1]}")
    if not built["a"][0]:
        log("the code under test cannot be built")
        sys.exit(3)
    secs, scale = (150.0, 1.0) if thorough else (12.0, 1.5)
    runs, failure, notes = {}, None, []
    for n, _, desc in CONFIGS:
        if not built[n][0]:
            notes.append(f"configuration {n} ({desc}) does not build and was not explored")
            continue
        r = bounded(prop, seed, thorough, secs, scale, n, built[n][2])
        runs[n] = r
        if r.get("broken"):
            log(r["broken"])
            notes.append(f"configuration {n}: {r['broken']}")
        if r["failure"]:
            failure = r["failure"]
            break
    ok_runs = {c: r for c, r in runs.items() if r.get("result")}
    compared = 0
    if prop == "C18" and not failure and len(ok_runs) == 2:
        bad, compared = compare_digests(prop, ok_runs, built, seed, thorough)
        if bad:
            failure = {"config": "a vs b", "case": f"0:{bad[0]}", "seed": seed, "input": f"case index {bad[0]} of seed {seed}",
                       "message": f"the single threaded and the multi-threaded runtime give different meshes for {len(bad)} files"}
    if not ok_runs and not failure:
        log("no configuration could be explored")
        sys.exit(3)
    failed = proof.get("failed", [])
    if failed and not failure:
        # A proof broke and no failing input is known yet: look harder before reporting it without one.
        log("obligations failed, searching longer for a failing input: " + "; ".join(f["function"] for f in failed))
        for n, _, _ in CONFIGS:
            if n in ok_runs:
                r = bounded(prop, seed + 1000, True, 60.0, 1.0, n, built[n][2])
                if r["failure"]:
                    failure = r["failure"]
                    break
    violations = 0
    known = known_findings(prop)
    lines = []
    if failure:
        k = [x for x in known if x["match"] in failure["message"]]
        if k:
            lines.append(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
            failure = None
    if failure or failed:
        violations = 1
        path = os.path.join(OUT, f"{prop}.replay.txt")
        write_replay(path, prop, tier, failure, failed, proof)
        tail = "" if failure else " no-failing-input-found"
        lines.append(f"VIOLATION property={prop} replay={path}{tail}")
    write_evidence(prop, tier, seed, runs, proof, notes, compared, start, violations)
    for x in lines:
        print(x)
    if failure:
        print(f"  {failure['message'][:1500]}")
    for f in failed:
        print(f"  failed obligation: {f['function']} ({f['file']}): {f['message']}")
    sys.exit(1 if violations else 0)


def known_findings(prop):
    res = []
    try:
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith(f"finding: property={prop} "):
                match, what = line[len(f"finding: property={prop} "):].strip().split(" :: ", 1)
                res.append({"match": match, "what": what})
    except OSError:
        pass
    return res


def write_replay(path, prop, tier, failure, failed, proof):
    with open(path, "w") as f:
        f.write(f"property {prop}\n")
        if failure:
            th = " --thorough" if tier == "thorough" else ""
            f.write(f"failing input found on the real code (configuration {failure['config']}):\n  {failure['message']}\n\n")
            f.write(f"replay: {os.path.join(BUILD, 'target-' + failure['config'][0])}/release/tmfcheck {prop} --seed {failure['seed']}{th} --case {failure['case']}\n")
            f.write(f"\ninput:\n{failure['input']}\n")
        for x in failed:
            f.write(f"\nfailed obligation: {x['function']} from {x['file']}\n{x['message']}\n{x['output']}\n")
        if failed and not failure:
            f.write("\nThe verifier gives no counterexample for this obligation and the bounded search found no failing input.\n")


def write_evidence(prop, tier, seed, runs, proof, notes, compared, start, violations):
    ok = {c: r["result"] for c, r in runs.items() if r.get("result")}
    b = {
        "kind": "bounded: seeded, generated cases on the compiled real code; never counted as proved",
        "evaluations": sum(r["evaluations"] for r in ok.values()),
        "distinct_nontrivial": max([r["distinct_nontrivial"] for r in ok.values()] or [0]),
        "per_configuration": {c: {"features": d, "evaluations": ok[c]["evaluations"], "cases_per_generator": ok[c]["per_kind"]}
                              for c, _, d in CONFIGS if c in ok},
        "samples": [s for r in list(ok.values())[:1] for s in r["samples"]][:6],
    }
    if compared:
        b["files_compared_between_runtimes"] = compared
    level = proof.get("level", "other")
    cov = {
        "obligations": proof.get("obligations", 0),
        "discharged": proof.get("discharged", 0),
        "checker_cmd": proof.get("checker_cmd", ""),
        "trusted_base": proof.get("trusted_base", []),
        "functions_under_contract": proof.get("functions", []),
        "undecided": proof.get("undecided", []),
        "back_end": proof.get("back_end", ""),
        "solver_time_s": proof.get("solver_time_s", 0),
        "vacuity_checks": proof.get("vacuity", []),
        "rewrites": proof.get("rewrites", []),
        "bounded": b,
        "evaluations": b["evaluations"],
        "distinct_nontrivial": b["distinct_nontrivial"],
        "rule": "cases are generated from the seed by the generators listed under bounded; a case is non-trivial unless its "
                "generator marks it as exercising nothing, and distinct by a hash of its input",
        "samples": b["samples"] or ["none"],
        "explanation": proof.get("explanation", "") or "see DESIGN.md",
        "notes": notes,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": proof.get("assumptions", []), "wall_s": round(time.time() - start, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


main()
