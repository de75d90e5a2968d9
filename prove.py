"""Tier 1: contracts on the real code, discharged by Verus.

The crate to verify is generated from /repo/src by vx (see DESIGN.md) on every run.
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
VX = os.path.join(BUILD, "target-vx", "release", "vx")
CONTRACTS = os.path.join(VERIF, "contracts")
SKELETON = os.path.join(CONTRACTS, "skeleton.json")
LIBS = ["vio", "vf", "vbits"]
FEATURES = {"a": "obj_import,model_importer", "b": "obj_import,model_importer,triangulation,fast_trig,byte_rw"}

# property -> modules whose obligations decide it (libraries of lemmas included)
from contracts_map import MODULES, NOTES, EXCEPT

SEMANTIC = re.compile(r"not satisfied|assertion failed|possible arithmetic|possible division|possible bit shift|may be out of|"
                      r"could not show|decreases|unreachable|cannot show|might|failed this|precondition|recursive")
LIMIT = re.compile(r"[Rr]esource limit|rlimit|timed? ?out|solver returned unknown|canceled")


def sh(args, timeout, cwd=None):
    try:
        p = subprocess.run(args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", "", ""


def build_vx():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target-vx"), CARGO_NET_OFFLINE="true")
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(VERIF, "vx"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode == 0, p.stdout


def generate(work, features, demote, extra=()):
    os.makedirs(work, exist_ok=True)
    rs, mp = os.path.join(work, "tmf_contracts.rs"), os.path.join(work, "map.json")
    rc, out, err = sh([VX, "--contracts", CONTRACTS, "--out", rs, "--map", mp, "--features", features, "--demote", ";".join(demote), *extra], 60)
    if rc != 0:
        return None, err
    m = json.load(open(mp))
    mods, cur = [], ""
    for line in open(rs):
        x = re.match(r"pub mod (\w+)", line)
        cur = x.group(1) if x else cur
        mods.append(cur)
    for f in m["functions"]:
        if not f.get("missing"):
            f["module"] = mods[f["start"] - 1]
    return m, rs


def verus(rs, modules, rlimit, seed, timeout):
    cmd = ["verus", "--crate-type", "lib", rs, "--triggers-mode", "silent", "--output-json", "--time-expanded",
           "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "4"]
    for m in modules:
        cmd += ["--verify-only-module", m]
    if seed is not None:
        cmd += ["--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"]
    rc, out, err = sh(cmd, timeout, cwd=os.path.dirname(rs))
    try:
        res = json.loads(out[out.index("{"):])
    except ValueError:
        res = None
    diags = []
    for line in err.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error" and d.get("spans"):
                diags.append(d)
            elif d.get("level") == "error" and "aborting" not in d.get("message", ""):
                diags.append(d)
    return rc, res, diags, cmd, err


def locate(mp, diag):
    """the contracted functions a diagnostic points into"""
    def lines(spans):
        for s in spans:
            yield s["line_start"], s["is_primary"]
            e = s.get("expansion")
            if e:
                yield e["span"]["line_start"], s["is_primary"]
    spans = list(lines(diag.get("spans", [])))
    hits = []
    # an error inside a body wins over a contract that it mentions
    for ln, prim in sorted(spans, key=lambda x: not x[1]):
        for f in mp["functions"]:
            if not f.get("missing") and f["start"] <= ln <= f["end"] and f["id"] not in hits:
                hits.append(f["id"])
    return hits


def run(prop, tier, seed, bless=False):
    t0 = time.time()
    if prop not in MODULES:
        return {"level": "other"}
    ok, out = build_vx()
    base = {"level": NOTES.get(prop, {}).get("level", "other"), "explanation": NOTES.get(prop, {}).get("explanation", ""),
            "assumptions": NOTES.get(prop, {}).get("assumptions", []), "back_end": "Verus 0.2026.09.13 with Z3",
            "failed": [], "undecided": []}
    if not ok:
        base["undecided"].append({"what": "everything", "why": "the extractor does not build: " + out[-500:]})
        base["level"] = "other"
        return base
    total = {"obligations": 0, "discharged": 0, "solver_time_s": 0.0, "functions": [], "vacuity": [], "rewrites": set(), "trusted": set(), "cmd": []}
    for cfg, modules in MODULES[prop].items():
        one_config(prop, tier, seed, cfg, modules, base, total)
    base.update(obligations=total["obligations"], discharged=total["discharged"], solver_time_s=round(total["solver_time_s"], 2),
                functions=total["functions"], vacuity=total["vacuity"], rewrites=sorted(total["rewrites"]),
                trusted_base=sorted(total["trusted"]), checker_cmd="; ".join(total["cmd"]), proof_wall_s=round(time.time() - t0, 2))
    if base["undecided"]:
        base["level"] = "other"
    return base


def skeletons():
    try:
        return json.load(open(SKELETON))
    except OSError:
        return {}


def intact(f, cfg):
    s = skeletons().get(cfg, {}).get(f["id"])
    return s is not None and s["loops"] == f["loops"] and set(f["calls"]) <= set(s["calls"])


def one_config(prop, tier, seed, cfg, modules, base, total):
    work = os.path.join(BUILD, f"gen-{prop}-{cfg}")
    demote, res, mp, rs = [], None, None, None
    und = base["undecided"]
    for attempt in range(10):
        mp, rs = generate(work, FEATURES[cfg], demote)
        if mp is None:
            und.append({"what": f"configuration {cfg}", "why": "extraction failed: " + rs[-400:]})
            return
        rc, res, diags, cmd, err = verus(rs, modules, 20, None, 600)
        vr = (res or {}).get("verification-results", {})
        if res is not None and not vr.get("encountered-vir-error") and ("verified" in vr) and not (vr.get("verified", 0) + vr.get("errors", 0) == 0 and diags):
            break
        culprits = []
        for d in diags:
            culprits += [x for x in locate(mp, d)[:1] if x not in demote]
        if not culprits:
            why = "; ".join(d["message"] for d in diags)[:600] or err[-400:] or str(rc)
            und.append({"what": f"configuration {cfg}: all of " + ", ".join(modules), "why": "the generated crate is rejected: " + why})
            return
        for c in culprits:
            if c not in demote:
                demote.append(c)
                msg = next(d["message"] for d in diags if c in locate(mp, d)[:1])
                und.append({"what": c, "why": "outside the verifier's reach as written now: " + msg[:300]})
    else:
        und.append({"what": f"configuration {cfg}", "why": "too many rejected functions"})
        return
    for f in mp["functions"]:
        if f.get("error"):
            und.append({"what": f["id"], "why": str(f["error"])})
    for e in mp["errors"]:
        und.append({"what": e["what"], "why": e["error"]})
    # failures
    bad = {}
    for d in diags:
        for x in (locate(mp, d)[:1] or ["lemma"]):
            bad.setdefault(x, []).append(d)
    if bad:
        # confirm with more resources and another seed: only what fails again counts
        _, res2, diags2, _, _ = verus(rs, modules, 60, 7, 600)
        again = {}
        for d in diags2:
            for x in (locate(mp, d)[:1] or ["lemma"]):
                again.setdefault(x, []).append(d)
        byid = {f["id"]: f for f in mp["functions"] if not f.get("missing")}
        for x in bad:
            if x not in again or skip(prop, x):
                continue
            sem = [d for d in again[x] if SEMANTIC.search(d["message"]) and not LIMIT.search(d["message"])]
            f = byid.get(x)
            if f and sem and intact(f, cfg):
                base["failed"].append({"function": x, "file": f"{f['file']}:{f['line']}", "message": "; ".join(sorted({d["message"] for d in sem})),
                                       "output": "\n".join(d.get("rendered", "") for d in sem)[:6000]})
            else:
                why = "; ".join(sorted({d["message"] for d in again[x]}))[:300]
                if f and sem:
                    why += " (the function was restructured, so the proof text may simply not fit any more)"
                und.append({"what": x, "why": why})
        res = res2 or res
    t = res["times-ms"]
    smt = t.get("smt", {})
    mods = {m["module"]: m for m in smt.get("smt-run-module-times", [])}
    n, good = 0, 0
    fns = {}
    for m in mods.values():
        for fb in m.get("function-breakdown", []):
            n += 1
            good += bool(fb["success"])
            fns[fb["function"]] = fb
    total["obligations"] += n
    total["discharged"] += good
    total["solver_time_s"] += smt.get("smt-run", 0) / 1000
    total["cmd"].append(" ".join(cmd))
    for f in mp["functions"]:
        if f.get("missing"):
            continue
        if f["module"] not in modules or skip(prop, f["id"]):
            continue
        if f["extern"]:
            total["trusted"].add(f"contract assumed, body not verified: {f['id']}")
            continue
        total["functions"].append({"function": f["id"], "source": f"{f['file']}:{f['line']}", "configuration": cfg})
        total["rewrites"].update(f["rewrites"])
    scan(rs, total)
    if tier == "thorough":
        vacuity(prop, cfg, modules, demote, total, und)


def skip(prop, fid):
    """functions of a mapped module that this property does not rest on"""
    return any(re.search(r, fid) for r in EXCEPT.get(prop, []))


def scan(rs, total):
    text = open(rs).read()
    lines = text.splitlines()
    mod = ""
    for i, l in enumerate(lines):
        m = re.match(r"pub mod (\w+)", l)
        if m:
            mod = m.group(1)
        if "external_body" in l or "assume_specification" in l or re.search(r"\baxiom fn\b|\badmit\(\)|\bassume\(", l):
            sig = " ".join(x.strip() for x in lines[i:i + 6])
            m = re.search(r"assume_specification\S*\s*\[([^\]]*)\]", sig) or re.search(r"(?:fn|struct)\s+(\w+)", sig)
            what = (m.group(1) if m else sig[:60]).strip()
            if mod in ("vio", "vf", "vbits", "vfl", "vext") or "assume_spec" in l or "axiom" in l or "admit" in l or "assume(" in l:
                total["trusted"].add(f"assumed contract: {mod}::{what}")


def vacuity(prop, cfg, modules, demote, total, und):
    """every contracted function must be reachable: an added assert(false) at its start and in its loops has to fail"""
    work = os.path.join(BUILD, f"gen-{prop}-{cfg}-vac")
    mp, rs = generate(work, FEATURES[cfg], demote, ["--vacuity"])
    if mp is None:
        return
    rc, res, diags, cmd, err = verus(rs, modules, 20, None, 600)
    if res is None:
        return
    text = open(rs).read().splitlines()
    failed = {s["line_start"] for d in diags for s in d.get("spans", []) if s["is_primary"]}
    for i, l in enumerate(text):
        if "vacuity-probe" in l:
            owner = [f for f in mp["functions"] if not f.get("missing") and f["start"] <= i + 1 <= f["end"]]
            if not owner or owner[0]["module"] not in modules or skip(prop, owner[0]["id"]):
                continue
            ok = (i + 1) in failed
            total["vacuity"].append({"at": owner[0]["id"], "reachable": ok})


def bless():
    build_vx()
    sk = {}
    for cfg, feats in FEATURES.items():
        mp, rs = generate(os.path.join(BUILD, "gen-bless"), feats, [])
        assert mp is not None, rs
        assert not mp["errors"], mp["errors"]
        bad = [f for f in mp["functions"] if f.get("error")]
        assert not bad, bad
        sk[cfg] = {f["id"]: {"loops": f["loops"], "calls": f["calls"]} for f in mp["functions"] if not f["extern"]}
    with open(SKELETON, "w") as f:
        json.dump(sk, f, indent=0, sort_keys=True)
        f.write("\n")
    print({c: len(v) for c, v in sk.items()})


if __name__ == "__main__":
    if sys.argv[1] == "--bless":
        bless()
    else:
        r = run(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick", 1)
        for k in ("trusted_base", "functions", "rewrites", "vacuity"):
            for x in r.get(k, []):
                print(k, x)
        print({k: v for k, v in r.items() if k not in ("trusted_base", "functions", "rewrites", "vacuity")})
