#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

1. extracts the functions under contract from /repo's current source,
2. generates and discharges their verification conditions,
3. runs the bounded native stand-in of the functions out of the verifier's
   reach, which is also the replay of failed obligations on the real code.
"""
import argparse
import concurrent.futures as cf
import importlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import build  # noqa: E402
from props import PROPS  # noqa: E402

VERIF = build.VERIF


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    except FileNotFoundError:
        return []


def prove_spec(modname, tier, budget):
    """Runs in its own process: verify one spec module."""
    code = ("import sys,json;sys.path.insert(0,%r);sys.setrecursionlimit(20000);import prove;prove.main(%r,%r,%d)"
            % (HERE, modname, tier, budget))
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    m = re.search(r"^RESULT (.*)$", p.stdout, re.M)
    if not m:
        return {"module": modname, "error": (p.stderr or p.stdout)[-1500:], "functions": [], "missing": []}
    return json.loads(m.group(1))


def run_native(binary, prop, secs, seed, known, extra=()):
    cmd = [binary, prop, str(secs), str(seed)] + list(extra)
    for k in known:
        cmd += ["--known", k]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=secs * 5 + 60)
    except subprocess.TimeoutExpired:
        return {"status": "timeout", "out": ""}
    fails = [l for l in p.stdout.split("\n") if l.startswith("FAIL")]
    ok = re.search(r"^OK evaluations=(\d+) distinct=(\d+)", p.stdout, re.M)
    r = {"status": "fail" if fails else ("ok" if ok else "error"), "out": p.stdout[-4000:], "cmd": cmd,
         "fails": fails, "known": re.findall(r"^KNOWN label=(\S+) (.*)$", p.stdout, re.M),
         "samples": re.findall(r"^SAMPLE (.*)$", p.stdout, re.M), "rc": p.returncode}
    if ok:
        r["evaluations"], r["distinct"] = int(ok.group(1)), int(ok.group(2))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--no-native", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid, cfg = a.prop, PROPS[a.prop]
    known = [k for k in load_known() if k.get("property") == pid]
    klabels = [k["label"] for k in known if k.get("label")]
    kobl = [k["obligation"] for k in known if k.get("obligation")]
    errors = []
    binary = None
    proofs = []
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build.native, cfg["native"], cfg.get("initializer", False)) if cfg.get("native") and not a.no_native else None
        try:
            build.extractor()
        except build.BuildError as e:
            errors.append(str(e))
        budget = cfg.get("budget", 240 if tier == "quick" else 800)
        fp = [] if a.no_proof or errors else [ex.submit(prove_spec, m, tier, budget) for m in cfg["specs"]]
        proofs = [f.result() for f in fp]
        if fb:
            try:
                binary = fb.result()
            except build.BuildError as e:
                errors.append(str(e)[-1500:])
    nat = None
    nsec = cfg.get("native_s", 8) * (1 if tier == "quick" else 12)
    if binary:
        nat = run_native(binary, pid, nsec, seed, klabels)
    # ------------------------------------------------------------- verdict
    funcs, failed, undecided, total, disch = [], [], [], 0, 0
    back, solver_s = {}, 0.0
    contracts_used, inlined, models, assumed, missing = set(), set(), set(), set(), []
    kinds = {}
    for pr in proofs:
        if pr.get("error"):
            errors.append("%s: %s" % (pr["module"], pr["error"]))
        missing += ["%s: %s" % (pr["module"], x) for x in pr["missing"]]
        for f in pr["functions"]:
            funcs.append(f)
            m = f.get("meta", {})
            contracts_used |= set(m.get("contracts", ()))
            inlined |= set(m.get("inlined", ()))
            models |= set(m.get("models", ()))
            assumed |= set(m.get("assumed", ()))
            if f["status"] == "unsupported":
                undecided.append("%s (%s): %s" % (f["contract"], f["function"], f["note"]))
            for o in f["obls"]:
                total += 1
                solver_s += o["s"]
                kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
                if o["st"] == "proved":
                    disch += 1
                    back[o["by"]] = back.get(o["by"], 0) + 1
                elif o["st"] in ("refuted", "unknown", "vacuous"):
                    failed.append((f, o))
                else:
                    undecided.append("%s: %s" % (o["name"], o["st"]))
        assumed |= set(pr.get("assumptions", ()))
    kfound = []
    realfail = []
    for f, o in failed:
        hit = next((k for k in known if k.get("obligation") and re.fullmatch(k["obligation"], o["name"])), None)
        (kfound.append(hit["text"]) if hit else realfail.append((f, o)))
    violation = None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rp = os.path.join(VERIF, "replays", "%s.json" % pid)
    if nat and nat["status"] == "fail":
        violation = {"property": pid, "kind": "failing input on the real code", "fails": nat["fails"],
                     "replay_cmd": " ".join(nat["cmd"]), "seed": seed}
    elif realfail and binary:
        # Replay search on the real code for the failed obligation.
        for extra_seed in range(seed + 1, seed + 4):
            nat2 = run_native(binary, pid, cfg.get("replay_s", 20), extra_seed, klabels)
            if nat2["status"] == "fail":
                violation = {"property": pid, "kind": "failing input on the real code", "fails": nat2["fails"],
                             "replay_cmd": " ".join(nat2["cmd"]), "seed": extra_seed}
                break
    if realfail:
        v = violation or {"property": pid, "kind": "failed obligation, no failing input found"}
        v["obligations"] = [{"name": o["name"], "function": f["function"], "file": f.get("file"), "line": f.get("line"),
                             "status": o["st"], "model": o.get("model")} for f, o in realfail[:20]]
        violation = v
    for k in kfound:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if nat:
        for l, txt in nat.get("known", ()):
            kt = next((k["text"] for k in known if k.get("label") == l), txt)
            print("KNOWN-FINDING: property=%s %s" % (pid, kt))
    # ------------------------------------------------------------- evidence
    trusted = list(BASE_TRUST) + ["model of " + m for m in sorted(models)] + sorted(assumed) + list(cfg.get("trust", ()))
    cov = {
        "obligations": total, "discharged": disch,
        "checker_cmd": "python3-vt /verif/scv/check.py %s --tier %s" % (pid, tier),
        "trusted_base": trusted,
        "functions_under_contract": sorted({"%s @ %s:%s" % (f["function"], f.get("file"), f.get("line")) for f in funcs}),
        "functions_verified": sum(1 for f in funcs if f["status"] == "ok"),
        "functions_attempted": len(funcs),
        "obligation_kinds": kinds, "back_ends": back, "solver_s": round(solver_s, 2),
        "inlined_functions": sorted(inlined), "contracts_used_at_calls": sorted(contracts_used),
        "undecided": undecided + missing + errors,
        "per_function": [{"contract": f["contract"], "function": f["function"], "status": f["status"], "note": f["note"],
                          "obligations": len(f["obls"]), "s": f.get("s"), "loops": f.get("meta", {}).get("loops", [])} for f in funcs],
        "failed_obligations": [o["name"] for _, o in realfail],
    }
    if cfg.get("native"):
        cov["bounded_stand_in"] = {
            "label": "bounded, never counted as proved",
            "covers": cfg.get("bounded", ""),
            "evaluations": (nat or {}).get("evaluations", 0), "distinct_inputs": (nat or {}).get("distinct", 0),
            "samples": (nat or {}).get("samples", []), "status": (nat or {}).get("status", "not built"),
            "seconds": nsec, "harness": "/verif/native/%s.cc" % cfg["native"]}
    level = cfg.get("level", "proof")
    if level != "proof":
        cov.update(evaluations=(nat or {}).get("evaluations", 0), distinct_nontrivial=(nat or {}).get("distinct", 0),
                   rule=cfg.get("bounded", "") + "; distinct by the description of the input", samples=(nat or {}).get("samples", []),
                   explanation="the property as a whole is decided by the bounded check of the real code; the contracts listed cover the named functions only")
    elif not total or disch != total or undecided or missing or errors:
        level = "other"
        cov["explanation"] = ("some contracts could not be decided on this tree (listed under undecided/failed_obligations); "
                              "the bounded stand-in decided those parts")
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(cfg.get("assumptions", ())) + sorted(assumed),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fo:
        json.dump(ev, fo, indent=1)
    print("%s: %d/%d obligations discharged over %d functions (%d undecided); native: %s; %.1f s" % (
        pid, disch, total, len(funcs), len(undecided) + len(missing) + len(errors),
        "%s %s" % (nat["status"], nat.get("evaluations", "")) if nat else "none", time.time() - t0))
    for u in (undecided + missing + errors)[:20]:
        print("  undecided: " + u[:400])
    if violation:
        with open(rp, "w") as fo:
            json.dump(violation, fo, indent=1)
        for f, o in realfail[:10]:
            print("  failed obligation: %s (%s)" % (o["name"], o["st"]))
        for x in violation.get("fails", []):
            print("  " + x[:1500])
        tail = "" if violation.get("fails") else " no-failing-input-found"
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, tail))
        return 1
    return 0


BASE_TRUST = [
    "clang 18 front end (AST of /repo's real sources) and the extractor scv/extract.cc",
    "the VC generator scv/engine.py, scv/lib.py (its models of the C++ standard library and Boost listed below)",
    "z3 5.3, cvc5 1.1.2, z3 4.8.12",
    "dropped by the extraction: LOG/TIMER statements, exception payloads (error strings), destructors, allocator effects",
    "integers are mathematical unless an overflow obligation is listed; termination is not proved",
]

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # an internal error decides nothing
        import traceback
        traceback.print_exc()
        print("undecided: internal error of the check")
        rc = 0
    sys.exit(rc)
