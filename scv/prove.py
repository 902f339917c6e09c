"""Child process: verify the contracts of one spec module."""
import concurrent.futures as cf
import importlib
import json
import sys
import time


def main(modname, tier, budget):
    import build
    import verify
    from core import Program, TU
    m = importlib.import_module("specs." + modname)
    spec = m.SPEC
    t = time.time()
    srcs = [build.VERIF + s[5:] if s.startswith("VERIF/") else s for s in spec["tus"]]
    with cf.ThreadPoolExecutor(8) as ex:
        files = list(ex.map(build.extract, srcs))
    P = Program([TU(f) for f in files])
    rl = spec.get("rlimit", 40_000_000) * (1 if tier == "quick" else 3)
    rs, missing = verify.verify_all(P, spec, rl=rl, procs=8, timeout=budget)
    out = {"module": modname, "missing": missing, "functions": [], "assumptions": list(spec.get("assumptions", ()))}
    for con in spec["contracts"](P):
        if con.trusted:
            out["assumptions"].append("assumed contract (unverified): %s - %s" % (con.name, con.trusted))
    for r in rs:
        f = P.functions[r.key] if hasattr(r, "key") else {}
        out["functions"].append({
            "contract": r.con, "function": r.fn, "file": f.get("file"), "line": f.get("line"), "status": r.status, "note": r.note,
            "s": round(getattr(r, "secs", 0), 2), "meta": r.meta,
            "obls": [{"name": o[0], "kind": o[1], "st": o[2], "by": o[3], "s": round(o[4], 3), "model": o[5]} for o in r.obls]})
    sys.stdout.write("\nRESULT " + json.dumps(out) + "\n")
