"""Discharging of obligations: z3 (deterministic resource limits), then cvc5
and the second z3 as fallback back ends."""
import os
import shutil
import subprocess
import tempfile
import time
import z3
from core import *

QUICK_RL = 3_000_000
STATS = {"quick": 0, "quick_s": 0.0}
_axioms = []
_cache = {}


def set_axioms(ax):
    """Background axioms added to each query (named quantified facts)."""
    global _axioms
    _axioms = list(ax)
    _cache.clear()


RETRIES = False          # more attempts within quick(); set from a specification's options
RELEVANCY = None         # z3's relevancy level; set from a specification's options


def _solver(ematch, rl, seed=0, simple=False):
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set("rlimit", rl)
    s.set("timeout", int(max(10000, rl / 300)))
    if seed:
        s.set("random_seed", seed)
    if ematch:
        if RELEVANCY is not None:
            s.set("smt.relevancy", RELEVANCY)
        s.set("auto_config", False)
        s.set("mbqi", False)
    return s


def relevant(pc):
    return pc


def quick(pc, goal, ms=3000):
    g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(g):
        return True
    for p in reversed(pc[-40:]):
        if p.eq(goal):
            return True
    key = (goal.get_id(), tuple(p.get_id() for p in pc))
    if key in _cache:
        return _cache[key][0]
    t = time.time()
    r = False
    cut = False
    for simple, seed in ((True, 0), (False, 0), (None, 0), (True, 11), (True, 23))[:5 if RETRIES else 2]:
        if seed and not cut:
            break       # an answer, not the limit
        s = _solver(simple is not None, ms * (200 if simple else 1000), seed=seed, simple=bool(simple))
        s.set("timeout", ms if simple is not None else min(ms, 400))
        for a in _axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        c = s.check()
        r = c == z3.unsat
        if r or c == z3.sat:
            break
        cut = cut or simple and any(w in s.reason_unknown() for w in ("timeout", "canceled", "resource"))
    STATS["quick"] += 1
    STATS["quick_s"] += time.time() - t
    _cache[key] = (r, goal, list(pc))
    return r


def prove(pc, goal, rl=40_000_000, external=True):
    """-> (status, backend, seconds, model text)
    status: 'proved' | 'refuted' (a model) | 'unknown' | 'timeout'"""
    t = time.time()
    g = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
    if z3.is_true(g):
        return "proved", "z3-simplifier", time.time() - t, None
    g2 = contextual(pc, g)
    if g2 is not None and z3.is_true(g2):
        return "proved", "z3-simplifier", time.time() - t, None
    model = None
    wall = False
    anyq = has_q(pc + _axioms + [goal])
    plans = [(True, rl // 40, True), (True, rl // 4, False), (False, rl, False)] if anyq else [(False, rl, False)]
    for n, (em, r, simple) in enumerate(plans):
        s = _solver(em, r, seed=n, simple=simple)
        for a in _axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        t0 = time.time()
        c = s.check()
        if c == z3.unsat:
            return "proved", "z3-5.3", time.time() - t, None
        if c == z3.sat:
            try:
                model = str(s.model())[:6000]
            except Exception:
                model = "(model unavailable)"
            return "refuted", "z3-5.3", time.time() - t, model
        if "timeout" in s.reason_unknown() or "canceled" in s.reason_unknown():
            wall = wall or (time.time() - t0) > 0.9 * max(10, r / 3e5)
    for seed in (11, 23, 37) if anyq and model is None else ():
        s = _solver(True, rl // 10, seed=seed, simple=True)
        for a in _axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return "proved", "z3-5.3", time.time() - t, None
    if external:
        r = cvc5(pc, goal)
        if r == "unsat":
            return "proved", "cvc5-1.1.2", time.time() - t, None
        r = z3old(pc, goal)
        if r == "unsat":
            return "proved", "z3-4.8.12", time.time() - t, None
    return ("timeout" if wall else "unknown"), "", time.time() - t, None


def contextual(pc, g):
    """The goal with the literals of the path condition replaced."""
    if z3.is_quantifier(g):
        return None
    sub = []
    for p in pc:
        todo = [z3.simplify(p)] if not z3.is_quantifier(p) else []
        while todo:
            x = todo.pop()
            if z3.is_and(x):
                todo += x.children()
            elif z3.is_not(x):
                if not z3.is_quantifier(x.arg(0)):
                    sub.append((x.arg(0), z3.BoolVal(False)))
            elif not z3.is_or(x) and not z3.is_quantifier(x) and not z3.is_true(x) and not z3.is_false(x):
                sub.append((x, z3.BoolVal(True)))
    return z3.simplify(z3.substitute(g, *sub[-200:]), som=True) if sub else None


def has_q(ts):
    seen = set()
    todo = list(ts)
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo += x.children()
    return False


def to_smt2(pc, goal):
    s = z3.Solver()
    for a in _axioms:
        s.add(a)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s.to_smt2()


def _run(cmd, text, secs):
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    try:
        f.write(text)
        f.close()
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=secs + 5)
        return p.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        return "timeout"
    finally:
        os.unlink(f.name)


def cvc5(pc, goal, secs=10):
    if not shutil.which("cvc5"):
        return None
    txt = to_smt2(pc, goal)
    txt = "(set-logic ALL)\n" + txt.replace("(set-logic ALL)", "")
    return _run(["cvc5", "--tlimit=%d" % (secs * 1000), "--arrays-exp"], txt, secs)


def z3old(pc, goal, secs=10):
    if not os.path.exists("/usr/bin/z3"):
        return None
    return _run(["/usr/bin/z3", "-T:%d" % secs], to_smt2(pc, goal), secs)


def inconsistent(pc, ms=1500):
    """Can `false` be derived from the path condition (vacuity)?"""
    s = _solver(True, ms * 1000)
    s.set("timeout", ms)
    for a in _axioms:
        s.add(a)
    for p in pc:
        s.add(p)
    return s.check() == z3.unsat
