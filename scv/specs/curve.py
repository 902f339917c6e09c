"""Contracts on the probability over time (src/probability_analysis.cc)."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs.sil import PA, S, ascending_t

C = "scram::core::"
M = "scram::mef::"
PB = C + "ProbabilityAnalyzerBase"
ARR = z3.ArraySort(INT, REAL)
evp = z3.Function("event_p", INT, REAL, REAL)              # probability of an event at a mission time
total = z3.Function("total_p", INT, ARR, REAL)             # of an analyzer with variable probabilities
STEP = z3.Real("the_step")
total_at = z3.Function("total_p_at", INT, REAL, REAL)      # at a mission time
MT = z3.Const("the_mission_time", INT)


def mk(prog):
    def now(c, old=True):
        return c.fld(MT, M + "MissionTime", "value_", old)
    p = Contract("BasicEvent::p", M + "BasicEvent::p", None, lambda c: [("at the mission time", c.rval() == evp(c.this, now(c)))], lambda c: [],
                 trusted="an event's probability is a function of the mission time (C12, C13)")
    setter = Contract("MissionTime::value(time)", lambda fd, k, pr: fd["q"] == M + "MissionTime::value" and len(fd["p"]) == 1, None,
                      lambda c: [("set", c.fld(c.this, M + "MissionTime", "value_") == c.val(0))], lambda c: [((M + "MissionTime", "value_"), c.this)],
                      lambda c: [("scram::LogicError", c.val(0) < 0, False)])
    getter = Contract("MissionTime::value", lambda fd, k, pr: fd["q"] == M + "MissionTime::value" and len(fd["p"]) == 0, None,
                      lambda c: [("get", c.rval() == c.fld(c.this, M + "MissionTime", "value_"))], lambda c: [])
    tot = Contract("CalculateTotalProbability", lambda fd, k, pr: fd["q"] == PB + "::CalculateTotalProbability" and len(fd["p"]) == 1, None,
                   lambda c: [("total", c.rval() == total(c.this, c.val(0)["at"])), ("probability", z3.And(c.rval() >= 0, c.rval() <= 1))], lambda c: [],
                   trusted="the total probability is a function of the variable probabilities (C05, C06)")

    def events(c):
        g = c.fld(c.this, PB, "graph_")
        return c.fld(g, C + "Pdag", "basic_events_")

    def settings(c, f):
        return c.fld(c.this, C + "Analysis", "settings_")[f]

    def at_time(c):
        A, t, k = z3.Const("A", ARR), z3.Real("t"), z3.Const("k", INT)
        e = events(c)
        eq = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < e["len"]), S(A, k) == evp(S(e["at"], k), t)))
        return qall([A, t], z3.Implies(eq, total(c.this, A) == total_at(c.this, t)), z3.MultiPattern(total(c.this, A), total_at(c.this, t)))

    def req(c):
        e = events(c)
        step, T = settings(c, "time_step_"), settings(c, "mission_time_")
        return [("the model's mission time", c.fld(c.this, PA, "mission_time_") == MT), ("settings", z3.And(step >= 0, T >= 0, step == STEP)),
                ("as set", now(c) == T), ("a value per variable", c.fld(c.this, PB, "p_vars_")["len"] == e["len"]),
                ("total probability at a time", at_time(c))]

    def ens(c):
        step, T = settings(c, "time_step_"), settings(c, "mission_time_")
        r = c.rval()
        y, x, n = r["at"]["first"], r["at"]["second"], r["len"]
        i = z3.Const("ci", INT)
        some = step > 0
        return [("no step, no curve", z3.Implies(z3.Not(some), n == 0)), ("at least the mission end", z3.Implies(some, n >= 1)),
                ("ends with the mission", z3.Implies(some, S(x, n - 1) == T)),
                ("multiples of the step", z3.Implies(some, qall([i], z3.Implies(z3.And(i >= 0, i < n - 1), S(x, i) == z3.ToReal(i) * step), S(x, i)))),
                ("every multiple below the end", z3.Implies(some, z3.And(z3.ToReal(n - 1) * step >= T, z3.Implies(n >= 2, z3.ToReal(n - 2) * step < T)))),
                ("times ascend", z3.And(ascending_t(x, n), z3.Implies(n >= 1, S(x, 0) >= 0))),
                ("the total probability of the time", qall([i], z3.Implies(z3.And(i >= 0, i < n), S(y, i) == total_at(c.this, S(x, i))), S(y, i))),
                ("the mission time is restored", now(c, False) == now(c)),
                ("probabilities", qall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(S(y, i) >= 0, S(y, i) <= 1)), S(y, i)))]
    curve = Contract("CalculateProbabilityOverTime", PB + "::CalculateProbabilityOverTime", req, ens,
                     lambda c: [((PB, "p_vars_"), c.this), ((M + "MissionTime", "value_"), MT)], loops=[loop])
    return [p, setter, getter, tot, curve]


def loop(v):
    out = []
    en = v.en
    this = v.fr.this.root[1] if isinstance(v.fr.this, LVal) else None
    i, k = z3.Consts("ci ck", INT)
    mt = lambda st: en.heap_get(st, (M + "MissionTime", "value_"), MT)
    if v.L["rng"] is not None and getattr(v, "i", None) is not None:
        # filling the variables' probabilities
        for n, x, x0 in v.mod_locals(kind="iter"):
            if "idx" in x.ch:
                out.append(("%s along" % n, x["idx"] == v.i))
                pv = en.read(v.st, x.meta) if isinstance(x.meta, LVal) else None
                if isinstance(pv, Node) and pv.kind == "vec":
                    p0 = en.read(v.entry, x.meta)
                    out += [("as many variables", pv["len"] == p0["len"]),
                            ("probabilities at the time", qall([k], z3.Implies(z3.And(k >= 0, k < v.i), S(pv["at"], k) == evp(S(v.range["at"], k), mt(v.st))), S(pv["at"], k)))]
        return out
    for n, t, t0 in v.mod_locals(sort=REAL):
        for m, r, r0 in v.mod_locals(kind="vec"):
            if not isinstance(r["at"], Node) or "first" not in r["at"].ch:
                continue
            y, x, ln = r["at"]["first"], r["at"]["second"], r["len"]
            for m2, c, c0 in v.locals(sort=REAL):
                out += [("%s is multiple of %s" % (n, m2), t == z3.ToReal(ln) * c), ("multiples of %s" % m2, qall([i], z3.Implies(z3.And(i >= 0, i < ln), S(x, i) == z3.ToReal(i) * c), S(x, i))),
                        ("below %s" % m2, z3.Implies(ln >= 1, z3.ToReal(ln - 1) * STEP < c))]
                out.append(("all below %s" % m2, qall([i], z3.Implies(z3.And(i >= 0, i < ln), S(x, i) < c), S(x, i))))
            out.append(("times ascend", ascending_t(x, ln)))
            out.append(("times are not negative", z3.And(t >= 0, z3.Implies(ln >= 1, S(x, 0) >= 0))))
            if this is not None:
                out.append(("totals", qall([i], z3.Implies(z3.And(i >= 0, i < ln), S(y, i) == total_at(this, S(x, i))), S(y, i))))
            out.append(("probabilities", qall([i], z3.Implies(z3.And(i >= 0, i < ln), z3.And(S(y, i) >= 0, S(y, i) <= 1)), S(y, i))))
    o = z3.Const("ox", INT)
    gv = lambda st: en.heap_get(st, (M + "MissionTime", "value_"), o)
    out.append(("other mission times", qall([o], z3.Implies(o != MT, gv(v.st) == gv(v.entry)), gv(v.st))))
    if this is not None:
        pv, pv0 = en.heap_get(v.st, (PB, "p_vars_"), this), en.heap_get(v.entry, (PB, "p_vars_"), this)
        out.append(("as many variables", pv["len"] == pv0["len"]))
    return out


SPEC = dict(id="C17", tus=["probability_analysis.cc", "parameter.cc"], contracts=mk, opts=dict(asserts="check"), loops=[],
            assumptions=["floating-point arithmetic of the times is treated as real arithmetic"])
