"""Contracts on scram::core::Settings (src/settings.{h,cc})."""
import z3
from core import *
from contracts import Contract

S = "scram::core::Settings"
ERR = "scram::SettingsError"
KBDD, NONE, RARE = 0, 0, 1
FP = z3.Float64()


def inv(c, s, old=False):
    f = lambda n: c.fld(s, S, n, old)
    fin = lambda x: z3.fpGEQ(x, z3.FPVal(0.0, FP))
    return [
        ("inv:prime implicants need BDD", z3.Implies(f("prime_implicants_"), f("algorithm_") == KBDD)),
        ("inv:prime implicants need no approximation", z3.Implies(f("prime_implicants_"), f("approximation_") == NONE)),
        ("inv:importance implies probability", z3.Implies(f("importance_analysis_"), f("probability_analysis_"))),
        ("inv:uncertainty implies probability", z3.Implies(f("uncertainty_analysis_"), f("probability_analysis_"))),
        ("inv:SIL implies probability", z3.Implies(f("safety_integrity_levels_"), f("probability_analysis_"))),
        ("inv:SIL implies a time step", z3.Implies(f("safety_integrity_levels_"), z3.fpGT(f("time_step_"), z3.FPVal(0.0, FP)))),
        ("inv:cut-off is a probability", z3.And(fin(f("cut_off_")), z3.fpLEQ(f("cut_off_"), z3.FPVal(1.0, FP)))),
        ("inv:mission time is non-negative", fin(f("mission_time_"))),
        ("inv:time step is non-negative", fin(f("time_step_"))),
        ("inv:order limit is non-negative", f("limit_order_") >= 0),
        ("inv:seed is non-negative", f("seed_") >= 0),
        ("inv:trials, quantiles and bins are positive",
         z3.And(f("num_trials_") >= 1, f("num_quantiles_") >= 1, f("num_bins_") >= 1)),
    ]


FIELDS = ["probability_analysis_", "safety_integrity_levels_", "importance_analysis_", "uncertainty_analysis_",
          "ccf_analysis_", "prime_implicants_", "algorithm_", "approximation_", "limit_order_", "seed_",
          "num_trials_", "num_quantiles_", "num_bins_", "mission_time_", "time_step_", "cut_off_"]


def setter(name, changed, post, throws=None, ptype=None):
    def sel(fd, k, P):
        if fd["q"] != S + "::" + name or len(fd["p"]) != 1:
            return False
        t = P.fdecl_tu[k].types[fd["p"][0]]
        return ptype is None or ptype(t)

    def req(c):
        return []

    def ens(c):
        n = lambda f: c.fld(c.this, S, f)
        o = lambda f: c.fld(c.this, S, f, True)
        # Setters call each other amid their updates, so the invariant is
        # preserved rather than required.
        pre = z3.And(*[t for _, t in inv(c, c.this, old=True)])
        out = [(n_, z3.Implies(pre, t)) for n_, t in inv(c, c.this)]
        out += [("sets:" + a, b) for a, b in post(c, n, o)]
        return out

    def mod(c):
        return [((S, f), c.this) for f in changed]

    def thr(c):
        if not throws:
            return []
        o = lambda f: c.fld(c.this, S, f, True)
        return [(ERR, throws(c, o), False)]
    return Contract("Settings::" + name + ("(string)" if ptype is is_str else ""), sel, req, ens, mod, thr,
                    result=lambda c: c._this)


def is_str(t):
    return t.cat == "string"


def not_str(t):
    return t.cat != "string"


def nn(x):
    return z3.fpGEQ(x, z3.FPVal(0.0, FP))


def make(prog):
    eq = lambda a, b: a == b
    same_fp = lambda a, b: z3.Or(a == b, z3.fpEQ(a, b))
    out = [
        setter("algorithm", ["algorithm_", "approximation_", "prime_implicants_"],
               lambda c, n, o: [
                   ("algorithm", n("algorithm_") == c.arg(0)),
                   ("approximation", n("approximation_") == z3.If(c.arg(0) == KBDD, NONE, z3.If(o("approximation_") == NONE, RARE, o("approximation_")))),
                   ("prime implicants", n("prime_implicants_") == z3.And(o("prime_implicants_"), c.arg(0) == KBDD))],
               ptype=not_str),
        setter("approximation", ["approximation_"],
               lambda c, n, o: [("approximation", n("approximation_") == c.arg(0))],
               lambda c, o: z3.And(c.arg(0) != NONE, o("prime_implicants_")), ptype=not_str),
        setter("algorithm", ["algorithm_", "approximation_", "prime_implicants_"],
               lambda c, n, o: [("named algorithm", z3.Or(*[z3.And(c.arg(0) == z3.StringVal(s), n("algorithm_") == i)
                                                            for i, s in enumerate(("bdd", "zbdd", "mocus"))]))],
               lambda c, o: z3.And(*[c.arg(0) != z3.StringVal(s) for s in ("bdd", "zbdd", "mocus")]), ptype=is_str),
        setter("approximation", ["approximation_"],
               lambda c, n, o: [("named approximation", z3.Or(*[z3.And(c.arg(0) == z3.StringVal(s), n("approximation_") == i)
                                                                for i, s in enumerate(("none", "rare-event", "mcub"))]))],
               lambda c, o: z3.Or(z3.And(*[c.arg(0) != z3.StringVal(s) for s in ("none", "rare-event", "mcub")]),
                                  z3.And(c.arg(0) != z3.StringVal("none"), o("prime_implicants_"))), ptype=is_str),
        setter("prime_implicants", ["prime_implicants_", "approximation_"],
               lambda c, n, o: [("flag", n("prime_implicants_") == c.arg(0)),
                                ("approximation", n("approximation_") == z3.If(c.arg(0), NONE, o("approximation_")))],
               lambda c, o: z3.And(c.arg(0), o("algorithm_") != KBDD)),
        setter("limit_order", ["limit_order_"], lambda c, n, o: [("value", n("limit_order_") == c.arg(0))],
               lambda c, o: c.arg(0) < 0),
        setter("seed", ["seed_"], lambda c, n, o: [("value", n("seed_") == c.arg(0))], lambda c, o: c.arg(0) < 0),
        setter("cut_off", ["cut_off_"], lambda c, n, o: [("value", z3.fpEQ(n("cut_off_"), c.arg(0)))],
               lambda c, o: z3.Not(z3.And(nn(c.arg(0)), z3.fpLEQ(c.arg(0), z3.FPVal(1.0, FP))))),
        setter("mission_time", ["mission_time_"], lambda c, n, o: [("value", z3.fpEQ(n("mission_time_"), c.arg(0)))],
               lambda c, o: z3.Not(nn(c.arg(0)))),
        setter("time_step", ["time_step_"], lambda c, n, o: [("value", z3.fpEQ(n("time_step_"), c.arg(0)))],
               lambda c, o: z3.Or(z3.Not(nn(c.arg(0))),
                                  z3.And(z3.fpIsZero(c.arg(0)), o("safety_integrity_levels_")))),
        setter("safety_integrity_levels", ["safety_integrity_levels_", "probability_analysis_"],
               lambda c, n, o: [("flag", n("safety_integrity_levels_") == c.arg(0)),
                                ("probability", n("probability_analysis_") == z3.Or(c.arg(0), o("probability_analysis_")))],
               lambda c, o: z3.And(c.arg(0), z3.fpIsZero(o("time_step_")))),
        setter("importance_analysis", ["importance_analysis_", "probability_analysis_"],
               lambda c, n, o: [("flag", n("importance_analysis_") == c.arg(0)),
                                ("probability", n("probability_analysis_") == z3.Or(c.arg(0), o("probability_analysis_")))]),
        setter("uncertainty_analysis", ["uncertainty_analysis_", "probability_analysis_"],
               lambda c, n, o: [("flag", n("uncertainty_analysis_") == c.arg(0)),
                                ("probability", n("probability_analysis_") == z3.Or(c.arg(0), o("probability_analysis_")))]),
        setter("probability_analysis", ["probability_analysis_"],
               lambda c, n, o: [("flag", n("probability_analysis_") ==
                                 z3.If(z3.Or(o("importance_analysis_"), o("uncertainty_analysis_"), o("safety_integrity_levels_")),
                                       o("probability_analysis_"), c.arg(0)))]),
        setter("ccf_analysis", ["ccf_analysis_"], lambda c, n, o: [("flag", n("ccf_analysis_") == c.arg(0))]),
    ]
    for n in ("num_trials", "num_quantiles", "num_bins"):
        out.append(setter(n, [n + "_"], (lambda m: lambda c, w, o: [("value", w(m + "_") == c.arg(0))])(n),
                          lambda c, o: c.arg(0) < 1))
    return out


SPEC = dict(id="C15", tus=["settings.cc"], contracts=make, opts=dict(float="fp", unroll=8), loops=[])
