"""Contracts on the failure models (src/expression/exponential.{h,cc}) and on
the argument checks (src/expression.{h,cc}); doubles are real numbers here."""
import z3
from core import *
from contracts import Contract
import lib
from engine import qall

M = "scram::mef::"
EX = M + "Expression"
DOM, VAL = M + "DomainError", M + "ValidityError"
exp = lib.realfn("exp")
powf = z3.Function("pow", REAL, REAL, REAL)
val = z3.Function("expr_val", INT, REAL)       # what value() returns
draw = z3.Function("expr_draw", INT, REAL)     # what Sample() returns in the trial
ilo, ihi = z3.Function("expr_ilo", INT, REAL), z3.Function("expr_ihi", INT, REAL)
ilc, irc = z3.Function("expr_ilc", INT, BOOL), z3.Function("expr_irc", INT, BOOL)


def iv(e):
    return Node("rec", {"lo": ilo(e), "hi": ihi(e), "lc": ilc(e), "rc": irc(e)})


def closed(a, b):
    return Node("rec", {"lo": a, "hi": b, "lc": z3.BoolVal(True), "rc": z3.BoolVal(True)})


# ---- the documented formulas
def P(l, t):
    return 1 - exp(-l * t)


def floor(x):
    return z3.ToReal(z3.ToInt(x))


def glm(g, l, m, t):
    return (l - (l - g * (l + m)) * exp(-(l + m) * t)) / (l + m)


def weibull(a, b, t0, t):
    return z3.If(t <= t0, 0, 1 - exp(-powf((t - t0) / a, b)))


def instant_repair(l, tau, th, t):
    d = t - th
    rest = d - floor(d / tau) * tau
    return z3.If(t <= th, P(l, t), P(l, z3.If(rest != 0, rest, tau)))


def seq2(p1, p2, m, l, t):
    """Second of two consecutive processes: probabilities p1, p2 of rates m, l."""
    return z3.If(l == m, p2 - (1 - p2) * l * t, (l * p1 - m * p2) / (l - m))


def carry(l, m, t):
    return 1 - P(m, t) + seq2(P(l, t), P(m, t), l, m, t) - P(l, t)


def instant_test(l, m, tau, th, t):
    d = t - th
    n = floor(d / tau)
    f = carry(l, m, tau)
    c = powf(f, n)
    s = z3.If(f == 1, n, (c - 1) / (f - 1))
    pn = P(l, th) * c + P(l, tau) * s
    rest = d - n * tau
    return z3.If(t <= th, P(l, t), pn * carry(l, m, rest) + P(l, rest))


def nonneg_bad(e):
    return z3.Or(val(e) < 0, ilo(e) < 0)


def positive_bad(e):
    return z3.Or(val(e) <= 0, ilo(e) < 0, lib.interval_within(closed(z3.RealVal(0), z3.RealVal(0)), iv(e)))


def prob_bad(e):
    return z3.Or(val(e) < 0, val(e) > 1, z3.Not(lib.interval_within(iv(e), closed(z3.RealVal(0), z3.RealVal(1)))))


def mk(prog):
    def nparams(q, n):
        return lambda fd, k, P: fd["q"] == q and len(fd["p"]) == n and P.fdecl_tu[k].types[fd["p"][0]["t"] if isinstance(fd["p"][0], dict) else fd["p"][0]].k == "float"

    evalue = Contract("Expression::value", EX + "::value", None, lambda c: [("value", c.rval() == val(c.this))], lambda c: [],
                      trusted="value() of a sub-expression is a pure function of the object (its overrides are verified below or in C12)")
    einter = Contract("Expression::interval", EX + "::interval", None,
                      lambda c: [("interval", c.en.tree_eq(c.rval(), iv(c.this)))], lambda c: [],
                      trusted="interval() of a sub-expression is a pure function of the object")
    esample = Contract("Expression::Sample (caller)", EX + "::Sample", None, lambda c: [("draw", c.rval() == draw(c.this))], lambda c: [],
                       trusted="within a trial Sample() is a function of the object (memoized; the memo is verified in C12)")

    def fl(c, cls, f):
        return c.fld(c.this, M + cls, f)

    # ---- argument checks
    def ensure(name, bad):
        return Contract(name, M + name, None, None, lambda c: [], lambda c: [(DOM, bad(c.val(0)), False)])
    within = Contract("EnsureWithin", M + "EnsureWithin", None, None, lambda c: [],
                      lambda c: [(DOM, z3.Or(z3.Not(lib.interval_within(closed(val(c.val(0)), val(c.val(0))), c.val(1))),
                                             z3.Not(lib.interval_within(iv(c.val(0)), c.val(1)))), False)])
    out = [evalue, einter, esample, ensure("EnsureProbability", prob_bad), ensure("EnsurePositive", positive_bad),
           ensure("EnsureNonNegative", nonneg_bad), within]

    # ---- the formulas
    ANON = M + "(anonymous namespace)::p_exp"
    out.append(Contract("p_exp", nparams(ANON, 2), None,
                        lambda c: [("1 - exp(-rate time)", c.rval() == P(c.val(0), c.val(1))),
                                   ("a probability", z3.Implies(z3.And(c.val(0) >= 0, c.val(1) >= 0), z3.And(c.rval() >= 0, c.rval() <= 1)))],
                        lambda c: []))
    out.append(Contract("p_exp (two processes)", nparams(ANON, 5), None,
                        lambda c: [("formula", c.rval() == seq2(*[c.val(i) for i in range(5)]))], lambda c: []))

    def rng(c, *ok):
        return ("within [0, 1] for accepted parameters", z3.Implies(z3.And(*ok), z3.And(c.rval() >= 0, c.rval() <= 1)))

    def args(c, n):
        return [c.val(i) for i in range(n)]

    def expo_e(c):
        l, t = args(c, 2)
        return [("formula", c.rval() == P(l, t)), rng(c, l >= 0, t >= 0)]

    def glm_e(c):
        g, l, m, t = args(c, 4)
        return [("formula", c.rval() == glm(g, l, m, t)), rng(c, g >= 0, g <= 1, l > 0, m >= 0, t >= 0)]

    def wei_e(c):
        a, b, t0, t = args(c, 4)
        return [("formula", c.rval() == weibull(a, b, t0, t)), rng(c, a > 0, b > 0, t0 >= 0, t >= 0)]

    def ir_e(c):
        l, tau, th, t = args(c, 4)
        return [("formula", c.rval() == instant_repair(l, tau, th, t)), rng(c, l > 0, tau > 0, th >= 0, t >= 0)]

    def it_e(c):
        return [("formula", c.rval() == instant_test(*args(c, 5)))]

    for cls, n, e, req in (("Exponential", 2, expo_e, None), ("Glm", 4, glm_e, None), ("Weibull", 4, wei_e, None),
                           ("PeriodicTest::InstantRepair", 4, ir_e, lambda c: [("period", c.val(1) > 0)]),
                           ("PeriodicTest::InstantTest", 5, it_e, lambda c: [("period", c.val(2) > 0)])):
        q = M + cls + "::Compute"
        out.append(Contract(cls + "::Compute", nparams(q, n), None, e, lambda c: []))

    # ---- Complete::Compute: the state probabilities stay probabilities
    def comp_e(c):
        l, t, th = c.val(0), c.val(10), c.val(4)
        return [("before the tests", z3.Implies(t <= th, c.rval() == P(l, t))),
                rng(c, l >= 0, t >= 0)]

    def comp_loop(v):
        """Every probability variable that the loop changes stays within [0, 1]."""
        out = []
        for n, x, x0 in v.mod_locals(sort=REAL):
            out.append(("%s is a probability" % n, z3.And(x >= 0, x <= 1)))
        return out
    out.append(Contract("PeriodicTest::Complete::Compute", M + "PeriodicTest::Complete::Compute", None, comp_e, lambda c: [], loops=[comp_loop]))

    # ---- value and DoSample use the formula on the right arguments
    F2 = ["lambda_", "time_"]
    FG = ["gamma_", "lambda_", "mu_", "time_"]
    FW = ["alpha_", "beta_", "t0_", "time_"]

    def refs(c, spec):
        return [c.fld(c.this, M + cls, f) for cls, f in spec]
    IR, IT, CO = "PeriodicTest::InstantRepair", "PeriodicTest::InstantTest", "PeriodicTest::Complete"
    tpl = [("Exponential", [("Exponential", f) for f in F2], P), ("Glm", [("Glm", f) for f in FG], glm), ("Weibull", [("Weibull", f) for f in FW], weibull)]
    for cls, fs, form in tpl:
        for meth, sem in (("value", val), ("DoSample", draw)):
            q = M + "ExpressionFormula<scram::mef::%s>::%s" % (cls, meth)
            out.append(Contract("%s::%s" % (cls, meth), q, None,
                                lambda c, fs=fs, sem=sem, form=form: [("the formula of the arguments", c.rval() == form(*[sem(r) for r in refs(c, fs)]))],
                                lambda c: []))
    irf = [(IR, f) for f in ("lambda_", "tau_", "theta_", "time_")]
    itf = [(IR, "lambda_"), (IT, "mu_"), (IR, "tau_"), (IR, "theta_"), (IR, "time_")]
    for cls, fs, form, per in ((IR, irf, instant_repair, 1), (IT, itf, instant_test, 2)):
        for meth, sem in (("value", val), ("Sample", draw)):
            out.append(Contract("%s::%s" % (cls, meth), M + cls + "::" + meth, None,
                                lambda c, fs=fs, sem=sem, form=form: [("the formula of the arguments", c.rval() == form(*[sem(r) for r in refs(c, fs)]))],
                                lambda c: []))
    for meth, sem in (("value", val), ("Sample", draw)):
        out.append(Contract("%s::%s" % (CO, meth), M + CO + "::" + meth, None,
                            lambda c, sem=sem: [rng(c, sem(c.fld(c.this, M + IR, "lambda_")) >= 0, sem(c.fld(c.this, M + IR, "time_")) >= 0)], lambda c: []))

    # ---- interval() of the failure models: [0, 1]
    for cls in ("Exponential", "Glm", "Weibull", "PeriodicTest"):
        out.append(Contract("%s::interval" % cls, M + cls + "::interval", None,
                            lambda c: [("the unit interval", c.en.tree_eq(c.rval(), closed(z3.RealVal(0), z3.RealVal(1))))], lambda c: []))

    # ---- Validate
    def vthr(cls, fields):
        def f(c):
            return [(DOM, z3.Or(*[bad(c.fld(c.this, M + k, n)) for k, n, bad in fields]), False)]
        return f
    vex = [("Exponential", "lambda_", nonneg_bad), ("Exponential", "time_", nonneg_bad)]
    vgl = [("Glm", "lambda_", positive_bad), ("Glm", "mu_", nonneg_bad), ("Glm", "time_", nonneg_bad), ("Glm", "gamma_", prob_bad)]
    vwe = [("Weibull", "alpha_", positive_bad), ("Weibull", "beta_", positive_bad), ("Weibull", "t0_", nonneg_bad), ("Weibull", "time_", nonneg_bad)]
    vir = [(IR, "lambda_", positive_bad), (IR, "tau_", positive_bad), (IR, "theta_", nonneg_bad), (IR, "time_", nonneg_bad)]
    vit = vir + [(IT, "mu_", nonneg_bad)]
    vco = vit + [(CO, "lambda_test_", nonneg_bad), (CO, "test_duration_", positive_bad), (CO, "gamma_", prob_bad), (CO, "sigma_", prob_bad), (CO, "omega_", prob_bad)]
    for cls, fs in (("Exponential", vex), ("Glm", vgl), ("Weibull", vwe), (IR, vir), (IT, vit)):
        out.append(Contract(cls + "::Validate", M + cls + "::Validate", None, None, lambda c: [], vthr(cls, fs)))

    def co_thr(c):
        td, tau = c.fld(c.this, M + CO, "test_duration_"), c.fld(c.this, M + IR, "tau_")
        dom = vthr(CO, vco)(c)[0][1]
        return [(DOM, dom, False), (VAL, z3.Or(val(td) > val(tau), ihi(td) > ilo(tau)), False)]
    out.append(Contract(CO + "::Validate", M + CO + "::Validate", None, None, lambda c: [], co_thr))
    return out


def lemmas():
    """What the closed formulas mean."""
    a, b, f, n, l, m, t = z3.Reals("a b f n l m t")
    L, Mm, E = exp(-l * t), exp(-m * t), exp
    geo = lambda k: a * powf(f, k) + b * z3.If(f == 1, k, (powf(f, k) - 1) / (f - 1))
    out = [("no period: the geometric form is the initial probability", [powf(f, z3.RealVal(0)) == 1], geo(z3.RealVal(0)) == a),
           ("one more period: the geometric form carries the fraction and adds the period's probability",
            [powf(f, n + 1) == f * powf(f, n), z3.Implies(f == 1, powf(f, n) == 1)], geo(n + 1) == geo(n) * f + b)]
    # One step of the instant-test recurrence keeps [0, 1] (exp: positive, monotone, exp(x) >= 1 + x, product rule).
    p, D = z3.Reals("p D")
    x, y, d = z3.Reals("x y d")   # x = exp(-l t), y = exp(-m t)
    base = [l > 0, m >= 0, t >= 0, x > 0, x <= 1, y > 0, y <= 1, p >= 0, p <= 1]
    cr = z3.If(m == l, 1 - (1 - y) + ((1 - y) - y * m * t) - (1 - x), y + (m * (1 - x) - l * (1 - y)) / (m - l) - (1 - x))
    step = p * cr + (1 - x)
    q = (m * (1 - x) - l * (1 - y)) / (m - l)
    # y = x * exp(-(m-l) t) with dt = (m-l) t: exp(-dt) >= 1 - dt; x * exp(l t) = 1 and exp(l t) >= 1 + l t.
    h1 = base + [m > l, D > 0, D <= 1, y == x * D, D >= 1 - (m - l) * t, x * (1 + l * t) <= 1]
    u = m * (x - y) / (m - l)
    out.append(("between the processes (repair faster): u is in [0, 1]", h1 + [d == m - l, d > 0], z3.And(m * (x - y) >= 0, m * (x - y) <= d)))
    h2 = base + [m < l, D > 0, D <= 1, x == y * D, D >= 1 - (l - m) * t, y * (1 + m * t) <= 1, d == l - m]
    out.append(("between the processes (repair slower): u is in [0, 1]", h2, z3.And(m * (y - x) >= 0, m * (y - x) <= d)))
    uu = z3.Real("u")
    out.append(("the step is 1 - x + p (x - u)", base + [m != l, uu * (m - l) == m * (x - y)], step == 1 - x + p * (x - uu)))
    out.append(("with u in [0, 1] the step is a probability", base + [uu >= 0, uu <= 1], z3.And(1 - x + p * (x - uu) >= 0, 1 - x + p * (x - uu) <= 1)))
    out.append(("equal rates: the step is a probability", base + [m == l, x == y, x * (1 + l * t) <= 1], z3.And(step >= 0, step <= 1)))
    return out


SPEC = dict(id="C13", tus=["expression/exponential.cc", "expression.cc"], contracts=mk, opts=dict(), loops=[], lemmas=lemmas,
            assumptions=["floating-point arithmetic of the failure models is treated as real arithmetic",
                         "exp and pow are uninterpreted real functions with the listed facts"])
