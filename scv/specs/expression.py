"""Contracts on the expression operators (src/expression.h, src/expression/
{numerical,boolean,conditional}.{h,cc}); doubles are real numbers here."""
import fractions

import z3
from core import *
from contracts import Contract
import lib
from engine import qall
from specs.failure import val, draw, ilo, ihi, ilc, irc, iv, closed, nonneg_bad, positive_bad, prob_bad

M = "scram::mef::"
EX = M + "Expression"
DOM = M + "DomainError"
w = z3.Function("expr_any", INT, REAL)          # any value within the argument's interval
R0, R1 = z3.RealVal(0), z3.RealVal(1)
rf = lib.realfn
powf = z3.Function("pow", REAL, REAL, REAL)
fmodf = z3.Function("fmod", REAL, REAL, REAL)
PI = val(z3.Const("g_scram::mef::ConstantExpression::kPi", INT))


def B(c):
    return z3.If(c, R1, R0)


trunc = z3.Function("trunc", REAL, REAL)


def trunc_def(a):
    return z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a)))


def trunc_facts(t, x, y):
    """(proved of the definition below)"""
    return [z3.Implies(x <= y, t(x) <= t(y)), z3.Implies(x >= 0, z3.And(t(x) >= 0, t(x) <= x)), z3.Implies(x <= 0, z3.And(t(x) <= 0, t(x) >= x)),
            z3.Implies(x >= 1, t(x) >= 1), z3.Implies(x <= -1, t(x) <= -1)]


UN = {"Neg": lambda x: -x, "Abs": lambda x: z3.If(x >= 0, x, -x), "Floor": lambda x: z3.ToReal(z3.ToInt(x)),
      "Ceil": lambda x: -z3.ToReal(z3.ToInt(-x)), "Not": lambda x: B(x == 0)}
for nm in ("Acos", "Asin", "Atan", "Cos", "Sin", "Tan", "Cosh", "Sinh", "Tanh", "Exp", "Log", "Log10", "Sqrt"):
    UN[nm] = (lambda f: lambda x: f(x))(rf(nm.lower()))
BI = {"Mod": lambda x, y: fmodf(trunc(x), trunc(y)), "Pow": lambda x, y: powf(x, y), "Eq": lambda x, y: B(x == y), "Df": lambda x, y: B(x != y),
      "Lt": lambda x, y: B(x < y), "Gt": lambda x, y: B(x > y), "Leq": lambda x, y: B(x <= y), "Geq": lambda x, y: B(x >= y)}
NA = {"Add": lambda a, x: a + x, "Sub": lambda a, x: a - x, "Mul": lambda a, x: a * x, "Div": lambda a, x: a / x,
      "Min": lambda a, x: z3.If(x < a, x, a), "Max": lambda a, x: z3.If(x > a, x, a)}
# folds over Booleans: from the first argument on
NB = {"And": lambda a, x: B(z3.And(a != 0, x != 0)), "Or": lambda a, x: B(z3.Or(a != 0, x != 0))}
NEEDS_WITHIN = {"Acos": (-1, 1), "Asin": (-1, 1)}


def has0(e):
    return lib.interval_within(closed(R0, R0), iv(e))


def monotone(f, dom=None):
    x, y = z3.Reals("mx my")
    c = x <= y
    if dom is not None:
        c = z3.And(c, dom(x), dom(y))
    return qall([x, y], z3.Implies(c, f(x) <= f(y)), z3.MultiPattern(f(x), f(y)))


def mk(prog):
    evalue = Contract("Expression::value", EX + "::value", None, lambda c: [("value", c.rval() == val(c.this))], lambda c: [],
                      trusted="value() of an argument is a function of the object (the overrides are verified here, in C13 and C19)")
    einter = Contract("Expression::interval", EX + "::interval", None, lambda c: [("interval", c.en.tree_eq(c.rval(), iv(c.this)))], lambda c: [],
                      trusted="interval() of an argument is a function of the object")
    # Sampling within a trial: a sampled expression keeps the draw of the trial.
    def memo(get, but=None):
        e = z3.Const("me", INT)
        c = z3.Implies(get(e, "sampled_"), get(e, "sampled_value_") == draw(e))
        return qall([e], c if but is None else z3.Implies(e != but, c), get(e, "sampled_"))

    def memo_at(c, but=None):
        return ("sampled expressions keep the draw", memo(lambda e, f: c.fld(e, EX, f), but))
    SMOD = [((EX, "sampled_"), None), ((EX, "sampled_value_"), None)]
    esample = Contract("Expression::Sample", EX + "::Sample", lambda c: [memo_at(c)],
                       lambda c: [("draw", c.rval() == draw(c.this)), memo_at(c), ("memo", c.fld(c.this, EX, "sampled_"))], lambda c: SMOD)
    edo = Contract("Expression::DoSample", EX + "::DoSample", lambda c: [memo_at(c, c.this)],
                   lambda c: [("draw", c.rval() == draw(c.this)), memo_at(c, c.this), ("not reached itself", c.fld(c.this, EX, "sampled_") == c.fld(c.this, EX, "sampled_", old=True))],
                   lambda c: SMOD, trusted="DoSample() draws the trial's value and does not reach its own object (no cycles: C22)")

    def reset_ens(c):
        e, i = z3.Consts("re ri", INT)
        a = c.fld(c.this, EX, "args_")
        now = lambda x: c.fld(x, EX, "sampled_")
        return [("this is reset", z3.Not(now(c.this))), ("nothing becomes sampled", qall([e], z3.Implies(now(e), c.fld(e, EX, "sampled_", old=True)), now(e))),
                ("the arguments of a sampled expression are reset",
                 z3.Implies(c.fld(c.this, EX, "sampled_", old=True), qall([i], z3.Implies(z3.And(i >= 0, i < a["len"]), z3.Not(now(z3.Select(a["at"], i)))), z3.Select(a["at"], i))))]

    def reset_loop(v):
        e, i = z3.Consts("re ri", INT)
        if getattr(v, "i", None) is None or not any(k == ("h", (EX, "sampled_")) for k in v.L["mods"]):
            return []
        now = lambda x: v.fld(x, EX, "sampled_")
        this = v.fr.this.root[1]
        at = v.range["at"]
        return [("this is reset", z3.Not(now(this))), ("nothing becomes sampled", qall([e], z3.Implies(now(e), v.fld(e, EX, "sampled_", old=True)), now(e))),
                ("the arguments so far are reset", qall([i], z3.Implies(z3.And(i >= 0, i < v.i), z3.Not(now(z3.Select(at, i)))), z3.Select(at, i)))]
    reset = Contract("Expression::Reset", EX + "::Reset", None, reset_ens, lambda c: [((EX, "sampled_"), None)], loops=[reset_loop])
    deviates = z3.Function("expr_deviates", INT, BOOL)

    def dev_ens(c):
        i = z3.Const("di", INT)
        if not (z3.is_const(c.this) and c.this.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return [("deviates", c.rval() == deviates(c.this))]      # of an argument: a function of the object
        a = c.fld(c.this, EX, "args_")
        return [("some argument deviates", c.rval() == z3.Exists([i], z3.And(i >= 0, i < a["len"], deviates(z3.Select(a["at"], i)))))]
    edev = Contract("Expression::IsDeviate", EX + "::IsDeviate", None, dev_ens, lambda c: [])

    def memo_loop(v):
        if not any(k == ("h", (EX, "sampled_")) for k in v.L["mods"]):
            return []
        return [("sampled expressions keep the draw", memo(lambda e, f: v.fld(e, EX, f)))]
    kpi = None
    out = [evalue, einter, esample, edo, reset]

    def argv(c):
        return c.fld(c.arg(0), EX, "args_")

    def at(c, i):
        return z3.Select(argv(c)["at"], i)

    def nargs(n, eq=True):
        return lambda c: [("%d arguments" % n, argv(c)["len"] == n if eq else argv(c)["len"] >= n)]

    def inside(e):
        return z3.And(lib.interval_has(iv(e), w(e)), ilo(e) <= ihi(e))

    def contains(c, x):
        r = c.rval()
        return ("contains every value", z3.And(r["lo"] <= x, x <= r["hi"], r["lc"], r["rc"]))

    def W(op, what):
        return M + op + "_" + what

    def sampling(con):
        """The wrapper draws: it may sample its arguments."""
        if con.name.endswith("::sample"):
            con._req, con._mod = (lambda r: lambda c: (r(c) if r else []) + [memo_at(c)])(con._req), lambda c: SMOD
            con._ens = (lambda r: lambda c: r(c) + [memo_at(c)])(con._ens)
        return con

    # ---- unary
    dom = {"Log": lambda x: x > 0, "Log10": lambda x: x > 0, "Sqrt": lambda x: x >= 0}
    for op, f in UN.items():
        for what, sem in (("value", val), ("sample", draw)):
            out.append(Contract("%s::%s" % (op, what), W(op, what), nargs(1) if op == "Not" or True else None,
                                lambda c, f=f, sem=sem, op=op: [("definition", c.rval() == f(sem(unarg(c))))], lambda c: []))

        def ireq(c, op=op):
            e = unarg(c)
            r = [("one argument", argv(c)["len"] == 1), ("an argument value", inside(e)), ("the argument", at(c, 0) == e)]
            if op in dom:
                r.append(("domain", dom[op](ilo(e))))
            if op in NEEDS_WITHIN:
                r.append(("domain", z3.And(ilo(e) >= -1, ihi(e) <= 1)))
            return r
        out.append(Contract("%s::interval" % op, W(op, "interval"), ireq, lambda c, f=f: [contains(c, f(w(unarg(c))))], lambda c: []))

    def unarg(c):
        return at(c, 0)

    # the argument reference of a unary expression is its only argument
    def unarg(c):
        cls = c.ptys[0].elem.s
        return c.en.heap_get(c.pre, (cls, "expression_"), c.arg(0)) if isinstance(c.arg(0), z3.ExprRef) else c.arg(0)["expression_"]

    # ---- binary
    def bidom(op, c):
        x, y = at(c, 0), at(c, 1)
        if op == "Mod":
            return [("validated", z3.Or(ilo(y) >= 1, ihi(y) <= -1))]
        if op == "Pow":
            return [("validated", z3.Implies(lib.interval_has(iv(x), R0), ilo(y) > 0)), ("closed", z3.And(ilc(x), irc(x), ilc(y), irc(y))),
                    ("defined", z3.Implies(w(x) < 0, integer(w(y))))]
        return []
    for op, f in BI.items():
        for what, sem in (("value", val), ("sample", draw)):
            out.append(Contract("%s::%s" % (op, what), W(op, what), nargs(2),
                                lambda c, f=f, sem=sem: [("definition", c.rval() == f(sem(at(c, 0)), sem(at(c, 1))))], lambda c: []))
        out.append(Contract("%s::interval" % op, W(op, "interval"),
                            lambda c, op=op: nargs(2)(c) + [("argument values", z3.And(inside(at(c, 0)), inside(at(c, 1))))] + bidom(op, c),
                            lambda c, f=f: [contains(c, f(w(at(c, 0)), w(at(c, 1))))], lambda c: []))

    # ---- n-ary folds
    fold = {k: z3.Function("fold_" + k, INT, REAL) for k in ("val", "draw", "any")}
    sems = {"val": val, "draw": draw, "any": w}

    def fold_def(c, k, f):
        n = z3.Const("fn", INT)
        F, sem = fold[k], sems[k]
        a = argv(c)["at"]
        body = F(n) == f(F(n - 1), sem(z3.Select(a, n)))
        return [("fold starts", F(0) == sem(z3.Select(a, 0))), ("fold steps", qall([n], z3.Implies(n >= 1, body), z3.Select(a, n)))]

    def nloop(k, bounds):
        def fn(v):
            out = []
            F = fold[k]
            idx = []
            for n, x, x0 in v.locals(kind="iter"):
                if "idx" in x.ch:
                    idx += [x["idx"] - 1]
                    out += [("%s in range" % n, z3.And(x["idx"] >= 1, x["idx"] <= v.rd_len(x)))] if hasattr(v, "rd_len") else [("%s past the first" % n, x["idx"] >= 1)]
            if getattr(v, "i", None) is not None:
                idx += [v.i - 1]
            xs = v.mod_locals(sort=REAL)
            for i in idx:
                for n, x, x0 in xs:
                    out += [("%s is the fold" % n, z3.Implies(i >= 0, x == F(i)))] if not bounds else [
                        ("%s is below" % n, z3.Implies(i >= 0, x <= F(i))), ("%s is above" % n, z3.Implies(i >= 0, x >= F(i)))]
            if bounds:
                for n, x, x0 in xs:
                    for n2, y, y0 in xs:
                        if n != n2:
                            out.append(("%s <= %s" % (n, n2), x <= y))
            return out
        return fn

    def ndom(op, c):
        i = z3.Const("di", INT)
        a, n = argv(c)["at"], argv(c)["len"]
        r = [("argument values", qall([i], z3.Implies(z3.And(i >= 0, i < n), inside(z3.Select(a, i))), z3.Select(a, i)))]
        if op == "Div":
            r.append(("validated", qall([i], z3.Implies(z3.And(i >= 1, i < n), z3.Or(ilo(z3.Select(a, i)) > 0, ihi(z3.Select(a, i)) < 0)), z3.Select(a, i))))
        return r
    for op, f in list(NA.items()) + list(NB.items()):
        for what, k in (("value", "val"), ("sample", "draw")):
            out.append(Contract("%s::%s" % (op, what), W(op, what), lambda c, k=k, f=f: nargs(2, False)(c) + fold_def(c, k, f),
                                lambda c, k=k: [("definition", c.rval() == fold[k](argv(c)["len"] - 1))], lambda c: [], loops=[nloop(k, False)]))
        if op in NA:
            out.append(Contract("%s::interval" % op, W(op, "interval"), lambda c, f=f, op=op: nargs(2, False)(c) + ndom(op, c) + fold_def(c, "any", f),
                                lambda c: [contains(c, fold["any"](argv(c)["len"] - 1))], lambda c: [], loops=[nloop("any", True)], opts=dict(asserts="check")))

    # ---- intervals of conjunctions and disjunctions
    def bool_loop(start):
        def fn(v):
            out = []
            xs = v.mod_locals(sort=REAL)
            if getattr(v, "i", None) is None:
                return out
            F, i = fold["any"], v.i
            for n, x, x0 in xs:
                out += [("%s starts" % n, z3.Implies(i == 0, x == start)), ("%s is a truth value" % n, z3.And(x >= 0, x <= 1)),
                        ("%s is below" % n, z3.Implies(i >= 1, x <= B(F(i - 1) != 0))), ("%s is above" % n, z3.Implies(i >= 1, x >= B(F(i - 1) != 0)))]
            return out
        return fn
    for op, start in (("And", R1), ("Or", R0)):
        out.append(Contract("%s::interval" % op, W(op, "interval"), lambda c, f=NB[op], op=op: nargs(2, False)(c) + ndom(op, c) + fold_def(c, "any", f),
                            lambda c: [contains(c, fold["any"](argv(c)["len"] - 1))], lambda c: [], loops=[bool_loop(start)]))

    # ---- the mean
    def sum_def(c, k):
        n = z3.Const("sn", INT)
        F, sem, a = sums[k], sems[k], argv(c)["at"]
        return [("sum starts", F(0) == 0), ("sum steps", qall([n], z3.Implies(n >= 0, F(n + 1) == F(n) + sem(z3.Select(a, n))), z3.Select(a, n)))]
    sums = {k: z3.Function("sum_" + k, INT, REAL) for k in ("val", "draw", "any")}

    def sum_loop(k, bounds):
        def fn(v):
            out = []
            if getattr(v, "i", None) is None:
                return out
            for n, x, x0 in v.mod_locals(sort=REAL):
                out += [("%s is the sum" % n, x == sums[k](v.i))] if not bounds else [
                    ("%s is below" % n, x <= sums[k](v.i)), ("%s is above" % n, x >= sums[k](v.i))]
            return out
        return fn
    for what, k in (("value", "val"), ("sample", "draw")):
        out.append(Contract("Mean::%s" % what, W("Mean", what), lambda c, k=k: nargs(2, False)(c) + sum_def(c, k),
                            lambda c, k=k: [("definition", c.rval() == sums[k](argv(c)["len"]) / z3.ToReal(argv(c)["len"]))], lambda c: [], loops=[sum_loop(k, False)]))
    out.append(Contract("Mean::interval", W("Mean", "interval"), lambda c: nargs(2, False)(c) + ndom("Mean", c) + sum_def(c, "any"),
                        lambda c: [contains(c, sums["any"](argv(c)["len"]) / z3.ToReal(argv(c)["len"]))], lambda c: [], loops=[sum_loop("any", True)]))

    # ---- conditionals
    for what, sem in (("value", val), ("sample", draw)):
        out.append(Contract("Ite::%s" % what, W("Ite", what), nargs(3),
                            lambda c, sem=sem: [("definition", c.rval() == z3.If(sem(at(c, 0)) != 0, sem(at(c, 1)), sem(at(c, 2))))], lambda c: []))
    out.append(Contract("Ite::interval", W("Ite", "interval"), lambda c: nargs(3)(c) + [("argument values", z3.And(*[inside(at(c, i)) for i in range(3)]))],
                        lambda c: [contains(c, z3.If(w(at(c, 0)) != 0, w(at(c, 1)), w(at(c, 2))))], lambda c: []))

    SWF = {k: z3.Function("arms_" + k, INT, REAL) for k in ("val", "draw", "any")}

    def arm(en, vec, i):
        x = vec["at"]
        g = lambda f: z3.Select(x[f], i) if isinstance(x, Node) else None
        return g("condition"), g("value")

    def sw_def(c, k, loops=False):
        v = c.fld(c.arg(0), M + "Switch", "cases_")
        d = c.fld(c.arg(0), M + "Switch", "default_value_")
        n = z3.Const("wn", INT)
        cond, value = arm(c.en, v, n)
        F, sem = SWF[k], sems[k]
        return [("the default", F(v["len"]) == sem(d)),
                ("the arms", qall([n], z3.Implies(z3.And(n >= 0, n < v["len"]), F(n) == z3.If(sem(cond) != 0, sem(value), F(n + 1))), cond))]

    def sw_loop(k):
        def fn(v):
            return [("no arm so far", SWF[k](0) == SWF[k](v.i))] if getattr(v, "i", None) is not None else []
        return fn
    for what, k in (("value", "val"), ("sample", "draw")):
        out.append(Contract("Switch::%s" % what, W("Switch", what), lambda c, k=k: sw_def(c, k),
                            lambda c, k=k: [("definition", c.rval() == SWF[k](0))], lambda c: [], loops=[sw_loop(k)]))

    def sw_in(c):
        v = c.fld(c.arg(0), M + "Switch", "cases_")
        d = c.fld(c.arg(0), M + "Switch", "default_value_")
        n = z3.Const("wn", INT)
        cond, value = arm(c.en, v, n)
        return [("argument values", z3.And(inside(d), qall([n], z3.Implies(z3.And(n >= 0, n < v["len"]), inside(value)), value)))]

    def sw_out(c):
        v = c.fld(c.arg(0), M + "Switch", "cases_")
        d = c.fld(c.arg(0), M + "Switch", "default_value_")
        n = z3.Const("wn", INT)
        cond, value = arm(c.en, v, n)
        r = c.rval()
        return [contains(c, w(d)), ("contains every arm", qall([n], z3.Implies(z3.And(n >= 0, n < v["len"]), z3.And(r["lo"] <= w(value), w(value) <= r["hi"])), value))]

    def sw_iloop(v):
        out = []
        if getattr(v, "i", None) is None:
            return out
        d = v.en.heap_get(v.st, (M + "Switch", "default_value_"), v.fr.this.root[1])
        n = z3.Const("wn", INT)
        cond, value = arm(v.en, v.range, n)
        for nm, x, x0 in v.mod_locals(sort=REAL):
            for t, o in (("below", lambda a: x <= a), ("above", lambda a: x >= a)):
                out += [("%s is %s the default" % (nm, t), o(w(d))),
                        ("%s is %s the arms" % (nm, t), qall([n], z3.Implies(z3.And(n >= 0, n < v.i), o(w(value))), value))]
        return out
    out.append(Contract("Switch::interval", W("Switch", "interval"), sw_in, sw_out, lambda c: [], loops=[sw_iloop]))

    # ---- validation
    def ensure(name, bad):
        return Contract(name, M + name, None, None, lambda c: [], lambda c: [(DOM, bad(c.val(0)), False)])
    out += [ensure("EnsurePositive", positive_bad), ensure("EnsureNonNegative", nonneg_bad),
            Contract("EnsureWithin", M + "EnsureWithin", None, None, lambda c: [],
                     lambda c: [(DOM, z3.Or(z3.Not(lib.interval_within(closed(val(c.val(0)), val(c.val(0))), c.val(1))),
                                            z3.Not(lib.interval_within(iv(c.val(0)), c.val(1)))), False)])]

    def vdom(op, c):
        x = at(c, 0)
        if op in ("Log", "Log10"):
            return positive_bad(x)
        if op == "Sqrt":
            return nonneg_bad(x)
        if op in NEEDS_WITHIN:
            u = closed(z3.RealVal(-1), R1)
            return z3.Or(z3.Not(lib.interval_within(closed(val(x), val(x)), u)), z3.Not(lib.interval_within(iv(x), u)))
        if op == "Mod":
            y = at(c, 1)
            return z3.Or(z3.And(val(y) < 1, val(y) > -1), z3.And(ilo(y) < 1, ihi(y) > -1))
        if op == "Pow":
            y = at(c, 1)
            return z3.Or(z3.And(val(x) == 0, val(y) <= 0), z3.And(lib.interval_has(iv(x), R0), z3.Or(ilo(y) < 0, lib.interval_has(iv(y), R0))))
        if op == "Div":
            i = z3.Const("vi", INT)
            y = z3.Select(argv(c)["at"], i)
            return z3.Exists([i], z3.And(i >= 1, i < argv(c)["len"], z3.Or(val(y) == 0, lib.interval_has(iv(y), R0))))
        return z3.BoolVal(False)

    def vloop(v):
        out = []
        i = z3.Const("vi", INT)
        for n, x, x0 in v.locals(kind="iter"):
            if "idx" in x.ch:
                a = v.en.heap_get(v.st, (EX, "args_"), v.fr.this.root[1])["at"]
                y = z3.Select(a, i)
                out += [("%s past the first" % n, x["idx"] >= 1),
                        ("%s: no division by 0 so far" % n, qall([i], z3.Implies(z3.And(i >= 1, i < x["idx"]), z3.Not(z3.Or(val(y) == 0, lib.interval_has(iv(y), R0)))), y))]
        return out
    for op in ("Acos", "Asin", "Log", "Log10", "Sqrt", "Mod", "Pow", "Div"):
        n = 2 if op in ("Mod", "Pow", "Div") else 1
        out.append(Contract("%s::Validate" % op, W(op, "validate"), nargs(n, op != "Div"), None, lambda c: [],
                            lambda c, op=op: [(DOM, vdom(op, c), False)], loops=[vloop]))
    out.append(Contract("EnsureMultivariateArgs", M + "detail::EnsureMultivariateArgs", None, None, lambda c: [],
                        lambda c: [(M + "ValidityError", c.val(0)["len"] < 2, False)]))
    out += [edev]
    for con in out:
        sampling(con)
        con.loops = [memo_loop] + con.loops
    return out


def corners(p, x, y, a, b, c, d):
    cs = [powf(a, c), powf(a, d), powf(b, c), powf(b, d)]
    return z3.And(z3.Or(*[t <= p for t in cs]), z3.Or(*[t >= p for t in cs]))


def integer(x):
    return x == z3.ToReal(z3.ToInt(x))


def lemmas():
    x, y, a, b, c, d = z3.Reals("x y a b c d")

    def base_mono(u, v, e):     # monotone in the base
        return z3.Implies(z3.And(0 <= u, u <= v, z3.Or(u > 0, e > 0)), z3.And(z3.Implies(e >= 0, powf(u, e) <= powf(v, e)), z3.Implies(e <= 0, powf(u, e) >= powf(v, e))))

    def exp_mono(u, e, f):      # monotone in the exponent
        return z3.Implies(z3.And(e <= f, z3.Or(u > 0, e > 0), u >= 0), z3.And(z3.Implies(u >= 1, powf(u, e) <= powf(u, f)), z3.Implies(u <= 1, powf(u, e) >= powf(u, f))))
    hy = [a <= x, x <= b, a >= 0, c <= y, y <= d, z3.Or(a > 0, c > 0)]
    facts = [base_mono(a, x, y), base_mono(x, b, y)] + [exp_mono(u, c, y) for u in (a, b)] + [exp_mono(u, y, d) for u in (a, b)]
    tr = [("truncation: fact %d" % (i + 1), [], f) for i, f in enumerate(trunc_facts(trunc_def, x, y)) if i]
    up = lambda t: z3.ToReal(z3.ToInt(t))       # truncation of non-negative, and of negative numbers
    dn = lambda t: -z3.ToReal(z3.ToInt(-t))
    tr += [("truncation is monotone (both non-negative)", [x >= 0, x <= y], up(x) <= up(y)), ("truncation is monotone (both negative)", [y < 0, x <= y], dn(x) <= dn(y)),
           ("truncation is monotone (signs differ)", [x < 0, y >= 0], dn(x) <= up(y)),
           ("truncation is idempotent (non-negative)", [x >= 0], z3.And(up(x) >= 0, up(up(x)) == up(x))),
           ("truncation is idempotent (negative)", [x < 0], z3.And(dn(x) <= 0, dn(dn(x)) == dn(x), z3.Implies(dn(x) == 0, up(dn(x)) == dn(x))))]
    return tr + [("the extrema of a power with a non-negative base are at the corners", hy + facts, corners(powf(x, y), x, y, a, b, c, d))]


def axioms(en):
    x, y, z = z3.Reals("ax ay az")
    a, b, c, d = z3.Reals("aa ab ac ad")
    pos, nn = (lambda t: t > 0), (lambda t: t >= 0)
    ax = [monotone(rf("sinh")), monotone(rf("tanh")), monotone(rf("exp")), monotone(rf("log"), pos), monotone(rf("log10"), pos), monotone(rf("sqrt"), nn)]
    ax.append(PI > 0)
    for f, lo, hi, dom in (("acos", R0, PI, True), ("asin", -PI / 2, PI / 2, True), ("atan", -PI / 2, PI / 2, False), ("cos", -R1, R1, False), ("sin", -R1, R1, False)):
        t = rf(f)(x)
        g = z3.And(lo <= t, t <= hi)
        ax.append(qall([x], z3.Implies(z3.And(x >= -1, x <= 1), g) if dom else g, t))
    # cosh: even, minimal at 0
    ab = lambda t: z3.If(t >= 0, t, -t)
    ch, tn = rf("cosh"), rf("tan")
    ax.append(qall([x], ch(x) >= 1, ch(x)))
    ax.append(qall([x, y], z3.Implies(ab(x) <= ab(y), ch(x) <= ch(y)), z3.MultiPattern(ch(x), ch(y))))
    # tan: monotone between its poles; finite at the numbers that are no poles
    br = lambda t: z3.ToInt(t / PI + z3.RealVal("1/2"))
    ax.append(qall([x, y, z], z3.Implies(z3.And(x <= y, y <= z, br(x) == br(z)), z3.And(tn(x) <= tn(y), tn(y) <= tn(z))), z3.MultiPattern(tn(x), tn(y), tn(z))))
    mx = z3.RealVal(str(fractions.Fraction(1.7976931348623157e308)))
    ax.append(qall([x], z3.And(-mx <= tn(x), tn(x) <= mx), tn(x)))
    # fmod: sign of the dividend, magnitude below the divisor and not above the dividend
    fm = fmodf(x, y)
    ax.append(qall([x, y], z3.Implies(y != 0, z3.And(ab(fm) < ab(y), ab(fm) <= ab(x), z3.Implies(x >= 0, fm >= 0), z3.Implies(x <= 0, fm <= 0))), fm))
    ft = trunc_facts(trunc, x, y)
    ax.append(qall([x, y], ft[0], z3.MultiPattern(trunc(x), trunc(y))))
    ax.append(qall([x], z3.And(*ft[1:]), trunc(x)))
    ax.append(qall([x], trunc(trunc(x)) == trunc(x), trunc(trunc(x))))
    # pow: the corner lemma (proved from monotonicity), negative bases with integer exponents
    p = powf(x, y)
    mp = z3.MultiPattern(powf(x, y), powf(a, c), powf(b, d))
    ax.append(qall([x, y, a, b, c, d], z3.Implies(z3.And(a <= x, x <= b, a >= 0, c <= y, y <= d, z3.Or(a > 0, c > 0)), corners(p, x, y, a, b, c, d)), mp))
    ax.append(qall([x, y], z3.Implies(z3.And(x < 0, integer(y)), z3.Or(p == powf(-x, y), p == -powf(-x, y))), p))
    ax.append(qall([x, y], z3.Implies(z3.Or(x > 0, z3.And(x == 0, y > 0)), p >= 0), p))
    q0 = powf(R0, y)
    ax.append(qall([x, y], z3.Implies(y > 0, q0 == 0), p))
    ax.append(qall([x, a, b, y], z3.Implies(z3.And(integer(y), a <= x, x <= b, b <= 0, z3.Or(b < 0, y > 0)),
                                            z3.Or(z3.And(powf(a, y) <= p, p <= powf(b, y)), z3.And(powf(a, y) >= p, p >= powf(b, y)))),
                   z3.MultiPattern(p, powf(a, y), powf(b, y))))
    return ax


SPEC = dict(id="C12", tus=["VERIF/native/inst/expr.cc", "expression/numerical.cc", "expression/conditional.cc", "expression.cc"],
            contracts=mk, axioms=axioms, lemmas=lemmas, opts=dict(relevancy=0, opaque_trunc=True), loops=[],
            assumptions=["floating-point arithmetic of the expressions is treated as real arithmetic",
                         "the mathematical functions are uninterpreted real functions with monotonicity, range and sign facts",
                         "tan is finite and bounded by the greatest double at every number"])
