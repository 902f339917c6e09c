"""Contracts on common-cause groups: src/ccf_group.{h,cc}; the value of an expression is a function of the object (C12)."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs.failure import val as V, ilo, ihi, iv, prob_bad

G, EX, EL, MEF = "scram::mef::CcfGroup", "scram::mef::Expression", "scram::mef::Element", "scram::mef::"
LOG, VAL, DOM = "scram::LogicError", "scram::mef::ValidityError", "scram::mef::DomainError"
REAL, AI = z3.RealSort(), z3.ArraySort(INT, INT)
fact = z3.Function("factorial", INT, REAL)
RC = z3.Function("reciprocal", INT, INT, REAL)          # k!(n-k)!/n!
prod = z3.Function("product", AI, INT, REAL)            # of the values of the first n expressions
ssum = z3.Function("sum", AI, INT, REAL)
wsum = z3.Function("weighted_sum", AI, AI, INT, REAL)   # of level times value
SUMS = {"sum of values": z3.Function("value_sum", AI, INT, REAL), "sum of lower bounds": z3.Function("lower_sum", AI, INT, REAL), "sum of upper bounds": z3.Function("upper_sum", AI, INT, REAL)}
S = z3.Select
step = z3.Function("step_of_factorial", INT, BOOL)      # true; names the numbers whose recursion step a proof needs


def axioms(en):
    n, k, x = z3.Const("c!n", INT), z3.Const("c!k", INT), z3.Const("c!x", INT)
    a, b = z3.Const("c!a", AI), z3.Const("c!b", AI)
    F = lambda vs, t, *p: qall(vs, t, *p)
    out = [V(z3.Const("g_scram::mef::ConstantExpression::kOne", INT)) == 1,
           fact(0) == 1, F([n], z3.And(step(n), z3.Implies(n >= 1, fact(n) == z3.ToReal(n) * fact(n - 1))), step(n)), F([n], z3.Implies(n >= 0, fact(n) >= 1), fact(n)),
           F([n, k], z3.Implies(z3.And(0 <= k, k <= n), RC(n, k) * fact(n) == fact(k) * fact(n - k)), RC(n, k))]
    for f, z, op in ((prod, 1, lambda u, v: u * v), (ssum, 0, lambda u, v: u + v)):
        st = f(z3.Store(a, n, x), k)
        out += [F([a], f(a, 0) == z, f(a, 0)), F([a, n, x, k], z3.Implies(z3.And(n >= 0, k == n + 1), st == op(f(a, n), V(x))), st)]
        out += [F([a, n], z3.Implies(n >= 0, f(a, n + 1) == op(f(a, n), V(S(a, n)))), z3.MultiPattern(f(a, n), S(a, n)))]
    out += [F([b, a], wsum(b, a, 0) == 0, wsum(b, a, 0)), F([b, a, n], z3.Implies(n >= 0, wsum(b, a, n + 1) == wsum(b, a, n) + z3.ToReal(S(b, n)) * V(S(a, n))), z3.MultiPattern(wsum(b, a, n), S(a, n)))]
    for f, t in zip(SUMS.values(), (V, ilo, ihi)):
        out += [F([a], f(a, 0) == 0, f(a, 0)), F([a, n], z3.Implies(n >= 0, f(a, n + 1) == f(a, n) + t(S(a, n))), z3.MultiPattern(f(a, n), S(a, n)))]
    return out


def lemmas():
    a, n, k, x = z3.Const("c!a", AI), z3.Const("c!n", INT), z3.Const("c!k", INT), z3.Const("c!x", INT)
    out = []
    for nm, f, op in (("product", prod, lambda u, v: u * v), ("sum", ssum, lambda u, v: u + v)):
        st = z3.Store(a, n, x)
        st1 = lambda y, m: f(y, m + 1) == op(f(y, m), V(S(y, m)))
        out += [("a %s over a longer list agrees on the prefix: start" % nm, [f(a, 0) == f(st, 0)], f(st, 0) == f(a, 0)),
                ("a %s over a longer list agrees on the prefix: step" % nm, [0 <= k, k < n, f(st, k) == f(a, k), st1(a, k), st1(st, k)], f(st, k + 1) == f(a, k + 1)),
                ("a %s over a longer list" % nm, [n >= 0, f(st, n) == f(a, n), st1(st, n)], f(st, n + 1) == op(f(a, n), V(x)))]
    # the shares of a member
    q, s, p, f, r, c = z3.Reals("q s p f r c")
    out += [("the shares of Greek letters add up: step", [s + p == 1], (s + p * (1 - f)) + p * f == 1),
            ("the shares of Greek letters add up to the total", [s + p == 1], s * q + p * q == q),
            ("as many combinations of a level contain a member", [r * c == 1], c * (r * p * q) == p * q),
            ("the shares of a beta-factor add up", [], (1 - f) * q + f * q == q),
            ("the shares of alpha factors add up", [s != 0], (p / s) * q + ((s - p) / s) * q == q)]
    return out


def mk(prog):
    out = []
    fld = lambda n: lambda c, old=True: c.fld(c.this, G, n, old)
    factors, members, dist = fld("factors_"), fld("members_"), fld("distribution_")
    fv = lambda c, i: V(S(factors(c)["at"]["second"], i))
    i, j = z3.Const("c!i", INT), z3.Const("c!j", INT)

    # ---- expressions made for a group
    def reg(t, lst):
        def sel(fd, key, prog):
            if fd["q"] != G + "::Register":
                return False
            T = prog.fdecl_tu[key].types
            a = [T[x["t"]].s for x in fd.get("a", []) if "t" in x]
            return a and t in a[0]
        return sel

    def lval(c):
        v = c.val(0)
        return v["at"], v["len"]
    KINDS = {"std::multiplies": lambda at, n: prod(at, n), "std::plus": lambda at, n: ssum(at, n),
             "std::minus": lambda at, n: None, "std::divides": lambda at, n: None}

    def meaning(kind, c):
        at, n = lval(c)
        v0, v1, r = V(S(at, 0)), V(S(at, 1)), V(c.rval())
        if kind == "std::multiplies":
            return [r == prod(at, n), z3.Implies(n == 2, r == v0 * v1)]
        if kind == "std::plus":
            return [r == ssum(at, n)]
        if kind == "std::minus":
            return [z3.Implies(n == 2, r == v0 - v1)]
        return [z3.Implies(z3.And(n == 2, v1 != 0), r == v0 / v1)]

    def kept(c):
        x, y = c.fld(c.this, G, "expressions_", True), c.fld(c.this, G, "expressions_", False)
        return [("the group keeps it", z3.And(y["len"] == x["len"] + 1, S(y["at"], x["len"]) == c.rval()))]

    room = lambda c: [("expressions of the group", c.fld(c.this, G, "expressions_")["len"] >= 0)]

    def ens(c):
        at, n = lval(c)
        a = c.fld(c.rval(), EX, "args_", False)
        return kept(c) + [("its arguments", z3.And(a["len"] == n, qall([i], z3.Implies(z3.And(0 <= i, i < n), S(a["at"], i) == S(at, i)), S(a["at"], i))))]
    for kind in KINDS:
        out.append(Contract("Register<%s>" % kind[5:], reg(kind, True), lambda c: room(c) + [("arguments", lval(c)[1] >= 0)], ens, lambda c: [((G, "expressions_"), c.this)],
                            lambda c: [(VAL, lval(c)[1] < 2, True)], assumes=lambda c, kind=kind: meaning(kind, c), allocates=True))
    CEX = MEF + "ConstantExpression"
    num = lambda c: int_to_real(c.val(0)) if c.val(0).sort() == INT else c.val(0)
    out.append(Contract("Register<ConstantExpression>", reg("ConstantExpression", False), room, lambda c: kept(c) + [("its value", c.fld(c.rval(), CEX, "value_", False) == num(c))],
                        lambda c: [((G, "expressions_"), c.this)], assumes=lambda c: [V(c.rval()) == num(c)], allocates=True))
    out.append(Contract("EnsureMultivariateArgs", MEF + "detail::EnsureMultivariateArgs", None, None, lambda c: [], lambda c: [(VAL, c.val(0)["len"] < 2, False)]))

    # ---- combinatorics
    def rloop(v):
        o = []
        for n, x, x0 in v.mod_locals(sort=INT):
            for m, t, t0 in v.mod_locals(sort=REAL):
                for l, k, k0 in v.locals(sort=INT):
                    if l != n:
                        o.append(("%s is a reciprocal of %s and %s" % (m, l, n), z3.And(x >= 1, t * fact(k + x - 1) == fact(x - 1) * fact(k))))
                        o.append(("steps of %s and %s" % (l, n), z3.And(step(x), step(k + x))))
                        for l2, k2, k3 in v.locals(sort=INT):
                            if l2 not in (l, n):
                                o.append(("%s at most %s - %s" % (n, l2, l), x <= k2 - k + 1))
        return o
    out.append(Contract("CalculateCombinationReciprocal", lambda fd, key, prog: fd["n"] == "CalculateCombinationReciprocal", lambda c: [("a subset", z3.And(0 <= c.val(1), c.val(1) <= c.val(0)))],
                        lambda c: [("the reciprocal", c.rval() == RC(c.val(0), c.val(1)))], lambda c: [], loops=[rloop]))

    # ---- the factors of a group: (level, expression)
    at1, at2 = lambda c: factors(c)["at"]["first"], lambda c: factors(c)["at"]["second"]
    m = lambda c: factors(c)["len"]
    n = lambda c: members(c)["len"]
    q = lambda c: V(dist(c))
    mods = lambda c: [((G, "expressions_"), c.this)]

    def leveled(c, first):
        return room(c) + [("factors by level", qall([i], z3.Implies(z3.And(0 <= i, i < m(c)), S(at1(c), i) == i + first), S(at1(c), i))), ("as many levels as members", z3.And(m(c) >= 1, m(c) + first - 1 <= n(c)))]

    def entry(c, k, level, value):
        r = c.rval()
        return z3.And(S(r["at"]["first"], k) == level, V(S(r["at"]["second"], k)) == value)
    CP = lambda cls: MEF + cls + "::CalculateProbabilities"
    b = lambda c: fv(c, 0)
    out.append(Contract("Beta::CalculateProbabilities", CP("BetaFactorModel"), lambda c: room(c) + [("one factor for all members", z3.And(m(c) == 1, S(at1(c), 0) == n(c), n(c) >= 2))],
                        lambda c: [("two kinds of failures", c.rval()["len"] == 2), ("independent failures", entry(c, 0, 1, (1 - b(c)) * q(c))), ("the common failure", entry(c, 1, n(c), b(c) * q(c)))], mods, allocates=True))

    def mgl(a2, mm, nn, qq, k):
        """Value of the failures of k + 1 members by Greek letters."""
        return z3.If(k < mm, RC(nn - 1, k) * prod(a2, k) * (1 - V(S(a2, k))) * qq, RC(nn - 1, k) * prod(a2, k) * qq)

    def alpha(a1, a2, mm, nn, qq, k):
        return z3.ToReal(k + 1) * RC(nn - 1, k) * (V(S(a2, k)) / wsum(a1, a2, mm)) * qq

    def per_level(c, f, count):
        r = c.rval()
        return [("as many levels", r["len"] == count), ("each level", qall([i], z3.Implies(z3.And(0 <= i, i < count), S(r["at"]["first"], i) == i + 1), S(r["at"]["first"], i))),
                ("the value of each level", qall([i], z3.Implies(z3.And(0 <= i, i < count), V(S(r["at"]["second"], i)) == f(i)), S(r["at"]["second"], i)))]

    def lists(v):
        """Local lists of expressions, and of (level, expression)."""
        one, two = [], []
        for nme, x, x0 in v.locals(kind="vec"):
            a = x["at"]
            if isinstance(a, Node) and a.kind == "rec" and set(a.ch) == {"first", "second"}:
                two.append((nme, x, x0))
            elif not isinstance(a, Node) and a.sort() == AI:
                one.append((nme, x, x0))
        return one, two

    def levels(fun):
        """Loops that fill the levels one by one."""
        def fn(v):
            this = v.fr.this.root[1] if isinstance(v.fr.this, LVal) else v.fr.this
            if this is None:
                return []
            g = lambda f: v.en.heap_get(v.st, (G, f), this)
            fs, nn, qq = g("factors_"), g("members_")["len"], V(g("distribution_"))
            a1, a2, mm = fs["at"]["first"], fs["at"]["second"], fs["len"]
            o = []
            idx = [(l, x) for l, x, x0 in v.mod_locals(sort=INT)] + ([("k", v.i)] if getattr(v, "i", None) is not None else [])
            one, two = lists(v)
            o.append(("expressions of the group", g("expressions_")["len"] >= 0))
            for l, k in idx:
                o.append(("%s in range" % l, k >= 0))
                for lim, t in (("the factors", mm), ("one more than the factors", mm + 1)):
                    o.append(("%s up to %s" % (l, lim), k <= t))
                for w, x, x0 in two:
                    o += [("%s has %s entries" % (w, l), x["len"] == k), ("%s lists levels" % w, qall([i], z3.Implies(z3.And(0 <= i, i < k), S(x["at"]["first"], i) == i + 1), S(x["at"]["first"], i))),
                          ("%s has the values" % w, qall([i], z3.Implies(z3.And(0 <= i, i < k), V(S(x["at"]["second"], i)) == fun(a1, a2, mm, nn, qq, i)), S(x["at"]["second"], i)))]
                for w, x, x0 in one:
                    o += [("%s has %s more" % (w, l), x["len"] == x0["len"] + k), ("%s multiplies" % w, prod(x["at"], x["len"]) == prod(x0["at"], x0["len"]) * prod(a2, k)),
                          ("%s sums" % w, ssum(x["at"], x["len"]) == wsum(a1, a2, k))]
                    for l2, u, u0 in v.locals(sort=INT):
                        if l2 != l:
                            o.append(("%s up to %s" % (l, l2), k <= u))
            return o
        return fn
    out.append(Contract("Mgl::CalculateProbabilities", CP("MglModel"), lambda c: leveled(c, 2), lambda c: per_level(c, lambda k: mgl(at2(c), m(c), n(c), q(c), k), m(c) + 1), mods, allocates=True,
                        loops=[levels(lambda a1, a2, mm, nn, qq, k: mgl(a2, mm, nn, qq, k))]))
    out.append(Contract("Alpha::CalculateProbabilities", CP("AlphaFactorModel"), lambda c: leveled(c, 1) + [("two levels", m(c) >= 2), ("factors are not all zero", wsum(at1(c), at2(c), m(c)) != 0)],
                        lambda c: per_level(c, lambda k: alpha(at1(c), at2(c), m(c), n(c), q(c), k), m(c)), mods, allocates=True, loops=[levels(alpha)]))
    out.append(Contract("Phi::CalculateProbabilities", CP("PhiFactorModel"), lambda c: leveled(c, 1), lambda c: per_level(c, lambda k: fv(c, k) * q(c), m(c)), mods, allocates=True,
                        loops=[levels(lambda a1, a2, mm, nn, qq, k: V(S(a2, k)) * qq)]))

    # ---- defining a group
    ML = z3.Function("min_level", INT, INT)
    out.append(Contract("CcfGroup::min_level", G + "::min_level", None, lambda c: [("level", z3.And(c.rval() == ML(c.this), c.rval() >= 0, c.rval() < 2**31))], lambda c: [], trusted="the least level is a function of the group (its overrides are verified below)"))
    out.append(Contract("Beta::min_level", MEF + "BetaFactorModel::min_level", lambda c: [("as many as an int", z3.And(n(c) >= 0, n(c) < 2**31))], lambda c: [("all members", c.rval() == n(c))], lambda c: []))
    out.append(Contract("Mgl::min_level", MEF + "MglModel::min_level", None, lambda c: [("two members", c.rval() == 2)], lambda c: []))

    def lev(c):
        o, p = c.val(1), c.fld(c.this, G, "prev_level_", True)
        return z3.If(o["has"], o["val"], z3.If(p != 0, p + 1, ML(c.this)))
    null = lambda c, k: S(at2(c), k) == 0
    ix = lambda c: lev(c) - ML(c.this)

    def areq(c):
        o = c.val(1)
        return [("lengths", z3.And(m(c) >= 0, m(c) < 2**31, n(c) >= 0, n(c) < 2**31)), ("levels are small", z3.And(c.fld(c.this, G, "prev_level_", True) >= 0, c.fld(c.this, G, "prev_level_", True) < 2**31 - 1)),
                ("a least level", z3.And(ML(c.this) >= 0, ML(c.this) < 2**31))]

    def aens(c):
        g, o = factors(c, False), factors(c)
        k = ix(c)
        same = lambda i: z3.And(S(g["at"]["first"], i) == S(o["at"]["first"], i), S(g["at"]["second"], i) == S(o["at"]["second"], i))
        return [("the level's factor", z3.And(S(g["at"]["first"], k) == lev(c), S(g["at"]["second"], k) == c.val(0))), ("the levels so far", g["len"] == z3.If(k < o["len"], o["len"], k + 1)),
                ("the other factors are kept", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o["len"], i != k), same(i)))),
                ("the levels between are open", z3.ForAll([i], z3.Implies(z3.And(o["len"] <= i, i < k), S(g["at"]["second"], i) == 0))), ("the last level", c.fld(c.this, G, "prev_level_", False) == lev(c))]

    def athr(c):
        l, k = lev(c), ix(c)
        bad = z3.Or(l <= 0, n(c) == 0)
        return [(LOG, bad, False), (VAL, z3.And(z3.Not(bad), z3.Or(k < 0, l > n(c), z3.And(k < m(c), z3.Not(null(c, k))))), False)]
    out.append(Contract("CcfGroup::AddFactor", G + "::AddFactor", areq, aens, lambda c: [((G, "factors_"), c.this), ((G, "prev_level_"), c.this)], athr))

    # ---- the distribution of a group becomes that of its members
    BE = MEF + "BasicEvent"
    out.append(Contract("CcfGroup::AddDistribution", G + "::AddDistribution", lambda c: [("members", z3.And(n(c) >= 0, qall([i], z3.Implies(z3.And(0 <= i, i < n(c)), S(members(c)["at"], i) > 0), S(members(c)["at"], i))))],
                        lambda c: [("the distribution", dist(c, False) == c.val(0)), ("of each member", qall([i], z3.Implies(z3.And(0 <= i, i < n(c)), c.fld(S(members(c)["at"], i), BE, "expression_", False) == c.val(0)), S(members(c)["at"], i)))],
                        lambda c: [((G, "distribution_"), c.this), ((BE, "expression_"), None)], lambda c: [(LOG, dist(c) != 0, False), (VAL, z3.And(dist(c) == 0, n(c) < 2), False)], loops=[spread]))

    # ---- validation
    proper = lambda x: z3.Not(prob_bad(x))
    badsum = z3.Function("is_bad_for_the_model", INT, BOOL)
    out.append(Contract("EnsureProbability", MEF + "EnsureProbability", None, None, lambda c: [], lambda c: [(DOM, z3.Not(proper(c.val(0))), False)], trusted="verified for C13"))
    a2n = lambda c: (at2(c), m(c))
    far = lambda x: z3.Not(z3.And(x - 1 <= z3.RealVal("0.0001"), 1 - x <= z3.RealVal("0.0001")))
    off = lambda c: z3.Or(*[far(f(*a2n(c))) for f in SUMS.values()])
    out.append(Contract("Phi::DoValidate", MEF + "PhiFactorModel::DoValidate", lambda c: [("lengths", m(c) >= 0)], None, lambda c: [], lambda c: [(VAL, off(c), False)],
                        loops=[lambda v: [("%s is the %s" % (l, w), x == f(v.range["at"]["second"], v.i)) for l, x, x0 in v.mod_locals(sort=REAL) for w, f in SUMS.items()] if getattr(v, "i", None) is not None else []]))
    out.append(Contract("Expression::value", EX + "::value", None, lambda c: [("value", c.rval() == V(c.this))], lambda c: [], trusted="value() is a function of the object (the overrides are verified for C12 and C13)"))
    out.append(Contract("Expression::interval", EX + "::interval", None, lambda c: [("interval", c.en.tree_eq(c.rval(), iv(c.this)))], lambda c: [], trusted="interval() is a function of the object (the overrides are verified for C12 and C13)"))
    out.append(Contract("CcfGroup::DoValidate", G + "::DoValidate", None, None, lambda c: [], lambda c: [(VAL, badsum(c.this), False)], trusted="the rules of the model (the override is verified below)"))
    blank = lambda c: z3.Or(dist(c) == 0, n(c) == 0, m(c) == 0)
    upto = lambda c, k: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(S(at2(c), j) != 0, proper(S(at2(c), j)))))
    first = lambda c, f: z3.Exists([i], z3.And(0 <= i, i < m(c), f(S(at2(c), i)), upto(c, i)))
    out.append(Contract("CcfGroup::Validate", G + "::Validate", lambda c: [("lengths", z3.And(n(c) >= 0, m(c) >= 0))], None, lambda c: [], lambda c: [
        (LOG, blank(c), False), (DOM, z3.And(z3.Not(blank(c)), z3.Or(z3.Not(proper(dist(c))), first(c, lambda x: z3.And(x != 0, z3.Not(proper(x)))))), False),
        (VAL, z3.And(z3.Not(blank(c)), proper(dist(c)), z3.Or(first(c, lambda x: x == 0), z3.And(upto(c, m(c)), badsum(c.this)))), False)], loops=[checked(proper)]))
    return out


def spread(v):
    k = getattr(v, "i", None)
    if k is None:
        return []
    BE = MEF + "BasicEvent"
    arr = v.st.heap.get((BE, "expression_"))
    if arr is None:
        arr = v.en.hkey_initial((BE, "expression_"), v.en.field_ty((BE, "expression_")))
    this = v.fr.this.root[1] if isinstance(v.fr.this, LVal) else v.fr.this
    d = v.en.heap_get(v.st, (G, "distribution_"), this)
    at = v.range["at"]
    i = z3.Const("c!i", INT)
    return [("members so far by %s" % l, qall([i], z3.Implies(z3.And(0 <= i, i < k), S(arr, S(at, i)) == x), S(at, i))) for l, x in [("the distribution", d)]]


def checked(proper):
    def fn(v):
        k = getattr(v, "i", None)
        if k is None:
            return []
        at = v.range["at"]["second"]
        i = z3.Const("c!i", INT)
        return [("proper so far", qall([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(S(at, i) != 0, proper(S(at, i)))), S(at, i)))]
    return fn


SPEC = dict(id="C11", tus=["ccf_group.cc", "expression.cc", "element.cc"], contracts=mk, axioms=axioms, lemmas=lemmas, opts=dict(asserts="check"), loops=[], assumptions=[
    "value() of an expression is a function of the object and follows the definitions of C12", "floating-point arithmetic is treated as real arithmetic", "ConstantExpression::kOne is 1 (bounded check)"])
