"""Contracts on the approximate totals over products (C06)."""
import z3
from core import *
from contracts import Contract
from engine import qall

C = "scram::core::"
AI, AR = z3.ArraySort(INT, INT), z3.ArraySort(INT, REAL)
AAI = z3.ArraySort(INT, AI)
S = z3.Select
BASE = 2                                                          # index of the first variable
prodp = z3.Function("prodp", AI, AR, INT, REAL)                   # product of the probabilities of the first k literals
sump = z3.Function("sump", AI, AAI, AR, INT, REAL)                # sum over the first k products
noncut = z3.Function("noncut", AI, AAI, AR, INT, REAL)            # product of the complements of the first k products
slen = z3.Function("products_len", INT, INT)
selen = z3.Function("products_elem_len", INT, AI)
selem = z3.Function("products_elem", INT, AAI)


def sequence(en, st, lv):
    r = en.addr(lv)
    st.fact(slen(r) >= 0)
    i = z3.Const("sqi", INT)
    st.fact(qall([i], S(selen(r), i) >= 0, S(selen(r), i)))
    return Node("vec", {"len": slen(r), "at": Node("vec", {"len": selen(r), "at": selem(r)})})


SEQ = {"scram::core::Zbdd": ("std::vector<int, std::allocator<int>>", sequence)}


def axioms(en):
    a, P, k, L, A, P2 = z3.Const("xa", AI), z3.Const("xP", AR), z3.Const("xk", INT), z3.Const("xL", AI), z3.Const("xA", AAI), z3.Const("xP2", AR)
    q = prodp(S(A, k), P, S(L, k))
    return [qall([a, P], prodp(a, P, 0) == 1, prodp(a, P, 0)),
            qall([a, P, k], z3.Implies(k >= 0, prodp(a, P, k + 1) == prodp(a, P, k) * S(P, S(a, k) - BASE)), z3.MultiPattern(prodp(a, P, k), S(a, k))),
            qall([L, A, P], z3.And(sump(L, A, P, 0) == 0, noncut(L, A, P, 0) == 1), sump(L, A, P, 0)),
            qall([L, A, P], noncut(L, A, P, 0) == 1, noncut(L, A, P, 0)),
            qall([L, A, P, k], z3.Implies(k >= 0, sump(L, A, P, k + 1) == sump(L, A, P, k) + q), z3.MultiPattern(sump(L, A, P, k), S(A, k))),
            qall([L, A, P, k], z3.Implies(k >= 0, noncut(L, A, P, k + 1) == noncut(L, A, P, k) * (1 - q)), z3.MultiPattern(noncut(L, A, P, k), S(A, k)))]


def lemmas():
    s, q, m = z3.Reals("s q m")
    u = [q >= 0, q <= 1]
    return [("a product stays within [0, 1]", u + [m >= 0, m <= 1], z3.And(m * q >= 0, m * q <= 1, m * q <= m)),
            ("the product of complements stays within [0, 1]", u + [m >= 0, m <= 1], z3.And(m * (1 - q) >= 0, m * (1 - q) <= 1)),
            ("the bound of one more product is not above the sum", u + [m >= 0, m <= 1, s >= 0, 1 - m <= s], 1 - m * (1 - q) <= s + q)]


def probs(P):
    i = z3.Const("pi", INT)
    return qall([i], z3.And(S(P, i) >= 0, S(P, i) <= 1), S(P, i))


def mk(prog):
    def lits(v):
        return v["at"], v["len"]

    def one_req(c):
        i = z3.Const("li", INT)
        a, n = lits(c.val(0))
        P = c.val(1)
        return [("literals are variables", qall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(S(a, i) >= BASE, S(a, i) - BASE < P["len"])), S(a, i))),
                ("probabilities", probs(P["at"]))]

    def one_ens(c):
        a, n = lits(c.val(0))
        return [("product of the probabilities of its events", c.rval() == prodp(a, c.val(1)["at"], n)), ("probability", z3.And(c.rval() >= 0, c.rval() <= 1))]
    one = Contract("CutSetProbabilityCalculator::Calculate", lambda fd, k, pr: fd["q"] == C + "CutSetProbabilityCalculator::Calculate", one_req, one_ens, lambda c: [], loops=[one_loop])

    def ref(c):
        return c.arg(0) if not isinstance(c.arg(0), LVal) else c.en.addr(c.arg(0))

    def many_req(r, P):
        i, j = z3.Consts("mi mj", INT)
        lit = S(S(selem(r), i), j)
        return [("literals of all products are variables", qall([i, j], z3.Implies(z3.And(i >= 0, i < slen(r), j >= 0, j < S(selen(r), i)), z3.And(lit >= BASE, lit - BASE < P["len"])), lit)),
                ("probabilities", probs(P["at"]))]

    def rare(r, P):
        s = sump(selen(r), selem(r), P["at"], slen(r))
        return z3.If(s > 1, z3.RealVal(1), s)

    def mcub(r, P):
        return 1 - noncut(selen(r), selem(r), P["at"], slen(r))
    out = [one]
    for cls, f, nm in (("RareEventCalculator", rare, "sum of the products capped by 1"), ("McubCalculator", mcub, "one minus the product of complements")):
        out.append(Contract(cls + "::Calculate", C + cls + "::Calculate", lambda c: many_req(ref(c), c.val(1)),
                            lambda c, f=f, nm=nm: [(nm, c.rval() == f(ref(c), c.val(1))), ("probability", z3.And(c.rval() >= 0, c.rval() <= 1))], lambda c: [], loops=[many_loop]))
        PB = C + "ProbabilityAnalyzerBase"
        an = C + "ProbabilityAnalyzer<scram::core::%s>" % cls
        out.append(Contract("ProbabilityAnalyzer<%s>::CalculateTotalProbability" % cls, an + "::CalculateTotalProbability",
                            lambda c: many_req(c.fld(c.this, PB, "products_"), c.val(0)),
                            lambda c, f=f, nm=nm: [(nm + " over the analyzer's products", c.rval() == f(c.fld(c.this, PB, "products_"), c.val(0))), ("probability", z3.And(c.rval() >= 0, c.rval() <= 1))],
                            lambda c: []))
    return out


def one_loop(v):
    out = []
    for n, t, t0 in v.mod_locals(sort=REAL):
        P = v.locals(kind="vec") + v.refs(kind="vec")
        rng = v.range
        for m, p, p0 in P:
            if isinstance(p["at"], z3.ExprRef) and p["at"].sort() == AR:
                out.append(("%s is the product so far of %s" % (n, m), t == prodp(rng["at"], p["at"], v.i)))
        out.append(("%s in [0, 1]" % n, z3.And(t >= 0, t <= 1)))
    return out


def many_loop(v):
    out = []
    rng = v.range
    L, A = rng["at"]["len"], rng["at"]["at"]
    for n, t, t0 in v.mod_locals(sort=REAL):
        for m, p, p0 in v.locals(kind="vec") + v.refs(kind="vec"):
            if isinstance(p["at"], z3.ExprRef) and p["at"].sort() == AR:
                out += [("%s is the sum so far of %s" % (n, m), t == sump(L, A, p["at"], v.i)), ("%s is the complement so far of %s" % (n, m), t == noncut(L, A, p["at"], v.i))]
        out += [("%s not negative" % n, t >= 0), ("%s in [0, 1]" % n, z3.And(t >= 0, t <= 1))]
    return out


SPEC = dict(id="C06", tus=["probability_analysis.cc", "VERIF/native/inst/prob.cc"], contracts=mk, axioms=axioms, lemmas=lemmas, opts=dict(asserts="check", sequences=SEQ), loops=[],
            assumptions=["iterating over a Zbdd yields the sequence of its products (C29, bounded)", "floating-point numbers are treated as reals",
                         "event probabilities are within [0, 1] (C13)", "the bounds on the exact probability are Boole's inequality and its refinement for monotone functions (Esary-Proschan), checked on random trees only"])
