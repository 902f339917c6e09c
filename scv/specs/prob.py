"""Contracts on the exact probability of a BDD (C05)."""
import z3
from core import *
from contracts import Contract
from engine import qall

C = "scram::core::"
B = C + "Bdd"
I = C + "Ite"
NT = C + "NonTerminal<scram::core::Ite>"
V = C + "Vertex<scram::core::Ite>"
AN = C + "ProbabilityAnalyzer<scram::core::Bdd>"
AR = z3.ArraySort(INT, REAL)
S = z3.Select
P = z3.Const("the_p_vars", AR)                     # one arbitrary vector of variable probabilities
pr = z3.Function("pr", INT, REAL)                  # probability of the function of a vertex (without its complement)
reach = z3.Function("reach", INT, INT, BOOL)       # the second vertex is part of the diagram of the first, modules included
rank = z3.Function("vrank", INT, INT)
dia = z3.Function("diagram", INT, BOOL)            # vertices of the analyzed diagram
mroot = z3.Function("module_root", INT, INT)       # by the index of the module
mcomp = z3.Function("module_compl", INT, BOOL)
BASE = 2


class F:
    def __init__(self, en):
        g = lambda c, n: (lambda r: en.imm(c, n, r))
        self.id, self.high, self.low, self.index, self.order, self.ce = g(V, "id_"), g(NT, "high_"), g(NT, "low_"), g(NT, "index_"), g(NT, "order_"), g(I, "complement_edge_")
        self.module = g(NT, "module_")
        # a vertex is non-terminal exactly if its id is not 1
        self.term = lambda r: self.id(r) <= 1


def pvar(f, r):
    m = mroot(f.index(r))
    return z3.If(f.module(r), z3.If(mcomp(f.index(r)), 1 - pr(m), pr(m)), S(P, f.index(r) - BASE))


def children(f, r):
    return [(z3.BoolVal(True), f.high(r)), (z3.BoolVal(True), f.low(r)), (f.module(r), mroot(f.index(r)))]


def axioms(en):
    f = F(en)
    r, y = z3.Ints("pr_r pr_y")
    step = pvar(f, r) * pr(f.high(r)) + (1 - pvar(f, r)) * z3.If(f.ce(r), 1 - pr(f.low(r)), pr(f.low(r)))
    nt = z3.And(dia(r), z3.Not(f.term(r)))
    kid = z3.And(*[z3.Implies(c, z3.And(dia(k), rank(k) < rank(r), k > 0)) for c, k in children(f, r)])
    rr = reach(r, y) == z3.Or(y == r, *[z3.And(c, reach(k, y)) for c, k in children(f, r)])
    return [qall([r], z3.Implies(z3.And(dia(r), f.term(r)), pr(r) == 1), pr(r)),
            qall([r], z3.Implies(nt, z3.And(kid, pr(r) == step)), f.high(r)),
            qall([r], z3.Implies(nt, z3.And(kid, pr(r) == step)), f.low(r)),
            qall([r, y], z3.Implies(nt, rr), z3.MultiPattern(reach(r, y), f.high(r))),
            qall([r, y], z3.Implies(nt, rr), z3.MultiPattern(reach(r, y), f.low(r))),
            qall([r], reach(r, r), reach(r, r)),
            qall([r, y], z3.Implies(z3.And(dia(r), f.term(r)), reach(r, y) == (y == r)), reach(r, y)),
            qall([r, y], z3.Implies(z3.And(dia(r), reach(r, y)), z3.And(dia(y), rank(y) <= rank(r))), reach(r, y))]


def lemmas():
    p, h, l = z3.Reals("p h l")
    u = [x >= 0 for x in (p, h, l)] + [x <= 1 for x in (p, h, l)]
    q, h1, l1, h0, l0 = z3.Reals("q h1 l1 h0 l0")
    return [("a mixture of probabilities is a probability", u, z3.And(p * h + (1 - p) * l >= 0, p * h + (1 - p) * l <= 1)),
            ("total probability: the sum over assignments splits by the variable", [], p * h + (1 - p) * l == p * h + l - p * l),
            ("the complement of an event", u, z3.And(1 - l >= 0, 1 - l <= 1))]


def mods_ok(c):
    """The analyzer's module table is the one of the diagram."""
    f = F(c.en)
    g = c.fld(c.this, AN, "bdd_graph_")
    m = c.fld(g, B, "modules_")
    r = z3.Int("mo_r")
    i = f.index(r)
    return qall([r], z3.Implies(z3.And(dia(r), z3.Not(f.term(r)), f.module(r)),
                                z3.And(S(m["dom"], i), S(m["val"]["vertex"], i) == mroot(i), S(m["val"]["complement"], i) == mcomp(i))), f.index(r), f.module(r))


def vars_ok(c, pv):
    f = F(c.en)
    r = z3.Int("vo_r")
    return z3.And(pv["at"] == P, qall([r], z3.Implies(z3.And(dia(r), z3.Not(f.term(r)), z3.Not(f.module(r))), z3.And(f.index(r) >= BASE, f.index(r) - BASE < pv["len"])), f.index(r)))


def done(c, v, m, old):
    """Marked vertices below v have their probability, and so has all below them."""
    f = F(c.en)
    x, y = z3.Ints("do_x do_y")
    mk = lambda r: c.fld(r, NT, "mark_", old)
    return z3.And(qall([x], z3.Implies(z3.And(reach(v, x), z3.Not(f.term(x)), mk(x) == m), c.fld(x, I, "p_", old) == pr(x)), mk(x)),
                  qall([x, y], z3.Implies(z3.And(reach(v, x), z3.Not(f.term(x)), mk(x) == m, reach(x, y), z3.Not(f.term(y))), mk(y) == m), reach(x, y)))


def mk(prog):
    def crec_req(c):
        v, m = c.val(0), c.val(1)
        return [("vertex of the diagram", z3.And(dia(v), v > 0)), ("modules", mods_ok(c)), ("variables", vars_ok(c, c.val(2))),
                ("marked vertices are done", done(c, v, m, True))]

    def crec_ens(c):
        f = F(c.en)
        v, m = c.val(0), c.val(1)
        x = z3.Int("ce_x")
        mk = lambda r, old: c.fld(r, NT, "mark_", old)
        p = lambda old: c.fld(x, I, "p_", old)
        return [("probability of the vertex", c.rval() == pr(v)),
                ("marked vertices are done", done(c, v, m, False)),
                ("everything below is marked", qall([x], z3.Implies(z3.And(reach(v, x), z3.Not(f.term(x))), mk(x, False) == m), reach(v, x))),
                ("marks elsewhere are kept", qall([x], z3.Implies(z3.Not(reach(v, x)), mk(x, False) == mk(x, True)), mk(x, False))),
                ("probabilities elsewhere are kept", qall([x], z3.Implies(z3.Not(reach(v, x)), p(False) == p(True)), p(False)))]
    rec = Contract("CalculateProbability", AN + "::CalculateProbability", crec_req, crec_ens, lambda c: [((NT, "mark_"), None), ((I, "p_"), None)])

    def root(c):
        g = c.fld(c.this, AN, "bdd_graph_")
        return c.fld(g, B, "root_")

    def marked(c, old):
        f = F(c.en)
        x = z3.Int("ma_x")
        return qall([x], z3.Implies(z3.And(reach(root(c)["vertex"], x), z3.Not(f.term(x))), c.fld(x, NT, "mark_", old) == c.fld(c.this, AN, "current_mark_", old)), c.fld(x, NT, "mark_", old))

    def treq(c):
        return [("the analyzed diagram", z3.And(dia(root(c)["vertex"]), root(c)["vertex"] > 0)), ("modules", mods_ok(c)), ("variables", vars_ok(c, c.val(0))),
                ("all marks agree", marked(c, True))]

    def tens(c):
        f = F(c.en)
        q = pr(root(c)["vertex"])
        x = z3.Int("te_x")
        return [("probability of the diagram", c.rval() == z3.If(root(c)["complement"], 1 - q, q)), ("all marks agree", marked(c, False)),
                ("vertices keep their probability", qall([x], z3.Implies(z3.And(reach(root(c)["vertex"], x), z3.Not(f.term(x))), c.fld(x, I, "p_", False) == pr(x)), c.fld(x, I, "p_", False)))]
    tot = Contract("CalculateTotalProbability", AN + "::CalculateTotalProbability", treq, tens,
                   lambda c: [((NT, "mark_"), None), ((I, "p_"), None), ((AN, "current_mark_"), c.this)])
    return [rec, tot]


SPEC = dict(id="C05", tus=["probability_analysis.cc"], contracts=mk, axioms=axioms, lemmas=lemmas,
            opts=dict(asserts="check", immutable=[(V, "id_"), (NT, "high_"), (NT, "low_"), (NT, "index_"), (NT, "order_"), (NT, "module_"), (I, "complement_edge_")]), loops=[],
            assumptions=["the diagram is acyclic, modules included (vertices are created from finished ones, C01)", "floating-point numbers are treated as reals"])
