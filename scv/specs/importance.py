"""Contracts on the importance factors (C07)."""
import z3
from core import *
from contracts import Contract
from engine import qall
import specs.prob as prob
import specs.cutset as cutset
from specs.prob import F, pr, pvar, reach, rank, dia, mroot, mcomp, children, B, I, NT, V, S, BASE, P, AR

C = "scram::core::"
IA = C + "ImportanceAnalysis"
IB = C + "ImportanceAnalyzerBase"
BD = C + "ImportanceAnalyzer<scram::core::Bdd>"
PB = C + "ProbabilityAnalyzerBase"
dpr = z3.Function("dpr", INT, INT, REAL)           # by order of the variable: change of the vertex's probability
count = z3.Function("occ_count", cutset.AI, cutset.AAI, INT, INT, INT)       # occurrences of a variable in the first k products
count1 = z3.Function("occ_count1", cutset.AI, INT, INT, INT)
posf = z3.Function("kept_before", cutset.AI, INT, INT)


def sgn(c, x):
    return z3.If(c, -x, x)


def axioms(en):
    f = F(en)
    r, k = z3.Ints("dp_r dp_k")
    nt = z3.And(dia(r), z3.Not(f.term(r)))
    h, l, m = f.high(r), f.low(r), mroot(f.index(r))
    plow = z3.If(f.ce(r), 1 - pr(l), pr(l))
    step = z3.If(f.order(r) > k, z3.If(f.module(r), (pr(h) - plow) * sgn(mcomp(f.index(r)), dpr(m, k)), z3.RealVal(0)),
                 z3.If(f.order(r) == k, pr(h) - plow, pvar(f, r) * dpr(h, k) + (1 - pvar(f, r)) * sgn(f.ce(r), dpr(l, k))))
    a, n, i = z3.Const("oa", cutset.AI), z3.Int("on"), z3.Int("oi")
    L, A = z3.Const("oL", cutset.AI), z3.Const("oA", cutset.AAI)
    ab = lambda x: z3.If(x >= 0, x, -x)
    return prob.axioms(en) + cutset.axioms(en) + [
        qall([r], z3.Implies(nt, f.order(r) > 0), f.order(r)),
        qall([r, k], z3.Implies(z3.And(dia(r), f.term(r)), dpr(r, k) == 0), dpr(r, k)),
        qall([r, k], z3.Implies(nt, dpr(r, k) == step), z3.MultiPattern(dpr(r, k), f.order(r))),
        qall([a, i], count1(a, 0, i) == 0, count1(a, 0, i)),
        qall([a, n, i], z3.Implies(n >= 0, count1(a, n + 1, i) == count1(a, n, i) + z3.If(ab(S(a, n)) == i, 1, 0)), z3.MultiPattern(count1(a, n, i), S(a, n))),
        qall([L, A, i], count(L, A, 0, i) == 0, count(L, A, 0, i)),
        qall([L, A, n, i], z3.Implies(n >= 0, count(L, A, n + 1, i) == count(L, A, n, i) + count1(S(A, n), S(L, n), i)), z3.MultiPattern(count(L, A, n, i), S(A, n))),
        qall([a], posf(a, 0) == 0, posf(a, 0)),
        qall([a, n], z3.Implies(n >= 0, z3.And(posf(a, n + 1) == posf(a, n) + z3.If(S(a, n) != 0, 1, 0), posf(a, n) >= 0)), z3.MultiPattern(posf(a, n), S(a, n)))]


def lemmas():
    """dpr is the difference of the probabilities with the event certain and impossible (structural induction)."""
    p, h1, h0, l1, l0, m1, m0 = z3.Reals("p h1 h0 l1 l0 m1 m0")
    ce, mc = z3.Bools("ce mc")
    cl = lambda x: z3.If(ce, 1 - x, x)
    cm = lambda x: z3.If(mc, 1 - x, x)
    mix = lambda q, h, l: q * h + (1 - q) * cl(l)
    dh, dl, dm = h1 - h0, l1 - l0, m1 - m0
    return [("above the variable: the factor is the difference", [], mix(p, h1, l1) - mix(p, h0, l0) == p * dh + (1 - p) * sgn(ce, dl)),
            ("at the variable: the factor is the difference", [h1 == h0, l1 == l0], mix(z3.RealVal(1), h1, l1) - mix(z3.RealVal(0), h0, l0) == h1 - cl(l1)),
            ("in the module: the factor is the difference", [h1 == h0, l1 == l0], mix(cm(m1), h1, l1) - mix(cm(m0), h0, l0) == (h1 - cl(l1)) * sgn(mc, dm)),
            ("a complement turns the sign", [], (1 - h1) - (1 - h0) == -dh)]


def mods_ok(c, cls=BD):
    f = F(c.en)
    m = c.fld(c.fld(c.this, cls, "bdd_graph_"), B, "modules_")
    r = z3.Int("mo_r")
    i = f.index(r)
    return qall([r], z3.Implies(z3.And(dia(r), z3.Not(f.term(r)), f.module(r)),
                                z3.And(S(m["dom"], i), S(m["val"]["vertex"], i) == mroot(i), S(m["val"]["complement"], i) == mcomp(i))), f.index(r), f.module(r))


def mk(prog):
    def pvars(c):
        return c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "p_vars_")

    def graph_ok(c, v):
        f = F(c.en)
        x = z3.Int("go_x")
        pv = pvars(c)
        return [("vertex of the diagram", z3.And(dia(v), v > 0)), ("modules", mods_ok(c)),
                ("variables", z3.And(pv["at"] == P, qall([x], z3.Implies(z3.And(dia(x), z3.Not(f.term(x)), z3.Not(f.module(x))), z3.And(f.index(x) >= BASE, f.index(x) - BASE < pv["len"])), f.index(x)))),
                ("vertices have their probabilities (C05)", qall([x], z3.Implies(z3.And(dia(x), z3.Not(f.term(x))), c.fld(x, I, "p_") == pr(x)), c.fld(x, I, "p_")))]

    def variable(c, k):
        f = F(c.en)
        x = z3.Int("va_x")
        return ("the order is of a variable", qall([x], z3.Implies(z3.And(dia(x), z3.Not(f.term(x)), f.order(x) == k), z3.Not(f.module(x))), f.order(x)))

    def done(c, v, k, m, old):
        f = F(c.en)
        x = z3.Int("do_x")
        mk = c.fld(x, NT, "mark_", old)
        return qall([x], z3.Implies(z3.And(reach(v, x), z3.Not(f.term(x)), mk == m), c.fld(x, I, "factor_", old) == dpr(x, k)), mk)

    def rreq(c):
        v, k, m = c.val(0), c.val(1), c.val(2)
        return graph_ok(c, v) + [variable(c, k), ("marked vertices are done", done(c, v, k, m, True))]

    def parent(c, w, x, m):
        f = F(c.en)
        return z3.And(dia(w), z3.Not(f.term(w)), c.fld(w, NT, "mark_", False) == m, z3.Or(*[z3.And(cd, kid == x) for cd, kid in children(f, w)]))

    def rens(c):
        f = F(c.en)
        v, k, m = c.val(0), c.val(1), c.val(2)
        x, w = z3.Ints("re_x re_w")
        mk = lambda old: c.fld(x, NT, "mark_", old)
        fa = lambda old: c.fld(x, I, "factor_", old)
        return [("change of the vertex's probability", c.rval() == dpr(v, k)), ("marked vertices are done", done(c, v, k, m, False)),
                ("marks elsewhere are kept", qall([x], z3.Implies(z3.Not(reach(v, x)), z3.And(mk(False) == mk(True))), mk(False))),
                ("factors elsewhere are kept", qall([x], z3.Implies(z3.Not(reach(v, x)), fa(False) == fa(True)), fa(False))),
                ("the vertex is marked", z3.Implies(z3.Not(f.term(v)), c.fld(v, NT, "mark_", False) == m)),
                ("marks stay", qall([x], z3.Implies(mk(True) == m, mk(False) == m), mk(False))),
                ("new marks are reachable by marks", qall([x], z3.Implies(z3.And(mk(False) == m, mk(True) != m, x != v), z3.Exists([w], parent(c, w, x, m))), mk(False)))]
    rec = Contract("CalculateMif(vertex)", lambda fd, k, p: fd["q"] == BD + "::CalculateMif" and len(fd["p"]) == 3, rreq, rens,
                   lambda c: [((NT, "mark_"), None), ((I, "factor_"), None)])
    ret = Contract("RetrieveProbability", BD + "::RetrieveProbability", lambda c: graph_ok(c, c.val(0)), lambda c: [("probability of the vertex", c.rval() == pr(c.val(0)))], lambda c: [])

    # ---- restoring the marks
    def creq(c):
        v = c.val(0)
        f = F(c.en)
        m = c.fld(c.this, B, "modules_")
        r = z3.Int("cm_r")
        i = f.index(r)
        return [("vertex of the diagram", z3.And(dia(v), v > 0)),
                ("modules", qall([r], z3.Implies(z3.And(dia(r), z3.Not(f.term(r)), f.module(r)), z3.And(S(m["dom"], i), S(m["val"]["vertex"], i) == mroot(i))), f.index(r), f.module(r)))]

    def cens(c):
        v, a = c.val(0), c.val(1)
        f = F(c.en)
        x = z3.Int("cc_x")
        mk = lambda r, old: c.fld(r, NT, "mark_", old)
        kids = z3.And(*[z3.Implies(z3.And(cd, z3.Not(f.term(kid))), mk(kid, False) == a) for cd, kid in children(f, x)])
        return [("the vertex is cleared", z3.Implies(z3.Not(f.term(v)), mk(v, False) == a)),
                ("cleared marks stay", qall([x], z3.Implies(mk(x, True) == a, mk(x, False) == a), mk(x, False))),
                ("what has been cleared has cleared children", qall([x], z3.Implies(z3.And(mk(x, True) != a, mk(x, False) == a), kids), mk(x, False))),
                ("marks elsewhere are kept", qall([x], z3.Implies(z3.Not(reach(v, x)), mk(x, False) == mk(x, True)), mk(x, False)))]
    clr = Contract("Bdd::ClearMarks", lambda fd, k, p: fd["q"] == B + "::ClearMarks" and len(fd["p"]) == 2, creq, cens, lambda c: [((NT, "mark_"), None)])

    # ---- the marginal factor of an event
    def root(c):
        return c.fld(c.fld(c.this, BD, "bdd_graph_"), B, "root_")

    def same_marks(c, old):
        f = F(c.en)
        x = z3.Int("sm_x")
        rt = root(c)["vertex"]
        return qall([x], z3.Implies(z3.And(reach(rt, x), z3.Not(f.term(x))), c.fld(x, NT, "mark_", old) == c.fld(rt, NT, "mark_", True)), c.fld(x, NT, "mark_", old))

    def order_of(c):
        m = c.fld(c.fld(c.this, BD, "bdd_graph_"), B, "index_to_order_")
        return m, c.val(0) + BASE

    def mreq(c):
        m, i = order_of(c)
        return graph_ok(c, root(c)["vertex"]) + [("the variable has an order", S(m["dom"], i)), variable(c, S(m["val"], i)), ("all marks agree", same_marks(c, True))]

    def mens(c):
        m, i = order_of(c)
        d = dpr(root(c)["vertex"], S(m["val"], i))
        f = F(c.en)
        x, w = z3.Ints("me_x me_w")
        rt = root(c)["vertex"]
        a = c.fld(rt, NT, "mark_", True)
        left = lambda r: z3.And(z3.Not(f.term(r)), c.fld(r, NT, "mark_", False) != a)
        up = z3.Exists([w], z3.And(dia(w), left(w), z3.Or(*[z3.And(cd, kid == x) for cd, kid in children(f, w)])))
        return [("change of the system's probability", c.rval() == sgn(root(c)["complement"], d)),
                ("a vertex left with another mark has such a parent (by induction: none is left)", qall([x], z3.Implies(z3.And(dia(x), reach(rt, x), left(x)), up), c.fld(x, NT, "mark_", False)))]
    mif = Contract("CalculateMif", lambda fd, k, p: fd["q"] == BD + "::CalculateMif" and len(fd["p"]) == 1, mreq, mens, lambda c: [((NT, "mark_"), None), ((I, "factor_"), None)])
    return [rec, ret, clr, mif] + counting(prog)


def counting(prog):
    def occ_req(c):
        r = c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "products_")
        n = c.fld(c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "graph_"), C + "Pdag", "basic_events_")["len"]
        i, j = z3.Consts("mi mj", INT)
        lit = S(S(cutset.selem(r), i), j)
        return [("literals of all products are variables", qall([i, j], z3.Implies(z3.And(i >= 0, i < cutset.slen(r), j >= 0, j < S(cutset.selen(r), i)),
                                                                                   z3.Or(z3.And(lit >= BASE, lit - BASE < n), z3.And(-lit >= BASE, -lit - BASE < n))), lit))]

    def occ_ens(c):
        r = c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "products_")
        n = c.fld(c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "graph_"), C + "Pdag", "basic_events_")["len"]
        i = z3.Const("oe_i", INT)
        v = c.rval()
        return [("a number per event", v["len"] == n),
                ("number of products with the event", qall([i], z3.Implies(z3.And(i >= 0, i < n), S(v["at"], i) == count(cutset.selen(r), cutset.selem(r), cutset.slen(r), i + BASE)), S(v["at"], i)))]
    occ = Contract("occurrences", IB + "::occurrences", occ_req, occ_ens, lambda c: [], loops=[occ_loop])
    cut = cutset.mk(prog)
    for x in cut:
        x.trusted = "verified in the specification of C06"
    out = [occ] + cut
    for cls, nm in (("RareEventCalculator", "rare"), ("McubCalculator", "mcub")):
        an = C + "ImportanceAnalyzer<scram::core::%s>" % cls

        def total(c, at, nm=nm):
            r = c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "products_")
            if nm == "mcub":
                return 1 - cutset.noncut(cutset.selen(r), cutset.selem(r), at, cutset.slen(r))
            s = cutset.sump(cutset.selen(r), cutset.selem(r), at, cutset.slen(r))
            return z3.If(s > 1, z3.RealVal(1), s)

        def req(c, an=an):
            pv = c.fld(c.this, an, "p_vars_")
            r = c.fld(c.fld(c.this, IB, "prob_analyzer_"), PB, "products_")
            i, j = z3.Consts("mi mj", INT)
            lit = S(S(cutset.selem(r), i), j)
            return [("index of an event", z3.And(c.val(0) >= 0, c.val(0) < pv["len"])), ("probabilities", cutset.probs(pv["at"])),
                    ("literals of all products are variables", qall([i, j], z3.Implies(z3.And(i >= 0, i < cutset.slen(r), j >= 0, j < S(cutset.selen(r), i)), z3.And(lit >= BASE, lit - BASE < pv["len"])), lit))]

        def ens(c, an=an, total=total):
            pv, pv2 = c.fld(c.this, an, "p_vars_"), c.fld(c.this, an, "p_vars_", False)
            i = z3.Const("ci_i", INT)
            return [("difference with the event certain and impossible", c.rval() == total(c, z3.Store(pv["at"], c.val(0), z3.RealVal(1))) - total(c, z3.Store(pv["at"], c.val(0), z3.RealVal(0)))),
                    ("the variables' probabilities are restored", z3.And(pv2["len"] == pv["len"], qall([i], S(pv2["at"], i) == S(pv["at"], i), S(pv2["at"], i))))]
        out.append(Contract("CalculateMif(%s)" % cls, an + "::CalculateMif", req, ens, lambda c, an=an: [((an, "p_vars_"), c.this)]))
    return out + factors(prog)


EV = z3.Const("the_events", cutset.AI)
NEV = z3.Int("the_number_of_events")
OCC = z3.Const("the_occurrences", cutset.AI)
mifs = z3.Function("mif_of", INT, INT, REAL)
PT = z3.Function("p_total_of", INT, REAL)
evp = z3.Function("event_p_of", INT, REAL)


def formulas(rec, i, this):
    """The factors of the event i follow from its probability, marginal factor and the total."""
    p, m, t = evp(S(EV, i)), mifs(this, i), PT(this)
    g = lambda n: rec["factors"][n]
    zero = z3.RealVal(0)
    raw = z3.If(t != 0, 1 + (1 - p) * m / t, zero)
    return [("occurrence", g("occurrence") == S(OCC, i)), ("event", rec["event"] == S(EV, i)), ("mif", g("mif") == m), ("cif", g("cif") == z3.If(t != 0, p * m / t, zero)),
            ("raw", g("raw") == raw), ("dif", g("dif") == p * raw), ("rrw", g("rrw") == z3.If(z3.And(t != 0, t != p * m), t / (t - p * m), zero))]


def record(v, j):
    return tmap(lambda a: S(a, j), v["at"])


def factors(prog):
    q = lambda n: (lambda fd, k, p: fd["q"] == IA + "::" + n)
    vec = Node("vec", {"len": NEV, "at": EV})
    ev = Contract("basic_events (virtual)", q("basic_events"), None, lambda c: [("the events", z3.And(c.rval()["len"] == NEV, c.rval()["at"] == EV))], lambda c: [],
                  trusted="overridden by ImportanceAnalyzerBase: the events of the graph")
    oc = Contract("occurrences (virtual)", q("occurrences"), None, lambda c: [("the occurrences", z3.And(c.rval()["len"] == NEV, c.rval()["at"] == OCC))], lambda c: [],
                  trusted="overridden by ImportanceAnalyzerBase, verified above")
    pt = Contract("p_total (virtual)", q("p_total"), None, lambda c: [("total", c.rval() == PT(c.this))], lambda c: [], trusted="overridden by ImportanceAnalyzerBase: the total probability")
    mf = Contract("CalculateMif (virtual)", q("CalculateMif"), lambda c: [("index of an event", z3.And(c.val(0) >= 0, c.val(0) < NEV))], lambda c: [("mif", c.rval() == mifs(c.this, c.val(0)))], lambda c: [],
                  trusted="overridden by the analyzers, verified above")
    ep = Contract("BasicEvent::p", "scram::mef::BasicEvent::p", None, lambda c: [("probability of the event", c.rval() == evp(c.this))], lambda c: [], trusted="an event's probability (C12, C13)")

    def req(c):
        return [("not analyzed yet", c.fld(c.this, IA, "importance_")["len"] == 0), ("events", NEV >= 0)]

    def ens(c):
        v = c.fld(c.this, IA, "importance_", False)
        i = z3.Const("an_i", INT)
        k = z3.And(i >= 0, i < NEV, S(OCC, i) != 0)
        r = record(v, posf(OCC, i))
        return [("a record for each event in products and no other", v["len"] == posf(OCC, NEV))] + [
            ("factor: " + n, qall([i], z3.Implies(k, f), z3.MultiPattern(S(OCC, i), posf(OCC, i)))) for n, f in formulas(r, i, c.this)]
    an = Contract("Analyze", IA + "::Analyze", req, ens, lambda c: [((IA, "importance_"), c.this), ((C + "Analysis", "analysis_time_"), c.this)], loops=[an_loop])
    return [ev, oc, pt, mf, ep, an]


def an_loop(v):
    out = []
    i = z3.Const("al_i", INT)
    this = v.fr.this.root[1] if isinstance(v.fr.this, LVal) else None
    imp = v.fld(this, IA, "importance_")
    for n, t, t0 in v.mod_locals(sort=INT):
        k = z3.And(i >= 0, i < t, S(OCC, i) != 0)
        r = record(imp, posf(OCC, i))
        out += [("%s within the events" % n, z3.And(t >= 0, t <= NEV)), ("records up to %s" % n, imp["len"] == posf(OCC, t)),
                ("records are before %s" % n, qall([i], z3.Implies(k, posf(OCC, i) < posf(OCC, t)), z3.MultiPattern(S(OCC, i), posf(OCC, i))))]
        out += [("factor %s up to %s" % (m, n), qall([i], z3.Implies(k, f), z3.MultiPattern(S(OCC, i), posf(OCC, i)))) for m, f in formulas(r, i, this)]
    return out


def occ_loop(v):
    out = []
    i = z3.Const("ol_i", INT)
    rng = v.range
    nested = isinstance(rng["at"], Node)
    for n, t, t0 in v.mod_locals(kind="vec"):
        if not isinstance(t["at"], z3.ExprRef) or t["at"].sort() != cutset.AI:
            continue
        out.append(("%s keeps its length" % n, t["len"] == t0["len"]))
        inr = z3.And(i >= 0, i < t["len"])
        if nested:
            out.append(("occurrences so far in %s" % n, qall([i], z3.Implies(inr, S(t["at"], i) == count(rng["at"]["len"], rng["at"]["at"], v.i, i + BASE)), S(t["at"], i))))
        else:
            out.append(("occurrences so far in the product (%s)" % n, qall([i], z3.Implies(inr, S(t["at"], i) == S(t0["at"], i) + count1(rng["at"], v.i, i + BASE)), S(t["at"], i))))
    return out


SPEC = dict(id="C07", tus=["importance_analysis.cc", "bdd.cc", "VERIF/native/inst/prob.cc"], contracts=mk, axioms=axioms, lemmas=lemmas,
            opts=dict(asserts="check", sequences=cutset.SEQ, immutable=[(V, "id_"), (NT, "high_"), (NT, "low_"), (NT, "index_"), (NT, "order_"), (NT, "module_"), (I, "complement_edge_")]), loops=[],
            assumptions=["the diagram is acyclic, modules included (vertices are created from finished ones, C01)", "floating-point numbers are treated as reals",
                         "the variables of a module come directly before it in the order, so that a vertex after the variable outside of the variable's module does not depend on it (bounded)"])
