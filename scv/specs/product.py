"""Contracts on products and their container (C29)."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs import cutset
from specs.cutset import AI, AAI, slen, selen, selem

C = "scram::core::"
S = z3.Select
BASE = 2
AB = z3.ArraySort(INT, BOOL)
ordc = z3.Function("with_order", AI, INT, INT, INT)                # products of an order among the first k
occ1 = z3.Function("occurs_in", AI, INT, INT, BOOL)                # a variable in the first j literals of a product
occ = z3.Function("occurs", AI, AAI, INT, INT, BOOL)               # a variable in the first k products
evp = z3.Function("event_p_of", INT, REAL)
lprod = z3.Function("literal_product", AB, AI, INT, REAL)          # product of the probabilities of the first j literals
lcompl = z3.Function("literals_complement", INT, AB)
levent = z3.Function("literals_event", INT, AI)
llen = z3.Function("literals_len", INT, INT)
PR, PC, PD = C + "Product", C + "ProductContainer", C + "Pdag"


def order(n):
    return z3.If(n == 0, z3.IntVal(1), n)


def ab(t):
    return z3.If(t < 0, -t, t)


def literals(en, st, lv):
    """The literals of a product are those its extractor makes of the indices."""
    r = en.addr(lv)
    return Node("vec", {"len": llen(r), "at": Node("struct", {"complement": lcompl(r), "event": levent(r)})})


SEQ = dict(cutset.SEQ)
SEQ[PR] = (C + "Literal", literals)


def axioms(en):
    L, A, a, k, o = z3.Const("yL", AI), z3.Const("yA", AAI), z3.Const("ya", AI), z3.Const("yk", INT), z3.Const("yo", INT)
    B, E = z3.Const("yB", AB), z3.Const("yE", AI)
    lit = z3.If(S(B, k), 1 - evp(S(E, k)), evp(S(E, k)))
    m = z3.Const("ym", INT)
    return [qall([L, o], ordc(L, 0, o) == 0, ordc(L, 0, o)),
            qall([L, o, k, m], z3.Implies(z3.And(k >= 0, m == k + 1), ordc(L, m, o) == ordc(L, k, o) + z3.If(order(S(L, k)) == o, 1, 0)), z3.MultiPattern(ordc(L, m, o), S(L, k))),
            qall([L, o, k], z3.Implies(k >= 0, ordc(L, k + 1, o) == ordc(L, k, o) + z3.If(order(S(L, k)) == o, 1, 0)), z3.MultiPattern(ordc(L, k, o), S(L, k))),
            qall([a, o], z3.Not(occ1(a, 0, o)), occ1(a, 0, o)),
            qall([a, o, k], z3.Implies(k >= 0, occ1(a, k + 1, o) == z3.Or(occ1(a, k, o), ab(S(a, k)) == o)), z3.MultiPattern(occ1(a, k, o), S(a, k))),
            qall([L, A, o], z3.Not(occ(L, A, 0, o)), occ(L, A, 0, o)),
            qall([L, A, o, k], z3.Implies(k >= 0, occ(L, A, k + 1, o) == z3.Or(occ(L, A, k, o), occ1(S(A, k), S(L, k), o))), z3.MultiPattern(occ(L, A, k, o), S(A, k))),
            qall([B, E], lprod(B, E, 0) == 1, lprod(B, E, 0)),
            qall([B, E, k], z3.Implies(k >= 0, lprod(B, E, k + 1) == lprod(B, E, k) * lit), z3.MultiPattern(lprod(B, E, k), S(E, k)))]


def mk(prog):
    out = []
    ep = Contract("BasicEvent::p", "scram::mef::BasicEvent::p", None, lambda c: [("probability of the event", c.rval() == evp(c.this))], lambda c: [], trusted="an event's probability (C12, C13)")
    out.append(ep)
    out.append(Contract("Product::p", PR + "::p", lambda c: [("literals", llen(c.this) >= 0)], lambda c: [("the product of the probabilities of its literals", c.rval() == lprod(lcompl(c.this), levent(c.this), llen(c.this)))],
                        lambda c: [], loops=[p_loop]))

    def data(c):
        en, st = c.en, c.pre
        return en.read(st, en.deref(st, c.fld(c.this, PR, "data_"), en.P.tystr["std::vector<int, std::allocator<int>>"]))
    for n, f, ty in (("size", lambda n: n, 0), ("empty", lambda n: n == 0, 0), ("order", order, 0)):
        out.append(Contract("Product::" + n, PR + "::" + n, None, lambda c, f=f: [("by the number of literals", c.rval() == f(data(c)["len"]))], lambda c: []))
    def lit(c):
        i = c.val(0)
        ev = c.fld(c.fld(c.this, PR + "::LiteralExtractor", "graph"), PD, "basic_events_")
        return i, ev

    def lit_req(c):
        i, ev = lit(c)
        return [("an index of a variable", z3.And(ab(i) >= BASE, ab(i) - BASE < ev["len"]))]

    def lit_ens(c):
        i, ev = lit(c)
        return [("complement of a negative index", c.rval()["complement"] == (i < 0)), ("the event of the index", c.rval()["event"] == S(ev["at"], ab(i) - BASE))]
    out.append(Contract("Product::LiteralExtractor", PR + "::LiteralExtractor::operator()", lit_req, lit_ens, lambda c: []))

    def zb(c):
        return c.arg(0) if not isinstance(c.arg(0), LVal) else c.en.addr(c.arg(0))

    def ctor_req(c):
        r = zb(c)
        ev = c.fld(c.arg(1) if not isinstance(c.arg(1), LVal) else c.en.addr(c.arg(1)), PD, "basic_events_")
        i, j = z3.Consts("mi mj", INT)
        x = S(S(selem(r), i), j)
        return [("literals of all products are variables", qall([i, j], z3.Implies(z3.And(i >= 0, i < slen(r), j >= 0, j < S(selen(r), i)), z3.And(ab(x) >= BASE, ab(x) - BASE < ev["len"])), x))]

    def ctor_ens(c):
        r = zb(c)
        ev = c.fld(c.arg(1) if not isinstance(c.arg(1), LVal) else c.en.addr(c.arg(1)), PD, "basic_events_")
        d = c.fld(c.this, PC, "distribution_")
        o, e, w = z3.Consts("co ce cw", INT)
        ps = c.fld(c.this, PC, "product_events_")
        return [("the number of products", c.fld(c.this, PC, "size_") == slen(r)),
                ("the number of products of each order", qall([o], z3.Implies(z3.And(o >= 1, o <= d["len"]), S(d["at"], o - 1) == ordc(selen(r), slen(r), o)), ordc(selen(r), slen(r), o))),
                ("no products of higher orders", qall([o], z3.Implies(o > d["len"], ordc(selen(r), slen(r), o) == 0), ordc(selen(r), slen(r), o))),
                ("all events of the products", qall([w], z3.Implies(z3.And(w >= BASE, w - BASE < ev["len"], occ(selen(r), selem(r), slen(r), w)), has(ps, S(ev["at"], w - BASE))), occ(selen(r), selem(r), slen(r), w))),
                ("only events of the products", qall([e], z3.Implies(has(ps, e), z3.Exists([w], z3.And(w >= BASE, w - BASE < ev["len"], S(ev["at"], w - BASE) == e, occ(selen(r), selem(r), slen(r), w)))), has(ps, e)))]
    out.append(Contract("ProductContainer", PC + "::ProductContainer", ctor_req, ctor_ens, lambda c: [], loops=[c_loop]))
    return out


def has(m, e):
    return S(m["dom"], e)


def c_loop(v):
    """Over the products: counts per order so far; over the literals of one: its events so far."""
    out = []
    rng = v.range
    en, st = v.en, v.st
    o, e, w, w2 = z3.Consts("lo le lw lw2", INT)
    this = v.fr.this
    nested = isinstance(rng["at"], Node)
    g = lambda f, s: en.read(s, this.sub(("f", PC, f), en.field_ty((PC, f))))
    graph = g("graph_", st)
    ev = en.heap_get(st, (PD, "basic_events_"), graph)
    ps, ps0 = g("product_events_", st), g("product_events_", v.entry)
    d = g("distribution_", st)
    inr = z3.And(w >= BASE, w - BASE < ev["len"])
    if nested:
        L, A = rng["at"]["len"], rng["at"]["at"]
        out.append(("products so far", g("size_", st) == v.i))
        out.append(("lengths", d["len"] >= 0))
        out.append(("orders so far", qall([o], z3.Implies(z3.And(o >= 1, o <= d["len"]), S(d["at"], o - 1) == ordc(L, v.i, o)), ordc(L, v.i, o))))
        out.append(("orders so far (2)", qall([o], z3.Implies(z3.And(o >= 0, o < d["len"]), S(d["at"], o) == ordc(L, v.i, o + 1)), S(d["at"], o))))
        out.append(("no higher orders so far", qall([o], z3.Implies(o > d["len"], ordc(L, v.i, o) == 0), ordc(L, v.i, o))))
        seen = lambda w: occ(L, A, v.i, w)
    else:
        old = {}
        out.append(("product unchanged", z3.BoolVal(True)))
    for n, t, t0 in v.mod_locals(kind="vec"):
        if not isinstance(t["at"], z3.ExprRef) or t["at"].sort() != AB:
            continue
        out.append(("%s keeps its length" % n, t["len"] == t0["len"]))
        if not nested:
            seen = lambda w: z3.Or(S(t0["at"], w - BASE), occ1(rng["at"], v.i, w))
        pat = seen(w) if nested else occ1(rng["at"], v.i, w)
        out.append(("%s holds the variables so far" % n, qall([w], z3.Implies(inr, S(t["at"], w - BASE) == seen(w)), pat)))
        out.append(("%s holds the variables so far (2)" % n, qall([w], z3.Implies(inr, S(t["at"], w - BASE) == seen(w)), S(t["at"], w - BASE))))
        out.append(("events of %s are in" % n, qall([w], z3.Implies(z3.And(inr, S(t["at"], w - BASE)), has(ps, S(ev["at"], w - BASE))), S(t["at"], w - BASE))))
        out.append(("only events of %s" % n, qall([e], z3.Implies(has(ps, e), z3.Exists([w], z3.And(inr, S(ev["at"], w - BASE) == e, S(t["at"], w - BASE)))), has(ps, e))))
    return out


def p_loop(v):
    return [("%s is the product so far" % n, t == lprod(v.range["at"]["complement"], v.range["at"]["event"], v.i)) for n, t, t0 in v.mod_locals(sort=REAL)]


SPEC = dict(id="C29", tus=["fault_tree_analysis.cc"], contracts=mk, axioms=axioms, opts=dict(asserts="check", sequences=SEQ), loops=[], assumptions=["iterating over a Zbdd yields the sequence of its products (bounded)", "iterating over a product applies its LiteralExtractor to the indices in turn (boost::transform_iterator)", "floating-point numbers are treated as reals"])
