"""Contracts on the set algebra of ZBDDs (src/zbdd.{h,cc}; C02).

One arbitrary consistent set of literals is fixed: lit(i) says that the literal
with index i is in it, and not both lit(i) and lit(-i).  zsem(id) says that the
family of the vertex with that id has a product within the set: families with
equal zsem for every set have the same minimal products.  zord(id) is the size
of the largest product, ztop(id) the position of the first literal, rem(p) the
number of counted literals of the set from position p on: a product within the
set and below position p has at most rem(p) counted literals, so that cut-offs
at or above rem(p) lose nothing of the set."""
import z3
from core import *
from contracts import Contract
from engine import qall

B = "scram::core::Zbdd"
I = "scram::core::SetNode"
NT = "scram::core::NonTerminal<scram::core::SetNode>"
V = "scram::core::Vertex<scram::core::SetNode>"
W = "scram::core::WeakIntrusivePtr<scram::core::SetNode>"
UT = "scram::core::UniqueTable<scram::core::SetNode>"
NODE, GATE = "scram::core::Node", "scram::core::Gate"
CS = "scram::core::zbdd::CutSetContainer"

F = lambda n, *s: z3.Function(n, *s)
zsem, lit = F("zsem", INT, BOOL), F("lit", INT, BOOL)
zord, ztop, rem, pos = (F(n, INT, INT) for n in ("zord", "ztop", "rem", "pos"))
ordx, modf, cohf, gatef = F("ordx", INT, INT), F("modf", INT, BOOL), F("cohf", INT, BOOL), F("gatef", INT, BOOL)
unity = F("unity", INT, BOOL)
pub = F("zpub", INT, BOOL)
esem, occ = F("esem", INT, BOOL), F("zocc", INT, INT, BOOL)    # the family with complements taken for true; the literals of its products
PI, TOTAL, BIG = z3.Const("prime_implicants", BOOL), z3.Const("total", BOOL), z3.Const("big", INT)


def elit(i):
    return z3.Or(lit(i), z3.And(i < 0, z3.Not(z3.And(modf(i), z3.Not(cohf(i))))))


def rel_elim(a, n, v, sem=None):
    """The family a by another meaning, up to the limit n."""
    s = (esem if sem is None else sem)(a)
    return z3.And(z3.Implies(z3.And(zsem(v), TOTAL), s), z3.Implies(z3.And(s, rem(ztop(a)) <= n), zsem(v)), ztop(v) >= ztop(a), z3.Or(v == 0, zord(v) <= n), sub(v, a))


def sub(v, *vs):
    """Only literals of the families vs are in v."""
    i = z3.Const("oc_i", INT)
    return qall([i], z3.Implies(occ(v, i), z3.Or(*[occ(x, i) for x in vs])), occ(v, i))


def b2i(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


class Fs:
    def __init__(self, en):
        self.id = lambda r: en.imm(V, "id_", r)
        self.high = lambda r: en.imm(NT, "high_", r)
        self.low = lambda r: en.imm(NT, "low_", r)
        self.index = lambda r: en.imm(NT, "index_", r)
        self.order = lambda r: en.imm(NT, "order_", r)

    def kids(self, r):
        return z3.And(pub(self.high(r)), pub(self.low(r)), self.index(r) != 0, self.order(r) == ordx(self.index(r)), self.order(r) > 0,
                      self.high(r) > 0, self.low(r) > 0, self.high(r) < r, self.low(r) < r, self.id(self.high(r)) != 0,
                      ztop(self.id(self.high(r))) > pos(self.index(r)), ztop(self.id(self.low(r))) > pos(self.index(r)),
                      z3.Implies(self.id(self.high(r)) >= 2, self.order(self.high(r)) > self.order(r)))

    def unfold(self, r):
        i, h, l = self.index(r), self.id(self.high(r)), self.id(self.low(r))
        return z3.And(zsem(self.id(r)) == branch(i, zsem(h), zsem(l)), esem(self.id(r)) == z3.Or(z3.And(elit(i), esem(h)), esem(l)),
                      ztop(self.id(r)) == pos(i), zord(self.id(r)) == bord(i, zord(h), zord(l)))


def branch(i, h, l):
    return z3.Or(z3.And(lit(i), h), l)


def lits(i, h, l, v):
    j = z3.Const("oc_j", INT)
    return qall([j], z3.Implies(occ(v, j), z3.Or(j == i, occ(h, j), occ(l, j))), occ(v, j))


def bord(i, h, l):
    a = h + b2i(z3.Not(unity(i)))
    return z3.If(a > l, a, l)


def axioms(en):
    f = Fs(en)
    r, i, p, q = z3.Ints("ax_r ax_i ax_p ax_q")
    big = z3.And(pub(r), f.id(r) >= 2)
    fa = lambda vs, t, *ps: z3.ForAll(vs, t, patterns=list(ps))
    un = z3.Implies(big, z3.And(f.kids(r), f.unfold(r)))
    return [
        z3.Not(zsem(0)), zsem(1), z3.Not(esem(0)), esem(1), ztop(0) == BIG, ztop(1) == BIG, zord(0) == 0, zord(1) == 0, rem(BIG) == 0,
        fa([r], z3.Implies(pub(r), z3.And(r > 0, f.id(r) >= 0, zord(f.id(r)) >= 0, z3.Or(f.id(r) >= 2, zord(f.id(r)) == 0))), pub(r)),
        fa([r], un, f.high(r)), fa([r], un, f.low(r)),
        fa([r], un, ztop(f.id(r))),
        fa([i], z3.And(z3.Not(occ(0, i)), z3.Not(occ(1, i))), occ(0, i)), fa([i], z3.Not(occ(1, i)), occ(1, i)),
        fa([r, i], z3.Implies(big, occ(f.id(r), i) == z3.Or(i == f.index(r), occ(f.id(f.high(r)), i), occ(f.id(f.low(r)), i))), occ(f.id(r), i)),
        fa([i], z3.And(pos(i) < BIG, ordx(-i) == ordx(i), rem(pos(i)) >= 0), pos(i)),
        # positions: by the order, the complement of a variable right after it
        fa([i, p], z3.And(z3.Implies(ordx(i) < ordx(p), pos(i) < pos(p)), z3.Implies(pos(i) < pos(p), ordx(i) <= ordx(p)),
                          z3.Implies(ordx(i) == ordx(p), z3.Or(i == p, i == -p)), z3.Implies(z3.And(ordx(i) == ordx(p), i > p), pos(i) < pos(p))),
           z3.MultiPattern(pos(i), pos(p))),
        fa([i], z3.And(z3.Not(z3.And(lit(i), lit(-i))), z3.Implies(z3.And(TOTAL, i != 0), z3.Or(lit(i), lit(-i)))), lit(i)),
        # the literals of the set from a position on
        fa([p, q], z3.And(z3.Implies(p <= q, rem(p) >= rem(q)), rem(p) >= 0), z3.MultiPattern(rem(p), rem(q))),
        fa([i, q], z3.Implies(q > pos(i), rem(pos(i)) >= rem(q) + b2i(z3.And(lit(i), z3.Not(unity(i))))), z3.MultiPattern(pos(i), rem(q))),
        fa([i], unity(i) == z3.And(z3.Not(PI), z3.Or(i < 0, z3.And(gatef(i), z3.Or(z3.Not(modf(i)), z3.Not(cohf(i)))))), unity(i)),
    ]


def on_new(en, st, r):
    f = Fs(en)
    s = z3.Const(fresh_name("s"), INT)
    en.flush_except(st, None)
    return ([
        ("the id is fresh", z3.ForAll([s], z3.Implies(z3.And(s > 0, s < r, pub(s)), f.id(s) != f.id(r)), patterns=[pub(s)])),
        ("the id is not of a terminal", f.id(r) >= 2),
        ("branches are published, in order, and not suppressed", f.kids(r)),
    ], [pub(r)])


def flags(en, st, r):
    h = lambda c, n: en.heap_get(st, (c, n), r)
    f = Fs(en)
    return z3.And(h(NT, "module_") == modf(f.index(r)), h(NT, "coherent_") == cohf(f.index(r)), h(I, "max_set_order_") == zord(f.id(r)))


def inv_st(en, st, this):
    f = Fs(en)
    r = z3.Const(fresh_name("r"), INT)
    h = lambda n: en.heap_get(st, (B, n), this)
    sid = h("set_id_")
    base, empty = h("kBase_"), h("kEmpty_")
    out = [("the unique table has buckets", h("unique_table_")["capacity_"] > 0),
           ("ids of vertices are below the counter", z3.And(sid >= 2, qall([r], z3.Implies(z3.And(pub(r), r < st.alloc), f.id(r) < sid), pub(r)))),
           ("the terminals", z3.And(pub(base), f.id(base) == 1, base < st.alloc, pub(empty), f.id(empty) == 0, empty < st.alloc)),
           ("the settings", h("kSettings_")["prime_implicants_"] == PI),
           ("flags and orders of the vertices", qall([r], z3.Implies(z3.And(pub(r), r < st.alloc, f.id(r) >= 2), flags(en, st, r)), pub(r)))]
    for t in TABLES:
        out.append(("%s holds results" % t, table_ok(en, st, h(t), t)))
    return out


TABLES = ("and_table_", "or_table_", "minimal_results_", "subsume_table_", "prune_results_")


def rel_and(a, b, n, v):
    m = z3.If(ztop(a) < ztop(b), ztop(a), ztop(b))
    return z3.And(z3.Implies(z3.And(zsem(v), TOTAL), z3.And(zsem(a), zsem(b))), z3.Implies(z3.And(zsem(a), zsem(b), rem(m) <= n), zsem(v)), ztop(v) >= m, z3.Or(v == 0, zord(v) <= n), sub(v, a, b))


def rel_or(a, b, n, v):
    m = z3.If(ztop(a) < ztop(b), ztop(a), ztop(b))
    return z3.And(z3.Implies(z3.And(zsem(v), TOTAL), z3.Or(zsem(a), zsem(b))), z3.Implies(z3.And(z3.Or(zsem(a), zsem(b)), rem(m) <= n), zsem(v)), ztop(v) >= m, z3.Or(v == 0, z3.And(zord(v) <= n, z3.Or(zord(v) <= zord(a), zord(v) <= zord(b)))), sub(v, a, b))


def rel_min(a, v):
    return z3.And(zsem(v) == zsem(a), ztop(v) >= ztop(a), zord(v) <= zord(a), sub(v, a))


def rel_sub(h, l, v):
    return z3.And(z3.Implies(zsem(v), zsem(h)), z3.Implies(zsem(h), z3.Or(zsem(v), zsem(l))), ztop(v) >= ztop(h), zord(v) <= zord(h), sub(v, h))


def rel_prune(a, n, v):
    return z3.And(z3.Implies(zsem(v), zsem(a)), z3.Implies(z3.And(zsem(a), rem(ztop(a)) <= n), zsem(v)), ztop(v) >= ztop(a), z3.Or(v == 0, z3.And(zord(v) <= n, zord(v) <= zord(a))), sub(v, a))


def table_ok(en, st, m, t):
    f = Fs(en)
    k = z3.Const(fresh_name("k"), m["dom"].sort().domain())
    val = z3.Select(leaves(m["val"])[0], k)
    key = unpack(k, m.meta)
    ks = [z3.Select(key["at"], n) for n in range(3)] if isinstance(key, Node) and key.kind == "vec" else leaves(key)
    return qall([k], z3.Implies(z3.And(z3.Select(m["dom"], k), val != 0), z3.And(pub(val), val < st.alloc, relation(t, ks, f.id(val)))), val)


def relation(t, ks, v):
    if t in ("and_table_", "or_table_"):
        return (rel_and if t == "and_table_" else rel_or)(ks[0], ks[1], ks[2], v)
    if t == "minimal_results_":
        return rel_min(ks[0], v)
    if t == "subsume_table_":
        return rel_sub(ks[0], ks[1], v)
    return rel_prune(ks[0], ks[1], v)


# ------------------------------------------------------------------ contracts
def inv(c, old):
    return inv_st(c.en, c.pre if old else c.post, c.this)


def mods(c, *tables):
    return [((B, x), c.this) for x in TABLES + ("set_id_", "unique_table_")] + [((W, "vertex_"), None), ((NT, "module_"), None), ((NT, "coherent_"), None),
            ((I, "minimal_"), None), ((I, "max_set_order_"), None)]


def vtx(c, r, node=False):
    f = Fs(c.en)
    return z3.And(pub(r), r > 0, r < c.pre.alloc, *([f.id(r) >= 2] if node else []))


def mk(prog):
    out = []

    def pt(fd, k, P):
        return [P.fdecl_tu[k].types[t].s.replace("scram::core::", "") for t in fd["p"]]
    VP, SP, IP = "const boost::intrusive_ptr<Vertex<SetNode>> &", "const boost::intrusive_ptr<SetNode> &", "const boost::intrusive_ptr<Ite> &"

    def sel(n, ps, targ=None, cls=B):
        return lambda fd, k, P: fd["q"] == cls + "::" + n and pt(fd, k, P)[:len(ps)] == ps and len(fd["p"]) >= len(ps) and \
            (targ is None or (fd.get("a") and str(fd["a"][0].get("i")) == str(targ)))

    def con(name, s, req, ens, mod=mods, **kw):
        out.append(Contract(name, s, lambda c: inv(c, True) + req(c), lambda c: inv(c, False) + ens(c), mod, allocates=True, **kw))

    def ok(c, *rs, node=()):
        return [("argument %d is a published vertex" % n, vtx(c, r, n in node)) for n, r in enumerate(rs)]

    def res(c):
        f, r = Fs(c.en), c.result()
        return f.id(r), [("the result is a published vertex", z3.And(pub(r), r > 0, r < c.post.alloc))]

    def node_req(c, idx, hi, lo, reduced=True):
        f = Fs(c.en)
        h, l = f.id(hi), f.id(lo)
        out = [("branches are in order", z3.And(ztop(h) > pos(idx), ztop(l) > pos(idx), z3.Implies(h >= 2, f.order(hi) > ordx(idx))))]
        if reduced:
            out.append(("the branch of the literal is not suppressed", h != 0))
        return out

    def node_ens(c, idx, hi, lo):
        f = Fs(c.en)
        v, o = res(c)
        return o + [("products with and without the literal", zsem(v) == branch(idx, zsem(f.id(hi)), zsem(f.id(lo)))),
                    ("its literals", lits(idx, f.id(hi), f.id(lo), v)), ("a node of the literal", z3.And(v >= 2, f.index(c.result()) == idx, ztop(v) == pos(idx))),
                    ("the largest product", zord(v) == bord(idx, zord(f.id(hi)), zord(f.id(lo))))]
    f_ = lambda c: Fs(c.en)
    # ---- nodes
    con("Zbdd::FindOrAddVertex(index)", sel("FindOrAddVertex", ["int"]),
        lambda c: ok(c, c.arg(1), c.arg(2)) + [("a literal", z3.And(c.arg(0) != 0, c.arg(3) > 0, c.arg(3) == ordx(c.arg(0)))),
                                               ("flags of the literal", z3.And(c.arg(4) == modf(c.arg(0)), c.arg(5) == cohf(c.arg(0))))] + node_req(c, c.arg(0), c.arg(1), c.arg(2)),
        lambda c: node_ens(c, c.arg(0), c.arg(1), c.arg(2)), opts=dict(asserts="assume"))
    con("Zbdd::FindOrAddVertex(node)", sel("FindOrAddVertex", [SP]),
        lambda c: ok(c, c.arg(0), c.arg(1), c.arg(2), node=(0,)) + node_req(c, f_(c).index(c.arg(0)), c.arg(1), c.arg(2)),
        lambda c: node_ens(c, f_(c).index(c.arg(0)), c.arg(1), c.arg(2)))
    gi = lambda c: c.fld(c.arg(0), NODE, "index_", True)
    con("Zbdd::FindOrAddVertex(gate)", sel("FindOrAddVertex", ["const Gate &"]),
        lambda c: ok(c, c.arg(1), c.arg(2))[0:2] + [("a gate of the order", z3.And(gi(c) != 0, c.fld(c.arg(0), NODE, "order_", True) == ordx(gi(c)), ordx(gi(c)) > 0)),
                  ("flags of the gate", z3.And(c.fld(c.arg(0), GATE, "module_", True) == modf(gi(c)), c.fld(c.arg(0), GATE, "coherent_", True) == cohf(gi(c))))] + node_req(c, gi(c), c.arg(1), c.arg(2)),
        lambda c: node_ens(c, gi(c), c.arg(1), c.arg(2)))
    con("Zbdd::GetReducedVertex(node)", sel("GetReducedVertex", [SP]),
        lambda c: ok(c, c.arg(0), c.arg(1), c.arg(2), node=(0,)) + node_req(c, f_(c).index(c.arg(0)), c.arg(1), c.arg(2), False),
        lambda c: (lambda v, o, i, h, l: o + [("products with and without the literal", zsem(v) == branch(i, zsem(h), zsem(l))), ("in order", ztop(v) >= pos(i)), ("no other literals", lits(i, h, l, v)),
                                           ("the largest product", zord(v) <= z3.If(h == 0, zord(l), bord(i, zord(h), zord(l))))])(*res(c), f_(c).index(c.arg(0)), f_(c).id(c.arg(1)), f_(c).id(c.arg(2))))
    out.append(Contract("Zbdd::MayBeUnity", B + "::MayBeUnity", lambda c: [
        ("the settings", c.fld(c.this, B, "kSettings_", True)["prime_implicants_"] == PI), ("a literal", f_(c).index(c.arg(0)) != 0),
        ("flags of the literal", z3.And(*[c.fld(c.arg(0), NT, n, True) == g(f_(c).index(c.arg(0))) for n, g in (("module_", modf), ("coherent_", cohf))]))],
        lambda c: [("unity literals", c.result() == unity(f_(c).index(c.arg(0))))], lambda c: []))
    out.append(Contract("Zbdd::IsGate", B + "::IsGate", None, None, lambda c: [], trusted="whether a node is of a gate depends on its index alone (virtual; module flag, or index beyond a bound)",
                        assumes=lambda c: [c.result() == gatef(f_(c).index(c.arg(0)))]))
    # ---- operations
    con("Zbdd::Prune", B + "::Prune", lambda c: ok(c, c.arg(0)), lambda c: (lambda v, o: o + [("the products up to the limit", rel_prune(f_(c).id(c.arg(0)), c.arg(1), v))])(*res(c)))
    con("Zbdd::Subsume", B + "::Subsume", lambda c: ok(c, c.arg(0), c.arg(1)),
        lambda c: (lambda v, o: o + [("the products that no product of the other contains", rel_sub(f_(c).id(c.arg(0)), f_(c).id(c.arg(1)), v))])(*res(c)), opts=dict(asserts="assume"))
    con("Zbdd::Minimize", B + "::Minimize", lambda c: ok(c, c.arg(0)), lambda c: (lambda v, o: o + [("the same family", rel_min(f_(c).id(c.arg(0)), v))])(*res(c)), opts=dict(asserts="assume"))
    for op, name, rel in ((0, "and", rel_and), (1, "or", rel_or)):
        con("Zbdd::Apply<%s>(vertex)" % name, sel("Apply", [VP, VP, "int"], op), lambda c: ok(c, c.arg(0), c.arg(1)),
            lambda c, rel=rel: (lambda v, o: o + [("the products of both" if rel is rel_and else "the products of either", rel(f_(c).id(c.arg(0)), f_(c).id(c.arg(1)), c.arg(2), v))])(*res(c)))
        con("Zbdd::Apply<%s>(node)" % name, sel("Apply", [SP, SP, "int"], op),
            lambda c: ok(c, c.arg(0), c.arg(1), node=(0, 1)) + [("in order", pos(f_(c).index(c.arg(0))) <= pos(f_(c).index(c.arg(1)))), ("a limit", c.arg(2) >= 0)],
            lambda c, rel=rel: (lambda v, o: o + [("the products of both" if rel is rel_and else "the products of either", rel(f_(c).id(c.arg(0)), f_(c).id(c.arg(1)), c.arg(2), v))])(*res(c)))
    con("Zbdd::Apply(type)", sel("Apply", ["Connective"]), lambda c: ok(c, c.arg(0), c.arg(1), c.arg(2))[1:] + [("and, or", z3.Or(c.arg(0) == 0, c.arg(0) == 1))],
        lambda c: (lambda v, o: o + [("the products of both or either", z3.If(c.arg(0) == 0, rel_and(f_(c).id(c.arg(1)), f_(c).id(c.arg(2)), c.arg(3), v),
                                                                              rel_or(f_(c).id(c.arg(1)), f_(c).id(c.arg(2)), c.arg(3), v)))])(*res(c)))
    # ---- elimination of complements and of constant modules
    lim = lambda c: c.fld(c.this, B, "kSettings_", True)["limit_order_"]

    def pmod(i):
        def m(c):
            p = c._args[i]
            if isinstance(p, LVal):
                p = c.en.read(c.pre, p)
            return mods(c) + [c.en.deref(c.pre, p, c.ptys[i].elem)]
        return m

    def node_elim(c, sem, lv):
        """A node whose branches were replaced."""
        f = f_(c)
        n, h, l = c.arg(0), c.arg(1), c.arg(2)
        i = f.index(n)
        return ok(c, n, h, l, node=(0,)) + node_req(c, i, h, l, False) + [
            ("branches within the limit", z3.And(*[z3.Or(f.id(x) == 0, zord(f.id(x)) <= lim(c)) for x in (h, l)], lim(c) >= 0)),
            ("branches of the node", z3.And(rel_part(f.id(f.high(n)), f.id(h), lim(c), sem), rel_part(f.id(f.low(n)), f.id(l), lim(c), sem))),
            ("the node is within the limit", zord(f.id(n)) <= lim(c)),
            ("no new literals", z3.And(sub(f.id(h), f.id(f.high(n))), sub(f.id(l), f.id(f.low(n))))),
            ("largest products", z3.And(z3.Or(f.id(h) == 0, zord(f.id(h)) <= zord(f.id(f.high(n)))), z3.Or(f.id(l) == 0, zord(f.id(l)) <= zord(f.id(f.low(n))))))]

    def rel_part(a, v, n, sem):
        return z3.And(z3.Implies(z3.And(zsem(v), TOTAL), sem(a)), z3.Implies(z3.And(sem(a), rem(ztop(a)) <= n), zsem(v)), ztop(v) >= ztop(a))

    def elim_ens(c, sem, vid):
        v, o = res(c)
        return o + [("the family by its new meaning", rel_elim(vid, lim(c), v, sem)), ("no larger products", z3.Or(v == 0, zord(v) <= zord(vid)))]
    con("Zbdd::EliminateComplement", B + "::EliminateComplement", lambda c: node_elim(c, esem, True), lambda c: elim_ens(c, esem, f_(c).id(c.arg(0))))
    con("Zbdd::EliminateComplements", B + "::EliminateComplements", lambda c: ok(c, c.arg(0)) + [("within the limit", z3.And(lim(c) >= 0, zord(f_(c).id(c.arg(0))) <= lim(c))), ("memo", memo2(c, 1, c.pre, esem))],
        lambda c: elim_ens(c, esem, f_(c).id(c.arg(0))) + [("memo", memo2(c, 1, c.post, esem))], pmod(1))

    def memo2(c, i, st, sem):
        f = f_(c)
        m = c.ptr_arg(i, st is c.post)
        k = z3.Const(fresh_name("mk"), INT)
        v = z3.Select(leaves(m["val"])[0], k)
        return qall([k], z3.Implies(z3.And(z3.Select(m["dom"], k), v != 0), z3.And(pub(v), v < st.alloc, rel_elim(k, lim(c), f.id(v), sem), z3.Or(f.id(v) == 0, zord(f.id(v)) <= zord(k)))), v)

    def modules(c):
        """The modules of the nodes are there; the literal of a constant module has its value."""
        en, st, f = c.en, c.pre, f_(c)
        m = c.fld(c.this, B, "modules_", True)
        k = z3.Const(fresh_name("k"), INT)
        p = z3.Select(leaves(m["val"])[0], k)
        root = en.heap_get(st, (B, "root_"), p)
        return [("constant modules have the values of their literals", qall([k], z3.Implies(z3.Select(m["dom"], k), z3.And(
            p > 0, p < st.alloc, p != c.this, pub(root), root < st.alloc, z3.Implies(f.id(root) < 2, lit(k) == (f.id(root) == 1)))), z3.Select(m["dom"], k)))]

    def has_modules(c):
        m = c.fld(c.this, B, "modules_", True)
        i = z3.Const(fresh_name("i"), INT)
        v = f_(c).id(c.arg(0))
        return [("modules of the literals are there", qall([i], z3.Implies(z3.And(occ(v, i), modf(i)), z3.Select(m["dom"], i)), occ(v, i)))]
    con("Zbdd::EliminateConstantModule", B + "::EliminateConstantModule", lambda c: node_elim(c, zsem, True) + modules(c) + [
        ("the module is there", z3.Implies(modf(f_(c).index(c.arg(0))), z3.Select(c.fld(c.this, B, "modules_", True)["dom"], f_(c).index(c.arg(0)))))],
        lambda c: elim_ens(c, zsem, f_(c).id(c.arg(0))))
    con("Zbdd::EliminateConstantModules", sel("EliminateConstantModules", [VP]), lambda c: ok(c, c.arg(0)) + [
        ("within the limit", z3.And(lim(c) >= 0, zord(f_(c).id(c.arg(0))) <= lim(c))), ("memo", memo2(c, 1, c.pre, zsem))] + modules(c) + has_modules(c),
        lambda c: elim_ens(c, zsem, f_(c).id(c.arg(0))) + [("memo", memo2(c, 1, c.post, zsem))], pmod(1))
    # ---- unique table
    cap = lambda c, old: c.en.read(c.pre if old else c.post, c._this.sub(("f", UT, "capacity_")))

    def fa_ens(c):
        f = f_(c)
        v = c.rval()["vertex_"]
        return [("a live entry matches the key", z3.Implies(v != 0, z3.And(f.index(v) == c.arg(0), f.id(f.high(v)) == c.arg(1), f.id(f.low(v)) == c.arg(2)))), ("the table has buckets", cap(c, False) > 0)]
    tm = lambda c: [c._this.sub(("f", UT, x)) for x in ("size_", "table_", "capacity_")]
    out.append(Contract("UniqueTable::FindOrAdd", UT + "::FindOrAdd", lambda c: [("the table has buckets", cap(c, True) > 0)], fa_ens, tm,
                        assumes=lambda c: [z3.Implies(c.rval()["vertex_"] != 0, z3.And(pub(c.rval()["vertex_"]), c.rval()["vertex_"] > 0, c.rval()["vertex_"] < c.pre.alloc, f_(c).id(c.rval()["vertex_"]) >= 2))]))
    out.append(Contract("UniqueTable::Rehash", UT + "::Rehash", lambda c: [("capacity is positive", c.arg(0) > 0)], lambda c: [("capacity is positive", cap(c, False) > 0)], tm,
                        trusted="moves the entries; no effect on vertices"))
    out.append(Contract("UniqueTable::GetNextCapacity", UT + "::GetNextCapacity", None, None, None, trusted="returns some positive capacity", assumes=lambda c: [c.result() > 0]))
    out.append(Contract("WeakIntrusivePtr::operator=", W + "::operator=", None, None, lambda c: [c._this.sub(("f", W, "vertex_"))], result=lambda c: c._this,
                        trusted="stores the pointer in the table entry (placement new)"))
    return out


SPEC = dict(id="C02", tus=["zbdd.cc"], contracts=mk, axioms=axioms,
            opts=dict(immutable=[(V, "id_"), (NT, "high_"), (NT, "low_"), (NT, "index_"), (NT, "order_")], on_new={I: on_new}, merge=True), loops=[])
