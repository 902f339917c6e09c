"""Contracts on the conversion of a BDD into products (C04, src/zbdd.cc).

The literals, the meaning zsem of families, and the set algebra are those of
specs/zbdd.py (C02), whose contracts are imported.  For the function of a BDD
vertex (complemented or not), psem says, with prime implicants, that the set of
literals implies the function; a function is implied by the set if its cofactor
by the literal in the set is, or both its cofactors are if neither literal of
the variable is in.  For minimal cut sets of coherent functions it says that the
variables of the set make the function true, whatever the rest."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs import zbdd as Z
from specs.zbdd import B, I, NT, V, NODE, zsem, lit, zord, ztop, rem, pos, ordx, modf, cohf, gatef, unity, pub, PI, BIG, Fs, F, branch

IMPORT = "discharged by the check of C02"
BI, BNT, BV, BF = "scram::core::Ite", "scram::core::NonTerminal<scram::core::Ite>", "scram::core::Vertex<scram::core::Ite>", "scram::core::Bdd::Function"
psem, cons = F("psem", INT, BOOL, BOOL), F("cons", INT, BOOL, BOOL)
btop, bpub = F("btop", INT, INT), F("bpub", INT, BOOL)
PRIMES = z3.Const("primes", BOOL)      # prime implicants of a non-coherent function
PLAIN = z3.Const("plain", BOOL)        # no module is non-coherent


class Bs:
    def __init__(self, en):
        self.id = lambda r: en.imm(BV, "id_", r)
        self.high = lambda r: en.imm(BNT, "high_", r)
        self.low = lambda r: en.imm(BNT, "low_", r)
        self.index = lambda r: en.imm(BNT, "index_", r)
        self.order = lambda r: en.imm(BNT, "order_", r)
        self.module = lambda r: en.imm(BNT, "module_", r)
        self.coherent = lambda r: en.imm(BNT, "coherent_", r)
        self.ce = lambda r: en.imm(BI, "complement_edge_", r)

    def split(self, r):
        """Positive and negative literals are both of use."""
        return z3.Or(PRIMES, z3.And(self.module(r), z3.Not(self.coherent(r))))

    def unfold(self, r, c):
        i = self.index(r)
        h, l = psem(self.id(self.high(r)), c), psem(self.id(self.low(r)), z3.Xor(self.ce(r), c))
        k = cons(self.id(r), c)
        return z3.And(psem(self.id(r), c) == z3.If(self.split(r), z3.If(lit(i), h, z3.If(lit(-i), l, k)), branch(i, h, l)),
                      z3.Implies(k, z3.And(h, l)), z3.Implies(z3.And(PRIMES, h, l), k))

    def facts(self, r):
        i = self.index(r)
        h, l = self.id(self.high(r)), self.id(self.low(r))
        return z3.And(bpub(self.high(r)), bpub(self.low(r)), i > 0, self.order(r) == ordx(i), self.order(r) > 0, ordx(-i) == ordx(i),
                      self.module(r) == modf(i), self.coherent(r) == cohf(i), modf(-i) == modf(i), cohf(-i) == cohf(i),
                      btop(self.id(r)) == pos(i), btop(h) > pos(-i), btop(l) > pos(-i), pos(-i) > pos(i),
                      z3.Implies(PLAIN, z3.Not(z3.And(modf(i), z3.Not(cohf(i))))))


def axioms(en):
    b = Bs(en)
    r, i = z3.Ints("px_r px_i")
    c = z3.Bool("px_c")
    fa = lambda vs, t, *ps: z3.ForAll(vs, t, patterns=list(ps))
    big = z3.And(bpub(r), b.id(r) >= 2)
    return Z.axioms(en) + [
        fa([i], gatef(i) == modf(i), gatef(i)),    # Zbdd::IsGate
        z3.Implies(PRIMES, PI), psem(1, False), z3.Not(psem(1, True)), btop(1) == BIG,
        fa([r], z3.Implies(bpub(r), z3.And(r > 0, b.id(r) >= 1)), bpub(r)),
        fa([r], z3.Implies(big, b.facts(r)), b.high(r)), fa([r], z3.Implies(big, b.facts(r)), b.low(r)), fa([r], z3.Implies(big, b.facts(r)), b.index(r)),
        fa([r], z3.Implies(big, b.facts(r)), btop(b.id(r))),
        fa([r, c], z3.Implies(big, b.unfold(r, c)), psem(b.id(r), c)),
        fa([r, c], z3.Implies(big, b.unfold(r, c)), cons(b.id(r), c)),
    ]


def rel(a, c, top, v, n):
    """The family v has a product within the set if and only if (up to the cut-off) the set is for the function."""
    p = psem(a, c)
    return z3.And(z3.Implies(zsem(v), p), z3.Implies(z3.And(p, rem(top) <= n, z3.Or(PI, PLAIN)), zsem(v)), ztop(v) >= top, z3.Or(v == 0, zord(v) <= n),
                  z3.Implies(z3.Or(PI, PLAIN), z3.Or(v < 2, zord(v) >= 1)))


def mk(prog):
    out = []
    for con in Z.mk(prog):
        con.trusted = con.trusted or IMPORT
        out.append(con)

    def pt(fd, k, P):
        return [P.fdecl_tu[k].types[t].s.replace("scram::core::", "") for t in fd["p"]]
    BVP, IP = "const boost::intrusive_ptr<Vertex<Ite>> &", "const boost::intrusive_ptr<Ite> &"

    def sel(n, ps):
        return lambda fd, k, P: fd["q"] == B + "::" + n and pt(fd, k, P)[:len(ps)] == ps
    zf, bf = lambda c: Fs(c.en), lambda c: Bs(c.en)
    inv, mods = Z.inv, Z.mods
    res = lambda c: (zf(c).id(c.result()), [("the result is a published vertex", z3.And(pub(c.result()), c.result() > 0, c.result() < c.post.alloc))])
    bv = lambda c, r, ite=False: [("argument is a vertex of the BDD", z3.And(bpub(r), r > 0, *([bf(c).id(r) >= 2] if ite else [])))]

    def gr_req(c):
        i = z3.If(c.arg(1), -bf(c).index(c.arg(0)), bf(c).index(c.arg(0)))
        f = zf(c)
        h, l = f.id(c.arg(2)), f.id(c.arg(3))
        return inv(c, True) + bv(c, c.arg(0), True) + [("argument %d is a published vertex" % n, Z.vtx(c, c.arg(n))) for n in (2, 3)] + [
            ("branches are in order", z3.And(ztop(h) > pos(i), ztop(l) > pos(i), z3.Implies(h >= 2, f.order(c.arg(2)) > ordx(i))))]

    def gr_ens(c):
        i = z3.If(c.arg(1), -bf(c).index(c.arg(0)), bf(c).index(c.arg(0)))
        f = zf(c)
        v, o = res(c)
        h, l = f.id(c.arg(2)), f.id(c.arg(3))
        return inv(c, False) + o + [("products with and without the literal", zsem(v) == branch(i, zsem(h), zsem(l))), ("in order", ztop(v) >= pos(i)),
                                    ("the largest product", zord(v) <= z3.If(h == 0, zord(l), Z.bord(i, zord(h), zord(l)))), ("the empty family", z3.Implies(v == 0, l == 0)),
                                    ("suppressed, or a node of the literal", z3.Or(v == l, zord(v) == Z.bord(i, zord(h), zord(l))))]
    out.append(Contract("Zbdd::GetReducedVertex(ite)", sel("GetReducedVertex", [IP]), gr_req, gr_ens, mods, allocates=True, opts=dict(asserts="assume")))

    def memo(c, st):
        m = c.ptr_arg(4, st is c.post)
        k = z3.Const(fresh_name("mk"), m["dom"].sort().domain())
        a, n = leaves(unpack(k, m.meta))
        v = z3.Select(leaves(m["val"])[0], k)
        w = zf(c).id(v)
        return qall([k], z3.Implies(z3.And(z3.Select(m["dom"], k), v != 0), z3.And(pub(v), v > 0, v < st.alloc, rel(z3.If(a < 0, -a, a), a < 0, btop(z3.If(a < 0, -a, a)), w, n))), v)

    def pmod(c):
        p = c._args[4]
        if isinstance(p, LVal):
            p = c.en.read(c.pre, p)
        return c.en.deref(c.pre, p, c.ptys[4].elem)
    primes = lambda c: ("the mode", z3.And(PRIMES == z3.And(PI, z3.Not(c.fld(c.this, B, "coherent_", True))), c.fld(c.this, B, "kSettings_", True)["prime_implicants_"] == PI))

    def con(name, n, ps, extra=()):
        def req(c):
            return inv(c, True) + bv(c, c.arg(0), ps[0] is IP) + [primes(c), ("a limit", c.arg(3) >= 0), ("results of vertices", memo(c, c.pre))] + [x(c) for x in extra]

        def ens(c):
            v, o = res(c)
            a = bf(c).id(c.arg(0))
            return inv(c, False) + o + [("the products of the function", rel(a, c.arg(1), btop(a), v, c.arg(3))), ("results of vertices", memo(c, c.post))]
        out.append(Contract(name, sel(n, ps), req, ens, lambda c: mods(c) + [pmod(c)], allocates=True, opts=dict(asserts="assume")))
    con("Zbdd::ConvertBdd(vertex)", "ConvertBdd", [BVP])
    con("Zbdd::ConvertBdd(ite)", "ConvertBdd", [IP], [lambda c: ("not with prime implicants", z3.Not(PRIMES))])
    con("Zbdd::ConvertBddPrimeImplicants", "ConvertBddPrimeImplicants", [IP], [lambda c: ("both literals", bf(c).split(c.arg(0)))])

    def cons_ass(c):
        b = bf(c)
        r = c.rval()
        a, k = b.id(r["vertex"]), b.id(c.arg(1))
        return [bpub(r["vertex"]), r["vertex"] > 0, psem(a, r["complement"]) == cons(k, c.arg(2)), btop(a) > pos(-b.index(c.arg(1)))]
    out.append(Contract("Bdd::Consensus", "scram::core::Bdd::Consensus::operator()", None, None, lambda c: [], trusted="the conjunction of the branches of the vertex (Bdd::CalculateConsensus, discharged by the check of C01)",
                        assumes=cons_ass))
    return out


SPEC = dict(id="C04", tus=["zbdd.cc"], contracts=mk, axioms=axioms, loops=[],
            opts=dict(immutable=[(V, "id_"), (NT, "high_"), (NT, "low_"), (NT, "index_"), (NT, "order_"), (BV, "id_"), (BNT, "high_"), (BNT, "low_"), (BNT, "index_"),
                                 (BNT, "order_"), (BNT, "module_"), (BNT, "coherent_"), (BI, "complement_edge_")], on_new={I: Z.on_new}, merge=True))
