"""Contracts on the generation of cut sets (C03): MOCUS (src/mocus.cc with the
CutSetContainer of src/zbdd.cc) and the conversion of the graph into a ZBDD.

The literals, the meaning zsem of a family under one arbitrary consistent set of
them, and the set algebra are those of specs/zbdd.py (C02), whose contracts are
imported.  On top, lit(g) of a gate that is no module is the value of its
connective on its arguments; the literals of modules are free.  CUT says that
the counted literals of the set are within the cut-off of the order."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs import zbdd as Z
from specs.zbdd import (B, I, NT, V, NODE, GATE, CS, zsem, esem, lit, zord, ztop, rem, pos, ordx, modf, cohf, gatef, unity, pub, TOTAL, BIG, BOOL, INT,
                        Fs, inv_st, branch, rel_and, rel_or, rel_elim, rel_min)

IMPORT = "discharged by the check of C02"
MO = "scram::core::Mocus"
VAR = "scram::core::Variable"
isgate, isvar = Z.F("isgate", INT, BOOL), Z.F("isvar", INT, BOOL)
tcount = z3.Function("tcount", z3.ArraySort(INT, BOOL), INT)
hasm, remx, M = Z.F("hasm", INT, BOOL), Z.F("remx", INT, INT), z3.Const("module", INT)    # products within the set with one arbitrary module
occ, sub = Z.occ, Z.sub


def glogic(en, st, g):
    """The connective of the gate on its arguments, and the number of them."""
    h = lambda n: en.heap_get(st, (GATE, n), g)
    dv, dg = h("variable_args_")["dom"], h("gate_args_")["dom"]
    n, t = en.lib.card(dv) + en.lib.card(dg), tcount(dv) + tcount(dg)
    return z3.If(h("type_") == 1, t > 0, t == n), n


def node_inv(kind):
    def inv_(en, st, key, val, owner):
        """Arguments of a gate: kind, index, order, flags; no complements of gates."""
        k, n = leaves(key)[0], leaves(val)[0]
        h = lambda c, f: en.heap_get(st, (c, f), n)
        ix, o = h(NODE, "index_"), h(NODE, "order_")
        out = [kind(n), n > 0, n < en.pre.alloc, ix == z3.If(k >= 0, k, -k), ix > 0, o > 0, o == ordx(ix), o == ordx(k), ordx(-ix) == ordx(ix)]
        if kind is isgate:
            out += [k > 0, h(GATE, "module_") == modf(k), h(GATE, "coherent_") == cohf(k)]
        else:
            out += [z3.Not(modf(k)), z3.Not(cohf(k))]
        return z3.And(*out)
    return inv_


def gate_ok(en, st, g):
    h = lambda c, f: en.heap_get(st, (c, f), g)
    v, n = glogic(en, st, g)
    ix = h(NODE, "index_")
    ty = h(GATE, "type_")
    return z3.And(n >= 2, z3.Or(ty == 0, ty == 1), ix > 0, h(GATE, "module_") == modf(ix), z3.Implies(z3.Not(h(GATE, "module_")), lit(ix) == v))


def graph_ok(en, st):
    g = z3.Const(fresh_name("g"), INT)
    return qall([g], z3.Implies(isgate(g), gate_ok(en, st, g)), isgate(g))


def CUT(n):
    return rem(z3.IntVal(0)) <= n


def conv(sem, v, n):
    """The family v is of the function with the value sem, up to the cut-off."""
    return z3.And(z3.Implies(z3.And(zsem(v), TOTAL), sem), z3.Implies(z3.And(sem, CUT(n)), zsem(v)))


def axioms(en):
    EN[0] = en
    i, p = z3.Ints("mx_i mx_p")
    f = Fs(en)
    g, v0, v, n = z3.Ints("mx_g mx_v0 mx_v mx_n")
    big = z3.And(pub(p), f.id(p) >= 2)
    return Z.axioms(en) + [
        modf(M), z3.Not(hasm(0)), z3.Not(hasm(1)),
        z3.ForAll([p], z3.Implies(big, hasm(f.id(p)) == z3.Or(z3.And(lit(f.index(p)), z3.If(f.index(p) == M, zsem(f.id(f.high(p))), hasm(f.id(f.high(p))))), hasm(f.id(f.low(p))))), patterns=[hasm(f.id(p))]),
        z3.ForAll([i, p], z3.Implies(p > pos(i), remx(pos(i)) >= remx(p) + Z.b2i(z3.And(lit(i), z3.Not(unity(i)), i != M))), patterns=[z3.MultiPattern(pos(i), remx(p))]),
        z3.ForAll([i, p], z3.Implies(i <= p, remx(i) >= remx(p)), patterns=[z3.MultiPattern(remx(i), remx(p))]),
        z3.ForAll([p], z3.And(remx(p) >= 0, z3.Implies(p > pos(M), remx(p) == rem(p))), patterns=[remx(p)]),
        z3.ForAll([i], pos(i) >= 0, patterns=[pos(i)]),
        z3.ForAll([p], z3.Implies(pub(p), ztop(f.id(p)) >= 0), patterns=[ztop(f.id(p))]),
        z3.ForAll([p], z3.Implies(p >= 0, rem(p) <= rem(0)), patterns=[rem(p)]),
    ]


def lim(en, st, this):
    return en.heap_get(st, (B, "kSettings_"), this)["limit_order_"]


def ordered(v, n):
    return z3.Or(v == 0, zord(v) <= n)


def mk(prog):
    out = []
    for con in Z.mk(prog):
        con.trusted = con.trusted or IMPORT
        out.append(con)
    f_ = lambda c: Fs(c.en)
    inv = Z.inv
    res = lambda c: (f_(c).id(c.result()), [("the result is a published vertex", z3.And(pub(c.result()), c.result() > 0, c.result() < c.post.alloc))])
    graph = lambda c: [("the gate is of the graph", isgate(c.arg(0))), ("meaning of the gates", graph_ok(c.en, c.pre))]
    L = lambda c: lim(c.en, c.pre, c.this)

    def conv_ens(c):
        v, o = res(c)
        sem, _ = glogic(c.en, c.pre, c.arg(0))
        return inv(c, False) + o + [("the family of the function of the gate", conv(sem, v, L(c))), ("within the cut-off", ordered(v, L(c)))]

    # ---- Zbdd::ConvertGraph
    def memo_ok(en, st, m, n):
        f = Fs(en)
        k = z3.Const(fresh_name("mk"), INT)
        v = tmap(lambda a: z3.Select(a, k), m["val"])["first"]
        return qall([k], z3.Implies(z3.And(z3.Select(m["dom"], k), z3.Not(modf(k))), z3.And(pub(v), v > 0, v < st.alloc, conv(lit(k), f.id(v), n), ordered(f.id(v), n))), z3.Select(m["dom"], k), v)

    def pmod(c, i):
        p = c._args[i]
        if isinstance(p, LVal):
            p = c.en.read(c.pre, p)
        return c.en.deref(c.pre, p, c.ptys[i].elem)

    def args_loop(memo):
        def loop(v):
            en, st = v.en, v.st
            f = Fs(en)
            this = v.fr.this.root[1]
            n = lim(en, st, this)
            out = list(inv_st(en, st, this))
            vecs = [x for m, x, _ in v.locals(kind="vec") if isinstance(x["at"], z3.ExprRef)]
            if memo:
                for k, p in st.mem.items():
                    if isinstance(p, PtrTo):
                        m = en.read(st, p.lv)
                        if isinstance(m, Node) and m.kind == "map" and isinstance(m["val"], Node) and "first" in m["val"].ch:
                            out.append(("results of gates", memo_ok(en, st, m, n)))
            if len(vecs) != 1:
                return out
            a = vecs[0]
            al, an = (en.lib.seq_m(m, a["at"], a["len"]) for m in ("all", "any"))
            i = z3.Const(fresh_name("pi"), INT)
            x = z3.Select(a["at"], i)
            out.append(("arguments are published", qall([i], z3.Implies(z3.And(i >= 0, i < a["len"]), z3.And(pub(x), x > 0, x < st.alloc)), x)))
            if v.L["rng"] is not None and v.L["kind"] == "map":
                t, c = tcount(v.vis), en.lib.card(v.vis)
                lv = v.L["rng"]
                if lv.path[0][2] == "gate_args_":
                    d = en.heap_get(st, (GATE, "variable_args_"), lv.root[1])["dom"]
                    t, c = t + tcount(d), c + en.lib.card(d)
                out += [("conjunction of the arguments so far", conv_b(t == c, al, n)), ("disjunction of the arguments so far", conv_b(t > 0, an, n)),
                        ("one family per argument", a["len"] == c)]
            else:
                its = [x for m, x, _ in v.locals(kind="iter") if "idx" in x.ch]
                vs = [x for m, x, _ in v.mod_locals(sort=INT)]
                if len(its) == 1:
                    i = its[0]["idx"]
                    pi, po = (en.lib.seq_m(m, a["at"], i) for m in ("all", "any"))
                    gates = [x for k, x in st.mem.items() if k[0] == "r" and isinstance(x, LVal) and x.root[0] == "h" and x.ty is not None and x.ty.s.endswith("Gate")]
                    out.append(("position", z3.And(i >= 1, i <= a["len"])))
                    for m, r in enumerate(vs):
                        out.append(("partial result %d is published" % m, z3.And(pub(r), r > 0, r < st.alloc)))
                        out.append(("partial result %d is within the cut-off" % m, z3.Implies(i >= 2, ordered(f.id(r), n))))
                        for k, g in enumerate(gates):
                            ty = en.heap_get(st, (GATE, "type_"), g.root[1])
                            out.append(("partial result %d/%d" % (m, k), conv_b(z3.If(ty == 1, po, pi), zsem(f.id(r)), n)))
            return out
        return loop

    def conv_b(sem, b, n):
        return z3.And(z3.Implies(z3.And(b, TOTAL), sem), z3.Implies(z3.And(sem, CUT(n)), b))
    mg = lambda c: Z.mods(c)
    out.append(Contract("Zbdd::ConvertGraph", B + "::ConvertGraph",
                        lambda c: inv(c, True) + graph(c) + [("results of gates", memo_ok(c.en, c.pre, c.ptr_arg(1), L(c))),
                                                              ("a gate with stored results is no module", z3.Implies(z3.Select(c.ptr_arg(1)["dom"], c.fld(c.arg(0), NODE, "index_", True)), z3.Not(c.fld(c.arg(0), GATE, "module_", True))))],
                        lambda c: conv_ens(c) + [("results of gates", memo_ok(c.en, c.post, c.ptr_arg(1, True), L(c)))],
                        lambda c: mg(c) + [pmod(c, 1), pmod(c, 2)], allocates=True, loops=[args_loop(True)], opts=dict(asserts="assume")))
    out.append(Contract("CutSetContainer::ConvertGate", CS + "::ConvertGate", lambda c: inv(c, True) + graph(c), conv_ens, mg, allocates=True,
                        loops=[args_loop(False)], opts=dict(asserts="assume")))
    # ---- modules of a family and their cut-offs
    def mm(c, post):
        m = c.ptr_arg(2, post)
        return m["dom"], m["val"]["first"], m["val"]["second"]

    def gm_req(c):
        d, fi, se = mm(c, False)
        i = z3.Const(fresh_name("gi"), INT)
        v = f_(c).id(c.arg(0))
        return inv(c, True) + vok(c, c.arg(0)) + [("within the cut-off", z3.And(c.arg(1) >= 0, c.arg(1) + zord(v) <= L(c))),
                                                  ("flags of the modules", qall([i], z3.Implies(z3.Select(d, i), z3.And(z3.Select(fi, i) == cohf(i), modf(i), z3.Select(se, i) >= 0)), z3.Select(d, i)))]

    def gm_ens(c):
        (d, fi, se), (d0, _, se0) = mm(c, True), mm(c, False)
        i = z3.Const(fresh_name("gi"), INT)
        v, r = f_(c).id(c.arg(0)), c.result()
        S = z3.Select
        return [("the empty family has no smallest product", (r == -1) == (v == 0)), ("the smallest product", z3.And(r >= -1, r <= zord(v))),
                ("the smallest product is within any product", z3.Implies(zsem(v), z3.And(r >= 0, r <= rem(ztop(v))))),
                ("flags of the modules", qall([i], z3.Implies(S(d, i), z3.And(S(fi, i) == cohf(i), modf(i), S(se, i) >= 0)), S(d, i))),
                ("all modules of the family", qall([i], z3.Implies(z3.And(occ(v, i), modf(i)), S(d, i)), occ(v, i))),
                ("only modules of the family", qall([i], z3.Implies(S(d, i), z3.Or(S(d0, i), occ(v, i))), S(d, i))),
                ("cut-offs only grow", qall([i], z3.Implies(S(d0, i), z3.And(S(d, i), S(se, i) >= S(se0, i))), S(d0, i))),
                ("the cut-off of a module leaves what the other literals of a product leave of the limit",
                 z3.Implies(hasm(v), z3.And(S(d, M), S(se, M) >= L(c) - c.arg(1) - remx(ztop(v)))))]
    vok = lambda c, *rs: [("argument %d is a published vertex" % n, Z.vtx(c, r)) for n, r in enumerate(rs)]
    out.append(Contract("Zbdd::GatherModules", B + "::GatherModules", gm_req, gm_ens, lambda c: [pmod(c, 2)]))
    # ---- CutSetContainer
    root = lambda c, old: c.fld(c.this, B, "root_", old)
    idr = lambda c, old: f_(c).id(root(c, old))
    rmods = lambda c: mg(c) + [((B, "root_"), c.this)]
    rok = lambda c, old: [("the root is a published vertex", z3.And(pub(root(c, old)), root(c, old) > 0, root(c, old) < (c.pre if old else c.post).alloc))]
    vok = lambda c, *rs: [("argument %d is a published vertex" % n, Z.vtx(c, r)) for n, r in enumerate(rs)]
    bound = lambda c: c.fld(c.this, CS, "gate_index_bound_", True)
    out.append(Contract("CutSetContainer::IsGate", CS + "::IsGate", lambda c: [],
                        lambda c: [("gates have higher indices", c.result() == (f_(c).index(c.arg(0)) > bound(c)))], lambda c: []))
    out.append(Contract("CutSetContainer::GetNextGate", CS + "::GetNextGate", lambda c: inv(c, True) + rok(c, True),
                        lambda c: (lambda r, f: [("the gate of the root", c.result() == z3.If(z3.And(f.id(r) >= 2, f.index(r) > bound(c), z3.Not(modf(f.index(r)))), f.index(r), z3.IntVal(0)))])(root(c, True), f_(c)), lambda c: []))
    out.append(Contract("CutSetContainer::ExtractIntermediateCutSets", CS + "::ExtractIntermediateCutSets",
                        lambda c: inv(c, True) + rok(c, True) + [("the root is of the gate", z3.And(idr(c, True) >= 2, f_(c).index(root(c, True)) == c.arg(0)))],
                        lambda c: inv(c, False) + rok(c, False) + res(c)[1] + [
                            ("the products with and without the gate", zsem(idr(c, True)) == branch(c.arg(0), zsem(res(c)[0]), zsem(idr(c, False)))),
                            ("no larger products", z3.And(zord(res(c)[0]) <= zord(idr(c, True)), zord(idr(c, False)) <= zord(idr(c, True))))],
                        lambda c: [((B, "root_"), c.this)], opts=dict(asserts="assume")))
    out.append(Contract("CutSetContainer::ExpandGate", CS + "::ExpandGate", lambda c: inv(c, True) + vok(c, c.arg(0), c.arg(1)),
                        lambda c: inv(c, False) + res(c)[1] + [("the products of both", rel_and(f_(c).id(c.arg(0)), f_(c).id(c.arg(1)), L(c), res(c)[0]))], mg, allocates=True, opts=dict(asserts="assume")))
    out.append(Contract("CutSetContainer::Merge", CS + "::Merge", lambda c: inv(c, True) + rok(c, True) + vok(c, c.arg(0)),
                        lambda c: inv(c, False) + rok(c, False) + [("the products of either", rel_or(idr(c, True), f_(c).id(c.arg(0)), L(c), idr(c, False)))], rmods, allocates=True, opts=dict(asserts="assume")))
    out.append(Contract("CutSetContainer::Minimize", CS + "::Minimize", lambda c: inv(c, True) + rok(c, True),
                        lambda c: inv(c, False) + rok(c, False) + [("the same family", rel_min(idr(c, True), idr(c, False)))], rmods, allocates=True))
    out.append(Contract("CutSetContainer::EliminateComplements", CS + "::EliminateComplements",
                        lambda c: inv(c, True) + rok(c, True) + [("within the cut-off", z3.And(L(c) >= 0, zord(idr(c, True)) <= L(c)))],
                        lambda c: inv(c, False) + rok(c, False) + [("complements are taken for true", rel_elim(idr(c, True), L(c), idr(c, False)))], rmods, allocates=True))
    def cg_ens(c):
        m = c.rval()
        d, fi, se = m["dom"], m["val"]["first"], m["val"]["second"]
        i = z3.Const(fresh_name("gi"), INT)
        v, S = idr(c, True), z3.Select
        return [("flags of the modules", qall([i], z3.Implies(S(d, i), z3.And(S(fi, i) == cohf(i), modf(i), S(se, i) >= 0, occ(v, i))), S(d, i))),
                ("all modules of the family", qall([i], z3.Implies(z3.And(occ(v, i), modf(i)), S(d, i)), occ(v, i))),
                ("the cut-off of a module leaves what the other literals of a product leave of the limit",
                 z3.Implies(hasm(v), z3.And(S(d, M), S(se, M) >= L(c) - remx(z3.IntVal(0)))))]
    out.append(Contract("CutSetContainer::GatherModules", CS + "::GatherModules", lambda c: inv(c, True) + rok(c, True) + [("within the cut-off", zord(idr(c, True)) <= L(c))],
                        cg_ens, lambda c: [], opts=dict(asserts="assume")))
    # ---- elimination of constant modules
    def literals_of_modules(c):
        """The modules of the family are there; a constant one has the value of its literal in the set."""
        i = z3.Const(fresh_name("ci"), INT)
        d = c.fld(c.this, B, "modules_", True)
        p = z3.Select(leaves(d["val"])[0], i)
        rt = c.en.heap_get(c.pre, (B, "root_"), p)
        f = f_(c)
        return [("constant modules have the values of their literals", qall([i], z3.Implies(z3.Select(d["dom"], i), z3.And(
            p > 0, p < c.pre.alloc, p != c.this, pub(rt), rt < c.pre.alloc, z3.Implies(f.id(rt) < 2, lit(i) == (f.id(rt) == 1)))), z3.Select(d["dom"], i))),
                ("modules of the literals are there", qall([i], z3.Implies(z3.And(occ(idr(c, True), i), modf(i)), z3.Select(d["dom"], i)), occ(idr(c, True), i)))]
    for nm, cls in (("Zbdd::EliminateConstantModules()", B), ("CutSetContainer::EliminateConstantModules", CS)):
        out.append(Contract(nm, (lambda cls: lambda fd, k, P: fd["q"] == cls + "::EliminateConstantModules" and not fd["p"])(cls),
                            lambda c: inv(c, True) + rok(c, True) + [("within the cut-off", z3.And(L(c) >= 0, zord(idr(c, True)) <= L(c)))] + literals_of_modules(c),
                            lambda c: inv(c, False) + rok(c, False) + [("the same family up to the cut-off", rel_elim(idr(c, True), L(c), idr(c, False), zsem))], rmods, allocates=True,
                            opts=dict(asserts="assume")))
    return out


OPTS = dict(immutable=[(V, "id_"), (NT, "high_"), (NT, "low_"), (NT, "index_"), (NT, "order_")], on_new={I: Z.on_new}, merge=True,
            elem_inv={(GATE, "variable_args_"): node_inv(isvar), (GATE, "gate_args_"): node_inv(isgate)},
            measures={"Int": [(tcount, lambda k: z3.If(lit(k), 1, 0))]})


def isnode(at):
    return isinstance(at, z3.ExprRef) and at.sort() == z3.ArraySort(INT, INT)


EN = [None]
OPTS["seq"] = [(n, op, isnode, lambda x: zsem(Fs(EN[0]).id(x))) for n, op in (("all", "and"), ("any", "or"))]
SPEC = dict(id="C03", tus=["zbdd.cc"], contracts=mk, axioms=axioms, opts=OPTS, loops=[])
