"""Contracts on the BDD engine (src/bdd.{h,cc}).

One arbitrary assignment is fixed: nval(i) is the value of the PDAG node with
index i.  bsem(id) is the value of the function graph with that vertex id: the
unfolding axiom defines it for published vertices; the creation obligations
(fresh id, children published, order of the variable) make the definition
legitimate for each vertex the code creates."""
import z3
from core import *
from contracts import Contract
from engine import qall

B = "scram::core::Bdd"
I = "scram::core::Ite"
NT = "scram::core::NonTerminal<scram::core::Ite>"
V = "scram::core::Vertex<scram::core::Ite>"
W = "scram::core::WeakIntrusivePtr<scram::core::Ite>"
FN = "scram::core::Bdd::Function"
NODE = "scram::core::Node"

bsem = z3.Function("bsem", INT, BOOL)
nval = z3.Function("nval", INT, BOOL)
ordx = z3.Function("ordx", INT, INT)
ordinv = z3.Function("ordinv", INT, INT)
pub = z3.Function("pub", INT, BOOL)
QF = z3.Function("Qentry", INT, INT, INT, BOOL, BOOL)


class F:
    """Immutable fields as functions."""

    def __init__(self, en):
        self.id = lambda r: en.imm(V, "id_", r)
        self.high = lambda r: en.imm(NT, "high_", r)
        self.low = lambda r: en.imm(NT, "low_", r)
        self.index = lambda r: en.imm(NT, "index_", r)
        self.order = lambda r: en.imm(NT, "order_", r)
        self.ce = lambda r: en.imm(I, "complement_edge_", r)

    def sem(self, fn):
        """Value of a Bdd::Function tree."""
        return z3.Xor(fn["complement"], bsem(self.id(fn["vertex"])))

    def vsem(self, r, comp):
        return z3.Xor(comp, bsem(self.id(r)))


EN = [None]


def fsem(fn):
    return F(EN[0]).sem(fn)


def axioms(en):
    EN[0] = en
    f = F(en)
    r, i = z3.Ints("ax_r ax_i")
    big = z3.And(pub(r), f.id(r) >= 2)
    kids = z3.And(pub(f.high(r)), pub(f.low(r)), f.index(r) > 0, f.order(r) == ordx(f.index(r)), f.order(r) > 0,
                  f.high(r) > 0, f.low(r) > 0, f.high(r) < r, f.low(r) < r)
    sem = bsem(f.id(r)) == z3.If(nval(f.index(r)), bsem(f.id(f.high(r))), z3.Xor(f.ce(r), bsem(f.id(f.low(r)))))
    return [
        bsem(1),
        z3.ForAll([r], z3.Implies(pub(r), z3.And(r > 0, f.id(r) >= 1)), patterns=[pub(r)]),
        z3.ForAll([r], z3.Implies(big, z3.And(kids, sem)), patterns=[f.high(r), f.low(r)][:1]),
        z3.ForAll([r], z3.Implies(big, z3.And(kids, sem)), patterns=[f.low(r)]),
        z3.ForAll([r], z3.Implies(big, z3.And(f.index(r) > 0, f.order(r) > 0, f.order(r) == ordx(f.index(r)))), patterns=[f.order(r)]),
        z3.ForAll([i], ordinv(ordx(i)) == i, patterns=[ordx(i)]),
    ]


def on_new_ite(en, st, r):
    f = F(en)
    en.flush_except(st, (I, "complement_edge_"))
    s = z3.Const(fresh_name("s"), INT)
    return ([
        ("the id is fresh", z3.ForAll([s], z3.Implies(z3.And(s > 0, s < r, pub(s)), f.id(s) != f.id(r)), patterns=[pub(s)])),
        ("the id is not of a terminal", f.id(r) >= 2),
        ("branches are published vertices", z3.And(pub(f.high(r)), pub(f.low(r)), f.high(r) > 0, f.low(r) > 0, f.high(r) < r, f.low(r) < r)),
        ("the order belongs to the variable", z3.And(f.index(r) > 0, f.order(r) > 0, f.order(r) == ordx(f.index(r)))),
    ], [pub(r)])


def id_bound(c, st):
    f = F(c.en)
    s = z3.Const(fresh_name("b"), INT)
    fid = c.en.heap_get(st, (B, "function_id_"), c.this)
    return z3.And(fid >= 2, z3.ForAll([s], z3.Implies(z3.And(pub(s), s < st.alloc), f.id(s) < fid), patterns=[pub(s)]))


def lit(k):
    return z3.If(k >= 0, bsem(k), z3.Not(bsem(-k)))


# ------------------------------------------------------------ cache tables
def nonnull(v):
    if isinstance(v, Node):
        return v["vertex"] != 0
    return v != 0


def entry_pred(en, table, st):
    f = F(en)
    if table == "and_table_":
        return lambda a, b, v: z3.And(pub(v["vertex"]), v["vertex"] < st.alloc, f.sem(v) == z3.And(lit(a), lit(b)))
    if table == "or_table_":
        return lambda a, b, v: z3.And(pub(v["vertex"]), v["vertex"] < st.alloc, f.sem(v) == z3.Or(lit(a), lit(b)))
    return lambda a, b, v: QF(a, b, *(([v["vertex"], v["complement"]]) if isinstance(v, Node) else [v, z3.BoolVal(False)]))


def entries_ok(table_vec, pred):
    i = z3.Const(fresh_name("e"), INT)
    el = tmap(lambda a: z3.Select(a, i), table_vec["at"])
    key, val = el["first"], el["second"]
    pat = leaves(val)[-1]
    return qall([i], z3.Implies(z3.And(i >= 0, i < table_vec["len"], nonnull(val)),
                                pred(key["first"], key["second"], val)), pat)


def table_of(c, st):
    """The predicate of the table a contract is about."""
    lv = c._this
    name = lv.path[-1][2] if lv.path else "?"
    return entry_pred(c.en, name, st)


def cache_contracts(cls):
    def vec(c, old):
        return c.en.read(c.pre if old else c.post, c._this.sub(("f", cls, "table_")))

    def ok(c, old):
        return entries_ok(vec(c, old), table_of(c, c.pre if old else c.post))

    def mod(c):
        return [c._this.sub(("f", cls, "table_")), c._this.sub(("f", cls, "size_"))]

    def find_ens(c):
        it = c.result()
        v = vec(c, True)
        i = it["idx"]
        el = tmap(lambda a: z3.Select(a, i), v["at"])
        k = c.val(0)
        return [("within the table", z3.And(i >= 0, i <= v["len"])),
                ("found entries have the key", z3.Implies(i < v["len"], z3.And(
                    el["first"]["first"] == k["first"], el["first"]["second"] == k["second"], nonnull(el["second"]))))]

    def emp_req(c):
        k, v = c.val(0), c.val(1)
        return [("entries satisfy the table predicate", ok(c, True)), ("table is not empty", vec(c, True)["len"] > 0),
                ("the new entry satisfies the table predicate", z3.And(nonnull(v), table_of(c, c.pre)(k["first"], k["second"], v)))]

    ens = lambda c: [("entries satisfy the table predicate", ok(c, False))]
    ne = lambda c: [("table stays non-empty", z3.Implies(vec(c, True)["len"] > 0, vec(c, False)["len"] > 0))]
    ens2 = lambda c: ens(c) + ne(c)
    nm = "CacheTable"
    return [
        Contract(nm + "::find", cls + "::find", lambda c: [("table is not empty", vec(c, True)["len"] > 0)], find_ens, lambda c: [],
                 result=lambda c: c.en.lib.vec_iter(c._this.sub(("f", cls, "table_"), c.en.field_ty((cls, "table_"))),
                                                    z3.Const(fresh_name("found"), INT)) if c.call else c.res),
        Contract(nm + "::emplace", cls + "::emplace", emp_req, ens2, mod),
        Contract(nm + "::clear", cls + "::clear", None, ens2, mod,
                 loops=[lambda v: clear_loop(v, cls)]),
        Contract(nm + "::reserve", cls + "::reserve", lambda c: [("entries satisfy the table predicate", ok(c, True))], ens, mod),
        Contract(nm + "::Rehash", cls + "::Rehash", lambda c: [("entries satisfy the table predicate", ok(c, True)), ("capacity is positive", c.arg(0) > 0)],
                 lambda c: ens(c) + [("the capacity is set", vec(c, False)["len"] == c.arg(0))], mod,
                 loops=[lambda v: rehash_loop(v)]),
    ]


def clear_loop(v, cls):
    if not hasattr(v, "i"):
        return []
    i = z3.Const(fresh_name("c"), INT)
    rng = v.range
    if rng.kind != "vec" or not isinstance(rng["at"], Node) or "second" not in rng["at"].ch:
        return []
    el = tmap(lambda a: z3.Select(a, i), rng["at"])
    return [("visited entries are empty", qall([i], z3.Implies(z3.And(i >= 0, i < v.i), z3.Not(nonnull(el["second"]))),
                                               leaves(el["second"])[-1]))]


def rehash_loop(v):
    out = []
    if not hasattr(v, "i"):
        return out
    pred = entry_pred(v.en, "?", v.st)
    for n, val, v0 in v.locals(kind="vec"):
        if isinstance(val["at"], Node) and "second" in val["at"].ch and "first" in val["at"].ch:
            out.append(("new entries satisfy the table predicate", entries_ok(val, pred)))
    rng = v.range
    if rng.kind == "vec" and isinstance(rng["at"], Node) and "second" in rng["at"].ch:
        # Entries are only emptied or kept.
        out.append(("old entries satisfy the table predicate", entries_ok(rng, pred)))
    return out


# ------------------------------------------------------------ BDD
def tables_ok(c, old):
    st = c.pre if old else c.post
    out = []
    for t in ("and_table_", "or_table_"):
        lv = LVal(("h", c.this), (("f", B, t), ("f", CT, "table_")))
        tv = c.en.read(st, lv)
        out += [(t + " entries are function results", entries_ok(tv, entry_pred(c.en, t, st))), (t + " is not empty", tv["len"] > 0)]
    return out


CT = "scram::core::CacheTable<scram::core::Bdd::Function>"


def inv(c, old):
    return inv_st(c.en, c.pre if old else c.post, c.this)


def inv_st(en, st, this):
    class c:
        pass
    c.en, c.this, c.pre, c.post = en, this, st, st
    f = F(c.en)
    one = c.en.heap_get(st, (B, "kOne_"), c.this)
    cap = c.en.heap_get(st, (B, "unique_table_"), c.this)["capacity_"]
    return [("the unique table has buckets", cap > 0), ("ids of vertices are below the counter", id_bound(c, st)),
            ("kOne is the terminal", z3.And(pub(one), f.id(one) == 1, one < st.alloc))] + tables_ok(c, True)


def mods(c):
    return [((B, x), c.this) for x in ("and_table_", "or_table_", "function_id_", "unique_table_")] + \
        [((W, "vertex_"), None), ((NT, "module_"), None), ((NT, "coherent_"), None)]


def res_ok(c, val):
    f = F(c.en)
    r = c.rval()
    return [("result is a published vertex", z3.And(pub(r["vertex"]), r["vertex"] < c.post.alloc)),
            ("result value", f.sem(r) == val)]


def apply_sel(nargs, targ):
    def sel(fd, k, P):
        if fd["q"] != B + "::Apply" or len(fd["p"]) != nargs:
            return False
        t = P.fdecl_tu[k].types[fd["p"][0]]
        if nargs == 5:
            return True
        ite = "Vertex" not in (t.elem.s if t.k == "lref" else t.s)
        if ite != (targ[0] == "ite"):
            return False
        return str(fd["a"][0].get("i")) == str(targ[1])
    return sel


def apply_contract(kind, op):
    def args(c):
        return c.arg(0), c.arg(1), c.arg(2), c.arg(3)

    def req(c):
        f = F(c.en)
        a, b, x, y = args(c)
        out = inv(c, True) + [("arguments are published", z3.And(pub(a), pub(b), a < c.pre.alloc, b < c.pre.alloc))]
        if kind == "ite":
            out.append(("arguments are not terminal", z3.And(f.id(a) >= 2, f.id(b) >= 2)))
        return out

    def ens(c):
        f = F(c.en)
        a, b, x, y = args(c)
        o = z3.And if op == 0 else z3.Or
        return inv(c, False) + res_ok(c, o(f.vsem(a, x), f.vsem(b, y)))
    return Contract("Bdd::Apply<%s>(%s)" % (("and", "or")[op], kind), apply_sel(4, (kind, op)), req, ens, mods, allocates=True)


def make(prog):
    def vreq(c, hi, lo, extra=()):
        return inv(c, True) + [("branches are published", z3.And(pub(hi), pub(lo), hi < c.pre.alloc, lo < c.pre.alloc))] + list(extra)

    def fav(idx_of, ord_of, hi, lo, ce):
        def ens(c):
            f = F(c.en)
            r = c.result()
            return inv(c, False) + [
                ("result is a published vertex", z3.And(pub(r), r < c.post.alloc, f.id(r) >= 2)),
                ("result has the index", f.index(r) == idx_of(c)),
                ("result branches by the variable", bsem(f.id(r)) == z3.If(
                    nval(idx_of(c)), bsem(f.id(c.arg(hi))), z3.Xor(c.arg(ce), bsem(f.id(c.arg(lo))))))]
        return ens

    def p0(fd, P, k):
        t = P.fdecl_tu[k].types[fd["p"][0]]
        return t.elem.s if t.k == "lref" else t.s

    f1 = Contract("Bdd::FindOrAddVertex(index)",
                  lambda fd, k, P: fd["q"] == B + "::FindOrAddVertex" and p0(fd, P, k) == "int",
                  lambda c: vreq(c, c.arg(1), c.arg(2), [("order belongs to the variable",
                                 z3.And(c.arg(0) > 0, c.arg(4) > 0, c.arg(4) == ordx(c.arg(0))))]),
                  fav(lambda c: c.arg(0), None, 1, 2, 3), mods, allocates=True)
    f2 = Contract("Bdd::FindOrAddVertex(ite)",
                  lambda fd, k, P: fd["q"] == B + "::FindOrAddVertex" and "Ite" in p0(fd, P, k),
                  lambda c: vreq(c, c.arg(1), c.arg(2), [("vertex is published", z3.And(pub(c.arg(0)), F(c.en).id(c.arg(0)) >= 2))]),
                  fav(lambda c: F(c.en).index(c.arg(0)), None, 1, 2, 3), mods, allocates=True, opts=dict(asserts="assume"))
    f3 = Contract("Bdd::FindOrAddVertex(gate)",
                  lambda fd, k, P: fd["q"] == B + "::FindOrAddVertex" and "Gate" in p0(fd, P, k),
                  lambda c: vreq(c, c.arg(1), c.arg(2), [("gate order", z3.And(
                      c.fld(c.arg(0), NODE, "index_", True) > 0, c.fld(c.arg(0), NODE, "order_", True) > 0,
                      c.fld(c.arg(0), NODE, "order_", True) == ordx(c.fld(c.arg(0), NODE, "index_", True))))]),
                  fav(lambda c: c.fld(c.arg(0), NODE, "index_", True), None, 1, 2, 3), mods, allocates=True, opts=dict(asserts="assume"))

    def fa_ens(c):
        f = F(c.en)
        v = c.rval()["vertex_"]
        glow = z3.If(f.ce(v), -f.id(f.low(v)), f.id(f.low(v)))
        return [("a live entry matches the key", z3.Implies(v != 0, z3.And(
            f.index(v) == c.arg(0), f.id(f.high(v)) == c.arg(1), glow == c.arg(2))))]

    uniq = Contract("UniqueTable::FindOrAdd", "scram::core::UniqueTable<scram::core::Ite>::FindOrAdd", lambda c: [("the table has buckets", cap(c, True) > 0)],
                    lambda c: fa_ens(c) + [("the table has buckets", cap(c, False) > 0)],
                    lambda c: [c._this.sub(("f", UT, x)) for x in ("size_", "table_", "capacity_")],
                    assumes=lambda c: [z3.Implies(c.rval()["vertex_"] != 0, z3.And(
                        pub(c.rval()["vertex_"]), c.rval()["vertex_"] < c.pre.alloc, F(c.en).id(c.rval()["vertex_"]) >= 2))])
    cap = lambda c, old: c.en.read(c.pre if old else c.post, c._this.sub(("f", UT, "capacity_")))
    rehash = Contract("UniqueTable::Rehash", "scram::core::UniqueTable<scram::core::Ite>::Rehash", lambda c: [("capacity is positive", c.arg(0) > 0)],
                      lambda c: [("capacity is positive", cap(c, False) > 0)],
                      lambda c: [c._this.sub(("f", UT, x)) for x in ("size_", "table_", "capacity_")],
                      trusted="moves the entries; no effect on vertices")
    weak = Contract("WeakIntrusivePtr::operator=", W + "::operator=", None, None,
                    lambda c: [c._this.sub(("f", W, "vertex_"))], result=lambda c: c._this,
                    trusted="stores the pointer in the table entry (placement new)")
    top = Contract("Bdd::Apply(type)", apply_sel(5, None),
                   lambda c: inv(c, True) + [("arguments are published", z3.And(pub(c.arg(1)), pub(c.arg(2)), c.arg(1) < c.pre.alloc, c.arg(2) < c.pre.alloc)),
                                             ("and/or connective", z3.Or(c.arg(0) == 0, c.arg(0) == 1))],
                   lambda c: inv(c, False) + res_ok(c, z3.If(c.arg(0) == 0, z3.And(F(c.en).vsem(c.arg(1), c.arg(3)), F(c.en).vsem(c.arg(2), c.arg(4))),
                                                             z3.Or(F(c.en).vsem(c.arg(1), c.arg(3)), F(c.en).vsem(c.arg(2), c.arg(4))))),
                   mods, allocates=True)
    cons = Contract("Bdd::CalculateConsensus", B + "::CalculateConsensus",
                    lambda c: inv(c, True) + [("vertex is published", z3.And(pub(c.arg(0)), c.arg(0) < c.pre.alloc, F(c.en).id(c.arg(0)) >= 2)),
                                              ("branches exist", z3.And(F(c.en).high(c.arg(0)) < c.pre.alloc, F(c.en).low(c.arg(0)) < c.pre.alloc))],
                    lambda c: inv(c, False) + res_ok(c, z3.And(
                        F(c.en).vsem(F(c.en).high(c.arg(0)), c.arg(1)),
                        z3.Xor(F(c.en).ce(c.arg(0)), F(c.en).vsem(F(c.en).low(c.arg(0)), c.arg(1))))),
                    mods, allocates=True)
    clr = Contract("Bdd::ClearTables", B + "::ClearTables", lambda c: [x for x in tables_ok(c, True) if "empty" in x[0]], lambda c: tables_ok(c, False),
                   lambda c: [((B, "and_table_"), c.this), ((B, "or_table_"), c.this)])
    prime = Contract("GetPrimeNumber", "scram::core::GetPrimeNumber", lambda c: [], lambda c: [], None,
                     trusted="returns some number (only the table capacity)", assumes=lambda c: [c.result() > 0])
    nextcap = Contract("UniqueTable::GetNextCapacity", "scram::core::UniqueTable<scram::core::Ite>::GetNextCapacity",
                       None, None, None, trusted="returns some positive capacity", assumes=lambda c: [c.result() > 0])
    return [f1, f2, f3, uniq, rehash, weak, top, cons, clr, prime, nextcap, convert_contract()] + cache_contracts(CT) + \
        [apply_contract(k, o) for k in ("vertex", "ite") for o in (0, 1)]


# ------------------------------------------------------------ conversion of the graph
G = "scram::core::Gate"
isgate = z3.Function("isgate", INT, BOOL)
isvar = z3.Function("isvar", INT, BOOL)
tcount = z3.Function("tcount", z3.ArraySort(INT, BOOL), INT)


def lval(k):
    return z3.If(k >= 0, nval(k), z3.Not(nval(-k)))


def node_inv(kind):
    def inv_(en, st, key, val, owner):
        """Arguments of a gate: kind, index, order."""
        k = leaves(key)[0]
        n = leaves(val)[0]
        ix = en.heap_get(st, (NODE, "index_"), n)
        o = en.heap_get(st, (NODE, "order_"), n)
        return z3.And(kind(n), n > 0, n < en.pre.alloc, ix == z3.If(k >= 0, k, -k), ix > 0, o > 0, o == ordx(ix))
    return inv_


def graph_ok(en, st):
    """Meaning of the gates of the (normalized) graph."""
    from lib import Lib
    g = z3.Const(fresh_name("g"), INT)
    ty = en.heap_get(st, (G, "type_"), g)
    ix = en.heap_get(st, (NODE, "index_"), g)
    dv = en.heap_get(st, (G, "variable_args_"), g)["dom"]
    dg = en.heap_get(st, (G, "gate_args_"), g)["dom"]
    n = en.lib.card(dv) + en.lib.card(dg)
    t = tcount(dv) + tcount(dg)
    return qall([g], z3.Implies(isgate(g), z3.And(
        n >= 1, z3.Or(ty == 0, ty == 1, n == 1), nval(ix) == z3.If(ty == 1, t > 0, t == n))), isgate(g))


def memo_ok(en, st, m):
    f = F(en)
    k = z3.Const(fresh_name("mk"), INT)
    v = tmap(lambda a: z3.Select(a, k), m["val"])["first"]
    return qall([k], z3.Implies(z3.Select(m["dom"], k), z3.And(pub(v["vertex"]), v["vertex"] < st.alloc, f.sem(v) == nval(k))),
                *([z3.Select(m["dom"], k)] + leaves(v)))


def published(vec, st):
    i = z3.Const(fresh_name("pi"), INT)
    x = tmap(lambda a: z3.Select(a, i), vec["at"])["vertex"]
    return qall([i], z3.Implies(z3.And(i >= 0, i < vec["len"]), z3.And(pub(x), x < st.alloc)), x)


def conv_loop(v):
    en, st = v.en, v.st
    this = v.fr.this.root[1]
    out = list(inv_st(en, st, this))
    args = [x for n, x, _ in v.locals(kind="vec") if isinstance(x["at"], Node) and "vertex" in x["at"].ch]
    if len(args) != 1:
        return out
    a = args[0]
    al, an = (en.lib.seq_m(n, a["at"], a["len"]) for n in ("all", "any"))
    out.append(("arguments are published", published(a, st)))
    ptrs = [p for k, p in st.mem.items() if isinstance(p, PtrTo)]
    for p in ptrs:
        m = en.read(st, p.lv)
        if isinstance(m, Node) and m.kind == "map":
            out.append(("memo entries are gate functions", memo_ok(en, st, m)))
    mods = en.heap_get(st, (B, "modules_"), this)
    out.append(("module functions are gate functions", modules_ok(en, st, mods)))
    if v.L["rng"] is not None and v.L["kind"] == "map":
        t, n = tcount(v.vis), en.lib.card(v.vis)
        lv = v.L["rng"]
        if lv.path[0][2] == "gate_args_":
            d = en.heap_get(st, (G, "variable_args_"), lv.root[1])["dom"]
            t, n = t + tcount(d), n + en.lib.card(d)
        out += [("conjunction of the arguments so far", al == (t == n)), ("disjunction of the arguments so far", an == (t > 0)),
                ("one function per argument", a["len"] == n)]
    else:
        its = [x for n, x, _ in v.locals(kind="iter") if "idx" in x.ch]
        fns = [x for n, x, _ in v.locals(kind="rec") if set(x.ch) == {"complement", "vertex"}]
        if len(its) == 1 and len(fns) >= 1:
            i = its[0]["idx"]
            f = F(en)
            pi, po = (en.lib.seq_m(n, a["at"], i) for n in ("all", "any"))
            gate = [x for k, x in st.mem.items() if k[0] == "r" and isinstance(x, LVal) and x.root[0] == "h" and x.ty is not None and x.ty.s.endswith("Gate")]
            out.append(("position", z3.And(i >= 1, i <= a["len"])))
            for n, r in enumerate(fns):
                out.append(("partial result %d is published" % n, z3.And(pub(r["vertex"]), r["vertex"] < st.alloc)))
                for m, g in enumerate(gate):
                    ty = en.heap_get(st, (G, "type_"), g.root[1])
                    out.append(("partial result %d/%d" % (n, m), f.sem(r) == z3.If(ty == 1, po, pi)))
                    out.append(("single argument %d/%d" % (n, m), z3.Implies(i == 1, f.sem(r) == pi)))
    return out


def modules_ok(en, st, m):
    return memo_like(en, st, m)


def memo_like(en, st, m):
    f = F(en)
    k = z3.Const(fresh_name("mk"), INT)
    v = tmap(lambda a: z3.Select(a, k), m["val"])
    return qall([k], z3.Implies(z3.Select(m["dom"], k), z3.And(pub(v["vertex"]), v["vertex"] < st.alloc, f.sem(v) == nval(k))),
                *([z3.Select(m["dom"], k)] + leaves(v)))


def convert_contract():
    def node_facts(c):
        g = c.arg(0)
        ix, o = c.fld(g, NODE, "index_", True), c.fld(g, NODE, "order_", True)
        return z3.And(isgate(g), ix > 0)

    def req(c):
        st = c.pre
        return inv(c, True) + [("gate of the graph", node_facts(c)), ("meaning of gates", graph_ok(c.en, st)),
                               ("memo entries are gate functions", memo_ok(c.en, st, c.ptr_arg(1))),
                               ("module functions are gate functions", modules_ok(c.en, st, c.fld(c.this, B, "modules_", True)))]

    def ens(c):
        g = c.arg(0)
        return inv(c, False) + res_ok(c, nval(c.fld(g, NODE, "index_", True))) + [
            ("memo entries are gate functions", memo_ok(c.en, c.post, c.ptr_arg(1, True))),
            ("module functions are gate functions", modules_ok(c.en, c.post, c.fld(c.this, B, "modules_", False)))]

    def mod(c):
        p = c._args[1]
        if isinstance(p, LVal):
            p = c.en.read(c.pre, p)
        lv = c.en.deref(c.pre, p, c.ptys[1].elem)
        return mods(c) + [lv, ((B, "modules_"), c.this), ((B, "index_to_order_"), c.this)]
    return Contract("Bdd::ConvertGraph", B + "::ConvertGraph", req, ens, mod, allocates=True, loops=[conv_loop],
                    opts=dict(asserts="assume"))


UT = "scram::core::UniqueTable<scram::core::Ite>"

SPEC = dict(id="C01", tus=["bdd.cc"], contracts=make, axioms=axioms,
            opts=dict(immutable=[(V, "id_"), (NT, "high_"), (NT, "low_"), (NT, "index_"), (NT, "order_"), (I, "complement_edge_")],
                      on_new={I: on_new_ite}, merge=True,
                      elem_inv={(G, "variable_args_"): node_inv(isvar), (G, "gate_args_"): node_inv(isgate)},
                      measures={"Int": [(tcount, lambda k: z3.If(lval(k), 1, 0))]},
                      seq=[("all", "and", lambda at: isinstance(at, Node) and set(at.ch) == {"complement", "vertex"}, lambda x: fsem(x)),
                           ("any", "or", lambda at: isinstance(at, Node) and set(at.ch) == {"complement", "vertex"}, lambda x: fsem(x))]),
            loops=[])
