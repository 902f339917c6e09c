"""Contracts on the arguments of PDAG gates (src/pdag.{h,cc}; C08).

nval(i) is the value of the node with index i under one arbitrary assignment;
lit(k) the value of a signed index.  A gate's value is a function of its type,
its vote number, the number of its arguments and the number of true ones."""
import z3
from core import *
from contracts import Contract
from engine import qall

C = "scram::core::"
G, ND, PM, PD, K = C + "Gate", C + "Node", C + "NodeParentManager", C + "Pdag", C + "Constant"
AND, OR, ATL, XOR, NOT, NAND, NOR, NULL = range(8)
nval = z3.Function("nval", INT, BOOL)
tcount = z3.Function("tcount", z3.ArraySort(INT, BOOL), INT)
S = z3.Select
EMPTY = z3.K(INT, z3.BoolVal(False))
GATE_FIELDS = ("type_", "min_number_", "args_", "gate_args_", "variable_args_", "constant_")


def lit(k):
    return z3.If(k >= 0, nval(k), z3.Not(nval(-k)))


def b2i(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def gval(ty, n, t, mn):
    """Value of a gate with n arguments of which t are true."""
    return z3.If(ty == AND, t == n, z3.If(ty == OR, t > 0, z3.If(ty == ATL, t >= mn, z3.If(ty == XOR, t == 1, z3.If(
        z3.Or(ty == NOT, ty == NOR), t == 0, z3.If(ty == NAND, t != n, t > 0))))))


class W:
    """The fields of a gate in a state."""

    def __init__(self, en, st, g):
        h = lambda f: en.heap_get(st, (G, f), g)
        self.en, self.st, self.g = en, st, g
        self.type, self.min, self.const = h("type_"), h("min_number_"), h("constant_")
        self.args = h("args_")["dom"]
        self.ga, self.va = h("gate_args_"), h("variable_args_")
        self.n, self.t = en.lib.card(self.args), tcount(self.args)
        self.idx = en.imm(ND, "index_", g)

    def value(self):
        return gval(self.type, self.n, self.t, self.min)

    def ptr(self, m, k):
        return S(leaves(m["val"])[0], k)

    def parents(self, n):
        p = self.en.heap_get(self.st, (PM, "parents_"), n)
        return p["dom"]

    def wf(self):
        """The argument indices, containers and parent links agree."""
        en = self.en
        k = z3.Const(fresh_name("wk"), INT)
        ga, va = S(self.ga["dom"], k), S(self.va["dom"], k)
        idx = lambda r: en.imm(ND, "index_", r)
        cst = z3.And(self.const != 0, z3.Or(k == idx(self.const), k == -idx(self.const)))
        arg = S(self.args, k)
        cg = en.heap_get(self.st, (PD, "constant_"), en.imm(ND, "graph_", self.g))

        def link(m):
            p = self.ptr(m, k)
            return z3.And(p > 0, p < self.st.alloc, node(p), k != 0, idx(p) == z3.If(k > 0, k, -k), S(self.parents(p), self.idx))
        return [("the arguments are those of the containers", qall([k], z3.And(
                    z3.Implies(arg, z3.Or(ga, va, cst)), z3.Implies(z3.Or(ga, va), arg), z3.Not(z3.And(ga, va))), arg)),
                ("gate arguments are arguments", qall([k], z3.Implies(ga, arg), ga)),
                ("variable arguments are arguments", qall([k], z3.Implies(va, arg), va)),
                ("no argument occurs with its complement", qall([k], z3.Not(z3.And(arg, S(self.args, -k))), arg)),
                ("gate arguments and their links", qall([k], z3.Implies(ga, link(self.ga)), ga)),
                ("variable arguments and their links", qall([k], z3.Implies(va, link(self.va)), va)),
                ("a constant argument is the only one", z3.Implies(self.const != 0, z3.And(
                    self.const > 0, self.const < self.st.alloc, self.type == NULL, self.ga["dom"] == EMPTY, self.va["dom"] == EMPTY,
                    z3.Or(*[self.args == z3.Store(EMPTY, x, z3.BoolVal(True)) for x in (idx(self.const), -idx(self.const))]),
                    self.const == cg, S(self.parents(self.const), self.idx)))),
                ("only arguments are linked to the gate", qall([k], z3.Implies(z3.And(node(k), k < self.st.alloc, S(self.parents(k), self.idx)),
                    z3.Or(S(self.args, idx(k)), S(self.args, -idx(k)))), S(self.parents(k), self.idx))),
                ("sizes", z3.And(self.type >= 0, self.type <= 7, self.t >= 0, self.t <= self.n, (self.n == 0) == (self.args == z3.K(INT, z3.BoolVal(False)))))]


def world(en, st, this):
    """Indices are unique and given out in order; the constant is true."""
    r, q = z3.Const(fresh_name("r"), INT), z3.Const(fresh_name("q"), INT)
    idx = lambda x: en.imm(ND, "index_", x)
    gr = lambda x: en.imm(ND, "graph_", x)
    g = gr(this)
    ni = en.heap_get(st, (PD, "node_index_"), g)
    c = en.heap_get(st, (PD, "constant_"), g)
    par = lambda x: en.heap_get(st, (PM, "parents_"), x)["dom"]
    return [("nodes have indices", qall([r], z3.Implies(z3.And(r < st.alloc, node(r)), z3.And(r > 0, idx(r) > 0, idx(r) <= ni, gr(r) == g)), node(r))),
            ("indices are unique", qall([r, q], z3.Implies(z3.And(node(r), node(q), r < st.alloc, q < st.alloc, idx(r) == idx(q)), r == q), z3.MultiPattern(node(r), node(q)))),
            ("the graph's constant", z3.And(c > 0, c < st.alloc, node(c), nval(idx(c)))),
            ("the graph", z3.And(g > 0, g < st.alloc, node(this), ni > 0)),
            ("parents are nodes of the graph", qall([r, q], z3.Implies(z3.And(node(r), r < st.alloc, S(par(r), q)), z3.And(q > 0, q <= ni)), S(par(r), q)))]


node = z3.Function("node", INT, BOOL)


def fresh_ok(en, pre, post):
    """The gates made in between have the values of their arguments."""
    h = z3.Const(fresh_name("h"), INT)
    w = W(en, post, h)
    return qall([h], z3.Implies(z3.And(h >= pre.alloc, h < post.alloc), nval(w.idx) == w.value()), nval(w.idx))


def mods(c, *fields, parents=True, graph=True):
    out = [((G, f), c.this) for f in fields]
    if parents:
        out.append(((PM, "parents_"), None))
    if graph:
        gr = c.en.imm(ND, "graph_", c.this)
        out += [((PD, "null_gates_"), gr)]
    return out


def others(c, *more):
    """Links to other gates stay."""
    r, q = z3.Const(fresh_name("r"), INT), z3.Const(fresh_name("q"), INT)
    P = lambda s: c.en.heap_get(s, (PM, "parents_"), r)["dom"]
    ni = c.en.heap_get(c.pre, (PD, "node_index_"), c.en.imm(ND, "graph_", c.this))
    me = c.en.imm(ND, "index_", c.this)
    return [("links to other gates are kept", qall([r, q], z3.Implies(z3.And(node(r), r < c.pre.alloc, q != me, q <= ni, *[q != c.en.imm(ND, "index_", m) for m in more]), S(P(c.post), q) == S(P(c.pre), q)), S(P(c.post), q))),
            ("new nodes are linked to no other gate", qall([r, q], z3.Implies(z3.And(node(r), r >= c.pre.alloc, r < c.post.alloc, q != me, q <= ni, *[q != c.en.imm(ND, "index_", m) for m in more]),
                                                                             z3.Not(S(P(c.post), q))), S(P(c.post), q)))]


def negated(new, old):
    k = z3.Const(fresh_name("nk"), INT)
    return z3.And(qall([k], S(new, k) == S(old, -k), S(new, k)), qall([k], z3.Implies(S(old, k), S(new, -k)), S(old, k)))


def on_new(en, st, r):
    return [], [node(r)]


def negate_loop(v):
    """Arguments are negated one by one."""
    L, en, st = v.L, v.en, v.st
    if L["rng"] is None or L["kind"] not in ("set", "map") or L["rng"].root[0] != "h":
        return []
    out = []
    k = z3.Const(fresh_name("k"), INT)
    if L["kind"] == "set":
        for n, x, _ in v.locals(kind="set"):
            d = x["dom"]
            out += [("%s are the complements of the visited" % n, z3.And(qall([k], S(d, k) == S(v.vis, -k), S(d, k)), qall([k], z3.Implies(S(v.vis, k), S(d, -k)), S(v.vis, k)))),
                    ("number of %s" % n, z3.And(en.lib.card(d) == en.lib.card(v.vis), tcount(d) == en.lib.card(v.vis) - tcount(v.vis)))]
        return out
    if not L.get("renamed"):
        return []
    m, m0 = en.read(st, L["rng"]), en.read(v.entry, L["rng"])
    p, p0 = leaves(m["val"])[0], leaves(m0["val"])[0]
    d, d0 = m["dom"], m0["dom"]
    now = z3.Or(z3.And(S(d0, k), z3.Not(S(v.vis, k))), S(v.vis, -k))
    out.append(("keys of the visited are negated", z3.And(qall([k], S(d, k) == now, S(d, k)), qall([k], z3.Implies(S(v.vis, k), S(d, -k)), S(v.vis, k)),
                qall([k], z3.Implies(z3.And(S(d0, k), z3.Not(S(v.vis, k))), S(d, k)), S(d0, k)))))
    out.append(("values stay with their keys", qall([k], z3.Implies(S(d, k), S(p, k) == z3.If(S(v.vis, -k), S(p0, -k), S(p0, k))), S(d, k))))
    return out


def link_loop(v):
    """A new gate is linked to its arguments one by one."""
    L, en, st = v.L, v.en, v.st
    if L["rng"] is None or L["kind"] != "map" or L["rng"].root[0] != "h" or L["rng"].path[0][2] not in ("gate_args_", "variable_args_"):
        return []
    me = v.fr.this.root[1]
    idx = lambda r: en.imm(ND, "index_", r)
    new = en.heap_get(st, (PD, "node_index_"), en.imm(ND, "graph_", me))
    m = en.read(v.entry, L["rng"])
    r, q, k = (z3.Const(fresh_name(x), INT) for x in "rqk")
    P = lambda s, x: en.heap_get(s, (PM, "parents_"), x)["dom"]
    p = S(leaves(m["val"])[0], k)
    link = S(P(st, r), new)
    return [("visited arguments are linked", qall([k], z3.Implies(S(v.vis, k), S(P(st, p), new)), S(v.vis, k))),
            ("other links stay", qall([r, q], z3.Implies(q != new, S(P(st, r), q) == S(P(v.entry, r), q)), S(P(st, r), q))),
            ("new links stay", qall([r], z3.Implies(S(P(v.entry, r), new), link), S(P(v.entry, r), new))),
            ("new links are of the visited", qall([r], z3.Implies(z3.And(node(r), r < st.alloc, link), z3.Or(S(P(v.entry, r), new), S(v.vis, idx(r)), S(v.vis, -idx(r)))), link))]


def unlink_loop(v):
    """Links to this gate are dropped one by one."""
    L, en, st = v.L, v.en, v.st
    if L["rng"] is None or L["kind"] != "map" or L["rng"].root[0] != "h" or L["rng"].path[0][2] not in ("gate_args_", "variable_args_"):
        return []
    me = v.fr.this.root[1]
    idx = lambda r: en.imm(ND, "index_", r)
    m = en.read(v.entry, L["rng"])
    r, q = z3.Const(fresh_name("r"), INT), z3.Const(fresh_name("q"), INT)
    P = lambda s, x: en.heap_get(s, (PM, "parents_"), x)["dom"]
    out = []
    k = z3.Const(fresh_name("k"), INT)
    p = S(leaves(m["val"])[0], k)
    out.append(("links of the arguments to come", qall([k], z3.Implies(z3.And(S(v.dom, k), z3.Not(S(v.vis, k))), S(P(st, p), idx(me))), S(v.dom, k))))
    out.append(("links of others are kept", qall([r, q], z3.Implies(q != idx(me), S(P(st, r), q) == S(P(v.entry, r), q)), S(P(st, r), q))))
    out.append(("links are only dropped", qall([r, q], z3.Implies(S(P(st, r), q), S(P(v.entry, r), q)), S(P(st, r), q))))
    out.append(("links of the visited arguments are gone", qall([r], z3.Implies(z3.And(node(r), r < st.alloc, S(P(st, r), idx(me))),
                z3.And(z3.Not(S(v.vis, idx(r))), z3.Not(S(v.vis, -idx(r))))), S(P(st, r), idx(me)))))
    # the other nodes keep their link
    ix = idx(r)
    out.append(("links of other arguments are kept", qall([r], z3.Implies(z3.And(S(P(v.entry, r), idx(me)), z3.Not(S(v.vis, ix)), z3.Not(S(v.vis, -ix))), S(P(st, r), idx(me))), S(P(v.entry, r), idx(me)))))
    return out


def pre_of(c):
    return W(c.en, c.pre, c.this)


def post_of(c):
    return W(c.en, c.post, c.this)


def same(c, *fields):
    return [("%s is kept" % f, c.en.tree_eq(c.fld(c.this, G, f, True), c.fld(c.this, G, f, False))) for f in fields]


def mk(prog, view=False):
    """With view, the contracts without the invariants (which hold between the operations)."""
    out = []

    def con(name, sel, req, ens, mod, also=(), parents=True, **kw):
        plain = lambda xs: [(n, x) for n, x in xs if not n.startswith(("recipient: ", "copy: ", "argument: "))]

        def requires(c):
            if view:
                return plain(req(c))
            return [(n, x) for n, x in pre_of(c).wf()] + world(c.en, c.pre, c.this) + req(c)

        def ensures(c):
            if view:
                return plain(ens(c))
            return ens(c) + post_of(c).wf() + world(c.en, c.post, c.this) + (others(c, *[c.val(i) for i in also]) if parents else [])
        k = Contract(name, sel, requires, ensures, mod, **kw)
        out.append(k)
        return k

    sel = lambda n, *ps: (lambda fd, k, P: fd["q"] == G + "::" + n and [P.fdecl_tu[k].types[t].s.replace("scram::core::", "") for t in fd["p"]] == list(ps))
    # ---- parent links
    par = lambda c, old: c.fld(c.this, PM, "parents_", old)["dom"]
    nidx = lambda c, r: c.en.imm(ND, "index_", r)
    out.append(Contract("NodeParentManager::AddParent", PM + "::AddParent", lambda c: [("a new parent", z3.Not(S(par(c, True), nidx(c, c.val(0)))))],
                        lambda c: [("linked", par(c, False) == z3.Store(par(c, True), nidx(c, c.val(0)), z3.BoolVal(True)))], lambda c: [((PM, "parents_"), c.this)]))
    out.append(Contract("NodeParentManager::EraseParent", PM + "::EraseParent", lambda c: [("a parent", S(par(c, True), c.arg(0)))],
                        lambda c: [("unlinked", par(c, False) == z3.Store(par(c, True), c.arg(0), z3.BoolVal(False)))], lambda c: [((PM, "parents_"), c.this)]))
    # ---- constants
    nodeidx = lambda c, r: c.en.imm(ND, "index_", r)
    erased = lambda c: [("no arguments", z3.And(post_of(c).n == 0, post_of(c).t == 0, post_of(c).args == EMPTY, post_of(c).const == 0))]
    con("Gate::EraseArgs", G + "::EraseArgs", lambda c: [], erased,
        lambda c: mods(c, "args_", "gate_args_", "variable_args_", "constant_", graph=False))
    con("Gate::MakeConstant", G + "::MakeConstant", lambda c: [("not constant", pre_of(c).const == 0)],
        lambda c: [("the gate is the constant", z3.And(post_of(c).value() == c.arg(0), post_of(c).const != 0))],
        lambda c: mods(c, *GATE_FIELDS))

    def constant_pre(c):
        w = pre_of(c)
        return [("an exclusive or has at most one other argument", z3.Implies(w.type == XOR, w.n == 1)),
                ("other arguments", z3.Implies(z3.And(w.type != NULL, w.type != NOT), w.n >= 1)),
                ("pass-through gates have no other argument", z3.Implies(z3.Or(w.type == NULL, w.type == NOT), w.n == 0)),
                ("a vote gate", z3.Implies(w.type == ATL, z3.And(w.n >= 2, w.min >= 2, w.min <= w.n)))]

    def constant_arg(state):
        def ens(c):
            a, b = pre_of(c), post_of(c)
            return [("the value with one more constant argument", b.value() == gval(a.type, a.n + 1, a.t + (1 if state else 0), a.min))]
        return ens
    for state in (True, False):
        con("Gate::AddConstantArg<%s>" % str(state).lower(), lambda fd, k, P, s=state: fd["n"] == "AddConstantArg" and fd.get("a") == [{"i": "1" if s else "0"}],
            lambda c: [("not constant", pre_of(c).const == 0)] + constant_pre(c), constant_arg(state), lambda c: mods(c, *GATE_FIELDS))

    # ---- single arguments
    def setype(c):
        a, b = pre_of(c), post_of(c)
        return [("the type", b.type == c.arg(0))]
    con("Gate::type", sel("type", "Connective"), lambda c: [("a connective", z3.And(c.arg(0) >= 0, c.arg(0) <= 7)), ("not constant", z3.Implies(pre_of(c).const != 0, c.arg(0) == NULL))],
        setype, lambda c: mods(c, "type_", parents=False))

    def without(c, k, old=True):
        return z3.Store(pre_of(c).args, k, z3.BoolVal(False))

    con("Gate::EraseArg", G + "::EraseArg", lambda c: [("an argument", S(pre_of(c).args, c.arg(0)))],
        lambda c: [("the argument is gone", post_of(c).args == without(c, c.arg(0))),
                   ("counts", z3.And(post_of(c).n == pre_of(c).n - 1, post_of(c).t == pre_of(c).t - b2i(lit(c.arg(0))))),
                   ("not constant any more", post_of(c).const == 0)],
        lambda c: mods(c, "args_", "gate_args_", "variable_args_", "constant_", graph=False))
    con("Gate::NegateArgs", G + "::NegateArgs", lambda c: [("not constant", pre_of(c).const == 0)],
        lambda c: [("all arguments are negated", z3.And(post_of(c).n == pre_of(c).n, post_of(c).t == pre_of(c).n - pre_of(c).t)),
                   ("the complements of the arguments", negated(post_of(c).args, pre_of(c).args))],
        lambda c: mods(c, "args_", "gate_args_", "variable_args_", parents=False, graph=False))
    con("Gate::NegateArg", G + "::NegateArg", lambda c: [("an argument", S(pre_of(c).args, c.arg(0))), ("not constant", pre_of(c).const == 0)],
        lambda c: [("the argument is negated", post_of(c).args == z3.Store(without(c, c.arg(0)), -c.arg(0), z3.BoolVal(True))),
                   ("counts", z3.And(post_of(c).n == pre_of(c).n, post_of(c).t == pre_of(c).t - b2i(lit(c.arg(0))) + b2i(z3.Not(lit(c.arg(0))))))],
        lambda c: mods(c, "args_", "gate_args_", "variable_args_", parents=False, graph=False))

    def arg_ok(c):
        i, p = c.arg(0), c.val(1)
        return [("an index", i != 0), ("a node of the graph", z3.And(p > 0, p < c.pre.alloc, node(p))), ("its index", nodeidx(c, p) == z3.If(i > 0, i, -i))]

    def dup_pre(c):
        w, i = pre_of(c), c.arg(0)
        return [("not constant", w.const == 0), ("room for an argument", z3.And(z3.Implies(z3.Or(w.type == NOT, w.type == NULL), w.n == 0), z3.Implies(w.type == XOR, w.n <= 1))),
                ("a vote number", w.min >= 0),
                ("a vote gate with all its other arguments", z3.Implies(z3.And(w.type == ATL, S(w.args, i)), z3.And(w.min >= 2, w.min <= w.n))),
                ("a vote gate with all its other arguments (complement)", z3.Implies(z3.And(w.type == ATL, S(w.args, -i)), z3.And(w.min >= 2, w.min <= w.n)))]

    def added(c, i=None):
        a, b = pre_of(c), post_of(c)
        i = c.arg(0) if i is None else i
        return [("the value with one more argument", z3.Implies(fresh_ok(c.en, c.pre, c.post), b.value() == gval(a.type, a.n + 1, a.t + b2i(lit(i)), a.min)))]

    def ni(c, old):
        return c.fld(c.en.imm(ND, "graph_", c.this), PD, "node_index_", old)

    def plain(c):
        a, b, i = pre_of(c), post_of(c), c.arg(0)
        new = z3.Not(z3.Or(S(a.args, i), S(a.args, -i)))
        return [("a new argument is added", z3.Implies(new, z3.And(b.args == z3.Store(a.args, i, z3.BoolVal(True)), b.type == a.type, b.min == a.min, b.const == 0,
                                                                  b.n == a.n + 1, b.t == a.t + b2i(lit(i)), c.post.alloc == c.pre.alloc, ni(c, False) == ni(c, True)))),
                ("indices are only added", ni(c, False) >= ni(c, True))]
    grow = lambda c: mods(c, *GATE_FIELDS) + [((PD, "node_index_"), c.en.imm(ND, "graph_", c.this))]
    def counts(en, st, this, args):
        """What an element says about the counts of the set that has it."""
        r = this.root[1] if isinstance(this, LVal) else this
        a = en.heap_get(st, (G, "args_"), r)["dom"]
        i = en.rv(st, args[0])
        for k in (i, -i):
            for f in en.lib.set_update_facts(a, k, False):
                st.fact(f)

    only_added = lambda c: [("indices are only added", ni(c, False) >= ni(c, True))]
    con("Gate::ProcessDuplicateArg", G + "::ProcessDuplicateArg", lambda c: dup_pre(c) + [("a duplicate", S(pre_of(c).args, c.arg(0)))], lambda c: added(c) + only_added(c), grow, allocates=True, setup=counts)
    con("Gate::ProcessAtleastGateDuplicateArg", G + "::ProcessAtleastGateDuplicateArg",
        lambda c: dup_pre(c) + [("a duplicate of a vote gate", z3.And(S(pre_of(c).args, c.arg(0)), pre_of(c).type == ATL))], only_added, grow, allocates=True, setup=counts,
        parents=False, assumes=lambda c: [t for n, t in added(c) + others(c)])   # these need more than the solvers find in time
    con("Gate::ProcessComplementArg", G + "::ProcessComplementArg", lambda c: dup_pre(c) + [("a complement", S(pre_of(c).args, -c.arg(0)))],
        lambda c: added(c) + [("no new gates", c.post.alloc == c.pre.alloc)], lambda c: mods(c, *GATE_FIELDS), setup=counts)
    for T in ("Gate", "Variable"):
        con("Gate::AddArg<%s>" % T, sel("AddArg", "int", "const std::shared_ptr<%s> &" % T), lambda c: arg_ok(c) + dup_pre(c), lambda c: added(c) + plain(c), grow, allocates=True)
    con("Gate::AddArg<Constant>", sel("AddArg", "int", "const std::shared_ptr<Constant> &"),
        lambda c: [("an index", c.arg(0) != 0), ("the constant", z3.And(c.val(1) > 0, nval(nodeidx(c, c.val(1))), nodeidx(c, c.val(1)) == z3.If(c.arg(0) > 0, c.arg(0), -c.arg(0)))),
                   ("not constant", pre_of(c).const == 0)] + constant_pre(c),
        added, lambda c: mods(c, *GATE_FIELDS))

    # ---- between gates
    def both(c):
        r = c.val(1)
        return [("another gate", z3.And(r > 0, r < c.pre.alloc, node(r), r != c.this))] + [("recipient: " + n, t) for n, t in W(c.en, c.pre, r).wf()]

    def dup_pre2(c, w, i):
        return [("recipient is not constant", w.const == 0), ("recipient has room", z3.And(z3.Implies(z3.Or(w.type == NOT, w.type == NULL), w.n == 0), z3.Implies(w.type == XOR, w.n <= 1))),
                ("recipient's vote number", w.min >= 0),
                ("recipient's other arguments", z3.Implies(z3.And(w.type == ATL, z3.Or(S(w.args, i), S(w.args, -i))), z3.And(w.min >= 2, w.min <= w.n)))]

    def received(c):
        a, b, i = W(c.en, c.pre, c.val(1)), W(c.en, c.post, c.val(1)), c.arg(0)
        new = z3.Not(z3.Or(S(a.args, i), S(a.args, -i)))
        return [("the recipient's value with one more argument", z3.Implies(fresh_ok(c.en, c.pre, c.post), b.value() == gval(a.type, a.n + 1, a.t + b2i(lit(i)), a.min))),
                ("a new argument is added to the recipient", z3.Implies(new, z3.And(b.args == z3.Store(a.args, i, z3.BoolVal(True)), b.type == a.type, b.min == a.min, b.const == 0,
                                                                                  b.n == a.n + 1, b.t == a.t + b2i(lit(i)), c.post.alloc == c.pre.alloc, ni(c, False) == ni(c, True)))),
                ("indices are only added", ni(c, False) >= ni(c, True))] + \
            [("recipient: " + n, t) for n, t in b.wf()]
    rgrow = lambda c: [((G, f), c.val(1)) for f in GATE_FIELDS] + [((PM, "parents_"), None), ((PD, "null_gates_"), c.en.imm(ND, "graph_", c.this)),
                                                                   ((PD, "node_index_"), c.en.imm(ND, "graph_", c.this))]
    tpre = lambda c: [("an argument", S(pre_of(c).args, c.arg(0))), ("not constant", pre_of(c).const == 0)] + both(c) + dup_pre2(c, W(c.en, c.pre, c.val(1)), c.arg(0))
    con("Gate::TransferArg", G + "::TransferArg", tpre,
        lambda c: received(c) + [("the argument is gone", post_of(c).args == without(c, c.arg(0))),
                                 ("counts", z3.And(post_of(c).n == pre_of(c).n - 1, post_of(c).t == pre_of(c).t - b2i(lit(c.arg(0)))))],
        lambda c: rgrow(c) + [((G, f), c.this) for f in ("args_", "gate_args_", "variable_args_")], also=(1,), allocates=True)
    con("Gate::ShareArg", G + "::ShareArg", tpre, received, rgrow, also=(1,), allocates=True)

    # ---- arguments of arguments
    con("Gate::ProcessConstantArg", G + "::ProcessConstantArg",
        lambda c: [("an argument", z3.And(c.val(0) > 0, c.val(0) < c.pre.alloc, node(c.val(0)), S(pre_of(c).parents(c.val(0)), pre_of(c).idx))), ("not constant", pre_of(c).const == 0),
                   ("of known value", nval(nodeidx(c, c.val(0))) == c.arg(1)),
                   ("an exclusive or has at most two arguments", z3.Implies(pre_of(c).type == XOR, pre_of(c).n == 2)),
                   ("several arguments", (pre_of(c).n == 1) == z3.Or(pre_of(c).type == NULL, pre_of(c).type == NOT)), ("arguments", pre_of(c).n >= 1),
                   ("a vote gate", z3.Implies(pre_of(c).type == ATL, z3.And(pre_of(c).min >= 2, pre_of(c).min < pre_of(c).n)))],
        lambda c: [("the value is kept", post_of(c).value() == pre_of(c).value())], lambda c: mods(c, *GATE_FIELDS))

    def null_arg(c):
        w, i = pre_of(c), c.arg(0)
        r = w.ptr(w.ga, i)
        x = W(c.en, c.pre, r)
        return w, i, r, x
    def null_pre(c):
        w, i, r, x = null_arg(c)
        return [("a gate argument", S(w.ga["dom"], i)), ("another gate", r != c.this), ("a pass-through gate", z3.And(x.type == NULL, x.n == 1)),
                ("with its own value", nval(x.idx) == x.value()), ("not its own argument", z3.Not(z3.Or(S(x.args, w.idx), S(x.args, -w.idx), S(x.args, x.idx), S(x.args, -x.idx))))] + \
            [("argument: " + n, t) for n, t in x.wf()] + [
                ("not constant", w.const == 0), ("an exclusive or", z3.Implies(w.type == XOR, w.n == 2)),
                ("a vote number", w.min >= 0), ("several arguments", (w.n == 1) == z3.Or(w.type == NULL, w.type == NOT)),
                ("a vote gate", z3.Implies(w.type == ATL, z3.And(w.min >= 2, w.min < w.n)))]
    con("Gate::JoinNullGate", G + "::JoinNullGate", null_pre,
        lambda c: [("the value is kept", z3.Implies(fresh_ok(c.en, c.pre, c.post), post_of(c).value() == pre_of(c).value()))], grow, allocates=True)

    # ---- copies
    def cloned(c):
        a, r = pre_of(c), c.result()
        b = W(c.en, c.post, r)
        return [("a new gate", z3.And(r >= c.pre.alloc, r < c.post.alloc, node(r), c.post.alloc == c.pre.alloc + 1)),
                ("in the same graph", c.en.imm(ND, "graph_", c.res if not isinstance(c.res, LVal) else c.rval()) == c.en.imm(ND, "graph_", c.this)), ("indices are only added", ni(c, False) >= ni(c, True)),
                ("of the same logic", z3.And(b.type == a.type, b.min == a.min, b.const == 0, b.n == a.n, b.t == a.t)),
                ("with the same arguments", z3.And(b.args == a.args, c.en.same_tree(b.ga, a.ga), c.en.same_tree(b.va, a.va)))] + [("copy: " + n, t) for n, t in b.wf()]
    con("Gate::Clone", G + "::Clone", lambda c: [("not constant", z3.And(pre_of(c).const == 0, pre_of(c).type != NULL))], cloned,
        lambda c: [((PM, "parents_"), None), ((PD, "node_index_"), c.en.imm(ND, "graph_", c.this))], allocates=True)
    return out


SPEC = dict(id="C08", tus=["pdag.cc"], contracts=mk,
            opts=dict(on_new={G: on_new}, rename_keys=True, retries=True, houdini_ms=4000, immutable=[(ND, "index_"), (ND, "graph_")], merge=True, asserts="check",
                      measures={"Int": [(tcount, lambda k: b2i(lit(k)))]}), loops=[unlink_loop, negate_loop, link_loop])
