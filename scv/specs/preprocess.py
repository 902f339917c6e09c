"""Contracts on the preprocessing of PDAGs (src/preprocessor.cc; C10).

The contracts of C08 on the arguments of gates are used without the invariants
of gates and graphs, which every operation on arguments keeps (C08)."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs import gate as g8
from specs.gate import C, G, ND, PM, PD, AND, OR, ATL, XOR, NOT, NAND, NOR, NULL, GATE_FIELDS, nval, lit, b2i, gval, tcount, S, W, node, fresh_ok

PP = C + "Preprocessor"
IMPORT = "discharged by the check of C08, with the invariants of gates and graphs"
rank = z3.Function("rank", INT, INT)


def graph(c):
    return c.fld(c.this, PP, "graph_", True)


def gate_of(c, old=True):
    return W(c.en, c.pre if old else c.post, c.val(0))


def shape(w):
    """The rules of the connectives."""
    return z3.And(w.const == 0, w.n >= 1, w.type >= 0, w.type <= 7, z3.Implies(w.type == XOR, w.n == 2), z3.Implies(w.type == ATL, z3.And(w.min >= 2, w.min < w.n)),
                  z3.Implies(z3.Or(w.type == NOT, w.type == NULL), w.n == 1), z3.Implies(z3.Or(w.type == AND, w.type == OR, w.type == NAND, w.type == NOR), w.n >= 2))


def args_ok(en, st, gr, w):
    """Arguments have indices of the graph and no argument occurs with its complement."""
    k = z3.Const(fresh_name("ak"), INT)
    ni = en.heap_get(st, (PD, "node_index_"), gr)
    return qall([k], z3.Implies(S(w.args, k), z3.And(k != 0, k <= ni, -k <= ni, z3.Not(S(w.args, -k)))), S(w.args, k))


def base(c):
    g, gr = c.val(0), graph(c)
    return [("a gate of the graph", z3.And(g > 0, g < c.pre.alloc, node(g), c.en.imm(ND, "graph_", g) == gr, gr > 0, gr < c.pre.alloc)),
            ("indices are given out in order", c.fld(gr, PD, "node_index_", True) > 0), ("a vote number", gate_of(c).min >= 0)]


def mods(c):
    gr = graph(c)
    return [((G, f), c.val(0)) for f in GATE_FIELDS] + [((PM, "parents_"), None), ((PD, "node_index_"), gr), ((PD, "null_gates_"), gr)]


def new_gates(c):
    """New gates are marked conjunctions, disjunctions (or not gates)."""
    h = z3.Const(fresh_name("h"), INT)
    w = W(c.en, c.post, h)
    m = c.en.heap_get(c.post, (G, "mark_"), h)
    return [("new gates are marked and normal", qall([h], z3.Implies(z3.And(h >= c.pre.alloc, h < c.post.alloc), z3.And(m, z3.Or(w.type == AND, w.type == OR), c.en.imm(ND, "graph_", h) == graph(c))), m, w.type, node(h))),
            ("indices are only added", c.fld(graph(c), PD, "node_index_", False) >= c.fld(graph(c), PD, "node_index_", True))]


def kept_value(c):
    a, b = gate_of(c), gate_of(c, False)
    return [("the value is kept", z3.Implies(fresh_ok(c.en, c.pre, c.post), b.value() == a.value())), ("the gate is normal", z3.And(z3.Or(b.type == AND, b.type == OR), b.const == 0))]


def share_loop(v):
    """Arguments are shared with new gates one by one."""
    en, st = v.en, v.st
    L = v.L
    if L["kind"] != "set":
        return []
    out = [("no objects are added", st.alloc == v.entry.alloc)]
    this = v.fr.this.root[1]
    gr = en.heap_get(v.entry, (PP, "graph_"), this)
    out.append(("no indices are given out", en.heap_get(st, (PD, "node_index_"), gr) == en.heap_get(v.entry, (PD, "node_index_"), gr)))
    r = z3.Const(fresh_name("r"), INT)
    a, b = en.heap_get(v.entry, (PD, "null_gates_"), r), en.heap_get(st, (PD, "null_gates_"), r)
    out.append(("other graphs", qall([r], z3.Implies(r != gr, en.same_tree(a, b)), *leaves(b))))
    ps = [(n, x) for n, x, _ in v.locals(sort=INT) if en.quick_prove(v.entry.pc, W(en, v.entry, x).args == g8.EMPTY)]
    r = z3.Const(fresh_name("r"), INT)
    for n, x in ps:
        a, b = W(en, v.entry, x), W(en, st, x)
        out += [("%s has the visited arguments" % n, z3.And(b.args == v.vis, b.const == 0)), ("the logic of %s is kept" % n, z3.And(b.type == a.type, b.min == a.min))]
    for f in GATE_FIELDS:
        x, y = en.heap_get(v.entry, (G, f), r), en.heap_get(st, (G, f), r)
        for i in range(len(ps)):
            for j in range(i):
                out.append(("%s of gates other than %s and %s" % (f, ps[i][0], ps[j][0]), qall([r], z3.Implies(z3.And(r != ps[i][1], r != ps[j][1]), en.same_tree(x, y)), *leaves(y)[:1])))
    return out


FIELDS = GATE_FIELDS + ("mark_",)


def posval(w):
    """The value of a gate without its negation (which its parents have taken over)."""
    ty = z3.If(w.type == NOR, z3.IntVal(OR), z3.If(w.type == NAND, z3.IntVal(AND), z3.If(w.type == NOT, z3.IntVal(NULL), w.type)))
    return gval(ty, w.n, w.t, w.min)


def unmarked_ok(en, st, gr):
    """Gates not yet visited keep the rules of their connectives; their arguments are of lower rank."""
    r, k = z3.Const(fresh_name("ur"), INT), z3.Const(fresh_name("uk"), INT)
    w = W(en, st, r)
    m = en.heap_get(st, (G, "mark_"), r)
    ni = en.heap_get(st, (PD, "node_index_"), gr)
    p = w.ptr(w.ga, k)
    g = z3.And(r > 0, r < st.alloc, node(r), z3.Not(m))
    return [("gates not yet visited", qall([r], z3.Implies(g, z3.And(shape(w), w.type != NULL, w.min >= 0)), m, w.type)),
            ("nodes are of the graph", qall([r], z3.Implies(z3.And(r > 0, r < st.alloc, node(r)), en.imm(ND, "graph_", r) == gr), node(r))),
            ("arguments of gates not yet visited", qall([r, k], z3.Implies(z3.And(g, S(w.args, k)), z3.And(k != 0, k <= ni, -k <= ni, z3.Not(S(w.args, -k)))), S(w.args, k))),
            ("gate arguments of gates not yet visited", qall([r, k], z3.Implies(z3.And(g, S(w.ga["dom"], k)), z3.And(p > 0, p < st.alloc, node(p), rank(p) < rank(r))), S(w.ga["dom"], k)))]


def progress(en, a, b, gr, outside, full):
    """From state a to state b: what the visit of gates may do."""
    r = z3.Const(fresh_name("pr"), INT)
    x, y = W(en, a, r), W(en, b, r)
    fs = [(en.heap_get(a, (G, f), r), en.heap_get(b, (G, f), r)) for f in FIELDS]
    ma, mb = (en.heap_get(s, (G, "mark_"), r) for s in (a, b))
    old = z3.And(r > 0, r < a.alloc)
    out = [("%s of gates not to be visited" % f, qall([r], z3.Implies(z3.And(old, z3.Or(ma, outside(r))), en.same_tree(u, v)), ma, *leaves(v)[:1])) for f, (u, v) in zip(FIELDS, fs)]
    normal = z3.Or(y.type == AND, y.type == OR, y.type == NULL, z3.And(z3.Not(full), z3.Or(y.type == XOR, y.type == ATL)))
    out += [("the values of the gates are kept", qall([r], z3.Implies(old, posval(y) == posval(x)), y.type)),
            ("visited gates are normal", qall([r], z3.Implies(z3.And(old, mb, z3.Not(ma)), z3.And(normal, y.const == 0)), y.type, mb)),
            ("marks are kept", qall([r], z3.Implies(z3.And(old, ma), mb), ma, mb)),
            ("new gates are marked", qall([r], z3.Implies(z3.And(r >= a.alloc, r < b.alloc), z3.And(mb, z3.Or(y.type == AND, y.type == OR), en.imm(ND, "graph_", r) == gr)), mb, y.type)),
            ("objects are only added", b.alloc >= a.alloc),
            ("indices are only added", en.heap_get(b, (PD, "node_index_"), gr) >= en.heap_get(a, (PD, "node_index_"), gr))]
    return out


def visit_loop(v):
    """Arguments are visited one by one."""
    en, st, L = v.en, v.st, v.L
    if L["kind"] != "map" or L["rng"] is None or L["rng"].root[0] != "h":
        return []
    g = L["rng"].root[1]
    gr = en.heap_get(v.entry, (PP, "graph_"), v.fr.this.root[1])
    full = [x for n, x, _ in v.locals(sort=BOOL)][0]
    r = z3.Const(fresh_name("r"), INT)
    out = progress(en, v.entry, st, gr, lambda r: rank(r) >= rank(g), full) + unmarked_ok(en, st, gr)
    for f in ("null_gates_", "node_index_"):
        a, b = en.heap_get(v.entry, (PD, f), r), en.heap_get(st, (PD, f), r)
        out.append(("%s of other graphs" % f, qall([r], z3.Implies(r != gr, en.same_tree(a, b)), *leaves(b)[:1])))
    return out


def mk(prog):
    out = []
    for c in g8.mk(prog, view=True):
        c.trusted = c.trusted or IMPORT
        out.append(c)

    same_value = lambda c: [gate_of(c, False).value() == gate_of(c).value()]   # the nodes of new gates have their values

    def norm_req(c):
        g, gr = c.val(0), graph(c)
        return [("a gate of the graph", z3.And(g > 0, g < c.pre.alloc, node(g), gr > 0, gr < c.pre.alloc)), base(c)[1]] + unmarked_ok(c.en, c.pre, graph(c))

    def norm_ens(c):
        g = c.val(0)
        m = c.fld(g, G, "mark_", False)
        return progress(c.en, c.pre, c.post, graph(c), lambda r: z3.And(r != g, rank(r) >= rank(g)), c.arg(1)) + unmarked_ok(c.en, c.post, graph(c)) + [("the gate is visited", m)]
    out.append(Contract("Preprocessor::NormalizeGate", PP + "::NormalizeGate", norm_req, norm_ens,
                        lambda c: [((G, f), None) for f in FIELDS] + mods(c)[-3:], allocates=True, loops=[visit_loop]))

    def xor_req(c):
        w = gate_of(c)
        return base(c) + [("an exclusive or", z3.And(w.type == XOR, w.n == 2, w.const == 0)), ("its arguments", args_ok(c.en, c.pre, graph(c), w))]
    out.append(Contract("Preprocessor::NormalizeXorGate", PP + "::NormalizeXorGate", xor_req, lambda c: kept_value(c) + new_gates(c), mods, allocates=True, assumes=same_value))

    def atl_req(c):
        w = gate_of(c)
        return base(c) + [("a vote gate", z3.And(w.type == ATL, w.n >= 2, w.min >= 1, w.min <= w.n, w.const == 0)), ("its arguments", args_ok(c.en, c.pre, graph(c), w))]
    out.append(Contract("Preprocessor::NormalizeAtleastGate", PP + "::NormalizeAtleastGate", atl_req, lambda c: kept_value(c) + new_gates(c), mods, allocates=True, assumes=same_value, loops=[share_loop]))

    def det_req(c):
        w = gate_of(c)
        g, f, s = c.val(0), c.arg(1), c.arg(2)
        return [("a gate", z3.And(g > 0, g < c.pre.alloc)), ("the rules of the connective", shape(w)), ("no state yet", c.fld(g, ND, "opti_value_", True) == 0), ("counts of arguments", z3.And(f >= 0, s >= 0, f + s <= w.n)),
                ("no success in coherent graphs", z3.Or(s == 0, z3.Not(c.fld(graph(c), PD, "coherent_", True))))]

    def det_ens(c):
        w = gate_of(c, False)
        v = c.fld(c.val(0), ND, "opti_value_", False)
        t = z3.Const(fresh_name("t"), INT)
        val = gval(w.type, w.n, t, w.min)
        return [("a state", z3.And(v >= -1, v <= 1)), ("what the state says holds with any state of the other arguments", z3.ForAll([t], z3.Implies(z3.And(t >= c.arg(1), t <= w.n - c.arg(2)), z3.And(z3.Implies(v == 1, val), z3.Implies(v == -1, z3.Not(val))))))]
    out.append(Contract("Preprocessor::DetermineGateState", PP + "::DetermineGateState", det_req, det_ens, lambda c: [((ND, "opti_value_"), c.val(0))]))
    return out


SPEC = dict(id="C10", tus=["pdag.cc", "preprocessor.cc"], contracts=mk,
            opts=dict(on_new={G: g8.on_new}, rename_keys=True, retries=True, houdini_ms=6000, immutable=[(ND, "index_"), (ND, "graph_")], merge=True, asserts="check",
                      measures={"Int": [(tcount, lambda k: b2i(lit(k)))]}), loops=[])
