"""Contracts on the construction of the analysis graph (src/pdag.cc; C09).

bval(e) is the truth of a basic event under one arbitrary assignment, nval(i)
the value of the graph's node with index i: for a variable it is the truth of
its event by definition, for a gate the value of its arguments once it is
complete.  fsem(f) is the value of a formula, defined by its connective over the
number of its true arguments."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs.gate import C, G, ND, PM, PD, AND, OR, ATL, XOR, NOT, NAND, NOR, NULL, GATE_FIELDS, nval, lit, b2i, gval, tcount, S, W
from specs.formula import F

MG, BE, HE = "scram::mef::Gate", "scram::mef::BasicEvent", "scram::mef::HouseEvent"
PN = PD + "::ProcessedNodes"
IFF, IMPLY, CARD = 8, 9, 10
SB = "scram::mef::Substitution"
CCF = z3.Bool("with_ccf")
bval = z3.Function("bval", INT, BOOL)
fsem = z3.Function("fsem", INT, BOOL)
fmono = z3.Function("fmono", INT, BOOL)     # without complements and connectives that are not monotone
fnorm = z3.Function("fnorm", INT, BOOL)     # conjunctions and disjunctions only
EN = [None]


def imm(cls, f, r):
    return EN[0].imm(cls, f, r)


def formula(g):
    return imm(MG, "formula_", g)


def ccfg(e):
    return imm(BE, "ccf_gate_", e)


def replaced(e):
    return z3.And(CCF, ccfg(e) != 0)


def bsem(e):
    return z3.If(replaced(e), fsem(formula(ccfg(e))), bval(e))


def through(fn, e):
    return z3.Implies(replaced(e), fn(formula(ccfg(e))))


def ev_sem(ev):
    p = ev["p"]
    return z3.If(ev["which"] == 0, fsem(formula(p)), z3.If(ev["which"] == 1, bsem(p), imm(HE, "state_", p)))


def arg_sem(a):
    return z3.Xor(a["complement"], ev_sem(a["event"]))


def arg_in(fn, a):
    p = a["event"]["p"]
    return z3.And(z3.Implies(a["event"]["which"] == 0, fn(formula(p))), z3.Implies(a["event"]["which"] == 1, through(fn, p)))


def fargs(f):
    return imm(F, "args_", f)["args_"]


def farg(f, i):
    return tmap(lambda a: S(a, i), fargs(f)["at"])


def wff(f):
    """The rules of the connectives (C14)."""
    cn, n, mn, mx = imm(F, "connective_", f), fargs(f)["len"], imm(F, "min_number_", f), imm(F, "max_number_", f)
    return z3.And(cn >= 0, cn <= 10, n >= 0, z3.Implies(z3.Or(cn == AND, cn == OR, cn == NAND, cn == NOR), n >= 2), z3.Implies(z3.Or(cn == NOT, cn == NULL), n == 1),
                  z3.Implies(z3.Or(cn == XOR, cn == IFF, cn == IMPLY), n == 2), z3.Implies(cn == ATL, z3.And(mn >= 2, mn < n)),
                  z3.Implies(cn == CARD, z3.And(n >= 1, mn >= 0, mn <= mx, mx <= n)))


def axioms(en):
    EN[0] = en
    f, i = z3.Const("f", INT), z3.Const("i", INT)
    a = fargs(f)
    n, cn = a["len"], imm(F, "connective_", f)
    t, m, nr = (en.lib.seq_m(k, a["at"], n) for k in ("trues", "mono", "norm"))
    x = farg(f, i)
    g, e = z3.Const("g", INT), z3.Const("e", INT)
    first, second = (arg_sem(farg(f, z3.IntVal(k))) for k in (0, 1))
    val = z3.If(cn == IFF, t != 1, z3.If(cn == IMPLY, z3.Or(z3.Not(first), second), z3.If(cn == CARD, z3.And(t >= imm(F, "min_number_", f), t <= imm(F, "max_number_", f)),
                gval(cn, n, t, imm(F, "min_number_", f)))))
    none = z3.K(INT, z3.BoolVal(False))
    return [en.lib.card(none) == 0, tcount(none) == 0, qall([f], z3.And(wff(f), fsem(f) == val), fsem(f)),
            qall([f], fmono(f) == z3.And(z3.Or(cn == AND, cn == OR, cn == ATL, cn == NULL), m), fmono(f)),
            qall([f], fnorm(f) == z3.And(z3.Or(cn == AND, cn == OR, cn == IMPLY), nr), fnorm(f)),
            qall([f, i], z3.Implies(z3.And(i >= 0, i < n), z3.And(x["event"]["p"] > 0, x["event"]["which"] >= 0, x["event"]["which"] <= 2)), S(a["at"]["event"]["p"], i)),
            qall([g], z3.Implies(g > 0, z3.And(formula(g) > 0, wff(formula(g)))), formula(g)), qall([e], ccfg(e) >= 0, ccfg(e))]


def idx(r):
    return imm(ND, "index_", r)


# ---- substitutions
def hyp(s):
    return imm(SB, "hypothesis_", s)


def decl(s):
    return imm(SB, "source_", s)["len"] == 0


def is_event(s):
    return imm(SB, "target_", s)["which"] == 0


def target(s):
    return imm(SB, "target_", s)["a0"]


def wfs(s):
    """The rules of substitutions (C26); substitutions with sources have no events in common cause groups."""
    i = z3.Const(fresh_name("si"), INT)
    src, t = imm(SB, "source_", s), imm(SB, "target_", s)
    x = S(src["at"], i)
    a = farg(hyp(s), i)
    return z3.And(hyp(s) > 0, wff(hyp(s)), t["which"] >= 0, t["which"] <= 1, src["len"] >= 0, z3.Implies(is_event(s), target(s) > 0), z3.Implies(z3.Not(is_event(s)), t["a1"] == z3.Not(decl(s))),
                  z3.Implies(z3.Not(decl(s)), z3.And(ccfg(target(s)) == 0, imm(F, "connective_", hyp(s)) <= 7, z3.Or(*[imm(F, "connective_", hyp(s)) == k for k in (NULL, AND, OR)]))),
                  qall([i], z3.Implies(z3.And(i >= 0, i < src["len"]), z3.And(x > 0, ccfg(x) == 0)), x),
                  qall([i], z3.Implies(z3.And(i >= 0, i < fargs(hyp(s))["len"]), z3.And(a["event"]["which"] == 1, z3.Not(a["complement"]), z3.Implies(z3.Not(decl(s)), ccfg(a["event"]["p"]) == 0))), a["event"]["p"]))


def subsem(s):
    """What a declarative substitution says."""
    return z3.Implies(decl(s), z3.Or(z3.Not(fsem(hyp(s))), z3.And(is_event(s), bsem(target(s)))))


def sub_here(gd, vd, s):
    i = z3.Const(fresh_name("sh"), INT)
    src = imm(SB, "source_", s)
    x = S(src["at"], i)
    ev = lambda p: here(gd, vd, {"which": z3.IntVal(1), "p": p})
    return z3.And(all_here(gd, vd, hyp(s)), z3.Implies(is_event(s), ev(target(s))), qall([i], z3.Implies(z3.And(i >= 0, i < src["len"]), ev(x)), x))


# ---- the state of a construction
def varinv(en, st, nodes, this):
    """Variables are the first nodes, in the order of their events."""
    gd, gp, vd, vp = pn(en, st, nodes)
    b = en.heap_get(st, (PD, "basic_events_"), this)
    e, i = z3.Const(fresh_name("ve"), INT), z3.Const(fresh_name("vi"), INT)
    p, at, n = S(vp, e), b["at"], b["len"]
    return [("indices are given out in order", z3.And(n >= 0, en.heap_get(st, (PD, "node_index_"), this) == n + 1)),
            ("the variable of an event", qall([e], z3.Implies(S(vd, e), z3.And(p > 0, p < st.alloc, idx(p) >= 2, idx(p) < n + 2, S(at, idx(p) - 2) == e)), S(vd, e))),
            ("the event of an index", qall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(S(vd, S(at, i)), idx(S(vp, S(at, i))) == i + 2)), S(at, i)))]


def var_values(en, st, nodes):
    """The value of a variable is the value of its event (which is found by the index)."""
    gd, gp, vd, vp = pn(en, st, nodes)
    e = z3.Const(fresh_name("e"), INT)
    return qall([e], z3.Implies(S(vd, e), nval(idx(S(vp, e))) == bval(e)), S(vp, e))


def gathered(en, pre, st, nodes):
    """Events are only added; those of the formulas of new gates are there."""
    (gd, gp, vd, vp), (gd0, gp0, vd0, vp0) = pn(en, st, nodes), pn(en, pre, nodes)
    g = z3.Const(fresh_name("gg"), INT)
    return [("gates are only added", qall([g], z3.Implies(S(gd0, g), z3.And(S(gd, g), S(gp, g) == S(gp0, g))), S(gd0, g), S(gd, g), S(gp0, g), S(gp, g))),
            ("events are only added", qall([g], z3.Implies(S(vd0, g), z3.And(S(vd, g), S(vp, g) == S(vp0, g))), S(vd0, g), S(vd, g), S(vp0, g), S(vp, g))),
            ("the events of new gates are gathered", qall([g], z3.Implies(z3.And(S(gd, g), z3.Not(S(gd0, g))), z3.And(S(gp, g) == 0, all_here(gd, vd, formula(g)))), S(gd, g)))]


def pn(en, st, n):
    g, v = en.heap_get(st, (PN, "gates"), n), en.heap_get(st, (PN, "variables"), n)
    return g["dom"], leaves(g["val"])[0], v["dom"], leaves(v["val"])[0]


def here(gd, vd, ev):
    """The event is in the maps."""
    p = ev["p"]
    return z3.And(z3.Implies(ev["which"] == 0, S(gd, p)), z3.Implies(ev["which"] == 1, z3.If(replaced(p), S(gd, ccfg(p)), S(vd, p))))


def all_here(gd, vd, f):
    i = z3.Const(fresh_name("hi"), INT)
    a = farg(f, i)
    return qall([i], z3.Implies(z3.And(i >= 0, i < fargs(f)["len"]), here(gd, vd, a["event"])), a["event"]["p"])


def maps(en, st, nodes, this):
    gd, gp, vd, vp = pn(en, st, nodes)
    g, e = z3.Const(fresh_name("g"), INT), z3.Const(fresh_name("e"), INT)
    node = lambda p: z3.And(p > 0, p < st.alloc, idx(p) > 0)
    coh, nor = (en.heap_get(st, (PD, f), this) for f in ("coherent_", "normal_"))
    return [("gates have the values of their formulas", qall([g], z3.Implies(z3.And(S(gd, g), S(gp, g) != 0), z3.And(
                node(S(gp, g)), nval(idx(S(gp, g))) == fsem(formula(g)), z3.Implies(coh, fmono(formula(g))), z3.Implies(nor, fnorm(formula(g))))), S(gp, g))),
            ("the arguments of the gates are gathered", qall([g], z3.Implies(S(gd, g), all_here(gd, vd, formula(g))), S(gd, g))),
            ("variables have the values of their events", qall([e], z3.Implies(S(vd, e), z3.And(node(S(vp, e)), nval(idx(S(vp, e))) == bval(e))), S(vp, e), S(vd, e)))]


def graph(en, st, this):
    c = en.heap_get(st, (PD, "constant_"), this)
    return [("the graph", z3.And(this > 0, this < st.alloc)), ("the graph's constant", z3.And(c > 0, c < st.alloc, idx(c) > 0, nval(idx(c)))), ("indices are positive", en.heap_get(st, (PD, "node_index_"), this) >= 0)]


def fresh_ok(c):
    h = z3.Const(fresh_name("h"), INT)
    w = W(c.en, c.post, h)
    return qall([h], z3.Implies(z3.And(h >= c.pre.alloc, h < c.post.alloc), nval(w.idx) == w.value()), nval(w.idx))


SUBS = "scram::mef::Container<scram::mef::Model, scram::mef::Substitution, true, false>"


def no_subs(c):
    d = c.en.heap_get(c.pre, (SUBS, "table_"), c.val(2))["dom"]
    x = z3.Const(fresh_name("sx"), d.domain())
    return z3.ForAll([x], z3.Not(z3.Select(d, x)))


def unchanged_loop(v):
    """Without substitutions, nothing happens."""
    en, st = v.en, v.st
    this = v.fr.this.root[1]
    out = [("no objects are added", st.alloc == v.entry.alloc)]
    r = z3.Const(fresh_name("r"), INT)
    for k in [(PD, f) for f in ("node_index_", "coherent_", "normal_", "root_", "constant_", "null_gates_", "basic_events_", "substitutions_")] + [(PN, "gates"), (PN, "variables"), (PM, "parents_")] + [(G, f) for f in GATE_FIELDS]:
        a, b = en.heap_get(v.entry, k, r), en.heap_get(st, k, r)
        out.append(("%s::%s is not changed" % k, qall([r], en.same_tree(a, b), *leaves(b))))
    return out


def pd_fields(c):
    return [((PD, f), c.this) for f in ("node_index_", "complement_", "coherent_", "normal_", "register_null_gates_", "root_", "constant_", "null_gates_", "basic_events_", "substitutions_")]


def mk(prog):
    out = []
    # ---- the arguments of gates (C08)
    tys = lambda fd, k, P: [P.fdecl_tu[k].types[t].s.replace("scram::core::", "") for t in fd["p"]]
    gsel = lambda n, *ps: (lambda fd, k, P: fd["q"] == G + "::" + n and tys(fd, k, P) == list(ps))
    a_, b_ = (lambda c: W(c.en, c.pre, c.this)), (lambda c: W(c.en, c.post, c.this))
    room = lambda w: z3.And(z3.Implies(z3.Or(w.type == NOT, w.type == NULL), w.n == 0), z3.Implies(w.type == XOR, w.n <= 1))
    gm = lambda c: [((G, f), c.this) for f in GATE_FIELDS] + [((PM, "parents_"), None), ((PD, "null_gates_"), c.en.imm(ND, "graph_", c.this))]
    IMPORT = "discharged by the check of C08"

    def arg_ok(c):
        i, p = c.arg(0), c.val(1)
        return [("a node", z3.And(p > 0, p < c.pre.alloc)), ("its index", z3.And(idx(p) > 0, idx(p) == z3.If(i > 0, i, -i)))]
    same_logic = lambda a, b: z3.And(b.type == a.type, b.min == a.min, b.const == 0)
    for T in ("Gate", "Variable"):
        out.append(Contract("Gate::AddArg<%s>" % T, gsel("AddArg", "int", "const std::shared_ptr<%s> &" % T),
                            lambda c: arg_ok(c) + [("not constant", a_(c).const == 0), ("room for an argument", room(a_(c)))],
                            lambda c: [("one more argument", z3.And(same_logic(a_(c), b_(c)), b_(c).n == a_(c).n + 1, b_(c).t == a_(c).t + b2i(lit(c.arg(0)))))], gm,
                            trusted="the arguments of a formula are distinct events (C14), their nodes distinct: " + IMPORT))
    out.append(Contract("Gate::AddArg<Constant>", gsel("AddArg", "int", "const std::shared_ptr<Constant> &"),
                        lambda c: arg_ok(c) + [("a pass-through gate", z3.And(a_(c).type == NULL, a_(c).n == 0, a_(c).const == 0))],
                        lambda c: [("the value with the constant", b_(c).value() == gval(a_(c).type, a_(c).n + 1, a_(c).t + b2i(lit(c.arg(0))), a_(c).min)), ("constant", b_(c).const != 0)],
                        gm, trusted=IMPORT))
    out.append(Contract("Gate::MakeConstant", G + "::MakeConstant", lambda c: [("not constant", a_(c).const == 0)],
                        lambda c: [("the gate is the constant", z3.And(b_(c).value() == c.arg(0), b_(c).const != 0))], gm, trusted=IMPORT))
    out.append(Contract("Gate::NegateArgs", G + "::NegateArgs", lambda c: [("not constant", a_(c).const == 0)],
                        lambda c: [("all arguments are negated", z3.And(same_logic(a_(c), b_(c)), b_(c).n == a_(c).n, b_(c).t == a_(c).n - a_(c).t))],
                        lambda c: [((G, f), c.this) for f in ("args_", "gate_args_", "variable_args_")], trusted=IMPORT))
    out.append(Contract("Gate::type", gsel("type", "Connective"), lambda c: [("not constant", z3.Implies(a_(c).const != 0, c.arg(0) == NULL))],
                        lambda c: [("the type", b_(c).type == c.arg(0))], lambda c: [((G, "type_"), c.this), ((PD, "null_gates_"), c.en.imm(ND, "graph_", c.this))], trusted=IMPORT))

    def cloned(c):
        a, r = a_(c), c.result()
        b = W(c.en, c.post, r)
        return [("a new gate", z3.And(r >= c.pre.alloc, r < c.post.alloc, idx(r) > 0, imm(ND, "graph_", r) == imm(ND, "graph_", c.this), c.fld(imm(ND, "graph_", c.this), PD, "node_index_", False) > 0)), ("of the same logic", z3.And(same_logic(a, b), b.n == a.n, b.t == a.t))]
    out.append(Contract("Gate::Clone", G + "::Clone", lambda c: [("not constant", z3.And(a_(c).const == 0, a_(c).type != NULL))], cloned,
                        lambda c: [((PM, "parents_"), None), ((PD, "node_index_"), c.en.imm(ND, "graph_", c.this))], allocates=True, trusted=IMPORT))

    # ---- the numbers of formulas (C14)
    for n, ops, fld in (("min_number", (ATL, CARD), "min_number_"), ("max_number", (CARD,), "max_number_")):
        out.append(Contract("Formula::" + n, F + "::" + n, None, (lambda ops, fld: lambda c: [("present", c.rval()["has"] == z3.Or(*[imm(F, "connective_", c.this) == o for o in ops])),
                            ("value", z3.Implies(c.rval()["has"], c.rval()["val"] == imm(F, fld, c.this)))])(ops, fld), lambda c: [], trusted="discharged by the check of C14"))
    # ---- the construction
    flag = lambda c, f, old: c.fld(c.this, PD, f, old)

    def state(c, old, nd):
        st = c.pre if old else c.post
        return graph(c.en, st, c.this) + maps(c.en, st, c.val(nd), c.this)

    def kept(c, nd):
        a, b = pn(c.en, c.pre, c.val(nd)), pn(c.en, c.post, c.val(nd))
        return [("gathered events are kept", z3.And(a[0] == b[0], a[2] == b[2])), ("flags are only dropped", z3.And(z3.Implies(flag(c, "coherent_", False), flag(c, "coherent_", True)),
                                                                                                       z3.Implies(flag(c, "normal_", False), flag(c, "normal_", True))))]

    def mods(c, nd):
        return [((PN, "gates"), c.val(nd)), ((PM, "parents_"), None)] + [((PD, f), c.this) for f in ("node_index_", "null_gates_", "coherent_", "normal_")]
    ccf = lambda c, i: [("with or without common causes", c.arg(i) == CCF)]
    nodes = lambda c, i: [("maps", z3.And(c.val(i) > 0, c.val(i) < c.pre.alloc, c.this > 0))]

    # arguments
    P_ = lambda c, old: W(c.en, c.pre if old else c.post, c.val(0))

    def add_req(c, ev):
        gd, _, vd, _ = pn(c.en, c.pre, c.val(4))
        p = P_(c, True)
        return nodes(c, 4) + ccf(c, 3) + state(c, True, 4) + [("a gate under construction", z3.And(c.val(0) > 0, c.val(0) < c.pre.alloc, p.const == 0, imm(ND, "graph_", c.val(0)) == c.this)), ("room for an argument", room(p)),
                                                              ("the event is gathered", here(gd, vd, ev)), ("an event", ev["p"] > 0)]

    def add_ens(c, ev):
        a, b = P_(c, True), P_(c, False)
        fl = [z3.Implies(flag(c, k, False), arg_in(fn, {"event": ev})) for k, fn in (("coherent_", fmono), ("normal_", fnorm))]
        return [("the value of the event is added", z3.Implies(fresh_ok(c), z3.And(b.n == a.n + 1, b.t == a.t + b2i(z3.Xor(c.arg(2), ev_sem(ev)))))),
                ("the logic is kept", same_logic(a, b)), ("a coherent graph", fl[0]), ("a normal graph", fl[1])] + state(c, False, 4) + kept(c, 4)

    def add_assume(c, ev):
        a, b = P_(c, True), P_(c, False)
        return [z3.And(b.n == a.n + 1, b.t == a.t + b2i(z3.Xor(c.arg(2), ev_sem(ev))))]
    pmods = lambda c: mods(c, 4) + [((G, f), c.val(0)) for f in GATE_FIELDS]
    psel = lambda t: (lambda fd, k, P: fd["q"] == PD + "::AddArg" and t in tys(fd, k, P)[1])
    events = [("gate", "mef::Gate &", 0), ("basic event", "mef::BasicEvent &", 1), ("house event", "mef::HouseEvent &", 2)]
    for nm, t, w in events:
        ev = (lambda w: lambda c: {"which": z3.IntVal(w), "p": c.arg(1)})(w)
        out.append(Contract("Pdag::AddArg(%s)" % nm, psel(t), (lambda ev: lambda c: add_req(c, ev(c)))(ev), (lambda ev: lambda c: add_ens(c, ev(c)))(ev), pmods, allocates=True,
                            assumes=(lambda ev: lambda c: add_assume(c, ev(c)))(ev)))
    out.append(Contract("Pdag::AddArg(event)", psel("variant"), lambda c: add_req(c, c.val(1)), lambda c: add_ens(c, c.val(1)), pmods, allocates=True, assumes=lambda c: add_assume(c, c.val(1))))

    # formulas
    def f_req(c):
        gd, _, vd, _ = pn(c.en, c.pre, c.val(2))
        return nodes(c, 2) + ccf(c, 1) + state(c, True, 2) + [("a formula", c.arg(0) > 0), ("the events are gathered", all_here(gd, vd, c.arg(0))), ("the rules of the connective", wff(c.arg(0)))]

    def f_ens(c):
        r, f = c.result(), c.arg(0)
        w = W(c.en, c.post, r)
        return [("a new gate", z3.And(r >= c.pre.alloc, r < c.post.alloc, idx(r) > 0, r > 0)), ("the value of the formula", z3.Implies(fresh_ok(c), w.value() == fsem(f))),
                ("a coherent graph", z3.Implies(flag(c, "coherent_", False), fmono(f))), ("a normal graph", z3.Implies(flag(c, "normal_", False), fnorm(f)))] + state(c, False, 2) + kept(c, 2)
    def two(en, st, this, args):
        """The first two arguments."""
        f = args[0].root[1]
        for k in (0, 1):
            for x in en.lib.seq_at(fargs(f), z3.IntVal(k)):
                st.fact(x)
    f_assume = lambda c: [nval(idx(c.result())) == fsem(c.arg(0))]
    for n, more in (("ConstructGate", lambda c: []), ("ConstructComplexGate", lambda c: [("a complex connective", imm(F, "connective_", c.arg(0)) >= 8)])):
        out.append(Contract("Pdag::" + n, PD + "::" + n, (lambda more: lambda c: f_req(c) + more(c))(more), f_ens, lambda c: mods(c, 2), allocates=True, assumes=f_assume, setup=two, loops=[arg_loop], opts=dict(merge=n == "ConstructGate")))

    # ---- variables
    def g_con(nm, sel, req, ens, **kw):
        out.append(Contract("Pdag::GatherVariables(%s)" % nm, lambda fd, k, P: fd["q"] == PD + "::GatherVariables" and sel in tys(fd, k, P)[0],
                            lambda c: nodes(c, 2) + ccf(c, 1) + [("an object", c.arg(0) > 0)] + varinv(c.en, c.pre, c.val(2), c.this) + req(c),
                            lambda c: ens(c, pn(c.en, c.post, c.val(2))) + varinv(c.en, c.post, c.val(2), c.this) + gathered(c.en, c.pre, c.post, c.val(2)),
                            lambda c: [((PN, "gates"), c.val(2)), ((PN, "variables"), c.val(2)), ((PD, "basic_events_"), c.this), ((PD, "node_index_"), c.this)], allocates=True,
                            assumes=(lambda c: [var_values(c.en, c.post, c.val(2))]) if nm != "basic event" else None, **kw))
    g_con("formula", "Formula", lambda c: [("the rules of the connective", wff(c.arg(0)))], lambda c, m: [("the events of the formula", all_here(m[0], m[2], c.arg(0)))], loops=[gather_loop], opts=dict(merge=False))
    g_con("basic event", "BasicEvent", lambda c: [], lambda c, m: [("the event", here(m[0], m[2], {"which": z3.IntVal(1), "p": c.arg(0)}))])
    g_con("substitution", "Substitution", lambda c: [("the rules of substitutions", wfs(c.arg(0)))], lambda c, m: [("the events of the substitution", sub_here(m[0], m[2], c.arg(0)))], loops=[source_loop])

    def cs_req(c):
        gd, _, vd, _ = pn(c.en, c.pre, c.val(2))
        return nodes(c, 2) + ccf(c, 1) + state(c, True, 2) + [("a substitution", c.arg(0) > 0), ("declarative", decl(c.arg(0))), ("the rules of substitutions", wfs(c.arg(0))), ("the events are gathered", sub_here(gd, vd, c.arg(0)))]

    def cs_ens(c):
        r = c.result()
        return [("a new gate", z3.And(r >= c.pre.alloc, r < c.post.alloc, idx(r) > 0, r > 0)), ("what the substitution says", z3.Implies(fresh_ok(c), W(c.en, c.post, r).value() == subsem(c.arg(0))))] + state(c, False, 2) + kept(c, 2)
    out.append(Contract("Pdag::ConstructSubstitution", PD + "::ConstructSubstitution", cs_req, cs_ens, lambda c: mods(c, 2), allocates=True, assumes=lambda c: [nval(idx(c.result())) == subsem(c.arg(0))]))

    def co_req(c):
        gd, _, vd, vp = pn(c.en, c.pre, c.val(1))
        return nodes(c, 1) + state(c, True, 1) + [("a substitution", c.arg(0) > 0), ("with sources", z3.Not(decl(c.arg(0)))), ("the rules of substitutions", wfs(c.arg(0))), ("the events are gathered", sub_here(gd, vd, c.arg(0)))]
    out.append(Contract("Pdag::CollectSubstitution", PD + "::CollectSubstitution", co_req, lambda c: [], lambda c: [((PD, "substitutions_"), c.this)]))

    # ---- the graph
    def p_req(c):
        return [("the top gate", c.arg(0) > 0), ("with or without common causes", c.val(1) == CCF), ("a model or none", c.val(2) >= 0), ("no substitutions", z3.Or(c.val(2) == 0, no_subs(c)))]

    def p_ens(c):
        r = c.fld(c.this, PD, "root_", False)
        w = W(c.en, c.post, r)
        f = formula(c.arg(0))
        return [("a root", z3.And(r > 0, r < c.post.alloc, idx(r) > 0)),
                ("the value of the top gate", z3.Implies(fresh_ok(c), w.value() == fsem(f))),
                ("a coherent graph is monotone", z3.Implies(c.fld(c.this, PD, "coherent_", False), fmono(f)))]
    out.append(Contract("Pdag::Pdag", lambda fd, k, P: fd["q"] == PD + "::Pdag" and len(fd["p"]) == 3, p_req, p_ens, lambda c: pd_fields(c) + [((PM, "parents_"), None)], allocates=True, loops=[unchanged_loop]))
    d_sel = lambda fd, k, P: fd["q"] == PD + "::Pdag" and len(fd["p"]) == 0
    k1 = lambda c: [nval(idx(c.fld(c.this, PD, "constant_", False)))]
    out.append(Contract("Pdag::Pdag()", d_sel, lambda c: [("an object", z3.And(c.this > 0, c.this < c.pre.alloc))], lambda c: graph(c.en, c.post, c.this)[:1] + [("the constant is new", z3.And(c.fld(c.this, PD, "constant_", False) >= c.pre.alloc, c.fld(c.this, PD, "constant_", False) < c.post.alloc, idx(c.fld(c.this, PD, "constant_", False)) > 0)),
                        ("the constant is the first node", idx(c.fld(c.this, PD, "constant_", False)) == 1), ("no variables", c.fld(c.this, PD, "basic_events_", False)["len"] == 0), ("flags", z3.And(flag(c, "coherent_", False), flag(c, "normal_", False))), ("one index is given out", c.fld(c.this, PD, "node_index_", False) == 1)],
                        lambda c: pd_fields(c), allocates=True, assumes=k1))
    return out


def source_loop(v):
    """Sources are gathered one by one."""
    if not hasattr(v, "i") or getattr(v.range, "kind", None) != "vec" or isinstance(v.range["at"], Node):
        return []
    en, st, i = v.en, v.st, v.i
    this = v.fr.this.root[1]
    out = [("objects are only added", st.alloc >= v.entry.alloc)]
    j, r = z3.Const(fresh_name("j"), INT), z3.Const(fresh_name("r"), INT)
    x = S(v.range["at"], j)
    for n, p, _ in v.locals(sort=INT):
        gd, _, vd, _ = pn(en, st, p)
        out.append(("%s: the visited events are gathered" % n, qall([j], z3.Implies(z3.And(j >= 0, j < i), here(gd, vd, {"which": z3.IntVal(1), "p": x})), x)))
        out += [("%s: %s" % (n, m), f) for m, f in varinv(en, st, p, this) + gathered(en, v.entry, st, p)]
        for fld in ("gates", "variables"):
            a, b = en.heap_get(en.pre, (PN, fld), r), en.heap_get(st, (PN, fld), r)
            out.append(("only %s of %s" % (fld, n), qall([r], z3.Implies(z3.And(r < en.pre.alloc, r != p), en.same_tree(a, b)), *(leaves(a) + leaves(b)))))
    return out


def gather_loop(v):
    """Events are gathered one by one."""
    if not hasattr(v, "i") or getattr(v.range, "kind", None) != "vec" or not isinstance(v.range["at"], Node):
        return []
    en, st, i = v.en, v.st, v.i
    this = v.fr.this.root[1]
    out = [("objects are only added", st.alloc >= v.entry.alloc)]
    j = z3.Const(fresh_name("j"), INT)
    x = tmap(lambda a: S(a, j), v.range["at"])
    r = z3.Const(fresh_name("r"), INT)
    for n, p, _ in v.locals(sort=INT):
        gd, _, vd, _ = pn(en, st, p)
        out.append(("%s: the visited events are gathered" % n, qall([j], z3.Implies(z3.And(j >= 0, j < i), here(gd, vd, x["event"])), x["event"]["p"])))
        out += [("%s: %s" % (n, m), f) for m, f in varinv(en, st, p, this) + gathered(en, v.entry, st, p)]
        for fld in ("gates", "variables"):
            a, b = en.heap_get(en.pre, (PN, fld), r), en.heap_get(st, (PN, fld), r)
            out.append(("only %s of %s" % (fld, n), qall([r], z3.Implies(z3.And(r < en.pre.alloc, r != p), en.same_tree(a, b)), *(leaves(a) + leaves(b)))))
    return out


def arg_loop(v):
    """Arguments are added one by one."""
    if not hasattr(v, "i") or getattr(v.range, "kind", None) != "vec":
        return []
    en, st, i = v.en, v.st, v.i
    at = v.range["at"]
    if not isinstance(at, Node):
        return []
    this = v.fr.this.root[1]
    out = []
    out += graph(en, st, this)
    out.append(("objects are only added", st.alloc >= v.entry.alloc))
    r = z3.Const(fresh_name("r"), INT)
    tr, mo, no = (en.lib.seq_m(k, at, i) for k in ("trues", "mono", "norm"))
    tr, mo, no = z3.If(i <= 0, 0, tr), z3.Or(i <= 0, mo), z3.Or(i <= 0, no)
    out.append(("as many true arguments as arguments", z3.And(tr >= 0, tr <= i)))
    for n, x, _ in v.locals(sort=INT):
        a, b = W(en, v.entry, x), W(en, st, x)
        out += [("%s is not touched" % n, z3.And(b.n == a.n, b.t == a.t)), ("arguments of %s" % n, z3.And(b.n == i, b.t == tr)), ("logic of %s" % n, z3.And(b.type == a.type, b.min == a.min, b.const == 0))]
        out += [("%s: %s" % (n, m), f) for m, f in maps(en, st, x, this)]
        p, q = pn(en, v.entry, x), pn(en, st, x)
        ga, gb = en.heap_get(en.pre, (PN, "gates"), r), en.heap_get(st, (PN, "gates"), r)
        out.append(("only %s change" % n, qall([r], z3.Implies(z3.And(r < en.pre.alloc, r != x), en.same_tree(ga, gb)), leaves(gb)[0])))
        out += [("gathered events in %s are kept" % n, z3.And(p[0] == q[0], p[2] == q[2]))]
    r = z3.Const(fresh_name("r"), INT)
    for f in GATE_FIELDS:
        a, b = en.heap_get(en.pre, (G, f), r), en.heap_get(st, (G, f), r)
        out.append(("%s of other gates" % f, qall([r], z3.Implies(r < en.pre.alloc, en.same_tree(a, b)), *leaves(b)[:1])))
    for f, m in (("coherent_", mo), ("normal_", no)):
        e, s = en.heap_get(v.entry, (PD, f), this), en.heap_get(st, (PD, f), this)
        out += [("%s is only dropped" % f, z3.Implies(s, z3.And(e, m)))]
    return out


def isarg(at):
    return isinstance(at, Node) and at.kind == "rec" and "complement" in at.ch


def on_new(en, st, r):
    en.flush_except(st, None)
    return [], []


OPTS = dict(retries=True, asserts="check", boxed={PN}, on_new={G: on_new}, immutable=[(ND, "index_"), (ND, "graph_"), (F, "connective_"), (F, "min_number_"), (F, "max_number_"), (F, "args_"), (MG, "formula_"), (BE, "ccf_gate_"), (HE, "state_")] + [(SB, f) for f in ("hypothesis_", "source_", "target_")],
            measures={"Int": [(tcount, lambda k: b2i(lit(k)))]}, merge=True,
            seq=[("trues", "isum", isarg, lambda a: b2i(arg_sem(a))), ("mono", "and", isarg, lambda a: z3.And(z3.Not(a["complement"]), arg_in(fmono, a))),
                 ("norm", "and", isarg, lambda a: arg_in(fnorm, a))])
SPEC = dict(id="C09", tus=["pdag.cc"], contracts=mk, axioms=axioms, opts=OPTS, loops=[])
