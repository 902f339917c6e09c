"""Contracts on the cycle detection of a model (src/cycle.{h,cc}): DetectCycle, ContinueConnector and CheckCycle for gates and parameters."""
import z3
from core import *
from contracts import Contract
from engine import qall

NM, G, FO, PA, EX = "scram::mef::NodeMark", "scram::mef::Gate", "scram::mef::Formula", "scram::mef::Parameter", "scram::mef::Expression"
ERR = "scram::mef::CycleError"
TEMP, PERM = 1, 2
u, v, w, k = (z3.Const("r!" + n, INT) for n in "uvwk")


KINDS = {"Gate": (G, FO), "Parameter": (PA, EX), "NamedBranch": ("scram::mef::NamedBranch", "::Branch"), "Rule": ("scram::mef::Rule", "::Instruction"), "Link": ("scram::mef::Link", "::EventTree")}
OPEN = ("Gate", "Parameter")    # the kinds whose references are read from the connectors; the others go through visitors


class World:
    """The fields no code under these contracts changes."""

    def __init__(self, en):
        self.en = en

    def fld(self, ref, cls, field, old=False):
        k_ = (cls, field)
        if k_ in self.en.immutable:
            return self.en.imm(cls, field, ref)
        return tmap(lambda a: z3.Select(a, ref), self.en.hkey_initial(k_, self.en.field_ty(k_)))


def args_of(c, cls, r):
    return c.fld(r, cls, "args_")


def conn_of(K, c, n):
    """The connector of a node."""
    return c.fld(n, G, "formula_") if K == "Gate" else c.fld(n, "scram::mef::Link", "event_tree_") if K == "Link" else n


def fns(K):
    S = lambda n, *a: z3.Function(n + "_" + K, *a)
    return dict(dnode=S("dnode", INT, INT, BOOL), reach=S("reach", INT, INT, BOOL), wfc=S("wfc", INT, BOOL), step=S("step", INT, BOOL), kind=S("is", INT, BOOL))


def parts(K, c, conn, j):
    """(the j-th argument of the connector, it is a node, it is a connector)"""
    if K == "Gate":
        a = args_of(c, FO, conn)["args_"]["at"]
        a = tmap(lambda f: z3.Select(f, j), a)
        return a["event"]["p"], z3.And(a["event"]["which"] == 0, a["event"]["p"] != 0), z3.BoolVal(False)
    a = args_of(c, EX, conn)["at"][j]
    p = z3.And(a != 0, z3.Function("is_" + PA, INT, BOOL)(a))
    return a, p, z3.Not(p)


def n_of(K, c, conn):
    return (args_of(c, FO, conn)["args_"] if K == "Gate" else args_of(c, EX, conn))["len"]


def nonnull(c):
    a = args_of(c, EX, u)
    return qall([u, k], z3.Implies(z3.And(k >= 0, k < a["len"]), a["at"][k] != 0), a["at"][k])


def axioms(en):
    """Least fixed points: what a connector refers to directly, what it reaches, and the connectors without infinite paths."""
    c = World(en)
    m = World(en).fld(u, NM, "mark_")
    out = [qall([u], z3.And(m >= 0, m <= 2), m)]
    for K in KINDS:
        f = fns(K)
        out.append(qall([u], f["step"](u), f["step"](u)))
        if K == "Link":
            out.append(qall([u], conn_of(K, c, u) != 0, conn_of(K, c, u)))    # a reference
        if K in OPEN:
            out += closure(K, c, f)
        out += [qall([u, v], z3.Implies(f["dnode"](u, v), f["reach"](u, v)), f["dnode"](u, v)),
                qall([u, v, w], z3.Implies(z3.And(f["dnode"](u, v), f["reach"](conn_of(K, c, v), w)), f["reach"](u, w)), z3.MultiPattern(f["dnode"](u, v), f["reach"](conn_of(K, c, v), w))),
                qall([u, v], z3.Implies(z3.And(f["wfc"](u), f["reach"](u, v)), z3.And(f["wfc"](conn_of(K, c, v)), z3.Not(f["reach"](conn_of(K, c, v), v)))), z3.MultiPattern(f["wfc"](u), f["reach"](u, v)))]
    return out


def closure(K, c, f):
    """References read from the arguments of a connector."""
    a, isn, isc = parts(K, c, u, k)
    rng = z3.And(k >= 0, k < n_of(K, c, u))
    out = [qall([u, k], z3.Implies(z3.And(rng, isn), z3.And(f["dnode"](u, a), f["kind"](a))), z3.MultiPattern(a, f["step"](u))),
           qall([u], z3.Implies(z3.ForAll([k], z3.Implies(rng, z3.And(z3.Implies(isn, f["wfc"](conn_of(K, c, a))), z3.Implies(isc, f["wfc"](a))))), f["wfc"](u)), f["step"](u))]
    if K != "Gate":
        out += [qall([u, k, v], z3.Implies(z3.And(rng, isc, f["dnode"](a, v)), f["dnode"](u, v)), z3.MultiPattern(f["dnode"](a, v), f["step"](u))),
                qall([u, k, v], z3.Implies(z3.And(rng, isc, f["reach"](a, v)), f["reach"](u, v)), z3.MultiPattern(f["reach"](a, v), f["step"](u)))]
    return out



def mk(prog):
    out = []
    mark = lambda c, n, post: c.fld(n, NM, "mark_", not post)

    def perm_wf(K, c, post):
        f = fns(K)
        return qall([u], z3.Implies(z3.And(f["kind"](u), mark(c, u, post) == PERM), f["wfc"](conn_of(K, c, u))), mark(c, u, post))

    def marks_kept(c):
        return [("the nodes on the path stay marked", qall([u], (mark(c, u, True) == TEMP) == (mark(c, u, False) == TEMP), mark(c, u, True))),
                ("checked nodes stay checked", qall([u], z3.Implies(mark(c, u, False) == PERM, mark(c, u, True) == PERM), mark(c, u, True)))]

    def cyc(c, i, post):
        return c.en.read(c.post if post else c.pre, c.ptr_lv(i))

    def chain(K, c, cy):
        f = fns(K)
        return qall([k], z3.Implies(z3.And(k >= 0, k + 1 < cy["len"]), f["dnode"](conn_of(K, c, cy["at"][k + 1]), cy["at"][k])), cy["at"][k])

    def found(K, c, back, to):
        """The report of a cycle: closed, or still open towards a node on the path."""
        f = fns(K)
        cy = cyc(c, 1, True)
        n = cy["len"]
        fr, bk = cy["at"][0], cy["at"][n - 1]
        closed = z3.And(n > 1, fr == bk, f["reach"](conn_of(K, c, fr), fr), to(f, fr))
        opened = z3.And(mark(c, fr, False) == TEMP, back(f, bk, fr, n))
        return [("the path is not empty", n > 0), ("each node of the path refers to the one before it", chain(K, c, cy)), ("a closed cycle or a path to a node under way", z3.Or(closed, opened))]

    for K, (cls, ccls) in KINDS.items():
        f = fns(K)
        is_n = lambda fd, prog, key, i, t: prog.fdecl_tu[key].types[fd["p"][i]].elem.s.replace("const ", "").endswith(t)
        det = lambda fd, key, prog, K=K: fd["q"] == "scram::mef::cycle::DetectCycle" and is_n(fd, prog, key, 0, "::" + K)
        con = lambda fd, key, prog, K=K, t=ccls: fd["q"] == "scram::mef::cycle::ContinueConnector" and is_n(fd, prog, key, 0, t)
        req = lambda c, K=K: [("checked nodes reach no cycle", perm_wf(K, c, False)), ("an empty report", cyc(c, 1, False)["len"] == 0)] + ([("gates have formulas", qall([u], c.fld(u, G, "formula_") != 0, c.fld(u, G, "formula_")))] if K == "Gate" else [("no null arguments", nonnull(c))] if K == "Parameter" else [])

        def ens(c, K=K, f=f):
            r = c.rval()
            conn, node = conn_of(K, c, c.val(0)), c.val(0)
            yes = found(K, c, lambda f, bk, fr, n: z3.And(bk == node, z3.Or(z3.And(n == 1), z3.And(mark(c, node, False) == 0, f["reach"](conn, fr)))), lambda f, fr: z3.Or(fr == node, f["reach"](conn, fr)))
            no = [("no report", cyc(c, 1, True)["len"] == 0), ("the node is checked", mark(c, node, True) == PERM), ("the node reaches no cycle", f["wfc"](conn)),
                  ("checked nodes reach no cycle", perm_wf(K, c, True))] + marks_kept(c)
            return [("cycle: " + n, z3.Implies(r, t)) for n, t in yes] + [("no cycle: " + n, z3.Implies(z3.Not(r), t)) for n, t in no]

        def ens_c(c, K=K, f=f):
            r = c.rval()
            conn = c.val(0)
            yes = found(K, c, lambda f, bk, fr, n: z3.And(f["dnode"](conn, bk), f["reach"](conn, fr), z3.Or(n == 1, fr != bk)), lambda f, fr: f["reach"](conn, fr))
            no = [("no report", cyc(c, 1, True)["len"] == 0), ("the connector reaches no cycle", f["wfc"](conn)), ("checked nodes reach no cycle", perm_wf(K, c, True))] + marks_kept(c)
            return [("cycle: " + n, z3.Implies(r, t)) for n, t in yes] + [("no cycle: " + n, z3.Implies(z3.Not(r), t)) for n, t in no]
        mods = lambda c: [c.ptr_lv(1), ((NM, "mark_"), None)]
        out.append(Contract("DetectCycle<%s>" % K, det, lambda c, req=req, f=f: req(c) + [("a node", z3.And(c.val(0) != 0, f["kind"](c.val(0))))], ens, mods))
        out.append(Contract("ContinueConnector<%s>" % K, con, lambda c, K=K, f=f, req=req: req(c) + [("a connector", z3.And(c.val(0) != 0, f["step"](c.val(0))))], ens_c, mods,
                            trusted=None if K in OPEN else "the references of a %s are found by a visitor (bounded check)" % K.lower()))
        # ---- the check of a whole model
        sel = lambda fd, key, prog, K=K: fd["q"] == "scram::mef::cycle::CheckCycle" and "::" + K in prog.fdecl_tu[key].types[fd["p"][0]].s.replace("unique_ptr<", "").split(",")[0].split("*")[0].split(">")[0].split("<")[-1]
        elems = lambda c: c.val(0)
        out.append(Contract("PrintCycle<%s>" % K, lambda fd, key, prog, K=K: fd["q"] == "scram::mef::cycle::PrintCycle" and "::" + K in prog.fdecl_tu[key].types[fd["p"][0]].s,
                            lambda c: [("a closed path", z3.And(c.val(0)["len"] > 1, c.val(0)["at"][0] == c.val(0)["at"][c.val(0)["len"] - 1]))], trusted="text of the report (bounded check)"))

        def dom(c):
            x = c.val(0)
            while x.kind == "xform":
                x = c.en.read(c.pre, x.meta[0])
            return x

        def inside(c, n):
            d = dom(c)
            return d["dom"][n] if d.kind == "set" else z3.Exists([k], z3.And(k >= 0, k < d["len"], d["at"][k] == n))

        def creq(c, K=K, f=f):
            return [("checked nodes reach no cycle", perm_wf(K, c, False)), ("no check under way", qall([u], mark(c, u, False) != TEMP, mark(c, u, False))),
                    ("nodes", qall([u], z3.Implies(inside(c, u), z3.And(u != 0, f["kind"](u))), *([dom(c)["dom"][u]] if dom(c).kind == "set" else [])))] + (
                   [("gates have formulas", qall([u], c.fld(u, G, "formula_") != 0, c.fld(u, G, "formula_")))] if K == "Gate" else [("no null arguments", nonnull(c))] if K == "Parameter" else [])

        def cens(c, K=K, f=f):
            return [("the elements reach no cycle", qall([u], z3.Implies(inside(c, u), f["wfc"](conn_of(K, c, u))))), ("every element is checked", qall([u], z3.Implies(inside(c, u), mark(c, u, True) == PERM), mark(c, u, True)))]
        out.append(Contract("CheckCycle<%s>" % K, sel, creq, cens, lambda c: [((NM, "mark_"), None)],
                            lambda c, K=K, f=f: [(ERR, z3.Exists([u], z3.And(inside(c, u), z3.Not(f["wfc"](conn_of(K, c, u))))), True)]))
    return out


def visited(v):
    """The references handled so far lead to no cycle."""
    out = []
    if v.L["rng"] is None or v.L["kind"] != "vec":
        return out
    c = World(v.en)
    m, m0 = v.fld(u, NM, "mark_"), v.fld(u, NM, "mark_", True)
    for K in OPEN:
        f = fns(K)
        out.append((K + ": checked nodes reach no cycle", qall([u], z3.Implies(z3.And(f["kind"](u), m == PERM), f["wfc"](conn_of(K, c, u))), m)))
        for n, x, x0 in v.locals(sort=INT):
            if x.eq(x0):
                a, isn, isc = parts(K, c, x, k)
                out.append((K + ": visited nodes of " + n, qall([k], z3.Implies(z3.And(k >= 0, k < v.i, isn), f["wfc"](conn_of(K, c, a))), a)))
                out.append((K + ": visited connectors of " + n, qall([k], z3.Implies(z3.And(k >= 0, k < v.i, isc), f["wfc"](a)), a)))
    out += [("on the path", qall([u], (m == TEMP) == (m0 == TEMP), m)), ("checked stay", qall([u], z3.Implies(m0 == PERM, m == PERM), m))]
    for n, x, x0 in v.mod_locals(kind="vec"):
        out.append((n + " is empty", x["len"] == 0))
    return out


def checked(v):
    """The elements seen so far are checked."""
    out = []
    if v.L["rng"] is None:
        return out
    c = World(v.en)
    m = v.fld(u, NM, "mark_")
    seen = (lambda n: v.vis[n]) if v.L["kind"] == "set" else (lambda n: z3.Exists([k], z3.And(k >= 0, k < v.i, v.range["at"][k] == n))) if z3.is_array(v.range["at"]) and v.range["at"].range() == INT else None
    if seen is None:
        return out
    for K in KINDS:
        f = fns(K)
        out.append((K + ": checked nodes reach no cycle", qall([u], z3.Implies(z3.And(f["kind"](u), m == PERM), f["wfc"](conn_of(K, c, u))), m)))
        out.append((K + ": seen nodes reach no cycle", qall([u], z3.Implies(seen(u), f["wfc"](conn_of(K, c, u))), *([v.vis[u]] if v.L["kind"] == "set" else [m]))))
    out += [("none under way", qall([u], m != TEMP, m)), ("seen nodes are checked", qall([u], z3.Implies(seen(u), m == PERM), m))]
    for n, x, x0 in v.mod_locals(kind="vec"):
        out.append((n + " is empty", x["len"] == 0))
    return out


def loops():
    return [visited, checked]


SPEC = dict(id="C22", tus=["VERIF/native/inst/cycle.cc", "cycle.cc"], contracts=mk, axioms=axioms, lemmas=lambda: [],
            opts=dict(asserts="check", immutable=[(G, "formula_"), ("scram::mef::Link", "event_tree_"), (FO, "args_"), (EX, "args_")]), loops=loops(), assumptions=[
    "the references of branches, rules and event trees are found by visitors: their ContinueConnector contracts are assumed (bounded check)",
    "every gate has a formula and no expression has a null argument when cycles are looked for (established by the initializer)",
    "an object is a node of one kind (static types)", "the text of the report (bounded check)"])
