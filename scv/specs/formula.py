"""Contracts on mef::Formula (src/event.{h,cc}): what is accepted."""
import z3
from core import *
from contracts import Contract
from engine import qall

F = "scram::mef::Formula"
AS = F + "::ArgSet"
EL = "scram::mef::Element"
ID = "scram::mef::Id"
EV = "scram::mef::Usage"
ROLE = "scram::mef::Role"
VAL, LOG, DUP = "scram::mef::ValidityError", "scram::LogicError", "scram::mef::DuplicateElementError"
AND, OR, ATL, XOR, NOT, NAND, NOR, NULL, IFF, IMP, CARD = range(11)


def argvec(c, lv, old):
    st = c.pre if old else c.post
    return c.en.read(st, lv)


def elem(v, i):
    return tmap(lambda a: z3.Select(a, i), v["at"])


def mk(prog):
    def en_id(c, r, old=True):
        """Id::id(): the name of a public element, otherwise its full path."""
        return z3.If(c.fld(r, ROLE, "kRole_", old) == 0, c.fld(r, EL, "name_", old), c.fld(r, ID, "full_path_", old))

    # ---- ArgSet::Add(ArgEvent, bool)
    def vec(c, old):
        return c.en.read(c.pre if old else c.post, c._this.sub(("f", AS, "args_")))

    def dup(c, ev):
        v = vec(c, True)
        i = z3.Const(fresh_name("di"), INT)
        return z3.Exists([i], z3.And(i >= 0, i < v["len"], en_id(c, elem(v, i)["event"]["p"]) == en_id(c, ev)))

    def added(c, ev, comp):
        a, b = vec(c, True), vec(c, False)
        i = z3.Const(fresh_name("ki"), INT)
        last = elem(b, a["len"])
        return [("one more argument", b["len"] == a["len"] + 1),
                ("the others are kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a["len"]), c.en.tree_eq(elem(a, i), elem(b, i))))),
                ("the event and its complement flag", z3.And(last["complement"] == comp, c.en.tree_eq(last["event"], ev))),
                ("the event is in use", c.fld(ev["p"], EV, "usage_", False))]

    def add_sel(n):
        return lambda fd, k, P: fd["q"] == AS + "::Add" and len(fd["p"]) == n

    mod_add = lambda ev: lambda c: [c._this.sub(("f", AS, "args_")), ((EV, "usage_"), ev(c)["p"])]
    add2 = Contract("Formula::ArgSet::Add", add_sel(2), lambda c: [("event", c.val(0)["p"] > 0)], lambda c: added(c, c.val(0), c.arg(1)),
                    mod_add(lambda c: c.val(0)), lambda c: [(DUP, dup(c, c.val(0)["p"]), False)])
    add1 = Contract("Formula::ArgSet::Add(Arg)", add_sel(1), lambda c: [("event", c.val(0)["event"]["p"] > 0)],
                    lambda c: added(c, c.val(0)["event"], c.val(0)["complement"]),
                    mod_add(lambda c: c.val(0)["event"]), lambda c: [(DUP, dup(c, c.val(0)["event"]["p"]), False)])

    # ---- ArgSet::Remove
    def has(c):
        v = vec(c, True)
        i = z3.Const(fresh_name("hi"), INT)
        return z3.Exists([i], z3.And(i >= 0, i < v["len"], c.en.tree_eq(elem(v, i)["event"], c.val(0))))

    def removed(c):
        a, b = vec(c, True), vec(c, False)
        i, j, k = (z3.Const(fresh_name("r"), INT) for _ in range(3))
        shift = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < b["len"]), c.en.tree_eq(elem(b, i), tmap(lambda x, y: z3.If(i < j, x, y), elem(a, i), elem(a, i + 1)))))
        return [("one argument with the event is removed", z3.Exists([j], z3.And(
            j >= 0, j < a["len"], b["len"] == a["len"] - 1, c.en.tree_eq(elem(a, j)["event"], c.val(0)), shift)))]
    rem = Contract("Formula::ArgSet::Remove", AS + "::Remove", None, removed, lambda c: [c._this.sub(("f", AS, "args_"))],
                   lambda c: [(LOG, z3.Not(has(c)), False)])

    # ---- Formula validation
    conn = lambda c, old=True: c.fld(c.this, F, "connective_", old)
    fmin = lambda c: c.fld(c.this, F, "min_number_", True)
    fmax = lambda c: c.fld(c.this, F, "max_number_", True)
    nargs = lambda c, old=True: c.fld(c.this, F, "args_", old)["args_"]["len"]

    def minmax_bad(cn, mn, mx):
        logic = z3.Or(z3.And(mn["has"], z3.Or(mn["val"] < 0, z3.And(cn != ATL, cn != CARD))),
                      z3.And(mx["has"], z3.Or(mx["val"] < 0, cn != CARD)))
        order = z3.And(mn["has"], mx["has"], mn["val"] > mx["val"])
        return logic, order

    BIG = 65535

    def too_big(mn, mx):
        return z3.Or(z3.And(mn["has"], mn["val"] > BIG), z3.And(mx["has"], mx["val"] > BIG))

    def vmm_throws(c):
        logic, order = minmax_bad(conn(c), c.val(0), c.val(1))
        bad = too_big(c.val(0), c.val(1))
        return [(LOG, logic, False), (VAL, z3.Or(order, bad), False)]
    # Both errors may be due: then one of them is thrown.
    vmm = Contract("Formula::ValidateMinMaxNumber", F + "::ValidateMinMaxNumber", None, None, lambda c: [], vmm_throws)

    def conn_bad(cn, n, hasmin, hasmax, mn, mx):
        return z3.Or(
            z3.And(z3.Or(cn == AND, cn == OR, cn == NAND, cn == NOR), n < 2),
            z3.And(z3.Or(cn == NOT, cn == NULL), n != 1),
            z3.And(z3.Or(cn == XOR, cn == IFF, cn == IMP), n != 2),
            z3.And(cn == ATL, z3.Or(z3.Not(hasmin), mn < 2, n <= mn)),
            z3.And(cn == CARD, z3.Or(z3.Not(hasmin), z3.Not(hasmax), n < 1, n < mx)))

    vc = Contract("Formula::ValidateConnective", F + "::ValidateConnective", None, None, lambda c: [],
                  lambda c: [(VAL, conn_bad(conn(c), nargs(c), c.val(0)["has"], c.val(1)["has"], fmin(c), fmax(c)), False)])

    def const_event(c, ev):
        return z3.And(ev["which"] == 2, z3.Or(ev["p"] == z3.Const("g_kTrue", INT), ev["p"] == z3.Const("g_kFalse", INT)))

    def nest_bad(c, cn, a):
        g = c.en.globals
        t = [z3.And(a["event"]["which"] == 2, a["event"]["p"] == const_addr(c.en, n)) for n in ("kTrue", "kFalse")]
        return z3.Or(z3.And(a["complement"], z3.Or(cn == NULL, cn == NOT)), z3.And(cn == NOT, z3.Or(*t)))

    vn = Contract("Formula::ValidateNesting", F + "::ValidateNesting", None, None, lambda c: [],
                  lambda c: [(LOG, nest_bad(c, conn(c), c.val(0)), False)])

    # ---- Formula::Formula
    def ctor_sel(fd, k, P):
        return fd["q"] == F + "::Formula" and len(fd["p"]) == 4

    def ctor_args(c):
        return c.val(0), c.val(1)["args_"], c.val(2), c.val(3)

    def any_nest(c, cn, a):
        i = z3.Const(fresh_name("ni"), INT)
        return z3.Exists([i], z3.And(i >= 0, i < a["len"], nest_bad(c, cn, elem(a, i))))

    def ctor_thr(c):
        cn, a, mn, mx = ctor_args(c)
        logic, order = minmax_bad(cn, mn, mx)
        cb = conn_bad(cn, a["len"], mn["has"], mx["has"], mn["val"], mx["val"])
        return [(LOG, z3.Or(logic, any_nest(c, cn, a)), False), (VAL, z3.Or(order, cb, too_big(mn, mx)), False)]

    def ctor_ens(c):
        cn, a, mn, mx = ctor_args(c)
        n = lambda f: c.fld(c.this, F, f, False)
        b = n("args_")["args_"]
        return [("the connective is kept", n("connective_") == cn), ("the arguments are kept", c.en.tree_eq(b, a)),
                ("the min number is kept", z3.Implies(mn["has"], n("min_number_") == mn["val"])),
                ("the max number is kept", z3.Implies(mx["has"], n("max_number_") == mx["val"]))]

    def ctor_loop(v):
        if not hasattr(v, "i") or v.range.kind != "vec":
            return []
        this = v.fr.this.root[1]

        class c:
            en = v.en
        cn = v.en.heap_get(v.st, (F, "connective_"), this)
        i = z3.Const(fresh_name("li"), INT)
        return [("no invalid argument so far", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.i), z3.Not(nest_bad(c, cn, elem(v.range, i))))))]

    ctor = Contract("Formula::Formula", ctor_sel, None, ctor_ens,
                    lambda c: [((F, f), c.this) for f in ("connective_", "min_number_", "max_number_", "args_")], ctor_thr, loops=[ctor_loop])

    # ---- accessors
    def opt_is(r, has, val):
        return [("present", r["has"] == has), ("value", z3.Implies(has, r["val"] == val))]
    gmin = Contract("Formula::min_number", F + "::min_number", None,
                    lambda c: opt_is(c.rval(), z3.Or(conn(c) == ATL, conn(c) == CARD), fmin(c)), lambda c: [])
    gmax = Contract("Formula::max_number", F + "::max_number", None,
                    lambda c: opt_is(c.rval(), conn(c) == CARD, fmax(c)), lambda c: [])
    gcon = Contract("Formula::connective", F + "::connective", None, lambda c: [("value", c.rval() == conn(c))], lambda c: [])

    # ---- Formula::Swap
    def fvec(c, old):
        return c.fld(c.this, F, "args_", old)["args_"]

    def swap_thr(c):
        a = fvec(c, True)
        i, j = (z3.Const(fresh_name("si"), INT) for _ in range(2))
        cur, oth = c.val(0), c.val(1)
        inr = lambda k: z3.And(k >= 0, k < a["len"])
        absent = z3.Not(z3.Exists([i], z3.And(inr(i), c.en.tree_eq(elem(a, i)["event"], cur))))
        dupl = z3.Exists([j], z3.And(inr(j), z3.Not(c.en.tree_eq(elem(a, j)["event"], cur)), en_id(c, elem(a, j)["event"]["p"]) == en_id(c, oth["p"])))
        first = lambda k: z3.And(inr(k), c.en.tree_eq(elem(a, k)["event"], cur), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(c.en.tree_eq(elem(a, j)["event"], cur)))))
        nest = z3.Exists([i], z3.And(first(i), nest_bad(c, conn(c), Node("rec", {"complement": elem(a, i)["complement"], "event": oth}))))
        return [(LOG, z3.Or(absent, nest), False), (DUP, dupl, False)]

    def swap_ens(c):
        a, b = fvec(c, True), fvec(c, False)
        i, j = (z3.Const(fresh_name("si"), INT) for _ in range(2))
        cur, oth = c.val(0), c.val(1)
        return [("the count is kept", a["len"] == b["len"]),
                ("the event is replaced at one place", z3.Exists([i], z3.And(
                    i >= 0, i < a["len"], c.en.tree_eq(elem(a, i)["event"], cur), c.en.tree_eq(elem(b, i)["event"], oth),
                    elem(a, i)["complement"] == elem(b, i)["complement"],
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a["len"], j != i), c.en.tree_eq(elem(a, j), elem(b, j)))))))]
    swap = Contract("Formula::Swap", F + "::Swap", lambda c: [("event", c.val(1)["p"] > 0)], swap_ens,
                    lambda c: [((F, "args_"), c.this), ((EV, "usage_"), c.val(1)["p"])], swap_thr)
    return [add2, add1, rem, vmm, vc, vn, ctor, gmin, gmax, gcon, swap]


def const_addr(en, n):
    return z3.Const("g_scram::mef::HouseEvent::" + n, INT)


SPEC = dict(id="C14", tus=["event.cc"], contracts=mk, opts=dict(), loops=[])
