"""Contracts on mef::Substitution (src/substitution.{h,cc})."""
import z3
from core import *
from contracts import Contract
from engine import qall
from specs.formula import F, AS, EL, ID, ROLE, AND, OR, ATL, NULL, elem

SB = "scram::mef::Substitution"
BE = 1                       # ArgEvent: gate, basic event, house event
DELETE, RECOVERY, EXCHANGE = 0, 1, 2
VAL, DUP = "scram::mef::ValidityError", "scram::mef::DuplicateElementError"


def mk(prog):
    kinds = [a.elem.d or a.elem.s for a in prog.tystr["std::variant<scram::mef::Gate *, scram::mef::BasicEvent *, scram::mef::HouseEvent *>"].args]
    assert "BasicEvent" in kinds[BE], kinds
    H = lambda c: c.fld(c.this, SB, "hypothesis_")
    args = lambda c: c.fld(H(c), F, "args_")["args_"]
    conn = lambda c: c.fld(H(c), F, "connective_")
    src = lambda c, old=True: c.fld(c.this, SB, "source_", old)
    tgt = lambda c: c.fld(c.this, SB, "target_")
    decl = lambda c: src(c)["len"] == 0
    is_const = lambda c: tgt(c)["which"] == 1

    def exists(c, pred):
        i = z3.Const(fresh_name("hi"), INT)
        a = args(c)
        return z3.Exists([i], z3.And(i >= 0, i < a["len"], pred(elem(a, i))))

    def invalid(c):
        sup = z3.Or(conn(c) == NULL, conn(c) == AND, conn(c) == OR)
        return z3.Or(exists(c, lambda e: e["event"]["which"] != BE), exists(c, lambda e: e["complement"]),
                     z3.If(decl(c), z3.Or(z3.Not(z3.Or(sup, conn(c) == ATL)), z3.And(is_const(c), tgt(c)["a1"])),
                           z3.Or(z3.Not(sup), z3.And(is_const(c), z3.Not(tgt(c)["a1"])))))
    base = lambda c: [("hypothesis is set", H(c) > 0), ("target", z3.And(tgt(c)["which"] >= 0, tgt(c)["which"] <= 1))]
    val = Contract("Substitution::Validate", SB + "::Validate", base, None, lambda c: [], lambda c: [(VAL, invalid(c), False)])
    dec = Contract("Substitution::declarative", SB + "::declarative", None, lambda c: [("without sources", c.rval() == decl(c))], lambda c: [])

    # ---- type
    def member(c, x):
        return exists(c, lambda e: e["event"]["p"] == x)

    def kind(c):
        i = z3.Const(fresh_name("si"), INT)
        s = src(c)
        one = z3.Select(s["at"], i)
        every = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s["len"]), member(c, one)))
        n = args(c)["len"]
        excl = z3.If(conn(c) == ATL, c.fld(H(c), F, "min_number_") == 2, z3.And(conn(c) == AND, n == 2))
        line = z3.Or(conn(c) == AND, conn(c) == NULL)
        rec = z3.If(decl(c), z3.And(z3.Not(is_const(c)), conn(c) == AND), z3.And(z3.Not(is_const(c)), line, s["len"] == n, every))
        return [("delete terms", z3.And(decl(c), is_const(c), excl), DELETE), ("recovery rule", rec, RECOVERY),
                ("exchange event", z3.And(s["len"] == 1, n != 1, z3.Not(is_const(c)), line, member(c, z3.Select(s["at"], 0))), EXCHANGE)]

    def tens(c):
        r = c.rval()
        ks = kind(c)
        return [(n + " exactly for its form", z3.And(r["has"], r["val"] == v) == f) for n, f, v in ks] + [
            ("no other type", z3.Implies(r["has"], z3.Or(*[r["val"] == v for _, _, v in ks])))]
    typ = Contract("Substitution::type", SB + "::type", lambda c: base(c) + [("validated", z3.Not(invalid(c)))], tens, lambda c: [])

    # ---- sources
    def eid(c, r):
        return z3.If(c.fld(r, ROLE, "kRole_") == 0, c.fld(r, EL, "name_"), c.fld(r, ID, "full_path_"))

    def dup(c):
        i = z3.Const(fresh_name("di"), INT)
        s = src(c)
        return z3.Exists([i], z3.And(i >= 0, i < s["len"], eid(c, z3.Select(s["at"], i)) == eid(c, c.val(0))))

    def aens(c):
        i = z3.Const(fresh_name("ai"), INT)
        s, t = src(c), src(c, False)
        return [("one more source", t["len"] == s["len"] + 1), ("the source", z3.Select(t["at"], s["len"]) == c.val(0)),
                ("the others are kept", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s["len"]), z3.Select(t["at"], i) == z3.Select(s["at"], i))))]
    add = Contract("Substitution::Add", SB + "::Add", lambda c: [("event", c.val(0) > 0)], aens, lambda c: [((SB, "source_"), c.this)], lambda c: [(DUP, dup(c), False)])
    return [val, dec, typ, add]


SPEC = dict(id="C26", tus=["substitution.cc", "event.cc"], contracts=mk, opts=dict(asserts="check"), loops=[], assumptions=["the hypothesis satisfies the rules of its connective (C14)"])
