"""Contracts on mef::Phase, mef::Alignment (src/alignment.{h,cc}) and the phase context of core::RiskAnalysis."""
import z3
from core import *
from contracts import Contract
from engine import qall

PH, AL, EL = "scram::mef::Phase", "scram::mef::Alignment", "scram::mef::Element"
RA = "scram::core::RiskAnalysis"
REAL = z3.RealSort()
SETI = z3.ArraySort(INT, BOOL)
LOG, VAL = "scram::LogicError", "scram::mef::ValidityError"


total = z3.Function("sum_of_fractions", SETI, z3.ArraySort(INT, REAL), REAL)


def axioms(en):
    s, f, x = z3.Const("s!s", SETI), z3.Const("s!f", z3.ArraySort(INT, REAL)), z3.Const("s!x", INT)
    none, more = total(z3.K(INT, z3.BoolVal(False)), f), total(z3.Store(s, x, z3.BoolVal(True)), f)
    return [z3.ForAll([f], none == 0, patterns=[none]),
            z3.ForAll([s, f, x], z3.Implies(z3.Not(z3.Select(s, x)), more == total(s, f) + z3.Select(f, x)), patterns=[more])]


def mk(prog):
    DOT = z3.StringVal(".")
    ename = Contract("Element::Element", EL + "::Element", None, lambda c: [("the name", c.fld(c.this, EL, "name_") == c.val(0))], lambda c: [],
                     lambda c: [(LOG, c.val(0) == "", False), (VAL, z3.Contains(c.val(0), DOT), False)])
    ctor = Contract("Phase::Phase", PH + "::Phase", None,
                    lambda c: [("the fraction", c.fld(c.this, PH, "time_fraction_") == c.val(1)), ("the name", c.fld(c.this, EL, "name_") == c.val(0))], lambda c: [],
                    lambda c: [("scram::mef::DomainError", z3.And(c.val(0) != "", z3.Not(z3.Contains(c.val(0), DOT)), z3.Not(z3.And(c.val(1) > 0, c.val(1) <= 1))), False),
                               (LOG, c.val(0) == "", False), (VAL, z3.Contains(c.val(0), DOT), False)])

    # the sum of the fractions of a set of phases
    tab = next(k for k in prog.records if k.startswith("scram::mef::Container<scram::mef::Alignment, scram::mef::Phase"))
    phases = lambda c: c.fld(c.this, tab, "table_")["dom"]

    def fracs(en, st):
        k = (PH, "time_fraction_")
        h = st.heap.get(k)
        return h if h is not None else en.hkey_initial(k, en.field_ty(k))

    def frac(c):
        return fracs(c.en, c.pre)

    def bad(c):
        d = 1 - total(phases(c), frac(c))
        return z3.Or(d > z3.RealVal("0.0001"), -d > z3.RealVal("0.0001"))
    val = Contract("Alignment::Validate", AL + "::Validate", None, None, lambda c: [], lambda c: [(VAL, bad(c), False)],
                   loops=[lambda v: [("sum#%s" % n, x == total(v.vis, fracs(v.en, v.st))) for n, x, *_ in v.locals(sort=REAL)] if v.vis is not None else []])

    # ---- the phase context of an analysis
    M, MT, HE, ST = "scram::mef::Model", "scram::mef::MissionTime", "scram::mef::HouseEvent", "scram::core::Settings"
    INS = "scram::mef::SetHouseEvent"
    AN, ETA = "scram::core::Analysis", "scram::core::EventTreeAnalysis"
    run = lambda p: lambda fd, key, prog: fd["q"] == RA + "::RunAnalysis" and [prog.fdecl_tu[key].types[t].s for t in fd["p"]][0].startswith(p)
    model = lambda c: c.fld(c.this, RA, "model_")
    mt = lambda c: c.fld(model(c), M, "mission_time_")
    now = lambda c, old=True: c.fld(mt(c), MT, "value_", old)
    sett = lambda c, old=True: c.fld(c.this, AN, "settings_", old)["mission_time_"]
    state = lambda c, h, old=True: c.fld(h, HE, "state_", old)
    ROLE, ID = "scram::mef::Role", "scram::mef::Id"
    tab2 = next(k for k in prog.records if k.startswith("scram::mef::Container<scram::mef::Model, scram::mef::HouseEvent"))
    BA = z3.ArraySort(INT, BOOL)
    # the entry state of the run and its phase, named once for the callees
    H0, M0, HAS, FRAC, N, AT = (z3.Const("run!houses", BA), z3.Const("run!mission", REAL), z3.Const("run!has_phase", BOOL), z3.Const("run!fraction", REAL),
                                z3.Const("run!instructions", INT), z3.Const("run!instruction", z3.ArraySort(INT, INT)))
    h, g, i, j = (z3.Const("h!" + x, INT) for x in "hgij")
    NAME, KEY, SET, TAB = z3.Function("instruction_name", INT, STR), z3.Function("house_key", INT, STR), z3.Function("instruction_state", INT, BOOL), z3.Const("run!table", BA)

    def heap(en, st, k):
        x = st.heap.get(k)
        return x if x is not None else en.hkey_initial(k, en.field_ty(k))
    houses = lambda en, st: heap(en, st, (HE, "state_"))

    def setup(en, st, this, args):
        r = this.root[1] if isinstance(this, LVal) else this
        get = lambda cls, f, x: en.heap_get(st, (cls, f), x)
        m = get(RA, "model_", r)
        c = en.rv(st, args[0])
        ins = get(PH, "instructions_", c["val"]["phase"])
        for f in [H0 == houses(en, st), M0 == get(MT, "value_", get(M, "mission_time_", m)), HAS == c["has"], FRAC == get(PH, "time_fraction_", c["val"]["phase"]),
                  N == ins["len"], AT == ins["at"], TAB == get(tab2, "table_", m)["dom"]]:
            st.fact(f)
        q = lambda v, l, rhs: st.fact(z3.ForAll([v], l == rhs, patterns=[l]))
        q(h, KEY(h), z3.If(get(ROLE, "kRole_", h) == 0, get(EL, "name_", h), get(ID, "full_path_", h)))
        q(h, NAME(h), get(INS, "name_", h))
        q(h, SET(h), get(INS, "state_", h))

    def applied(arr, k):
        """The first k instructions are in force."""
        later = z3.ForAll([j], z3.Implies(z3.And(i < j, j < k), NAME(AT[j]) != NAME(AT[i])))
        return [("each instruction's last word", qall([i, h], z3.Implies(z3.And(0 <= i, i < k, TAB[h], KEY(h) == NAME(AT[i]), later), arr[h] == SET(AT[i])),
                                                          z3.MultiPattern(AT[i], arr[h]))),
                ("no other house event", qall([h], z3.Implies(z3.Or(z3.Not(TAB[h]), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), NAME(AT[j]) != KEY(h)))), arr[h] == H0[h]),
                                                   arr[h]))]

    def in_force(c):
        arr = houses(c.en, c.pre)
        return [(n, z3.Implies(HAS, t)) for n, t in applied(arr, N)] + [("without a phase, no change", z3.Implies(z3.Not(HAS), arr == H0))]

    def subreq(c):
        return in_force(c) + [("the phase's share of the mission", z3.And(now(c) == z3.If(HAS, FRAC * M0, M0), sett(c) == now(c)))]
    sub = Contract("RiskAnalysis::RunAnalysis(gate)", run("const scram::mef::Gate"), subreq, None, lambda c: [], trusted="runs the analyses of one gate, which read the model and restore the mission time (C17)")
    etac = Contract("EventTreeAnalysis::EventTreeAnalysis", ETA + "::EventTreeAnalysis", None, None, lambda c: [], trusted="stores its arguments")
    etaa = Contract("EventTreeAnalysis::Analyze", ETA + "::Analyze", in_force, None, lambda c: [], trusted="collects the sequences (C18)")

    def creq(c):
        x = c.val(0)
        d, ins = c.fld(model(c), tab2, "table_")["dom"], c.fld(x["val"]["phase"], PH, "instructions_")
        key = lambda e: z3.If(c.fld(e, ROLE, "kRole_") == 0, c.fld(e, EL, "name_"), c.fld(e, ID, "full_path_"))
        f = c.fld(x["val"]["phase"], PH, "time_fraction_")
        return [("mission times agree", z3.And(now(c) >= 0, sett(c) == now(c))),
                ("the phase's fraction", z3.Implies(x["has"], z3.And(f > 0, f <= 1))), ("instructions", ins["len"] >= 0),
                ("house events are unique by key", qall([h, g], z3.Implies(z3.And(d[h], d[g], key(h) == key(g)), h == g), z3.MultiPattern(d[h], d[g]))),
                ("instructions name house events of the model", qall([i], z3.Implies(z3.And(0 <= i, i < ins["len"]), z3.Exists([h], z3.And(
                    d[h], key(h) == c.fld(ins["at"][i], INS, "name_")))), ins["at"][i]))]

    def cens(c):
        return [("the model's mission time is as before", now(c, False) == now(c)), ("the settings' mission time is as before", sett(c, False) == sett(c)),
                ("house events are as before", z3.ForAll([h], state(c, h, False) == state(c, h)))]

    def record(v):
        """The states to restore."""
        out = []
        if ("h", (HE, "state_")) not in v.L["mods"]:
            return out
        arr = houses(v.en, v.st)
        for n, x, *_ in v.locals(kind="vec") + v.refs(kind="vec"):
            at = x["at"]
            if not (isinstance(at, Node) and at.kind == "rec" and set(at.ch) == {"first", "second"}) or at["second"].sort() != BA:
                continue
            hs, ss, ln = at["first"], at["second"], x["len"]
            first = z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i), hs[j] != hs[i]))
            no = lambda k: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), hs[j] != h))
            out.append(("length#%s" % n, ln >= 0))
            out.append(("first records keep the entry state#%s" % n, qall([i], z3.Implies(z3.And(0 <= i, i < ln, first), ss[i] == H0[hs[i]]), hs[i])))
            out.append(("unrecorded are unchanged#%s" % n, qall([h], z3.Implies(no(ln), arr[h] == H0[h]), arr[h])))
            for n2, it, *_ in v.locals(kind="iter"):
                if "rev" in it.ch:
                    out.append(("restored above#%s#%s" % (n, n2), z3.And(0 <= it["idx"], it["idx"] <= ln)))
                    out.append(("restored#%s#%s" % (n, n2), qall([h], z3.Implies(no(it["idx"]), arr[h] == H0[h]), arr[h])))
        if getattr(v, "i", None) is not None:
            out += [("%s#%s" % (n, "k"), t) for n, t in applied(arr, v.i)]
        return out
    ctx = Contract("RiskAnalysis::RunAnalysis(context)", run("std::optional"), creq, cens, lambda c: [
        ((MT, "value_"), mt(c)), ((HE, "state_"), None), ((AN, "settings_"), c.this), ((RA, "results_"), c.this), ((RA, "event_tree_results_"), c.this), ((ETA, "sequences_"), None)],
        setup=setup, loops=[record], opts=dict(merge=True, houdini_ms=6000, skip_frames=("of old objects", "results_ keeps its length", "sequences_ of other", "state_ of other")))
    return [ename, ctor, val, sub, etac, etaa, ctx]


SPEC = dict(id="C21", tus=["alignment.cc", "element.cc", "risk_analysis.cc", "settings.cc", "parameter.cc", "event_tree_analysis.cc"], contracts=mk, axioms=axioms, opts=dict(asserts="check"), loops=[], assumptions=["the elements of a table keep their keys while they are in it", "the analyses of one gate and of an event tree leave house events alone (bounded check)"])
