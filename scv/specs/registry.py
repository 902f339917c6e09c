"""Contracts on the registries of a model: mef::Container (src/element.h), Model (src/model.{h,cc}) and Component (src/fault_tree.{h,cc})."""
import z3
from core import *
from contracts import Contract
from engine import qall

CT, CE, EL, ID, ROLE = "scram::mef::Container<", "scram::mef::ContainerElement", "scram::mef::Element", "scram::mef::Id", "scram::mef::Role"
M, CO = "scram::mef::Model", "scram::mef::Component"
DUP, UND, LOG = "scram::mef::DuplicateElementError", "scram::mef::UndefinedElement", "scram::LogicError"
SETI = z3.ArraySort(INT, BOOL)
x, y = z3.Const("r!x", INT), z3.Const("r!y", INT)


def mk(prog):
    mi = {}
    for k, r in prog.records.items():
        t = next((f["t"] for f in r["fields"] if f["n"] == "table_"), None) if k.startswith(CT) else None
        if t is not None:
            mi[k] = r["tu"].types[t].mi

    def of(cls, n):
        """The member functions n of a container class (defaulted template arguments are not spelled in their names)."""
        def sel(fd, key, prog):
            q, m = fd["q"].rsplit("::", 1) if "::" in fd["q"] else ("", fd["q"])
            return m == n and q.startswith(CT) and (cls == q or cls.startswith(q[:-1] + ","))
        return sel

    name = lambda c, r: c.fld(r, EL, "name_")
    eid = lambda c, r: z3.If(c.fld(r, ROLE, "kRole_") == 0, name(c, r), c.fld(r, ID, "full_path_"))

    def key(c, cls, r):
        return eid(c, r) if "Id::" in mi[cls] else name(c, r)
    dom = lambda c, cls, old=True: c.fld(c.this, cls, "table_", old)["dom"]
    uniq = lambda c, cls, d: qall([x, y], z3.Implies(z3.And(d[x], d[y], key(c, cls, x) == key(c, cls, y)), x == y), z3.MultiPattern(d[x], d[y]))
    found = lambda c, cls, k: z3.Exists([x], z3.And(dom(c, cls)[x], key(c, cls, x) == k))

    def ptr(c, i=0):
        v = c.val(i)
        return v if isinstance(v, z3.ExprRef) else v
    wf = lambda c, cls: [("elements are unique by key", uniq(c, cls, dom(c, cls))), ("no null element", z3.Not(dom(c, cls)[0]))]
    elem = lambda c: [("an element", c.val(0) > 0)]

    def added(c, cls):
        return [("registered", dom(c, cls, False) == z3.Store(dom(c, cls), c.val(0), z3.BoolVal(True))), ("unique by key", uniq(c, cls, dom(c, cls, False))),
                ("its container", c.fld(c.val(0), CE, "container_", False) == c.this)]

    def removed(c, cls):
        return [("no longer registered", dom(c, cls, False) == z3.Store(dom(c, cls), c.val(0), z3.BoolVal(False))), ("the element", c.rval() == c.val(0)),
                ("no container", c.fld(c.val(0), CE, "container_", False) == 0)]

    def got(c, cls):
        r = c.result()
        return [("the element of the key", z3.And(dom(c, cls)[r], key(c, cls, r) == c.val(0)))]
    out = []
    for cls in sorted(mi):
        for n in ("Add", "Remove", "Get"):
            sel = of(cls, n)
            label = cls.replace("scram::mef::", "") + "::" + n
            mods = lambda c, cls=cls: [((cls, "table_"), c.this), ((CE, "container_"), c.val(0))]
            if n == "Add":
                out.append(Contract(label, sel, lambda c, cls=cls: wf(c, cls) + elem(c), lambda c, cls=cls: added(c, cls), mods, lambda c, cls=cls: [(DUP, found(c, cls, key(c, cls, c.val(0))), False)]))
            elif n == "Remove":
                f = lambda c, cls=cls: found(c, cls, key(c, cls, c.val(0)))
                out.append(Contract(label, sel, lambda c, cls=cls: wf(c, cls) + elem(c), lambda c, cls=cls: removed(c, cls), mods, lambda c, cls=cls, f=f: [
                    (UND, z3.Not(f(c)), False), (LOG, z3.And(f(c), z3.Not(dom(c, cls)[c.val(0)])), False)]))
            else:
                out.append(Contract(label, sel, wf_(cls, wf), lambda c, cls=cls: got(c, cls), lambda c: [], lambda c, cls=cls: [(UND, z3.Not(found(c, cls, c.val(0))), False)]))

    # ---- events are unique across the three event tables of a model and of a component
    def cls_of(owner, elem):
        return next(k for k in mi if k.startswith("%s%s, scram::mef::%s," % (CT, owner, elem)))
    EV = ("Gate", "BasicEvent", "HouseEvent")
    CCF = "scram::mef::CcfGroup"
    i, j = z3.Const("r!i", INT), z3.Const("r!j", INT)
    for owner, lab in ((M, "Model"), (CO, "Component")):
        cs = {e: cls_of(owner, e) for e in EV}
        kind = cs["Gate"]
        taken = lambda c, k, cs=cs: z3.Or(*[found(c, cls, k) for cls in cs.values()])
        ekey = lambda c, r, kind=kind: key(c, kind, r)
        wfs = lambda c, cs=cs: [("%s: %s" % (e, n), t) for e, cls in cs.items() for n, t in wf(c, cls)]
        out.append(Contract(lab + "::CheckDuplicateEvent", owner + "::CheckDuplicateEvent", wfs, lambda c: [], lambda c: [], lambda c, taken=taken, ekey=ekey: [(DUP, taken(c, ekey(c, c.val(0))), False)]))
        for e, cls in cs.items():
            sel = lambda fd, k, prog, owner=owner, e=e: fd["q"] == owner + "::Add" and any(w in prog.fdecl_tu[k].types[fd["p"][0]].s for w in ("mef::%s," % e, "mef::%s *" % e))
            out.append(Contract("%s::Add(%s)" % (lab, e), sel, lambda c, wfs=wfs: wfs(c) + elem(c), lambda c, cls=cls: added(c, cls), lambda c, cls=cls: [((cls, "table_"), c.this), ((CE, "container_"), c.val(0))],
                                lambda c, taken=taken, ekey=ekey: [(DUP, taken(c, ekey(c, c.val(0))), False)]))

        if owner == M:
            def gens(c, cs=cs):
                r = c.rval()
                return [("the event of the id", z3.Or(*[z3.And(r["which"] == w, dom(c, cs[e])[r["p"]], eid(c, r["p"]) == c.val(0)) for w, e in enumerate(EV)]))]
            out.append(Contract("Model::GetEvent", M + "::GetEvent", wfs, gens, lambda c: [], lambda c, taken=taken: [(UND, z3.Not(taken(c, c.val(0))), False)]))

    # ---- the members of a CCF group have distinct names
    mine = lambda c, old=True: c.fld(c.this, CCF, "members_", old)
    some = lambda c: z3.Exists([i], z3.And(0 <= i, i < mine(c)["len"], name(c, mine(c)["at"][i]) == name(c, c.val(0))))
    distinct = lambda c, m: qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m["len"]), name(c, m["at"][i]) != name(c, m["at"][j])), z3.MultiPattern(m["at"][i], m["at"][j]))
    fixed = lambda c: z3.Or(c.fld(c.this, CCF, "distribution_") != 0, c.fld(c.this, CCF, "factors_")["len"] > 0)

    def mens(c):
        m, n = mine(c), mine(c, False)
        return [("one more member", z3.And(n["len"] == m["len"] + 1, n["at"][m["len"]] == c.val(0))), ("the others are kept", qall([i], z3.Implies(z3.And(0 <= i, i < m["len"]), n["at"][i] == m["at"][i]), n["at"][i])),
                ("members have distinct names", distinct(c, n))]
    out.append(Contract("CcfGroup::AddMember", CCF + "::AddMember", lambda c: elem(c) + [("lengths", z3.And(mine(c)["len"] >= 0, c.fld(c.this, CCF, "factors_")["len"] >= 0)), ("members have distinct names", distinct(c, mine(c)))], mens,
                        lambda c: [((CCF, "members_"), c.this)], lambda c: [(LOG, fixed(c), False), (DUP, z3.And(z3.Not(fixed(c)), some(c)), False)]))

    # ---- a CCF group joins a component together with its members
    cs, cc = {e: cls_of(CO, e) for e in EV}, cls_of(CO, "CcfGroup")
    be = cs["BasicEvent"]
    mem = lambda c: c.fld(c.val(0), CCF, "members_")
    ccf_taken = lambda c: z3.Or(found(c, cc, name(c, c.val(0))), z3.Exists([i], z3.And(0 <= i, i < mem(c)["len"], z3.Or(*[found(c, cl, name(c, mem(c)["at"][i])) for cl in cs.values()]))))

    def creq(c):
        m = mem(c)
        return elem(c) + [("%s: %s" % (e, n), t) for e, cl in list(cs.items()) + [("CcfGroup", cc)] for n, t in wf(c, cl)] + [
            ("members", z3.And(m["len"] >= 0, qall([i], z3.Implies(z3.And(0 <= i, i < m["len"]), m["at"][i] > 0), m["at"][i]))),
            ("members have distinct names", qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m["len"]), name(c, m["at"][i]) != name(c, m["at"][j])), z3.MultiPattern(m["at"][i], m["at"][j])))]

    def cens(c):
        m = mem(c)
        return added(c, cc) + [("exactly the members join", qall([x], dom(c, be, False)[x] == z3.Or(dom(c, be)[x], z3.Exists([i], z3.And(0 <= i, i < m["len"], m["at"][i] == x))), dom(c, be, False)[x])),
                               ("unique by key", uniq(c, be, dom(c, be, False))),
                               ("their container", qall([i], z3.Implies(z3.And(0 <= i, i < m["len"]), c.fld(m["at"][i], CE, "container_", False) == c.this), m["at"][i]))]

    def join(v):
        k = getattr(v, "i", None)
        if k is None:
            return []
        en, st = v.en, v.st
        r = en.rv(st, v.L["rng"])
        this = v.fr.this.root[1] if isinstance(v.fr.this, LVal) else v.fr.this
        at = r["at"]
        out = []
        if ("h", (be, "table_")) in v.L["mods"]:
            d, d0 = en.heap_get(st, (be, "table_"), this)["dom"], en.heap_get(v.entry, (be, "table_"), this)["dom"]
            con = st.heap.get((CE, "container_"))
            con = con if con is not None else en.hkey_initial((CE, "container_"), en.field_ty((CE, "container_")))
            out += [("joined so far", qall([x], d[x] == z3.Or(d0[x], z3.Exists([i], z3.And(0 <= i, i < k, at[i] == x))), d[x])),
                    ("their container", qall([i], z3.Implies(z3.And(0 <= i, i < k), con[at[i]] == this), at[i]))]
        else:
            nm = lambda y: en.heap_get(st, (EL, "name_"), y)
            out.append(("checked so far", z3.And(*[qall([i, x], z3.Implies(z3.And(0 <= i, i < k, en.heap_get(st, (cl, "table_"), this)["dom"][x]), nm(x) != nm(at[i])),
                                                        z3.MultiPattern(at[i], en.heap_get(st, (cl, "table_"), this)["dom"][x])) for cl in cs.values()])))
        return out
    sel = lambda fd, k, prog: fd["q"] == CO + "::Add" and "CcfGroup" in prog.fdecl_tu[k].types[fd["p"][0]].s
    out.append(Contract("Component::Add(CcfGroup)", sel, creq, cens, lambda c: [((cc, "table_"), c.this), ((be, "table_"), c.this), ((CE, "container_"), None)], lambda c: [(DUP, ccf_taken(c), False)], loops=[join],
                        opts=dict(skip_frames=("of old objects", "container_ of other"))))
    return out


def wf_(cls, wf):
    return lambda c: wf(c, cls)


SPEC = dict(id="C25", tus=["VERIF/native/inst/model.cc", "model.cc", "fault_tree.cc", "element.cc", "ccf_group.cc"], contracts=mk, opts=dict(asserts="check"), loops=[], assumptions=["an element keeps its key while it is registered"])
