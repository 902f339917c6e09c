"""Modular verification of one function against its contract."""
import multiprocessing
import os
import sys
import time
import traceback
import z3
from core import *
import engine
import contracts
import solve


class Result:
    def __init__(self, fn, con):
        self.fn, self.con = fn, con
        self.status = "ok"          # ok | failed | unsupported
        self.obls = []              # (name, kind, status, backend, secs, model)
        self.note = ""
        self.meta = {}


def setup_state(en, key, con):
    """Symbolic pre-state: this, params."""
    P = en.P
    fd, f = P.fdecls[key], P.functions[key]
    tu = f["tu"]
    st = State()
    st.alloc = z3.Const("alloc0", INT)
    st.fact(st.alloc > 0)
    this = None
    if fd.get("cls") and not fd.get("static"):
        if fd["cls"] not in P.records and not fd.get("lambda"):
            raise Unsupported("class of %s not extracted" % fd["q"])
        t = P.tystr.get(fd["cls"])
        if t is None:
            raise Unsupported("no type for " + fd["cls"])
        ref = z3.Const("this", INT)
        this = LVal(("h", ref), (), t)
        if t.cat == "vec":
            v = en.fresh(t, "this")
            ranged(en, st, v, t)
            this = en.temp(st, v, t)
        if fd.get("ctor"):
            st.fact(ref == st.alloc)
            st.alloc = ref + 1
            st.ghost["fresh"] = (ref,)
        else:
            st.fact(z3.And(ref > 0, ref < st.alloc))
    args = []
    for i, p in enumerate(f["params"]):
        pt = tu.types[p["t"]]
        args.append(sym_arg(en, st, pt, "p%d_%s" % (i, p.get("n") or "")))
    return st, this, args


def sym_arg(en, st, pt, name):
    if pt.k in ("lref", "rref"):
        et = pt.elem
        if et.d in ("scram::mef::TableRange", "boost::range_detail::indirected_range"):
            v = en.fresh(et.args[0], name)
            ranged(en, st, v, et.args[0])
            return en.temp(st, en.lib.table_range(st, en.temp(st, v, et.args[0])), et)
        if et.cat == "record" and et.s in en.P.records and (not et.d.startswith("ext::") or en.opts.get("verify_ext")):
            r = z3.Const(name, INT)
            st.fact(z3.And(r > 0, r < st.alloc))
            return LVal(("h", r), (), et)
        v = en.fresh(et, name)
        ranged(en, st, v, et)
        return en.temp(st, v, et)
    if pt.k == "ptr":
        et = pt.elem
        if et.cat == "record" and et.s in en.P.records:
            r = z3.Const(name, INT)
            st.fact(z3.And(r >= 0, r < st.alloc))
            return r
        if et.k == "int" and et.w == 8:
            return z3.Const(name, STR)
        v = en.fresh(et, name + "_pointee")
        ranged(en, st, v, et)
        return PtrTo(en.temp(st, v, et))
    v = en.fresh(pt, name)
    ranged(en, st, v, pt)
    return v


def ranged(en, st, v, t):
    """Machine ranges of scalars, lengths, allocated pointers."""
    if isinstance(v, z3.ExprRef) and v.sort() == INT:
        if t.k == "int" and t.w:
            if t.u:
                st.fact(z3.And(v >= 0, v < (1 << t.w)))
            else:
                st.fact(z3.And(v >= -(1 << (t.w - 1)), v < (1 << (t.w - 1))))
        elif t.cat == "sptr" or t.k == "ptr":
            st.fact(z3.And(v >= 0, v < st.alloc))
        elif t.k == "enum" and t.s in en.P.enums:
            vals = en.P.enums[t.s]
            try:
                vs = [int(x["v"]) for x in vals]
            except Exception:
                vs = [int(x) for x in (vals.values() if isinstance(vals, dict) else [])]
            if vs:
                st.fact(z3.Or(*[v == x for x in vs]))
    elif isinstance(v, Node) and v.kind == "vec":
        st.fact(v["len"] >= 0)
    elif isinstance(v, Node) and v.kind == "set":
        for f in en.lib.set_facts(v["dom"]):
            st.fact(f)


def generate(prog, spec, key, con, ablate=None):
    """Run the symbolic executor: -> engine with obligations."""
    reg = contracts.Registry(prog, spec["contracts"](prog), spec.get("hooks"))
    con = reg.by_key[key]
    opts = dict(spec.get("opts", {}))
    opts.update(con.opts)
    en = engine.Engine(prog, reg, opts)
    en.cur, en.cur_key = con.name if len(con.keys) == 1 else con.name + "<" + prog.fdecls[key]["q"] + ">", key
    if len(con.keys) > 1:
        en.cur = "%s#%d" % (con.name, con.keys.index(key))
    reg.loops = list(spec.get("loops", ())) + con.loops
    fd, f = prog.fdecls[key], prog.functions[key]
    st, this, args = setup_state(en, key, con)
    solve.RELEVANCY = spec.get("opts", {}).get("relevancy")
    solve.RETRIES = spec.get("opts", {}).get("retries", False)
    solve.set_axioms(spec["axioms"](en) if spec.get("axioms") else [])
    tu = f["tu"]
    ptys = [tu.types[p["t"]] for p in f["params"]]
    if con.setup:
        con.setup(en, st, this, args)
    c0 = engine.Ctx(en, con, st, st, this, args, ptys)
    for n, t in con.requires_of(c0):
        st.fact(t)
    pre = st.copy()
    en.pre = pre
    c0 = engine.Ctx(en, con, pre, pre, this, args, ptys)
    ctor = bool(fd.get("ctor"))
    en.sinks.append([])
    if fd.get("noexcept"):
        pass
    rs = en.run_body(st, key, f, this, list(args), ctor=ctor)
    thrown = en.sinks.pop()
    npaths = 0
    feas = 0
    for s, v in rs:
        npaths += 1
        en.flush(s)
        c = engine.Ctx(en, con, pre, s, this, args, ptys, res=v)
        if not solve.inconsistent(s.pc, 700):
            feas += 1
        for n, t in con.ensures_of(c):
            en.obls.append(engine.Obligation("%s/ensures:%s" % (en.cur, n), "ensures", s.pc, t))
        for n, t in frame_obls(en, con, c0, pre, s):
            en.obls.append(engine.Obligation("%s/frame:%s" % (en.cur, n), "frame", s.pc, t))
    thr = con.throws_of(c0)
    for s, tn in thrown:
        if con.any_throw:
            continue
        ok = [cond for (ty, cond, eff) in thr if ty == tn or ty == "*" or prog.derives(tn, ty)]
        en.obls.append(engine.Obligation("%s/throws:%s only when specified" % (en.cur, short(tn)), "throws", s.pc,
                                         z3.Or(*ok) if ok else z3.BoolVal(False)))
    # A specified throw must happen: normal return implies no throw condition.
    for (ty, cond, eff) in thr:
        for s, v in rs:
            en.obls.append(engine.Obligation("%s/returns:only without %s" % (en.cur, short(ty)), "throws", s.pc, z3.Not(cond)))
    for s, tn in thrown:
        of = [eff for (ty, cond, eff) in thr if ty == tn or ty == "*" or prog.derives(tn, ty)]
        if of and not any(of) and not con.any_throw:
            for n, t in frame_obls(en, None, c0, pre, s):
                en.obls.append(engine.Obligation("%s/frame when %s is thrown:%s" % (en.cur, short(tn), n), "frame", s.pc, t))
    en.npaths_ret, en.nfeas = npaths, feas
    return en


def short(tn):
    return tn.split("::")[-1]


def frame_obls(en, con, c0, pre, s):
    """Heap cells outside of the modifies clause are unchanged for objects
    that existed at entry."""
    out = []
    allowed = {}
    for m in con.modifies_of(c0) if con else ():   # a throw leaves everything as it was
        if isinstance(m, LVal):
            if m.root[0] == "h" and m.path:
                allowed.setdefault((m.path[0][1], m.path[0][2]), []).append(m.root[1])
        else:
            allowed.setdefault(m[0], []).append(m[1])
    for k, v in s.heap.items():
        b = pre.heap.get(k)
        if b is None:
            b = en.hkey_initial(k, en.field_ty(k))
        if same(b, v):
            continue
        al = allowed.get(k, [])
        if any(a is None for a in al):
            continue
        x = z3.Const(fresh_name("frx"), INT)
        eqs = [z3.Select(p, x) == z3.Select(q, x) for p, q in zip(leaves(b), leaves(v))]
        cond = z3.And(x < z3.Const("alloc0", INT), x > 0, *[x != a for a in al])
        out.append(("%s::%s" % (short(k[0]), k[1]), z3.Implies(cond, z3.And(*eqs))))
    return out


def discharge(en, rl):
    out = []
    for o in en.obls:
        st, be, secs, model = solve.prove(o.pc, o.goal, rl)
        out.append((o.name, o.kind, st, be, secs, model))
    return out


def verify_one(prog, spec, key, con_name, rl=40_000_000):
    r = Result(prog.fdecls[key]["q"], con_name)
    r.key = key
    t = time.time()
    try:
        en = generate(prog, spec, key, None)
        r.meta = dict(contracts=sorted(en.used_contracts), models=sorted(en.used_models),
                      inlined=sorted(en.inlined), assumed=sorted(en.assumed),
                      loops=[(a, b, c) for a, b, c, d in en.loop_specs],
                      returns=en.npaths_ret, feasible=en.nfeas)
        r.obls = discharge(en, rl)
        if en.npaths_ret and not en.nfeas:
            r.obls.append((en.cur + "/reachable: some return is reachable", "vacuity", "vacuous", "", 0.0, None))
        if any(o[2] != "proved" for o in r.obls):
            r.status = "failed"
        if not r.obls:
            r.status, r.note = "unsupported", "no obligation was generated"
    except Unsupported as ex:
        r.status, r.note = "unsupported", str(ex)
        if os.environ.get("SCV_DEBUG"):
            traceback.print_exc()
    except z3.Z3Exception as ex:
        if os.environ.get("SCV_DEBUG"):
            traceback.print_exc()
        r.status, r.note = "unsupported", "z3: %s" % str(ex)[:300] + tb()
    except RecursionError:
        r.status, r.note = "unsupported", "recursion depth"
    except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError) as ex:
        if os.environ.get("SCV_DEBUG"):
            traceback.print_exc()
        r.status, r.note = "unsupported", "internal: %r %s" % (ex, tb())
    r.secs = time.time() - t
    return r


def tb():
    return " @ " + " <- ".join("%s:%d" % (f.name, f.lineno) for f in reversed(traceback.extract_tb(sys.exc_info()[2])[-4:]))


_G = {}


def _work(a):
    i, rl = a
    prog, spec, jobs = _G["v"]
    sys.setrecursionlimit(20000)
    try:
        return verify_one(prog, spec, jobs[i][0], jobs[i][1], rl)
    except Exception as ex:  # never a verdict
        r = Result(prog.fdecls[jobs[i][0]]["q"], jobs[i][1])
        r.status, r.note, r.secs = "unsupported", "crash: %r%s" % (ex, tb()), 0
        return r


def verify_all(prog, spec, rl=40_000_000, procs=8, only=None, timeout=400):
    reg = contracts.Registry(prog, spec["contracts"](prog), spec.get("hooks"))
    jobs = []
    missing = list(reg.missing)
    for con in reg.contracts:
        if con.trusted:
            continue
        for k in con.keys:
            if k in prog.functions and "body" in prog.functions[k]:
                if only and only not in con.name:
                    continue
                jobs.append((k, con.name))
    for con in reg.contracts:
        if not con.trusted and con.keys and not any(k in prog.functions and "body" in prog.functions[k] for k in con.keys):
            missing.append(con.name)
    _G["v"] = (prog, spec, jobs)
    out = []
    if spec.get("lemmas") and not only:
        r = Result("(lemmas over the contracts)", "lemmas")
        t = time.time()
        solve.set_axioms([])
        for n, hyps, goal in spec["lemmas"]():
            st, be, secs, model = solve.prove(hyps, goal, rl)
            r.obls.append(("lemma:" + n, "lemma", st, be, secs, model))
        r.secs = time.time() - t
        if any(o[2] != "proved" for o in r.obls):
            r.status = "failed"
        out.append(r)
    lem = out
    out = []
    if procs == 1:
        out = [_work((i, rl)) for i in range(len(jobs))]
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1)
        rs = [pool.apply_async(_work, ((i, rl),)) for i in range(len(jobs))]
        dl = time.time() + timeout
        for i, x in enumerate(rs):
            try:
                out.append(x.get(max(0.1, dl - time.time())))
            except multiprocessing.TimeoutError:
                r = Result(prog.fdecls[jobs[i][0]]["q"], jobs[i][1])
                r.status, r.note, r.secs = "unsupported", "time budget exhausted", 0
                out.append(r)
            except Exception as ex:
                r = Result(prog.fdecls[jobs[i][0]]["q"], jobs[i][1])
                r.status, r.note, r.secs = "unsupported", "worker: %r" % ex, 0
                out.append(r)
        pool.terminate()
    return lem + out, missing
