"""Assumed models of the C++ standard library / Boost (the trusted base)."""
import z3
from core import *


class Lib:
    def __init__(self, en):
        self.en = en
        self.measures = en.opts.get("measures", {})

    # ------------------------------------------------------- set measures
    def card(self, dom):
        f = z3.Function("card_" + mangle(dom.sort()), dom.sort(), INT)
        return f(dom)

    def ms(self, dom):
        r = [(lambda d: self.card(d), lambda k: z3.IntVal(1))]
        for f, w in self.measures.get(str(dom.sort().domain()), []):
            r.append((f, w))
        return r

    def set_update_facts(self, old, k, val):
        new = z3.Store(old, k, z3.BoolVal(val))
        out = []
        for m, w in self.ms(old):
            if val:
                out.append(m(new) == m(old) + z3.If(z3.Select(old, k), 0, w(k)))
            else:
                out.append(m(new) == m(old) - z3.If(z3.Select(old, k), w(k), 0))
        return out + self.set_facts(old) + self.set_facts(new)

    def set_facts(self, dom):
        emp = z3.K(dom.sort().domain(), z3.BoolVal(False))
        out = [self.card(dom) >= 0, (self.card(dom) == 0) == (dom == emp)]
        for m, w in self.ms(dom):
            out += [m(dom) >= 0, m(dom) <= self.card(dom), m(emp) == 0]
        return out

    def set_loop_facts(self, dom, vis):
        return self.set_facts(dom) + self.set_facts(vis) + \
            [m(vis) <= m(dom) for m, _ in self.ms(dom)]

    def set_step_facts(self, vis, k, dom):
        new = z3.Store(vis, k, z3.BoolVal(True))
        return self.set_update_facts(vis, k, True) + [m(new) <= m(dom) for m, _ in self.ms(dom)]

    def key_tree(self, lv, k, en, st):
        v = en.read(st, lv)
        if v.meta is None:
            raise Unsupported("container without the key shape")
        return unpack(k, v.meta)

    # ------------------------------------------------------- sequence measures
    # opts["seq"] = [(name, op, element kind test, value of an element)]; op is
    # and/or/sum/prod.  A measure is the fold of the values of the first n
    # elements; the facts below are its defining equations at the points where
    # the code builds or reads a sequence.
    def seq_ms(self, at):
        out = []
        for name, op, test, val in self.en.opts.get("seq", ()):
            if test(at):
                out.append((name, op, val))
        return out

    def seq_m(self, name, at, n):
        op = {m[0]: m[1] for m in self.en.opts.get("seq", ())}[name]
        ls = leaves(at)
        rs = BOOL if op in ("and", "or") else (INT if op == "isum" else self.en.fsort)
        f = z3.Function("seq_%s_%d_%s" % (name, len(ls), mangle(ls[0].sort())), *[l.sort() for l in ls], INT, rs)
        return f(*ls, n)

    def seq_zero(self, at):
        return [self.seq_m(n, at, z3.IntVal(0)) == {"and": z3.BoolVal(True), "or": z3.BoolVal(False), "sum": self.en.fval(0),
                                                   "isum": z3.IntVal(0), "prod": self.en.fval(1)}[op] for n, op, _ in self.seq_ms(at)]

    def seq_comb(self, op, a, b):
        return z3.And(a, b) if op == "and" else z3.Or(a, b) if op == "or" else a + b if op in ("sum", "isum") else a * b

    def seq_at(self, v, i):
        """Fold to i+1 in terms of the fold to i (0 <= i < len)."""
        if not isinstance(v, Node) or v.kind != "vec":
            return []
        at = v["at"]
        out = self.seq_zero(at)
        for n, op, val in self.seq_ms(at):
            x = val(tmap(lambda a: z3.Select(a, i), at))
            out.append(z3.Implies(i >= 0, self.seq_m(n, at, i + 1) == self.seq_comb(op, self.seq_m(n, at, i), x)))
        return out

    def seq_push(self, old, at, n, x):
        """at = old with x stored at n."""
        out = self.seq_zero(old)
        for nm, op, val in self.seq_ms(at):
            out.append(z3.Implies(n >= 0, self.seq_m(nm, at, n + 1) == self.seq_comb(op, self.seq_m(nm, old, n), val(x))))
            out.append(z3.Implies(n >= 0, self.seq_m(nm, at, n) == self.seq_m(nm, old, n)))
        return out

    def seq_same(self, old, at, n):
        return [self.seq_m(nm, at, n) == self.seq_m(nm, old, n) for nm, _, _ in self.seq_ms(at)]

    # ------------------------------------------------------- iterators
    def is_flist(self, lv):
        return isinstance(lv, LVal) and lv.ty is not None and lv.ty.d == "std::forward_list"

    def vec_iter(self, lv, idx):
        return Node("iter", {"idx": idx}, lv)

    def key_iter(self, lv, key, end):
        return Node("iter", {"key": key, "end": end}, lv)

    def step_key(self, st, v, n, e):
        """The next element of an ordered set of numbers."""
        en = self.en
        c = en.read(st, v.meta) if isinstance(v.meta, LVal) else None
        if c is None or c.kind != "set" or "rev" in v.ch or n != "operator++" or c["dom"].sort().domain() != INT or v.meta.ty is None or v.meta.ty.d.startswith("std::unordered"):
            raise Unsupported("stepping an associative iterator")
        if en.opts.get("bounds"):
            en.oblige(st, z3.Not(v["end"]), "bounds", "a stepped iterator is not the end")
        dom, k = c["dom"], v["key"]
        k2, end = z3.Const(fresh_name("nk"), INT), z3.Const(fresh_name("nend"), BOOL)
        j = z3.Const(fresh_name("sj"), INT)
        rest = z3.Store(dom, k, z3.BoolVal(False))
        st.fact(z3.If(end, z3.ForAll([j], z3.Implies(z3.Select(dom, j), j <= k), patterns=[z3.Select(dom, j)]), z3.And(k2 > k, z3.Select(dom, k2))))
        st.fact(z3.ForAll([j], z3.Implies(z3.And(z3.Not(end), z3.Select(dom, j)), z3.Or(j <= k, j >= k2)), patterns=[z3.Select(dom, j)]))
        for f in self.set_facts(dom) + self.set_update_facts(dom, k, False) + self.set_update_facts(rest, k2, False) + self.set_facts(z3.Store(rest, k2, z3.BoolVal(False))):
            st.fact(f)
        return v.with_(key=k2, end=end)

    def iter_cmp(self, st, op, a, b):
        if isinstance(a.meta, LVal) and isinstance(b.meta, LVal) and not self.en.same_lv(a.meta, b.meta):
            raise Unsupported("comparison of iterators of different containers")
        if "idx" in a.ch and "idx" in b.ch:
            x, y = a["idx"], b["idx"]
            if "rev" in a.ch:
                x, y = y, x
            if self.is_flist(a.meta):
                ln = self.en.read(st, a.meta)["len"]
                x, y = (ln if i.eq(FLIST_END) else z3.If(i == FLIST_END, ln, i) for i in (x, y))
            return {"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op]
        eq = z3.Or(z3.And(a["end"], b["end"]), z3.And(z3.Not(a["end"]), z3.Not(b["end"]), a["key"] == b["key"]))
        return eq if op == "==" else z3.Not(eq)

    def iter_deref(self, st, it):
        lv = it.meta
        if not isinstance(lv, LVal):
            raise Unsupported("iterator without a container")
        if "idx" in it.ch:
            i = it["idx"] - 1 if "rev" in it.ch else it["idx"]
            for f in self.seq_at(self.en.read(st, lv), i):
                st.fact(f)
            return lv.sub(("i", i), self.en.elem_ty(lv))
        v = self.en.read(st, lv)
        if v.kind == "set" and "tr" in it.ch:
            return self.en.heap_lv(it["key"], table_elem(lv.ty))
        if v.kind == "set":
            return self.en.temp(st, self.key_tree(lv, it["key"], self.en, st))
        return lv.sub(("e", it["key"]), None)

    def as_range(self, st, lv, rt):
        """Objects iterated by begin()/end() of their own: the sequence of
        elements is an assumed contract given by the specification."""
        t = rt.elem if rt.k in ("lref", "rref", "ptr") else rt
        rf = self.en.opts.get("range_field", {}).get(t.d if t is not None else None)
        if rf is not None:
            return lv.sub(("f", t.s.replace("const ", ""), rf), self.en.field_ty((t.s.replace("const ", ""), rf)))
        d = self.en.opts.get("sequences", {}).get(t.d if t is not None else None)
        if d is None:
            return None
        from core import Ty
        elem, f = d
        nt = Ty()
        nt.k, nt.s, nt.const, nt.elem, nt.d, nt.n, nt.w, nt.u, nt.lam = "record", "sequence", True, None, "std::vector", None, None, None, None
        nt.args, nt.cat = [self.en.P.tystr[elem] if isinstance(elem, str) else elem(self.en)], "vec"
        return self.en.temp(st, f(self.en, st, lv), nt)

    # ------------------------------------------------------- construction
    def construct(self, st, t, fd, vs, e, fr):
        en = self.en
        c = t.cat
        vs_r = None
        if c == "sptr":
            if not vs:
                return [(st, z3.IntVal(0))]
            v = en.rv(st, vs[0])
            return [(st, v)]
        if c == "string":
            if not vs:
                return [(st, text_lit(""))]
            v = en.rv(st, vs[0])
            if isinstance(v, z3.ExprRef) and is_text(v):
                return [(st, v)]
            return [(st, en.fresh(t, "str"))]
        if c == "pair":
            if not vs:
                return [(st, en.default(t))]
            if len(vs) == 2:
                a, b = [en.addr(x) if ta.k in ("lref", "rref") and isinstance(x, LVal) else en.rv(st, x)
                        for x, ta in zip(vs, t.args)]
                sh = en.shape(t)
                a = coerce_sort(a, sh["first"].sort()) if isinstance(sh["first"], z3.ExprRef) else a
                b = coerce_sort(b, sh["second"].sort()) if isinstance(sh["second"], z3.ExprRef) else b
                return [(st, Node("rec", {"first": a, "second": b}))]
            v = en.rv(st, vs[0])
            if isinstance(v, Node) and v.kind == "rec":
                return [(st, v)]
        if c == "tuple":
            if not vs:
                return [(st, en.default(t))]
            return [(st, Node("rec", {"_%d" % i: en.rv(st, v) for i, v in enumerate(vs)}))]
        if c == "opt":
            if not vs:
                return [(st, en.default(t))]
            v = en.rv(st, vs[0])
            if isinstance(v, Node) and v.kind == "opt":
                return [(st, v)]
            if isinstance(v, Node) and v.kind == "opaque" or v is None:
                return [(st, en.default(t))]
            return [(st, Node("opt", {"has": z3.BoolVal(True), "val": v}))]
        if c == "variant":
            if not vs:
                return [(st, en.default(t))]
            v = en.rv(st, vs[0])
            if isinstance(v, Node) and v.kind == "variant":
                return [(st, v)]
            return [(st, self.variant_of(st, t, vs[0], v, fd))]
        if c in ("set", "map"):
            if not vs:
                return [(st, en.default(t))]
            v = en.rv(st, vs[0])
            if isinstance(v, Node) and v.kind == c and len(vs) == 1:
                return [(st, v)]
            if isinstance(v, Node) and v.kind == "vec" and c == "set":
                return [(st, self.set_of_vec(st, t, v))]
            if isinstance(v, z3.ExprRef) or (isinstance(v, Node) and v.kind == "opaque"):
                return [(st, en.default(t))]   # allocator/bucket arguments
        if c == "vec":
            if not vs:
                v = en.default(t)
                for f in self.seq_zero(v["at"]):
                    st.fact(f)
                return [(st, v)]
            v = en.rv(st, vs[0])
            if isinstance(v, Node) and v.kind == "vec" and len(vs) <= 2:
                return [(st, v)]
            if isinstance(v, Node) and v.kind == "iter" and len(vs) >= 2:
                return [(st, self.range_vec(st, t, v, en.rv(st, vs[1])))]
            if isinstance(v, z3.ExprRef) and v.sort() == INT:
                el = t.args[0]
                d = en.rv(st, vs[1]) if len(vs) > 1 and not (isinstance(en.rv(st, vs[1]), Node) and en.rv(st, vs[1]).kind == "opaque") else en.default(el)
                at = tmap(lambda l, x: z3.K(INT, coerce_sort(x, l.sort().range())), en.shape(t)["at"], d)
                return [(st, Node("vec", {"len": v, "at": at}))]
        if c == "iter" or t.d.startswith("std::__detail::") or "const_iterator" in t.d:
            v = en.rv(st, vs[0]) if vs else None
            if isinstance(v, Node) and v.kind == "iter":
                return [(st, v)]
        if t.d in ("std::allocator", "std::less", "std::hash", "std::equal_to", "boost::noncopyable_::noncopyable", "std::nullopt_t", "boost::error_info"):
            return [(st, Node("opaque", {"id": z3.IntVal(0)}))]
        if not vs:
            return [(st, en.fresh(t, "obj"))]
        raise Unsupported("constructor of %s" % t.s)

    def variant_of(self, st, t, x, v, fd):
        en = self.en
        ty = None
        if fd is not None:
            for a in fd.get("a", []) + [{"t": p} for p in fd.get("p", [])]:
                if "t" in a:
                    ty = self.fd_tu(fd).types[a["t"]]
                    ty = ty.elem if ty.k in ("lref", "rref") else ty
                    if variant_index(t, ty) is not None:
                        break
        i = variant_index(t, ty) if ty is not None else None
        if i is None and isinstance(x, LVal) and x.ty is not None:
            i = variant_index(t, x.ty)
        if i is None:
            raise Unsupported("alternative of %s" % t.s)
        f = en.fresh(t, "variant")
        return f.with_(which=z3.IntVal(i), **({"p": v} if "p" in f.ch else {"a%d" % i: v}))

    def set_of_vec(self, st, t, v):
        en = self.en
        d = en.default(t)
        n = z3.simplify(v["len"])
        if not (z3.is_int_value(n) and n.as_long() <= 8):
            raise Unsupported("set from an unbounded range")
        dom = d["dom"]
        for i in range(n.as_long()):
            k = pack(tmap(lambda a: z3.Select(a, z3.IntVal(i)), v["at"]))
            for f in self.set_update_facts(dom, k, True):
                st.fact(f)
            dom = z3.Store(dom, k, z3.BoolVal(True))
        return d.with_(dom=dom)

    def range_vec(self, st, t, b, e):
        en = self.en
        src = en.read(st, b.meta)
        if src.kind != "vec":
            raise Unsupported("vector from a non-sequence range")
        bi = z3.simplify(b["idx"])
        if z3.is_int_value(bi) and bi.as_long() == 0:
            return Node("vec", {"len": e["idx"], "at": src["at"]})
        i = z3.Const(fresh_name("ri"), INT)
        return Node("vec", {"len": e["idx"] - bi, "at": tmap(lambda a: z3.Lambda([i], z3.Select(a, i + bi)), src["at"])})

    def make_object(self, st, t, vs):
        """Allocate T(vs...) on the heap."""
        en = self.en
        r = en.alloc(st)
        lv = en.heap_lv(r, t)
        if t.cat != "record" or t.s not in en.P.records:
            v = en.rv(st, vs[0]) if vs else en.default(t)
            en.write(st, lv, v)
            return [(st, r)]
        out = []
        for s, _ in self.construct_at(st, t, lv, vs):
            en.created(s, r, t)
            out.append((s, r))
        return out

    def construct_at(self, st, t, lv, vs):
        en = self.en
        cands = []
        for k, fd in en.P.fdecls.items():
            if fd.get("cls") == t.s and "ctor" in fd and len(fd["p"]) == len(vs):
                if fd["ctor"] in ("copy", "move"):
                    v = vs[0]
                    if not (isinstance(v, LVal) and v.ty is not None and v.ty.s == t.s):
                        continue
                cands.append(k)
        if not cands and not vs:
            return [(x, None) for x in en.init_fields(st, lv, t.s, {}, None)]
        if len(cands) > 1:
            cands = [k for k in cands if k in en.P.functions] or cands
        bases = [b for b in en.P.bases(t.s) if b.s in en.P.records] if t.s in en.P.records else []
        if not cands and len(bases) == 1 and not en.P.records[t.s]["fields"]:    # inherited constructors
            return self.construct_at(st, bases[0], LVal(lv.root, lv.path, bases[0]), vs)
        if len(cands) != 1:
            raise Unsupported("cannot select the constructor of %s (%d candidates)" % (t.s, len(cands)))
        return en.construct_vals(st, cands[0], vs, lv, t)

    def construct_elem(self, st, ty, vs):
        """emplace: T(vs...) as a value."""
        en = self.en
        if len(vs) == 1:
            v = en.rv(st, vs[0])
            sh = en.shape(ty)
            if isinstance(v, z3.ExprRef) and isinstance(sh, z3.ExprRef):
                return [(st, coerce_sort(v, sh.sort()))]
            if isinstance(v, Node) and isinstance(sh, Node) and v.kind == sh.kind and v.ch.keys() == sh.ch.keys():
                return [(st, v)]
        if ty.cat == "pair" and len(vs) == 2:
            return self.construct(st, ty, None, vs, None, None)
        if ty.cat == "tuple":
            return self.construct(st, ty, None, vs, None, None)
        if ty.cat == "record" and ty.s in en.P.records:
            lv = en.temp(st, en.default_uninit(ty), ty)
            return [(s, en.read(s, lv)) for s, _ in self.construct_at(st, ty, lv, vs)]
        if not vs:
            return [(st, en.default(ty))]
        if ty.cat == "vec":
            return self.construct(st, ty, None, vs, None, None)
        raise Unsupported("emplace of %s" % ty.s)

    # ------------------------------------------------------- repo helpers with models
    def repo_model(self, fd):
        q = fd["q"]
        if self.en.opts.get("verify_ext"):
            return False
        return q in REPO_FREE or (fd.get("clsq", "").startswith(("ext::linear_map", "ext::linear_set", "ext::index_map", "ext::find_iterator", "scram::mef::TableRange")))

    def repo_call(self, st, fd, this, vs, e, fr):
        return self.call(st, fd, this, vs, e, fr)

    # ------------------------------------------------------- dispatch
    def call(self, st, fd, this, vs, e, fr):
        en = self.en
        q, n = fd["q"], fd["n"]
        if this is not None or (fd.get("clsq") and not fd.get("static")):
            v = this
            lv = None
            if isinstance(this, LVal):
                lv = this
                try:
                    v = en.read(st, this)
                except Unsupported:
                    v = None
            tu = en.P.fdecl_tu.get(next((k for k in ()), None))
            if isinstance(v, Closure):
                return en.call_closure(st, v, vs)
            clst = None
            if fd.get("clst") is not None:
                clst = self.fd_tu(fd).types[fd["clst"]]
            if isinstance(v, Node):
                m = getattr(self, "m_" + v.kind, None)
                if m is not None:
                    return m(st, fd, lv, v, vs, e, fr, clst)
            if clst is not None and clst.cat == "sptr":
                return self.m_sptr(st, fd, lv, v, vs, e, fr, clst)
            if isinstance(v, z3.ExprRef) and is_text(v):
                return self.m_string(st, fd, lv, v, vs, e, fr, clst)
            if isinstance(v, FnVal) or callable(v):
                return en.invoke(st, v, vs)
            m = OPAQUE_METHODS.get((fd.get("clsq", ""), n))
            if m:
                return m(self, st, lv, vs, fd)
            if fd.get("clsq", "") == "std::_Bit_reference" and isinstance(v, z3.ExprRef) and z3.is_bool(v):
                if n == "operator bool":
                    return [(st, v)]
                if n == "operator=" and lv is not None:
                    en.write(st, lv, en.rv(st, vs[0]))
                    return [(st, lv)]
            raise Unsupported("method %s on %s" % (q, v if not isinstance(v, Node) else v.kind))
        f = FREE.get(q)
        if f is None and q.split("<")[0] in FREE:
            f = FREE[q.split("<")[0]]
        if f is None and q.startswith("std::numeric_limits<"):
            f = FREE.get("std::numeric_limits::" + n)
        if f is None and n.startswith("operator"):
            return self.free_op(st, fd, vs, e, fr)
        if f is None:
            raise Unsupported("no model of %s" % q)
        return f(self, st, fd, vs, e, fr)

    def fd_tu(self, fd):
        en = self.en
        if not hasattr(en.P, "_fdtu"):
            en.P._fdtu = {id(f): en.P.fdecl_tu[k] for k, f in en.P.fdecls.items()}
        return en.P._fdtu[id(fd)]

    def rtype(self, fd):
        return self.fd_tu(fd).types[fd["r"]]

    def free_op(self, st, fd, vs, e, fr):
        en = self.en
        op = fd["n"][len("operator"):]
        if len(vs) == 2 and op in ("==", "!=", "<", "<=", ">", ">="):
            a, b = en.rv(st, vs[0]), en.rv(st, vs[1])
            if isinstance(a, Node) and a.kind == "opt" or isinstance(b, Node) and b.kind == "opt":
                if isinstance(a, Node) and a.kind == "opt" and not (isinstance(b, Node) and b.kind == "opt"):
                    eq = z3.And(a["has"], en.tree_eq(a["val"], b)) if not (isinstance(b, Node) and b.kind == "opaque") else z3.Not(a["has"])
                    return [(st, eq if op == "==" else z3.Not(eq))]
            if isinstance(a, Node) and a.kind == "rec" and op not in ("==", "!="):
                la, lb = leaves(a), leaves(b)
                lt = z3.BoolVal(False)
                for x, y in reversed(list(zip(la, lb))):
                    lt = z3.Or(x < y, z3.And(x == y, lt))
                eq = z3.And(*[x == y for x, y in zip(la, lb)])
                return [(st, {"<": lt, "<=": z3.Or(lt, eq), ">": z3.And(z3.Not(lt), z3.Not(eq)), ">=": z3.Not(lt)}[op])]
            return [(st, en.compare(st, op, a, b))]
        if op in ("+", "-"):
            a, b = en.rv(st, vs[0]), en.rv(st, vs[1])
            if isinstance(a, z3.ExprRef) and is_text(a) and isinstance(b, z3.ExprRef) and is_text(b):
                return [(st, z3.Concat(a, b))]
            if isinstance(a, Node) and a.kind == "iter":
                return [(st, en.arith(st, op, a, b, None))]
            if isinstance(a, z3.ExprRef) and is_text(a) or isinstance(b, z3.ExprRef) and is_text(b):
                return [(st, en.fresh(self.rtype(fd), "str"))]
        if op == "<<":
            return [(st, vs[0])]   # stream / error_info output: no modelled effect
        if op in ("|", "&", "^") and len(vs) == 2:
            a, b = en.rv(st, vs[0]), en.rv(st, vs[1])
            if isinstance(a, z3.ExprRef):
                return [(st, en.arith(st, op, a, b, None))]
        raise Unsupported("operator %s" % fd["q"])

    # ------------------------------------------------------- smart pointers
    def m_sptr(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        el = t.args[0]
        if n in ("get", "lock"):
            if t.d in ("std::weak_ptr",) and n == "lock":
                pass
            return [(st, v)]
        if n == "operator->":
            return [(st, v)]
        if n == "operator*":
            return [(st, en.deref(st, v, el))]
        if n.startswith("operator bool") or fd.get("conv"):
            return [(st, v != 0)]
        if n == "expired":
            return [(st, v == 0)]
        if n in ("operator=", "reset"):
            new = en.rv(st, vs[0]) if vs else z3.IntVal(0)
            en.write(st, lv, new)
            return [(st, lv)]
        if n == "swap":
            o = en.rv(st, vs[0])
            en.write(st, vs[0], v)
            en.write(st, lv, o)
            return [(st, None)]
        if n in ("use_count",):
            return [(st, z3.Const(fresh_name("uses"), INT))]
        if n == "unique":
            return [(st, z3.Const(fresh_name("unique"), BOOL))]
        if n == "release":
            en.write(st, lv, z3.IntVal(0))
            return [(st, v)]
        raise Unsupported("smart pointer method " + n)

    # ------------------------------------------------------- strings
    def m_string(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        if n in ("empty",):
            return [(st, z3.Length(v) == 0)]
        if n in ("size", "length"):
            return [(st, z3.Length(v))]
        if n in ("c_str", "data"):
            return [(st, v)]
        if n in ("operator=", "assign"):
            x = en.rv(st, vs[0])
            en.write(st, lv, x if isinstance(x, z3.ExprRef) and is_text(x) else en.fresh_like(v, "str"))
            return [(st, lv)]
        if n in ("operator+=", "append"):
            x = en.rv(st, vs[0])
            en.write(st, lv, z3.Concat(v, x) if isinstance(x, z3.ExprRef) and is_text(x) else en.fresh_like(v, "str"))
            return [(st, lv)]
        if n.startswith("operator basic_string_view") or fd.get("conv"):
            return [(st, v)]
        if n == "find" and len(vs) <= 2:
            x = en.rv(st, vs[0])
            x = z3.simplify(x) if isinstance(x, z3.ExprRef) else x
            if isinstance(x, z3.ExprRef) and (is_text(x) or z3.is_int_value(x) and 0 < x.as_long() < 128) and (
                    len(vs) == 1 or z3.is_int_value(z3.simplify(en.rv(st, vs[1]))) and z3.simplify(en.rv(st, vs[1])).as_long() == 0):
                if not is_text(x):
                    x = text_lit(chr(x.as_long()))
                st.fact(z3.Length(v) < 2 ** 62)
                return [(st, z3.If(z3.Contains(v, x), z3.IndexOf(v, x, z3.IntVal(0)), z3.IntVal(2 ** 64 - 1)))]
        if n in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of"):
            return [(st, z3.Const(fresh_name("pos"), INT))]
        if n in ("front", "back", "at", "operator[]"):
            return [(st, en.temp(st, z3.Const(fresh_name("ch"), INT)))]
        if n in ("substr",):
            return [(st, z3.Const(fresh_name("sub"), STR))]
        if n in ("compare",):
            r = z3.Const(fresh_name("cmp"), INT)
            x = en.rv(st, vs[0])
            if isinstance(x, z3.ExprRef) and is_text(x):
                st.fact((r == 0) == (v == x))
            return [(st, r)]
        raise Unsupported("string method " + n)

    # ------------------------------------------------------- optional
    def m_opt(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        if n in ("has_value", "is_initialized") or n.startswith("operator bool") or fd.get("conv"):
            return [(st, v["has"])]
        if n == "operator!":
            return [(st, z3.Not(v["has"]))]
        if n in ("operator*", "value", "get"):
            return [(st, lv.sub(("f", "opt", "val")) if lv is not None else v["val"])]
        if n == "operator->":
            return [(st, PtrTo(lv.sub(("f", "opt", "val"))))]
        if n == "reset":
            en.write(st, lv, v.with_(has=z3.BoolVal(False)))
            return [(st, None)]
        if n in ("operator=", "emplace"):
            x = en.rv(st, vs[0]) if vs else None
            if isinstance(x, Node) and x.kind == "opt":
                new = x
            elif isinstance(x, Node) and x.kind == "opaque":
                new = v.with_(has=z3.BoolVal(False))
            else:
                new = Node("opt", {"has": z3.BoolVal(True), "val": en.conform(x, v["val"]) if isinstance(x, z3.ExprRef) else x})
            en.write(st, lv, new)
            return [(st, lv)]
        if n == "value_or":
            return [(st, tmap(lambda a, b: z3.If(v["has"], a, b), v["val"], en.rv(st, vs[0])))]
        raise Unsupported("optional method " + n)

    def m_variant(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        if n == "index":
            return [(st, v["which"])]
        if n == "operator=":
            x = en.rv(st, vs[0])
            if not (isinstance(x, Node) and x.kind == "variant"):
                x = self.variant_of(st, v.meta, vs[0], x, fd)
            en.write(st, lv, x)
            return [(st, lv)]
        if n == "swap":
            o = en.rv(st, vs[0])
            en.write(st, vs[0], v)
            en.write(st, lv, o)
            return [(st, None)]
        raise Unsupported("variant method " + n)

    def alternative(self, lv, v, i):
        """The lvalue of an alternative of a variant."""
        t = v.meta
        return lv.sub(("f", "variant", "p" if "p" in v.ch else "a%d" % i), t.args[i])

    def variant_arg(self, st, x):
        v = self.en.rv(st, x)
        if isinstance(x, PtrTo):
            x = x.lv
            v = self.en.read(st, x)
        if not isinstance(x, LVal):
            x = self.en.temp(st, v, v.meta)
        return x, v

    def m_rec(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        if n == "operator=":
            en.write(st, lv, en.rv(st, vs[0]))
            return [(st, lv)]
        if n == "swap":
            o = en.rv(st, vs[0])
            en.write(st, vs[0], v)
            en.write(st, lv, o)
            return [(st, None)]
        if set(v.ch) == {"lo", "hi", "lc", "rc"} and n in ("lower", "upper"):
            return [(st, v["lo"] if n == "lower" else v["hi"])]
        raise Unsupported("record method " + fd["q"])

    def m_opaque(self, st, fd, lv, v, vs, e, fr, t):
        q = fd.get("clsq", "")
        m = OPAQUE_METHODS.get((q, fd["n"]))
        if m:
            return m(self, st, lv, vs, fd)
        if fd["q"].startswith("boost::range_detail::forwarder<"):
            return _holder(self, st, fd, vs, e, fr)
        for p in ("std::basic_ostream", "std::basic_ostringstream", "std::chrono", "std::basic_stringstream"):
            if q.replace("__cxx11::", "").startswith(p):
                rt = self.rtype(fd)
                if rt.k == "lref":
                    return [(st, lv)]
                x = self.en.fresh(rt, "x") if rt.s != "void" else None
                if p == "std::chrono" and fd["n"] == "count" and isinstance(x, z3.ExprRef) and x.sort() == INT:
                    st.fact(x >= st.ghost.get("clock", z3.IntVal(0)))     # the clock is steady
                    st.ghost["clock"] = x
                return [(st, x)]
        if fd["n"] == "shared_from_this" and isinstance(lv, LVal) and lv.root[0] == "h":
            return [(st, lv.root[1])]
        raise Unsupported("method %s of an opaque object" % fd["q"])

    # ------------------------------------------------------- iterators
    def m_iter(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        if n == "operator*":
            return [(st, self.iter_deref(st, v))]
        if n == "operator->":
            d = self.iter_deref(st, v)
            x = en.read(st, d) if not (d.root[0] == "h" and not d.path) else None
            return [(st, en.addr(d))]
        if n in ("operator++", "operator--"):
            if "idx" not in v.ch:
                new = self.step_key(st, v, n, e)
                en.write(st, lv, new)
                return [(st, v if len(vs) == 1 else lv)]
            new = v.set("idx", v["idx"] + (1 if (n == "operator++") != ("rev" in v.ch) else -1))
            en.write(st, lv, new)
            return [(st, v if len(vs) == 1 else lv)]
        if "rev" in v.ch and n in ("operator+", "operator-", "operator+=", "operator-=", "operator[]", "base"):
            raise Unsupported("reverse iterator " + n)
        if n in ("operator+", "operator-", "operator+=", "operator-="):
            x = en.rv(st, vs[0])
            r = en.arith(st, n[8], v, x, None)
            if n.endswith("="):
                en.write(st, lv, r)
                return [(st, lv)]
            return [(st, r)]
        if n in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
            return [(st, self.iter_cmp(st, n[8:], v, en.rv(st, vs[0])))]
        if n.startswith("operator bool") or fd.get("conv"):
            if "end" in v.ch:
                return [(st, z3.Not(v["end"]))]
            c = en.read(st, v.meta)
            return [(st, v["idx"] != c["len"])]
        if n == "operator=":
            en.write(st, lv, en.rv(st, vs[0]))
            return [(st, lv)]
        if n == "operator[]":
            i = en.rv(st, vs[0])
            return [(st, self.iter_deref(st, v.set("idx", v["idx"] + i)))]
        if n == "base":
            return [(st, v)]
        raise Unsupported("iterator method " + n)

    # ------------------------------------------------------- sequences
    def m_vec(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        ln = v["len"]
        if lv is None:
            lv = en.temp(st, v, t)
        if lv.ty is None or lv.ty.cat != "vec":
            if lv.ty is None or lv.ty.k != "array":
                lv = LVal(lv.root, lv.path, t)
        if n in ("size", "max_size"):
            st.fact(ln >= 0)
            return [(st, ln)]
        if n == "empty":
            st.fact(ln >= 0)
            return [(st, ln == 0)]
        if n in ("operator[]", "at"):
            i = en.rv(st, vs[0])
            if fd.get("clsq", "").startswith("ext::index_map"):
                i = i - (t.n if t is not None and t.d == "ext::index_map" else lv.ty.n)
            if n == "at":
                s2 = st.copy()
                s2.branch(z3.Or(i < 0, i >= ln))
                if en.feasible(s2):
                    en.throw(s2, "std::out_of_range")
                st.branch(z3.And(i >= 0, i < ln))
            else:
                en.bounds(st, i, v)
            for f in self.seq_at(v, i):
                st.fact(f)
            return [(st, lv.sub(("i", i), en.elem_ty(lv)))]
        if n in ("front", "back"):
            i = z3.IntVal(0) if n == "front" else ln - 1
            if en.opts.get("bounds"):
                en.oblige(st, ln > 0, "bounds", "%s of a non-empty sequence" % n)
            return [(st, lv.sub(("i", z3.simplify(i)), en.elem_ty(lv)))]
        if n in ("begin", "cbegin"):
            return [(st, self.vec_iter(lv, z3.IntVal(0)))]
        if n in ("end", "cend"):
            return [(st, self.vec_iter(lv, FLIST_END if self.is_flist(lv) else ln))]
        if n in ("before_begin", "cbefore_begin"):
            return [(st, self.vec_iter(lv, z3.IntVal(-1)))]
        if n == "erase_after" and len(vs) == 1:
            p = en.rv(st, vs[0])["idx"]
            j = z3.Const(fresh_name("ej"), INT)
            at = tmap(lambda a: z3.Lambda([j], z3.Select(a, z3.If(j <= p, j, j + 1))), v["at"])
            en.write(st, lv, Node("vec", {"len": ln - 1, "at": at}))
            return [(st, self.vec_iter(lv, p + 1))]
        if n == "emplace_after":
            p = en.rv(st, vs[0])["idx"]
            out = []
            for s, x in self.construct_elem(st, en.elem_ty(lv), vs[1:]):
                cur = en.read(s, lv)
                j = z3.Const(fresh_name("nj"), INT)
                at = tmap(lambda a, y: z3.Lambda([j], z3.If(j <= p, z3.Select(a, j), z3.If(j == p + 1, coerce_sort(y, a.sort().range()), z3.Select(a, j - 1)))), cur["at"], x)
                en.write(s, lv, Node("vec", {"len": cur["len"] + 1, "at": at}))
                out.append((s, self.vec_iter(lv, p + 1)))
            return out
        if n in ("push_back", "emplace_back"):
            el = en.elem_ty(lv)
            out = []
            for s, x in (self.construct_elem(st, el, vs) if n == "emplace_back" else [(st, en.rv(st, vs[0]))]):
                cur = en.read(s, lv)
                at = tmap(lambda a, y: z3.Store(a, cur["len"], coerce_sort(y, a.sort().range())), cur["at"], x)
                for f in self.seq_push(cur["at"], at, cur["len"], x):
                    s.fact(f)
                en.write(s, lv, Node("vec", {"len": z3.simplify(cur["len"] + 1), "at": at}))
                rt = self.rtype(fd)
                out.append((s, lv.sub(("i", cur["len"]), el) if rt.k == "lref" else None))
            return out
        if n == "pop_back":
            if en.opts.get("bounds"):
                en.oblige(st, ln > 0, "bounds", "pop_back of a non-empty sequence")
            en.write(st, lv, v.with_(len=z3.simplify(ln - 1)))
            return [(st, None)]
        if n == "clear":
            en.write(st, lv, v.with_(len=z3.IntVal(0)))
            return [(st, None)]
        if n in ("reserve", "shrink_to_fit"):
            return [(st, None)]
        if n == "operator=":
            x = en.rv(st, vs[0])
            en.write(st, lv, x)
            return [(st, lv)]
        if n == "assign" and len(vs) == 2 and isinstance(en.rv(st, vs[0]), z3.ExprRef):
            d = en.rv(st, vs[1])
            at = tmap(lambda l, x: z3.K(INT, coerce_sort(x, l.sort().range())), v["at"], d)
            en.write(st, lv, Node("vec", {"len": en.rv(st, vs[0]), "at": at}))
            return [(st, None)]
        if n == "resize":
            m = en.rv(st, vs[0])
            d = en.rv(st, vs[1]) if len(vs) > 1 else en.default(en.elem_ty(lv))
            j = z3.Const(fresh_name("rj"), INT)
            at = tmap(lambda a, x: z3.Lambda([j], z3.If(z3.And(j >= ln), coerce_sort(x, a.sort().range()), z3.Select(a, j))), v["at"], d)
            en.write(st, lv, Node("vec", {"len": m, "at": at}))
            return [(st, None)]
        if n == "swap":
            o = en.rv(st, vs[0])
            en.write(st, vs[0], v)
            en.write(st, lv, o)
            return [(st, None)]
        if n == "data":
            return [(st, PtrTo(lv))]
        if n == "insert" and len(vs) == 3:
            p, b, x = [en.rv(st, a) for a in vs]
            if "idx" in p.ch and z3.simplify(p["idx"] == ln).eq(z3.BoolVal(True)):
                src = en.read(st, b.meta)
                if src.kind == "vec":
                    j = z3.Const(fresh_name("ij"), INT)
                    bi = b["idx"]
                    at = tmap(lambda a, s: z3.Lambda([j], z3.If(j < ln, z3.Select(a, j), z3.Select(s, j - ln + bi))), v["at"], src["at"])
                    en.write(st, lv, Node("vec", {"len": ln + x["idx"] - bi, "at": at}))
                    return [(st, self.vec_iter(lv, ln))]
        if n == "erase" and len(vs) == 1:
            p = en.rv(st, vs[0])
            j = z3.Const(fresh_name("ej"), INT)
            at = tmap(lambda a: z3.Lambda([j], z3.Select(a, z3.If(j < p["idx"], j, j + 1))), v["at"])
            en.write(st, lv, Node("vec", {"len": ln - 1, "at": at}))
            return [(st, self.vec_iter(lv, p["idx"]))]
        if n == "erase" and len(vs) == 2:
            p, q = en.rv(st, vs[0]), en.rv(st, vs[1])
            if z3.simplify(q["idx"] == ln).eq(z3.BoolVal(True)):
                en.write(st, lv, v.with_(len=p["idx"]))
                return [(st, self.vec_iter(lv, p["idx"]))]
        if n in ("emplace", "insert") and len(vs) == 2:
            p = en.rv(st, vs[0])
            x = en.rv(st, vs[1])
            if isinstance(p, Node) and p.kind == "iter" and isinstance(x, (z3.ExprRef, Node)) and not (isinstance(x, Node) and x.kind == "iter"):
                j = z3.Const(fresh_name("nj"), INT)
                pi = p["idx"]
                at = tmap(lambda a, y: z3.Lambda([j], z3.If(j < pi, z3.Select(a, j), z3.If(j == pi, coerce_sort(y, a.sort().range()), z3.Select(a, j - 1)))), v["at"], x)
                en.write(st, lv, Node("vec", {"len": ln + 1, "at": at}))
                return [(st, self.vec_iter(lv, pi))]
        if n == "fill":
            x = en.rv(st, vs[0])
            en.write(st, lv, v.with_(at=tmap(lambda l, y: z3.K(INT, coerce_sort(y, l.sort().range())), v["at"], x)))
            return [(st, None)]
        if n in ("rbegin", "crbegin", "rend", "crend"):
            it = self.vec_iter(lv, ln if "begin" in n else z3.IntVal(0))
            return [(st, Node("iter", {**it.ch, "rev": z3.BoolVal(True)}, it.meta))]
        raise Unsupported("sequence method %s/%d" % (n, len(vs)))

    # ------------------------------------------------------- sets
    # ------------------------------------------------- tables of elements
    # boost::multi_index with one hashed unique index: a set of pointers
    # unique by a key computed from the pointee.
    def mi_key(self, st, t, ref):
        """The table key of an element: (term, facts)."""
        en = self.en
        fds = [(k, f) for k, f in en.P.fdecls.items() if f["q"] == t.mi]
        if not fds:
            raise Unsupported("no key function " + t.mi)
        cls = en.P.tystr[t.mi.rsplit("::", 1)[0]]
        return eval_pred(self, st, lambda s, vs: en.call(s, fds[0][0], en.heap_lv(vs[0], cls), [], None, None), ref)

    def mi_find(self, st, lv, dom, key):
        t = lv.ty.elem if lv.ty.k in ("lref", "rref") else lv.ty
        j = z3.Const(fresh_name("tj"), INT)
        k = z3.Const(fresh_name("tk"), INT)
        end = z3.Const(fresh_name("tend"), BOOL)
        start = z3_uid()
        ka, fs = self.mi_key(st, t, k)
        for f in fs:
            st.fact(f)
        kj, fs = self.mi_key(st, t, j)
        sk = skolemize([kj] + fs, z3_uid_after(j, start), j)
        kj, fs = sk[0], sk[1:]
        for f in fs:
            if not z3.is_true(f):
                st.fact(z3.ForAll([j], f))
        st.fact(z3.Implies(z3.Not(end), z3.And(z3.Select(dom, k), ka == key)))
        st.fact(z3.Implies(end, z3.ForAll([j], z3.Implies(z3.Select(dom, j), kj != key), patterns=[z3.Select(dom, j)])))
        return k, end

    def table_range(self, st, src):
        return table_range(self, st, src)

    def m_table(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        dom = v["dom"]
        if n in ("find", "count"):
            k, end = self.mi_find(st, lv, dom, en.rv(st, vs[0]))
            return [(st, self.key_iter(lv, k, end) if n == "find" else bool_to_int(z3.Not(end)))]
        if n in ("insert", "emplace"):
            r = en.rv(st, vs[0])
            ka, fs = self.mi_key(st, lv.ty, r)
            for f in fs:
                st.fact(f)
            k, end = self.mi_find(st, lv, dom, ka)
            for f in self.set_update_facts(dom, r, True):
                st.fact(f)
            en.write(st, lv, v.with_(dom=z3.If(end, z3.Store(dom, r, z3.BoolVal(True)), dom)))
            return [(st, Node("rec", {"first": self.key_iter(lv, z3.If(end, r, k), z3.BoolVal(False)), "second": end}))]
        return None

    def m_xform(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        if len(v.meta) != 3 or n not in ("empty", "size", "count", "find", "begin", "end", "cbegin", "cend"):
            raise Unsupported("method %s of a transformed range" % n)
        src = v.meta[0]
        out = []
        for s, x in self.m_set(st, fd, src, en.read(st, src), vs, e, fr, src.ty):
            if isinstance(x, Node) and x.kind == "iter":
                x = Node("iter", {**x.ch, "tr": z3.BoolVal(True)}, x.meta)
            out.append((s, x))
        return out

    def m_set(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        dom = v["dom"]
        ty = lv.ty if lv is not None else t
        if ty is not None and ty.k in ("lref", "rref"):
            ty = ty.elem
        if ty is not None and ty.mi:
            r = self.m_table(st, fd, LVal(lv.root, lv.path, ty), v, vs, e, fr, ty)
            if r is not None:
                return r
        if n == "size":
            for f in self.set_facts(dom):
                st.fact(f)
            return [(st, self.card(dom))]
        if n == "empty":
            for f in self.set_facts(dom):
                st.fact(f)
            return [(st, self.card(dom) == 0)]
        if n in ("count", "contains"):
            k = pack(en.rv(st, vs[0]))
            b = z3.Select(dom, k)
            return [(st, bool_to_int(b) if n == "count" else b)]
        if n in ("find", "lower_bound") and n == "find":
            k = pack(en.rv(st, vs[0]))
            return [(st, self.key_iter(lv, k, z3.Not(z3.Select(dom, k))))]
        if n in ("end", "cend"):
            k = z3.Const(fresh_name("endk"), dom.sort().domain())
            return [(st, self.key_iter(lv, k, z3.BoolVal(True)))]
        if n in ("begin", "cbegin", "rbegin", "crbegin"):
            k = z3.Const(fresh_name("bk"), dom.sort().domain())
            if dom.sort().domain() == INT and not (ty is not None and ty.d.startswith("std::unordered")):
                k, k2 = (z3.Function("set_" + m, dom.sort(), INT)(dom) for m in ("min", "max"))
                st.fact(z3.Implies(self.card(dom) >= 2, z3.And(k < k2, z3.Select(dom, k2), z3.Select(dom, k))))
                k = k2 if n in ("rbegin", "crbegin") else k
            emp = z3.K(dom.sort().domain(), z3.BoolVal(False))
            end = self.card(dom) == 0
            for f in self.set_facts(dom):
                st.fact(f)
            st.fact(z3.Implies(z3.Not(end), z3.Select(dom, k)))
            for f in self.set_update_facts(emp, k, True):
                st.fact(f)
            st.fact(z3.Implies(self.card(dom) == 1, dom == z3.Store(emp, k, z3.BoolVal(True))))
            return [(st, self.key_iter(lv, k, end))]
        if n in ("insert", "emplace", "emplace_hint"):
            xs = vs
            if n == "insert" and len(vs) == 2:
                a = en.rv(st, vs[0])
                if isinstance(a, Node) and a.kind == "iter":
                    b = en.rv(st, vs[1])
                    if isinstance(b, Node) and b.kind == "iter":
                        raise Unsupported("range insert into a set")
                    xs = vs[1:]
            if n == "insert" and len(vs) == 1 and isinstance(en.rv(st, vs[0]), Node) and en.rv(st, vs[0]).kind == "vec":
                raise Unsupported("initializer-list insert into a set")
            k = pack(en.rv(st, xs[0]))
            was = z3.Select(dom, k)
            for f in self.set_update_facts(dom, k, True):
                st.fact(f)
            en.write(st, lv, v.with_(dom=z3.Store(dom, k, z3.BoolVal(True))))
            return [(st, Node("rec", {"first": self.key_iter(lv, k, z3.BoolVal(False)), "second": z3.Not(was)}))]
        if n == "erase":
            a = en.rv(st, vs[0])
            if isinstance(a, Node) and a.kind == "iter":
                k = a["key"]
            else:
                k = pack(a)
            was = z3.Select(dom, k)
            for f in self.set_update_facts(dom, k, False):
                st.fact(f)
            en.write(st, lv, v.with_(dom=z3.Store(dom, k, z3.BoolVal(False))))
            return [(st, bool_to_int(was))]
        if n == "clear":
            en.write(st, lv, v.with_(dom=z3.K(dom.sort().domain(), z3.BoolVal(False))))
            return [(st, None)]
        if n == "operator=":
            en.write(st, lv, en.rv(st, vs[0]))
            return [(st, lv)]
        if n == "swap":
            o = en.rv(st, vs[0])
            en.write(st, vs[0], v)
            en.write(st, lv, o)
            return [(st, None)]
        if n == "reserve":
            return [(st, None)]
        raise Unsupported("set method %s" % n)

    # ------------------------------------------------------- maps
    def entry_inv(self, st, lv, k, val, keyshape):
        """Element refinement declared for the container field, if any."""
        en = self.en
        if lv is not None and lv.root[0] == "h" and len(lv.path) == 1:
            f = en.ref_inv.get((lv.path[0][1], lv.path[0][2]))
            if f:
                return f(en, st, unpack(k, keyshape), val, lv.root[1])
        return None

    def m_map(self, st, fd, lv, v, vs, e, fr, t):
        en, n = self.en, fd["n"]
        dom = v["dom"]
        if n == "size":
            for f in self.set_facts(dom):
                st.fact(f)
            return [(st, self.card(dom))]
        if n == "empty":
            for f in self.set_facts(dom):
                st.fact(f)
            return [(st, self.card(dom) == 0)]
        if n in ("count", "contains"):
            k = pack(en.rv(st, vs[0]))
            return [(st, bool_to_int(z3.Select(dom, k)) if n == "count" else z3.Select(dom, k))]
        if n == "find":
            k = pack(en.rv(st, vs[0]))
            inv = self.entry_inv(st, lv, k, tmap(lambda a: z3.Select(a, k), v["val"]), v.meta)
            if inv is not None:
                st.fact(z3.Implies(z3.Select(dom, k), inv))
            return [(st, self.key_iter(lv, k, z3.Not(z3.Select(dom, k))))]
        if n in ("end", "cend"):
            return [(st, self.key_iter(lv, z3.Const(fresh_name("endk"), dom.sort().domain()), z3.BoolVal(True)))]
        if n in ("begin", "cbegin"):
            k = z3.Const(fresh_name("bk"), dom.sort().domain())
            for f in self.set_facts(dom):
                st.fact(f)
            st.fact(z3.Implies(self.card(dom) != 0, z3.Select(dom, k)))
            emp = z3.K(dom.sort().domain(), z3.BoolVal(False))
            for f in self.set_update_facts(emp, k, True):
                st.fact(f)
            st.fact(z3.Implies(self.card(dom) == 1, dom == z3.Store(emp, k, z3.BoolVal(True))))
            inv = self.entry_inv(st, lv, k, tmap(lambda a: z3.Select(a, k), v["val"]), v.meta)
            if inv is not None:
                st.fact(z3.Implies(z3.Select(dom, k), inv))
            return [(st, self.key_iter(lv, k, self.card(dom) == 0))]
        if n in ("operator[]", "at"):
            k = pack(en.rv(st, vs[0]))
            has = z3.Select(dom, k)
            if n == "at":
                s2 = st.copy()
                s2.branch(z3.Not(has))
                if en.feasible(s2):
                    en.throw(s2, "std::out_of_range")
                st.branch(has)
            elif fd.get("const") or t.d == "ext::index_map":
                pass
            else:
                vt = t.args[1]
                d = en.default(vt)
                for f in self.set_update_facts(dom, k, True):
                    st.fact(f)
                nv = tmap(lambda a, x: z3.Store(a, k, z3.If(has, z3.Select(a, k), coerce_sort(x, a.sort().range()))), v["val"], d)
                en.write(st, lv, v.with_(dom=z3.Store(dom, k, z3.BoolVal(True)), val=nv))
            inv = self.entry_inv(st, lv, k, tmap(lambda a: z3.Select(a, k), v["val"]), v.meta)
            if inv is not None:
                st.fact(z3.Implies(has, inv))
            vt = t.args[1] if t.d != "ext::index_map" else None
            return [(st, lv.sub(("k", k), vt))]
        if n == "data" and t.d == "ext::linear_map":
            return [(st, lv)]
        if n in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint", "erase", "clear", "operator=", "swap", "emplace_back"):
            st.ghost["mapmods"] = st.ghost.get("mapmods", 0) + 1
        if n == "emplace_back":       # on the data of a linear map: the caller keeps the keys unique
            k = pack(en.rv(st, vs[0]))
            en.oblige(st, z3.Not(z3.Select(dom, k)), "key", "the keys of the map stay unique")
            vs = list(vs)
            out = []
            for s, val in self.construct_elem(st, lv.ty.args[1] if lv.ty is not None else t.args[1], vs[1:]):
                for f in self.set_update_facts(dom, k, True):
                    s.fact(f)
                nv = tmap(lambda a, x: z3.Store(a, k, coerce_sort(x, a.sort().range())), v["val"], val)
                en.write(s, lv, v.with_(dom=z3.Store(dom, k, z3.BoolVal(True)), val=nv))
                out.append((s, lv.sub(("e", k))))
            return out
        if n in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
            if n == "insert" or (len(vs) == 1):
                x = en.rv(st, vs[-1])
                if not (isinstance(x, Node) and x.kind == "rec" and "first" in x.ch):
                    raise Unsupported("map insert argument")
                kt, val = x["first"], x["second"]
                sts = [(st, val)]
            else:
                kt = en.rv(st, vs[0])
                sts = self.construct_elem(st, t.args[1], vs[1:])
            k = pack(kt)
            out = []
            for s, val in sts:
                v = en.read(s, lv)
                dom = v["dom"]
                has = z3.Select(dom, k)
                keep = n != "insert_or_assign"
                nv = tmap(lambda a, x: z3.Store(a, k, z3.If(z3.And(has, z3.BoolVal(keep)), z3.Select(a, k), coerce_sort(x, a.sort().range()))), v["val"], val)
                inv = self.entry_inv(s, lv, k, val, v.meta)
                if inv is not None:
                    en.oblige(s, z3.Implies(z3.Not(has), inv), "elem", "entry invariant of %s" % lv.path[0][2])
                for f in self.set_update_facts(dom, k, True):
                    s.fact(f)
                en.write(s, lv, v.with_(dom=z3.Store(dom, k, z3.BoolVal(True)), val=nv))
                out.append((s, Node("rec", {"first": self.key_iter(lv, k, z3.BoolVal(False)), "second": z3.Not(has)})))
            return out
        if n == "erase":
            a = en.rv(st, vs[0])
            k = a["key"] if isinstance(a, Node) and a.kind == "iter" else pack(a)
            was = z3.Select(dom, k)
            for f in self.set_update_facts(dom, k, False):
                st.fact(f)
            en.write(st, lv, v.with_(dom=z3.Store(dom, k, z3.BoolVal(False))))
            return [(st, bool_to_int(was))]
        if n == "clear":
            en.write(st, lv, v.with_(dom=z3.K(dom.sort().domain(), z3.BoolVal(False))))
            return [(st, None)]
        if n == "operator=":
            en.write(st, lv, en.rv(st, vs[0]))
            return [(st, lv)]
        if n == "swap":
            o = en.rv(st, vs[0])
            en.write(st, vs[0], v)
            en.write(st, lv, o)
            return [(st, None)]
        if n == "reserve":
            return [(st, None)]
        raise Unsupported("map method %s" % n)


def mangle(s):
    return "".join(c if c.isalnum() else "_" for c in str(s))


# ------------------------------------------------------------ free functions
FREE = {}


def variant_index(t, ty):
    if ty is None:
        return None
    n = [a.s.replace("const ", "") for a in t.args]
    s = ty.s.replace("const ", "")
    return n.index(s) if s in n else None


FLIST_END = z3.IntVal(-1000000007)
REPO_FREE = {"ext::extract", "ext::as", "ext::swap", "ext::find", "ext::any_of", "ext::all_of", "ext::none_of"}
OPAQUE_METHODS = {}


def free(*names):
    def d(f):
        for n in names:
            FREE[n] = f
        return f
    return d


@free("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "boost::ref", "std::__addressof_impl")
def _move(L, st, fd, vs, e, fr):
    return [(st, vs[0])]


@free("std::addressof", "std::__addressof")
def _addressof(L, st, fd, vs, e, fr):
    return [(st, L.en.addr(vs[0]))]


@free("std::swap")
def _swap(L, st, fd, vs, e, fr):
    a, b = L.en.rv(st, vs[0]), L.en.rv(st, vs[1])
    L.en.write(st, vs[0], b)
    L.en.write(st, vs[1], a)
    return [(st, None)]


@free("std::iter_swap")
def _iter_swap(L, st, fd, vs, e, fr):
    x, y = L.iter_deref(st, L.en.rv(st, vs[0])), L.iter_deref(st, L.en.rv(st, vs[1]))
    a, b = L.en.rv(st, x), L.en.rv(st, y)
    L.en.write(st, x, b)
    L.en.write(st, y, a)
    return [(st, None)]


@free("std::exchange")
def _exchange(L, st, fd, vs, e, fr):
    a, b = L.en.rv(st, vs[0]), L.en.rv(st, vs[1])
    L.en.write(st, vs[0], b)
    return [(st, a)]


@free("std::max", "std::fmax", "fmax")
def _max(L, st, fd, vs, e, fr):
    if len(vs) == 1:
        return _minmax_list(L, st, vs, True)
    a, b = L.en.rv(st, vs[0]), L.en.rv(st, vs[1])
    if z3.is_fp(a):
        r = z3.If(z3.fpLT(a, b), b, a)
    else:
        r = z3.If(a < b, b, a)
    return [(st, L.en.temp(st, r) if L.rtype(fd).k == "lref" else r)]


@free("std::min", "std::fmin", "fmin")
def _min(L, st, fd, vs, e, fr):
    if len(vs) == 1:
        return _minmax_list(L, st, vs, False)
    a, b = L.en.rv(st, vs[0]), L.en.rv(st, vs[1])
    if z3.is_fp(a):
        r = z3.If(z3.fpLT(b, a), b, a)
    else:
        r = z3.If(b < a, b, a)
    return [(st, L.en.temp(st, r) if L.rtype(fd).k == "lref" else r)]


def list_items(L, st, v):
    v = L.en.rv(st, v)
    if not (isinstance(v, Node) and v.kind == "vec"):
        raise Unsupported("initializer list expected")
    n = z3.simplify(v["len"])
    if not z3.is_int_value(n):
        raise Unsupported("initializer list of unknown length")
    return [tmap(lambda a: z3.simplify(z3.Select(a, z3.IntVal(i))), v["at"]) for i in range(n.as_long())]


def _minmax_list(L, st, vs, mx):
    xs = list_items(L, st, vs[0])
    r = xs[0]
    for x in xs[1:]:
        r = z3.If((r < x) if mx else (x < r), x, r)
    return [(st, r)]


@free("std::minmax")
def _minmax(L, st, fd, vs, e, fr):
    if len(vs) == 1:
        xs = list_items(L, st, vs[0])
    else:
        xs = [L.en.rv(st, v) for v in vs[:2]]
    lo = hi = xs[0]
    for x in xs[1:]:
        lo, hi = z3.If(x < lo, x, lo), z3.If(hi < x, x, hi)
    return [(st, Node("rec", {"first": lo, "second": hi}))]


@free("boost::math::sign")
def _sign(L, st, fd, vs, e, fr):
    x = L.en.rv(st, vs[0])
    if not z3.is_int(x):
        raise Unsupported("sign of a non-integer")
    return [(st, z3.If(x > 0, z3.IntVal(1), z3.If(x < 0, z3.IntVal(-1), z3.IntVal(0))))]


@free("std::abs", "std::fabs", "abs")
def _abs(L, st, fd, vs, e, fr):
    a = L.en.rv(st, vs[0])
    if z3.is_fp(a):
        return [(st, z3.fpAbs(a))]
    if fd["r"] is not None and a.sort() == INT and L.rtype(fd).k == "int":
        L.en.overflow(st, -a, L.rtype(fd))
    return [(st, z3.If(a >= 0, a, -a))]


def realfn(name):
    return z3.Function(name, REAL, REAL)


def mk_real(name, facts):
    def f(L, st, fd, vs, e, fr):
        a = L.en.rv(st, vs[0])
        if a.sort() == INT:
            a = z3.ToReal(a)
        if z3.is_fp(a):
            raise Unsupported("%s in floating-point mode" % name)
        r = realfn(name)(a)
        for x in facts(a, r):
            st.fact(x)
        L.en.assumed.add("real function %s: %s" % (name, facts.__doc__ or "uninterpreted"))
        return [(st, r)]
    return f


def exp_facts(a, r):
    "exp > 0, exp(0) = 1, monotone around 0, exp(x) >= 1 + x, exp(x) = 1 iff x = 0"
    return [r > 0, z3.Implies(a == 0, r == 1), z3.Implies(a < 0, r < 1), z3.Implies(a > 0, r > 1), r >= 1 + a]


def log_facts(a, r):
    "log(1) = 0 and sign around 1 on the positive reals; exp(log x) = x"
    ex = realfn("exp")
    return [z3.Implies(a == 1, r == 0), z3.Implies(z3.And(a > 0, a < 1), r < 0), z3.Implies(a > 1, r > 0), z3.Implies(a > 0, ex(r) == a)]


def sqrt_facts(a, r):
    "sqrt(x)^2 = x and sqrt(x) >= 0 for x >= 0"
    return [z3.Implies(a >= 0, z3.And(r >= 0, r * r == a))]


def none_facts(a, r):
    return []


def range1(a, r):
    "range [-1, 1]"
    return [r >= -1, r <= 1]


def tanh_facts(a, r):
    "range (-1, 1), odd sign"
    return [r > -1, r < 1, z3.Implies(a == 0, r == 0), z3.Implies(a > 0, r > 0), z3.Implies(a < 0, r < 0)]


def mk_round(up):
    def f(L, st, fd, vs, e, fr):
        a = coerce_sort(L.en.rv(st, vs[0]), REAL)
        return [(st, -z3.ToReal(z3.ToInt(-a)) if up else z3.ToReal(z3.ToInt(a)))]
    return f


for nm, fs in (("exp", exp_facts), ("log", log_facts), ("sqrt", sqrt_facts), ("log10", none_facts), ("sin", range1), ("cos", range1),
               ("tan", none_facts), ("asin", none_facts), ("acos", none_facts), ("atan", none_facts), ("sinh", none_facts),
               ("cosh", none_facts), ("tanh", tanh_facts), ("lgamma", none_facts), ("tgamma", none_facts)):
    FREE["std::" + nm] = FREE[nm] = mk_real(nm, fs)
for nm, up in (("floor", False), ("ceil", True)):
    FREE["std::" + nm] = FREE[nm] = mk_round(up)


@free("std::pow", "pow")
def _pow(L, st, fd, vs, e, fr):
    a, b = [L.en.rv(st, v) for v in vs]
    b0 = z3.simplify(b)
    if a.sort() == INT:
        a = z3.ToReal(a)
    k = None
    if z3.is_int_value(b0):
        k = b0.as_long()
    elif z3.is_rational_value(b0) and b0.denominator_as_long() == 1:
        k = b0.numerator_as_long()
    if k is not None and 0 <= k <= 4:
        r = z3.RealVal(1)
        for _ in range(k):
            r = r * a
        return [(st, r)]
    if b.sort() == INT:
        b = z3.ToReal(b)
    f = z3.Function("pow", REAL, REAL, REAL)
    r = f(a, b)
    st.fact(z3.Implies(b == 0, r == 1))
    st.fact(z3.Implies(b == 1, r == a))
    st.fact(z3.Implies(a > 0, r > 0))
    st.fact(z3.Implies(z3.And(a >= 0, b > 0), r >= 0))
    st.fact(z3.Implies(z3.And(a == 0, b > 0), r == 0))
    L.en.assumed.add("real function pow: pow(x,0)=1, pow(x,1)=x, positivity, pow(0,b>0)=0")
    return [(st, r)]


@free("std::fmod", "fmod")
def _fmod(L, st, fd, vs, e, fr):
    a, b = [coerce_sort(L.en.rv(st, v), REAL) for v in vs]
    r = z3.Function("fmod", REAL, REAL, REAL)(a, b)
    ab = lambda x: z3.If(x >= 0, x, -x)
    st.fact(z3.Implies(b != 0, z3.And(ab(r) < ab(b), ab(r) <= ab(a), z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0))))
    L.en.assumed.add("real function fmod: smaller than both operands by magnitude, the sign of the dividend")
    return [(st, r)]


@free("std::trunc", "trunc")
def _trunc(L, st, fd, vs, e, fr):
    a = coerce_sort(L.en.rv(st, vs[0]), REAL)
    if L.en.opts.get("opaque_trunc"):
        return [(st, z3.Function("trunc", REAL, REAL)(a))]
    return [(st, z3.If(a >= 0, z3.ToReal(z3.ToInt(a)), -z3.ToReal(z3.ToInt(-a))))]


@free("std::isnan", "__builtin_isnan")
def _isnan(L, st, fd, vs, e, fr):
    a = L.en.rv(st, vs[0])
    return [(st, z3.fpIsNaN(a) if z3.is_fp(a) else z3.BoolVal(False))]


@free("std::isfinite", "__builtin_isfinite")
def _isfinite(L, st, fd, vs, e, fr):
    a = L.en.rv(st, vs[0])
    return [(st, z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsInf(a))) if z3.is_fp(a) else z3.BoolVal(True))]


@free("std::make_unique", "std::make_shared", "boost::make_shared")
def _make(L, st, fd, vs, e, fr):
    t = L.rtype(fd)
    return L.make_object(st, t.args[0], vs)


@free("boost::static_pointer_cast", "std::static_pointer_cast", "boost::get_pointer", "boost::const_pointer_cast", "std::const_pointer_cast")
def _spc(L, st, fd, vs, e, fr):
    return [(st, L.en.rv(st, vs[0]))]


@free("boost::adaptors::transform")
def _transform(L, st, fd, vs, e, fr):
    return [(st, Node("xform", {}, (vs[0] if isinstance(vs[0], LVal) else L.en.temp(st, vs[0], None), L.en.rv(st, vs[1]))))]


def _holder(L, st, fd, vs, e, fr):
    """boost::adaptors::transformed(f), filtered(f)."""
    return [(st, Node("rec", {}, ("holder", "filter" if "filter_holder" in fd["q"] else "transform", L.en.rv(st, vs[-1]))))]


@free("boost::range_detail::operator|")
def _pipe(L, st, fd, vs, e, fr):
    h = L.en.rv(st, vs[1])
    if not (isinstance(h, Node) and h.meta and h.meta[0] == "holder"):
        raise Unsupported("range adaptor %s" % fd["p"])
    f = h.meta[2] if h.meta[1] == "transform" else Node("filter", {}, (h.meta[2],))
    return [(st, Node("xform", {}, (vs[0] if isinstance(vs[0], LVal) else L.en.temp(st, vs[0], None), f)))]


@free("std::make_pair")
def _mkpair(L, st, fd, vs, e, fr):
    return [(st, Node("rec", {"first": L.en.rv(st, vs[0]), "second": L.en.rv(st, vs[1])}))]


@free("ext::as")
def _as(L, st, fd, vs, e, fr):
    v = L.en.rv(st, vs[0])
    if "p" not in v.ch:
        raise Unsupported("ext::as of values")
    return [(st, v["p"])]


def variant_targ(L, fd, v):
    for a in fd.get("a", []):
        if "t" in a:
            i = variant_index(v.meta, L.fd_tu(fd).types[a["t"]])
            if i is not None:
                return i
        elif "i" in a:
            return int(a["i"])
    raise Unsupported("variant alternative")


@free("std::holds_alternative")
def _holds(L, st, fd, vs, e, fr):
    v = L.en.rv(st, vs[0])
    return [(st, v["which"] == variant_targ(L, fd, v))]


@free("std::get_if")
def _getif(L, st, fd, vs, e, fr):
    lv, v = L.variant_arg(st, vs[0])
    i = variant_targ(L, fd, v)
    out = []
    for c in (True, False):
        s = st.copy()
        cond = v["which"] == i if c else v["which"] != i
        s.branch(cond)
        if not L.en.feasible(s):
            continue
        out.append((s, PtrTo(L.alternative(lv, v, i)) if c else z3.IntVal(0)))
    return out


def visitor_ops(L, vis, alts):
    """The call operators of a visitor object by alternative."""
    if not isinstance(vis, LVal) or vis.ty is None:
        raise Unsupported("visitor without a type")
    P = L.en.P
    ty = vis.ty.elem if vis.ty.k in ("lref", "rref") else vis.ty
    plain = lambda t: t.s.replace("const ", "").rstrip("& ").strip()
    by = {}
    for k, f in P.fdecls.items():
        if f.get("n") == "operator()" and "clst" in f and len(f["p"]) == 1:
            tu = P.fdecl_tu[k]
            if plain(tu.types[f["clst"]]) == plain(ty):
                by[plain(tu.types[f["p"][0]])] = k
    out = []
    for a in alts:
        if plain(a) not in by:
            raise Unsupported("visitor of " + a.s)
        out.append(by[plain(a)])
    return out


@free("std::visit")
def _visit(L, st, fd, vs, e, fr):
    en = L.en
    fn = vs[0] if not isinstance(vs[0], LVal) else en.rv(st, vs[0])
    if len(vs) != 2:
        raise Unsupported("visit of several variants")
    lv, v = L.variant_arg(st, vs[1])
    out = []
    n = len(v.meta.args)
    st.fact(z3.And(v["which"] >= 0, v["which"] < n))
    ops = visitor_ops(L, vs[0], v.meta.args) if isinstance(fn, Node) else None
    for i in range(n):
        s = st.copy()
        cond = v["which"] == i
        s.branch(cond)
        if not en.feasible(s):
            continue
        a = L.alternative(lv, v, i)
        if ops:
            ty = L.en.P.fdecl_tu[ops[i]].types[L.en.P.fdecls[ops[i]]["p"][0]]
            if ty.k not in ("lref", "rref"):
                a = en.rv(s, a)
            out += en.call(s, ops[i], vs[0], [a], e, fr)
        else:
            out += en.invoke(s, fn, [a])
    if L.rtype(fd).k not in ("lref", "rref"):
        out = en.merge(st, [(s, en.rv(s, r)) for s, r in out])
    return out


@free("ext::swap")
def _extswap(L, st, fd, vs, e, fr):
    return _swap(L, st, fd, vs, e, fr)


@free("std::get")
def _get(L, st, fd, vs, e, fr):
    a = fd.get("a", [])
    v = L.en.rv(st, vs[0])
    if isinstance(v, Node) and v.kind == "variant":
        lv, v = L.variant_arg(st, vs[0])
        i = variant_targ(L, fd, v)
        L.en.oblige(st, v["which"] == i, "access", "std::get of the held alternative")
        return [(st, L.alternative(lv, v, i))]
    if a and "i" in a[0]:
        i = int(a[0]["i"])
        v = L.en.rv(st, vs[0])
        if isinstance(v, Node) and v.kind == "rec":
            n = list(v.ch)[i]
            if isinstance(vs[0], LVal):
                return [(st, vs[0].sub(("f", "tuple", n)))]
            return [(st, v.ch[n])]
        if isinstance(v, Node) and v.kind == "vec":
            return [(st, vs[0].sub(("i", z3.IntVal(i))))]
    raise Unsupported("std::get")


@free("ext::find")
def _extfind(L, st, fd, vs, e, fr):
    lv = vs[0]
    v = L.en.rv(st, lv)
    if isinstance(v, Node) and v.kind in ("map", "set"):
        t = lv.ty
        f = L.m_map if v.kind == "map" else L.m_set
        return f(st, {"n": "find"}, lv, v, vs[1:], e, fr, t)
    if isinstance(v, Node) and v.kind == "xform" and len(v.meta) == 3:
        return L.m_xform(st, {"n": "find"}, lv, v, vs[1:], e, fr, None)
    en = L.en
    if isinstance(lv, LVal) and lv.ty is not None and lv.ty.cat == "record":
        # A container of the code base: its own find() is called.
        ks = [k for k, d in en.P.fdecls.items() if d.get("n") == "find" and d["q"] == lv.ty.s + "::find" and len(d["p"]) == len(vs) - 1]
        if len(ks) == 1:
            return en.call(st, ks[0], lv, vs[1:], e, fr)
    raise Unsupported("ext::find")


def seq_of(L, st, vs):
    """(lvalue, vec, begin, end, rest) of an (iterator pair | range) call."""
    v = L.en.rv(st, vs[0])
    if isinstance(v, Node) and v.kind == "iter":
        w = L.en.rv(st, vs[1])
        return v.meta, L.en.read(st, v.meta), v, w, vs[2:]
    if isinstance(v, Node) and v.kind == "vec":
        lv = vs[0] if isinstance(vs[0], LVal) else L.en.temp(st, v)
        return lv, v, L.vec_iter(lv, z3.IntVal(0)), L.vec_iter(lv, v["len"]), vs[1:]
    if isinstance(v, Node) and v.kind in ("set", "map"):
        return vs[0], v, None, None, vs[1:]
    raise Unsupported("algorithm over %s" % (v,))


def table_elem(ty):
    if ty.k in ("lref", "rref"):
        ty = ty.elem
    p = ty.args[0]
    return p.elem if p.k == "ptr" else p.args[0]


def table_range(L, st, src):
    """mef::TableRange: the elements behind the pointers of a table."""
    el = table_elem(src.ty)
    return Node("xform", {}, (src, lambda s, vs: [(s, L.en.heap_lv(L.en.rv(s, vs[0]), el))], "table"))


@free("boost::adaptors::indirect")
def _indirect(L, st, fd, vs, e, fr):
    return [(st, table_range(L, st, vs[0] if isinstance(vs[0], LVal) else L.en.temp(st, vs[0], None)))]


@free("ext::extract")
def _extract(L, st, fd, vs, e, fr):
    it, c = L.en.rv(st, vs[0]), L.en.deref(st, vs[1], None)
    if not (isinstance(it, Node) and it.kind == "iter"):
        raise Unsupported("extraction by key")
    v = L.en.read(st, c)
    for f in L.set_update_facts(v["dom"], it["key"], False):
        st.fact(f)
    L.en.write(st, c, v.with_(dom=z3.Store(v["dom"], it["key"], z3.BoolVal(False))))
    return [(st, it["key"])]


def eval_pred(L, st, fn, arg, guard=None):
    """Evaluate a pure predicate on an lvalue: (term, facts)."""
    en = L.en
    base = st.copy()
    if guard is not None:
        base.pc.append(guard)
    n = len(base.pc)
    rs = en.invoke(base.copy(), fn, [arg])
    rs = [(s, en.rv(s, v)) for s, v in rs]
    m = en.merge(base, rs)
    if len(m) != 1:
        raise Unsupported("impure or forking predicate")
    s, v = m[0]
    for k in s.heap:
        if s.heap[k] is not base.heap.get(k):
            raise Unsupported("predicate with side effects")
    return v, s.pc[n:]


def skolemize(terms, start, j):
    """Constants introduced while evaluating a predicate of the bound
    variable j become functions of j."""
    sub, seen = {}, set()
    todo = list(terms)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not x.eq(j):
            n = x.decl().name()
            if "!" in n and n.rsplit("!", 1)[1].isdigit() and int(n.rsplit("!", 1)[1]) > start:
                sub[x.get_id()] = (x, z3.Function(n + "_sk", j.sort(), x.sort())(j))
        else:
            todo += x.children()
    if not sub:
        return list(terms)
    return [z3.substitute(t, *sub.values()) for t in terms]


def literal_len(v, b, e_):
    if v.kind != "vec" or b is None:
        return None
    x, y = z3.simplify(b["idx"]), z3.simplify(e_["idx"])
    if z3.is_int_value(x) and z3.is_int_value(y) and 0 <= y.as_long() - x.as_long() <= 8:
        return range(x.as_long(), y.as_long())
    return None


def quant(L, st, vs, exists, neg=False):
    lv, v, b, e_, rest = seq_of(L, st, vs)
    fn = L.en.rv(st, rest[0])
    lit = literal_len(v, b, e_)
    if lit is not None:
        ts = []
        for i in lit:
            t, facts = eval_pred(L, st, fn, lv.sub(("i", z3.IntVal(i)), L.en.elem_ty(lv)))
            for f in facts:
                st.fact(f)
            ts.append(z3.Not(t) if neg else t)
        return [(st, (z3.Or if exists else z3.And)(*ts) if ts else z3.BoolVal(not exists))]
    start = z3_uid()
    if v.kind == "vec":
        j = z3.Const(fresh_name("aj"), INT)
        rng = z3.And(j >= b["idx"], j < e_["idx"])
        arg = lv.sub(("i", j), L.en.elem_ty(lv))
    else:
        j = z3.Const(fresh_name("ak"), v["dom"].sort().domain())
        rng = z3.Select(v["dom"], j)
        kt = L.key_tree(lv, j, L.en, st)
        arg = L.en.temp(st, kt) if v.kind == "set" else lv.sub(("e", j))
    t, facts = eval_pred(L, st, fn, arg, rng)
    if t.sort() == INT:
        t = t != 0
    sk = skolemize([t] + facts, z3_uid_after(j, start), j)
    t, facts = sk[0], sk[1:]
    for f in facts:
        if has_fresh(f, j):
            st.fact(z3.ForAll([j], z3.Implies(rng, f)))
        elif not z3.is_true(f):
            st.fact(f)
    if neg:
        t = z3.Not(t)
    if exists:
        r = z3.Exists([j], z3.And(rng, t))
    else:
        r = z3.ForAll([j], z3.Implies(rng, t))
    b_ = z3.Const(fresh_name("alg"), BOOL)
    st.fact(b_ == r)
    return [(st, b_)]


def z3_uid():
    import core
    return core._uid[0]


def z3_uid_after(j, start):
    return int(j.decl().name().rsplit("!", 1)[1])


def has_fresh(t, j):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_expr(x) and x.eq(j):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False


@free("std::any_of", "boost::algorithm::any_of", "ext::any_of")
def _any(L, st, fd, vs, e, fr):
    return quant(L, st, vs, True)


@free("std::all_of", "boost::algorithm::all_of", "ext::all_of")
def _all(L, st, fd, vs, e, fr):
    return quant(L, st, vs, False)


@free("std::none_of", "boost::algorithm::none_of", "ext::none_of")
def _none(L, st, fd, vs, e, fr):
    return quant(L, st, vs, False, neg=True)


@free("std::find", "boost::range::find", "boost::find")
def _find(L, st, fd, vs, e, fr):
    lv, v, b, e_, rest = seq_of(L, st, vs)
    if v.kind != "vec":
        raise Unsupported("find over associative container")
    x = L.en.rv(st, rest[0])
    return find_where(L, st, lv, v, b, e_, lambda j: L.en.tree_eq(tmap(lambda a: z3.Select(a, j), v["at"]), x))


def find_where(L, st, lv, v, b, e_, pred):
    i = z3.Const(fresh_name("fi"), INT)
    lit = literal_len(v, b, e_)
    if lit is not None:
        r = e_["idx"]
        for k in reversed(lit):
            r = z3.If(pred(z3.IntVal(k)), z3.IntVal(k), r)
        st.fact(i == r)
        return [(st, L.vec_iter(lv, i))]
    j = z3.Const(fresh_name("fj"), INT)
    st.fact(z3.And(i >= b["idx"], i <= e_["idx"]))
    st.fact(z3.Implies(i < e_["idx"], pred(i)))
    st.fact(z3.ForAll([j], z3.Implies(z3.And(j >= b["idx"], j < i), z3.Not(pred(j)))))
    return [(st, L.vec_iter(lv, i))]


@free("std::find_if", "boost::range::find_if", "boost::find_if", "std::find_if_not")
def _find_if(L, st, fd, vs, e, fr):
    lv, v, b, e_, rest = seq_of(L, st, vs)
    if v.kind != "vec":
        raise Unsupported("find_if over associative container")
    fn = L.en.rv(st, rest[0])

    def pred(j):
        start = z3_uid()
        g = None
        if z3.is_const(j) and not z3.is_int_value(j):
            g = z3.And(j >= b["idx"], j < e_["idx"])
        t, facts = eval_pred(L, st, fn, lv.sub(("i", j), L.en.elem_ty(lv)), g)
        if z3.is_const(j) and not z3.is_int_value(j):
            sk = skolemize([t] + facts, start, j)
            t, facts = sk[0], sk[1:]
        for f in facts:
            if not z3.is_int_value(j) and has_fresh(f, j):
                st.fact(z3.ForAll([j], z3.Implies(g, f) if g is not None and z3.is_const(j) else f))
            elif not z3.is_true(f):
                st.fact(f)
        return z3.Not(t) if fd["n"] == "find_if_not" else t
    return find_where(L, st, lv, v, b, e_, pred)


@free("boost::max_element", "boost::min_element", "boost::range::max_element", "boost::range::min_element")
def _extreme_element(L, st, fd, vs, e, fr):
    """Some element, if there is one; the comparison is taken to have no effects."""
    lv = vs[0]
    v = L.en.rv(st, lv)
    if v.kind != "set" or not isinstance(lv, LVal):
        raise Unsupported("extreme element of " + v.kind)
    k = z3.Const(fresh_name("xk"), v["dom"].sort().domain())
    for f in L.set_facts(v["dom"]):
        st.fact(f)
    st.fact(z3.Implies(L.card(v["dom"]) != 0, z3.Select(v["dom"], k)))
    return [(st, L.key_iter(lv, k, L.card(v["dom"]) == 0))]


@free("std::begin", "std::cbegin", "boost::begin")
def _begin(L, st, fd, vs, e, fr):
    v = L.en.rv(st, vs[0])
    return getattr(L, "m_" + v.kind)(st, {"n": "begin"}, vs[0], v, [], e, fr, vs[0].ty)


@free("std::end", "std::cend", "boost::end")
def _end(L, st, fd, vs, e, fr):
    v = L.en.rv(st, vs[0])
    return getattr(L, "m_" + v.kind)(st, {"n": "end"}, vs[0], v, [], e, fr, vs[0].ty)


@free("std::next", "std::prev")
def _next(L, st, fd, vs, e, fr):
    it = L.en.rv(st, vs[0])
    k = L.en.rv(st, vs[1]) if len(vs) > 1 else z3.IntVal(1)
    return [(st, L.en.arith(st, "+" if fd["n"] == "next" else "-", it, k, None))]


@free("std::distance")
def _distance(L, st, fd, vs, e, fr):
    vs = [x if not isinstance(L.en.rv(st, x), Node) or L.en.rv(st, x).kind != "vec" else L.vec_iter(x, z3.IntVal(0)) for x in vs]
    return [(st, L.en.arith(st, "-", L.en.rv(st, vs[1]), L.en.rv(st, vs[0]), None))]


def strict_order(L, st, lv, v, fn):
    """The comparator is a strict order on the elements, as sorting requires."""
    en = L.en
    ix = [z3.Const(fresh_name("so"), INT) for _ in range(3)]
    s = st.copy()
    for i in ix:
        s.pc.append(z3.And(i >= 0, i < v["len"]))
    n0 = len(en.obls)
    try:
        def less(a, b):
            base = s.copy()
            rs = en.invoke(base.copy(), fn, [lv.sub(("i", ix[k]), en.elem_ty(lv)) for k in (a, b)])
            m = en.merge(base, [(t, en.rv(t, x)) for t, x in rs])
            if len(m) != 1:
                raise Unsupported("forking comparator")
            t, x = m[0]
            s.pc.extend(t.pc[len(base.pc):])
            return x if x.sort() == BOOL else x != 0
        ab, ba, bc, ac = less(0, 1), less(1, 0), less(1, 2), less(0, 2)
    except Unsupported:
        del en.obls[n0:]
        return
    t = s.copy()
    en.oblige(t, z3.Not(z3.And(ab, ba)), "sort", "the comparator is a strict order")
    en.oblige(t, z3.Implies(z3.And(ab, bc), ac), "sort", "the comparator is transitive")


@free("std::sort", "std::stable_sort", "boost::range::sort", "boost::sort", "boost::range::stable_sort", "std::partial_sort")
def _sort(L, st, fd, vs, e, fr):
    """A permutation (the order is not modelled) under a strict order."""
    lv, v, b, e_, rest = seq_of(L, st, vs)
    if v.kind == "vec" and rest and isinstance(L.en.rv(st, rest[-1]), Closure):
        strict_order(L, st, lv, v, L.en.rv(st, rest[-1]))
    new = L.en.fresh_like(v["at"], "sorted")
    p = z3.Function(fresh_name("perm"), INT, INT)
    q = z3.Function(fresh_name("iperm"), INT, INT)
    j = z3.Const(fresh_name("pj"), INT)
    ln = v["len"]
    inr = z3.And(j >= 0, j < ln)
    eqs = [z3.Select(a, j) == z3.Select(b_, p(j)) for a, b_ in zip(leaves(new), leaves(v["at"]))]
    st.fact(z3.ForAll([j], z3.Implies(inr, z3.And(p(j) >= 0, p(j) < ln, q(p(j)) == j, *eqs)), patterns=[z3.Select(l, j) for l in leaves(new)]))
    st.fact(z3.ForAll([j], z3.Implies(inr, z3.And(q(j) >= 0, q(j) < ln, p(q(j)) == j)), patterns=[q(j)]))
    for f in L.seq_same(v["at"], new, ln):
        st.fact(f)
    st.ghost["perm"] = st.ghost.get("perm", ()) + ((v, new),)
    hook = L.en.opts.get("sort_hook")
    L.en.write(st, lv, v.with_(at=new))
    if hook:
        for f in hook(L.en, st, v, v.with_(at=new)):
            st.fact(f)
    return [(st, None)]


def pyloop(L, st, vs_range, body, fr):
    """A synthetic range-for over the sequence calling body(state, elem lv)."""
    raise Unsupported("synthetic loop")


@free("std::hash_combine", "boost::hash_combine", "boost::hash_value", "boost::hash_range")
def _hash(L, st, fd, vs, e, fr):
    rt = L.rtype(fd)
    if rt.s == "void":
        old = L.en.rv(st, vs[0])
        L.en.write(st, vs[0], z3.Const(fresh_name("hash"), INT))
        st.fact(L.en.rv(st, vs[0]) >= 0)
        return [(st, None)]
    h = z3.Const(fresh_name("hash"), INT)
    st.fact(h >= 0)
    return [(st, h)]


@free("std::chrono::_V2::steady_clock::now", "std::chrono::steady_clock::now")
def _now(L, st, fd, vs, e, fr):
    return [(st, L.en.fresh(L.rtype(fd), "now"))]


@free("std::to_string")
def _tostr(L, st, fd, vs, e, fr):
    return [(st, z3.Const(fresh_name("str"), STR))]


@free("__builtin_huge_val", "__builtin_inf")
def _inf(L, st, fd, vs, e, fr):
    if L.en.real_mode == "fp":
        return [(st, z3.fpPlusInfinity(L.en.fsort))]
    raise Unsupported("infinity")


@free("std::numeric_limits<double>::infinity", "std::numeric_limits<double>::quiet_NaN")
def _ninf(L, st, fd, vs, e, fr):
    if L.en.real_mode == "fp":
        return [(st, z3.fpPlusInfinity(L.en.fsort) if fd["n"] == "infinity" else z3.fpNaN(L.en.fsort))]
    raise Unsupported("infinity")


def _limit(name):
    def f(L, st, fd, vs, e, fr):
        t = L.rtype(fd)
        if t.k == "int":
            hi = (1 << t.w) - 1 if t.u else (1 << (t.w - 1)) - 1
            lo = 0 if t.u else -(1 << (t.w - 1))
            return [(st, z3.IntVal(hi if name == "max" else lo))]
        if t.k == "float":
            x = {"max": 1.7976931348623157e308, "lowest": -1.7976931348623157e308, "min": 2.2250738585072014e-308,
                 "epsilon": 2.220446049250313e-16}[name]
            import fractions
            return [(st, z3.RealVal(str(fractions.Fraction(x))) if L.en.real_mode == "real" else z3.FPVal(x, L.en.fsort))]
        raise Unsupported("numeric_limits")
    return f


for _n in ("max", "min", "lowest", "epsilon"):
    FREE["std::numeric_limits::" + _n] = _limit(_n)


def accumulate(L, st, fd, vs, e, fr):
    """std::accumulate as a synthetic loop over the accumulator cell."""
    en = L.en
    lv, v, b, e_, rest = seq_of(L, st, vs)
    acc0 = en.rv(st, rest[0])
    op = en.rv(st, rest[1]) if len(rest) > 1 else None
    if b is not None:
        bi, ei = z3.simplify(b["idx"]), z3.simplify(e_["idx"] - v["len"])
        if not (z3.is_int_value(bi) and bi.as_long() == 0 and z3.is_int_value(ei) and ei.as_long() == 0):
            raise Unsupported("accumulate over a subrange")
    rt = L.rtype(fd)
    fr2 = fr
    vid = "acc%d" % id(e)
    st.mem[("c", (fr.id, vid))] = coerce_sort(acc0, en.shape(rt).sort()) if isinstance(acc0, z3.ExprRef) else acc0
    acc = LVal(("c", (fr.id, vid)), (), rt)
    eid = "el%d" % id(e)

    def body(s):
        el = s.mem.get(("r", fr.id, eid))
        a = en.read(s, acc)
        out = []
        if op is None:
            x = en.rv(s, el)
            en.write(s, acc, en.arith(s, "+", a, x, rt))
            return [(s, None)]
        for s2, r in en.invoke(s, op, [en.temp(s, a, rt), el]):
            r = en.rv(s2, r)
            if isinstance(r, z3.ExprRef) and isinstance(a, z3.ExprRef):
                r = coerce_sort(r, a.sort())
            en.write(s2, acc, r)
            out.append((s2, None))
        return out
    lref = Ty()
    for a_ in Ty.__slots__:
        setattr(lref, a_, None)
    lref.k, lref.s, lref.d, lref.cat, lref.args, lref.elem = "lref", "elem&", "", "lref", [], en.elem_ty(lv)
    tid = len(fr.tu.types)
    fr.tu.types.append(lref)
    node = {"k": "RangeFor", "l": (e or {}).get("l"), "range": {"k": "PyVal", "v": lv, "t": 0},
            "var": {"v": eid, "n": "elem", "t": tid}, "body": {"k": "PyStmt", "fn": body}}
    out = []
    for s, o in en.s_RangeFor(st, node, fr):
        if o is not None:
            raise Unsupported("accumulate outcome")
        out.append((s, en.read(s, acc)))
    return out


FREE["std::accumulate"] = FREE["boost::accumulate"] = FREE["boost::numeric::accumulate"] = accumulate


@free("std::for_each", "boost::range::for_each", "boost::for_each")
def _for_each(L, st, fd, vs, e, fr):
    en = L.en
    lv, v, b, e_, rest = seq_of(L, st, vs)
    op = en.rv(st, rest[0])
    eid = "fe%d" % id(e)

    def body(s):
        el = s.mem.get(("r", fr.id, eid)) or s.mem.get(("c", (fr.id, eid)))
        return [(s2, None) for s2, _ in en.invoke(s, op, [el])]
    lref = Ty()
    for a_ in Ty.__slots__:
        setattr(lref, a_, None)
    lref.k, lref.s, lref.d, lref.cat, lref.args, lref.elem = "lref", "elem&", "", "lref", [], en.elem_ty(lv)
    tid = len(fr.tu.types)
    fr.tu.types.append(lref)
    node = {"k": "RangeFor", "l": (e or {}).get("l"), "range": {"k": "PyVal", "v": lv, "t": 0},
            "var": {"v": eid, "n": "elem", "t": tid}, "body": {"k": "PyStmt", "fn": body}}
    return [(s, None) for s, o in en.s_RangeFor(st, node, fr)]


# ------------------------------------------------------------ intervals
def _interval(lc, rc):
    def f(L, st, fd, vs, e, fr):
        a, b = [coerce_sort(L.en.rv(st, v), REAL) for v in vs]
        return [(st, Node("rec", {"lo": a, "hi": b, "lc": z3.BoolVal(lc), "rc": z3.BoolVal(rc)}))]
    return f


for nm, lc, rc in (("closed", 1, 1), ("open", 0, 0), ("left_open", 0, 1), ("right_open", 1, 0)):
    FREE["boost::icl::continuous_interval<double>::" + nm] = _interval(bool(lc), bool(rc))


def interval_empty(a):
    return z3.If(z3.And(a["lc"], a["rc"]), a["hi"] < a["lo"], a["hi"] <= a["lo"])


def interval_within(a, b):
    return z3.Or(interval_empty(a), z3.And(
        z3.Or(b["lo"] < a["lo"], z3.And(b["lo"] == a["lo"], z3.Or(b["lc"], z3.Not(a["lc"])))),
        z3.Or(a["hi"] < b["hi"], z3.And(a["hi"] == b["hi"], z3.Or(b["rc"], z3.Not(a["rc"]))))))


def interval_has(a, x):
    return z3.And(z3.If(a["lc"], a["lo"] <= x, a["lo"] < x), z3.If(a["rc"], x <= a["hi"], x < a["hi"]))


@free("boost::icl::within")
def _within(L, st, fd, vs, e, fr):
    a, b = [L.en.rv(st, v) for v in vs]
    return [(st, interval_within(a, b))]


@free("boost::icl::contains")
def _contains(L, st, fd, vs, e, fr):
    a, b = [L.en.rv(st, v) for v in vs]
    return [(st, interval_within(b, a) if isinstance(b, Node) else interval_has(a, b))]


# ------------------------------------------------------------ function objects
def _functor(op):
    def f(L, st, lv, vs, fd):
        en = L.en
        a = [en.rv(st, v) for v in vs]
        if op in ("&&", "||", "!"):
            b = [coerce_sort(x, BOOL) if x.sort() != REAL else x != 0 for x in a]
            r = z3.Not(b[0]) if op == "!" else z3.And(*b) if op == "&&" else z3.Or(*b)
        elif op == "neg":
            r = -a[0]
        elif op in ("==", "!=", "<", ">", "<=", ">="):
            r = en.compare(st, op, a[0], a[1])
        else:
            r = en.arith(st, op, a[0], a[1], L.rtype(fd))
        return [(st, r)]
    return f


for nm, op in (("plus", "+"), ("minus", "-"), ("multiplies", "*"), ("divides", "/"), ("negate", "neg"), ("equal_to", "=="), ("not_equal_to", "!="),
               ("less", "<"), ("greater", ">"), ("less_equal", "<="), ("greater_equal", ">="), ("logical_and", "&&"), ("logical_or", "||"), ("logical_not", "!")):
    for sfx in ("", "<void>", "<>"):
        OPAQUE_METHODS[("std::" + nm + sfx, "operator()")] = _functor(op)
OPAQUE_METHODS[("std::modulus", "operator()")] = _functor("%")


@free("std::tie")
def _tie(L, st, fd, vs, e, fr):
    if not all(isinstance(v, LVal) for v in vs):
        raise Unsupported("std::tie of temporaries")
    return [(st, Node("tie", {}, list(vs)))]


def m_tie(self, st, fd, lv, v, vs, e, fr, t):
    if fd["n"] != "operator=":
        raise Unsupported("method of a tie")
    x = self.en.rv(st, vs[0])
    parts = [x["first"], x["second"]] if "first" in x.ch else [x["_%d" % i] for i in range(len(x.ch))]
    for l, p in zip(v.meta, parts):
        self.en.write(st, l, p)
    return [(st, lv)]


Lib.m_tie = m_tie
