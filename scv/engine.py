"""Symbolic executor / VC generator over the extracted C++ AST."""
import os
import z3
from core import *

MAXPATHS = 4000


DEBUG_LOOPS = bool(os.environ.get("SCV_LOOP"))


class Frame:
    _n = [0]

    def __init__(self, tu, this, key):
        Frame._n[0] += 1
        self.id = Frame._n[0]
        self.tu, self.this, self.key = tu, this, key
        self.loop_no = 0


class Obligation:
    def __init__(self, name, kind, pc, goal, info=None):
        self.name, self.kind, self.pc, self.goal = name, kind, list(pc), goal
        self.info = info


class Engine:
    def __init__(self, prog, contracts, opts=None):
        import lib
        self.P, self.C = prog, contracts
        self.opts = dict(opts or {})
        self.obls = []
        self.sinks = []
        self.initial = {}
        self.shape_cache = {}
        self.used_contracts, self.used_models, self.inlined = set(), set(), set()
        self.assumed = set()
        self.fn_stack = []
        self.cur = "?"
        self.lib = lib.Lib(self)
        self.immutable = set(self.opts.get("immutable", ()))
        self.ref_inv = self.opts.get("elem_inv", {})
        self.real_mode = self.opts.get("float", "real")
        self.fsort = REAL if self.real_mode == "real" else z3.Float64()
        self.loop_specs = []
        self.asserts = self.opts.get("asserts", "check")
        self.npaths = 0
        self.globals = {}

    # ------------------------------------------------------------ shapes
    def shape(self, ty, depth=0, seen=()):
        """A value tree with canonical constants as leaves."""
        key = ty.s
        if key in self.shape_cache:
            return self.shape_cache[key]
        r = self._shape(ty, seen)
        self.shape_cache[key] = r
        return r

    def leaf(self, sort):
        return z3.Const("leaf", sort)

    def _shape(self, ty, seen):
        if ty.s in seen:
            return Node("opaque", {"id": self.leaf(INT)})
        seen = seen + (ty.s,)
        k, c = ty.k, ty.cat
        if k == "bool":
            return self.leaf(BOOL)
        if k == "float":
            return self.leaf(self.fsort)
        if k in ("int", "enum"):
            return self.leaf(INT)
        if k == "ptr" and ty.elem is not None and ty.elem.k == "int" and ty.elem.w == 8:
            return self.leaf(STR)   # C strings are values
        if k in ("ptr", "lref", "rref"):
            return self.leaf(INT)
        if k == "array":
            return Node("vec", {"len": self.leaf(INT), "at": self.lift(self.shape(ty.elem, seen=seen), INT)})
        if c == "vec":
            return Node("vec", {"len": self.leaf(INT), "at": self.lift(self.shape(ty.args[0], seen=seen), INT)})
        if c == "set":
            kt = self.shape(ty.args[0], seen=seen)
            return Node("set", {"dom": z3.Const("leaf", z3.ArraySort(pack_sort(kt), BOOL))}, kt)
        if c == "map":
            if ty.d == "ext::index_map":
                kt, ks, vt = self.leaf(INT), INT, self._imap_val(ty)
            else:
                kt = self.shape(ty.args[0], seen=seen)
                ks, vt = pack_sort(kt), ty.args[1]
            return Node("map", {"dom": z3.Const("leaf", z3.ArraySort(ks, BOOL)),
                                "val": self.lift(self.shape(vt, seen=seen), ks)}, kt)
        if c == "sptr":
            return self.leaf(INT)
        if c == "opt":
            return Node("opt", {"has": self.leaf(BOOL), "val": self.shape(ty.args[0], seen=seen)})
        if c == "variant":
            return Node("variant", dict([("which", self.leaf(INT))] + (
                [("p", self.leaf(INT))] if ptr_variant(ty) else
                [("a%d" % i, self.shape(a, seen=seen)) for i, a in enumerate(ty.args)])), ty)
        if c == "pair":
            return Node("rec", {"first": self.shape(ty.args[0], seen=seen), "second": self.shape(ty.args[1], seen=seen)})
        if c == "tuple":
            return Node("rec", {"_%d" % i: self.shape(a, seen=seen) for i, a in enumerate(ty.args)})
        if c == "string":
            return self.leaf(STR)
        if ty.d == "boost::icl::continuous_interval":
            return Node("rec", {"lo": self.leaf(self.fsort), "hi": self.leaf(self.fsort), "lc": self.leaf(BOOL), "rc": self.leaf(BOOL)})
        if c == "record" and ty.s in self.P.records:
            ch = {}
            for (cls, n, t, _) in self.P.all_fields(ty.s):
                ch[n] = self.shape(t, seen=seen)
            return Node("rec", ch, None)
        return Node("opaque", {"id": self.leaf(INT)})

    def _imap_val(self, ty):
        for a in ty.args:
            if isinstance(a, Ty):
                return a
        raise Unsupported("index_map " + ty.s)

    def lift(self, tree, sort):
        return tmap(lambda l: z3.Const("leaf", z3.ArraySort(sort, l.sort())), tree)

    def fresh(self, ty, name):
        return tmap(lambda l: z3.Const(fresh_name(name), l.sort()), self.shape(ty))

    def fresh_like(self, tree, name):
        return tmap(lambda l: z3.Const(fresh_name(name), l.sort()) if isinstance(l, z3.ExprRef) else l, tree)

    def default(self, ty):
        """Value-initialized tree."""
        k, c = ty.k, ty.cat
        if k == "bool":
            return z3.BoolVal(False)
        if k == "float":
            return self.fval(0)
        if k == "ptr" and self.shape(ty).sort() == STR:
            return z3.Const(fresh_name("cstr"), STR)
        if k in ("int", "enum", "ptr") or c == "sptr":
            return z3.IntVal(0)
        if c == "vec" or k == "array":
            n = int(ty.args[1]) if ty.d == "std::array" else (ty.n if k == "array" else 0)
            s = self.shape(ty)
            el = ty.args[0] if c == "vec" else ty.elem
            at = s["at"]
            if n:
                d = self.default(el)
                at = tmap(lambda l, dv: z3.K(INT, dv), at, d)
            else:
                at = self.fresh_like(at, "empty")
            return Node("vec", {"len": z3.IntVal(n), "at": at})
        if c == "set":
            s = self.shape(ty)
            return Node("set", {"dom": z3.K(s["dom"].sort().domain(), z3.BoolVal(False))}, s.meta)
        if c == "map":
            s = self.shape(ty)
            return Node("map", {"dom": z3.K(s["dom"].sort().domain(), z3.BoolVal(False)),
                                "val": self.fresh_like(s["val"], "emptym")}, s.meta)
        if c == "opt":
            return Node("opt", {"has": z3.BoolVal(False), "val": self.fresh(ty.args[0], "none")})
        if c == "variant":
            f = self.fresh(ty, "variant")
            d = self.default(ty.args[0])
            return f.with_(which=z3.IntVal(0), **({"p": d} if ptr_variant(ty) else {"a0": d}))
        if c == "pair":
            return Node("rec", {"first": self.default(ty.args[0]), "second": self.default(ty.args[1])})
        if c == "tuple":
            return Node("rec", {"_%d" % i: self.default(a) for i, a in enumerate(ty.args)})
        if c == "string":
            return text_lit("")
        if c == "record" and ty.s in self.P.records:
            return Node("rec", {n: self.default(t) for (_, n, t, _) in self.P.all_fields(ty.s)})
        return self.fresh(ty, "dflt")

    def fval(self, x):
        if self.real_mode == "real":
            return z3.RealVal(str(x))
        return z3.FPVal(float(x), self.fsort)

    # ------------------------------------------------------------ heap
    def hkey_initial(self, key, tyf):
        if key not in self.initial:
            sh = self.shape(tyf)
            nm = "H:%s::%s" % key
            i = [0]

            def mk(l):
                i[0] += 1
                return z3.Const(nm + (":%d" % i[0] if i[0] > 1 else ""), z3.ArraySort(INT, l.sort()))
            self.initial[key] = tmap(mk, sh)
        return self.initial[key]

    def hfun(self, key, tyf):
        if ("fn",) + key not in self.initial:
            sh = self.shape(tyf)
            nm = "%s::%s" % key
            i = [0]

            def mk(l):
                i[0] += 1
                return z3.Function(nm + (":%d" % i[0] if i[0] > 1 else ""), INT, l.sort())
            self.initial[("fn",) + key] = [tmap(lambda l: l, sh), [mk(l) for l in leaves(sh)]]
        return self.initial[("fn",) + key]

    def field_ty(self, key):
        cls, name = key
        if cls.startswith("*"):
            return self.P.tystr[cls[1:]]
        if key in self.opts.get("ghost_fields", ()):
            return self.P.tystr[self.opts["ghost_fields"][key]]
        r = self.P.records.get(cls)
        if not r:
            raise Unsupported("no record " + cls)
        for f in r["fields"]:
            if f["n"] == name:
                return r["tu"].types[f["t"]]
        raise Unsupported("no field %s::%s" % key)

    def heap_get(self, st, key, ref):
        ty = self.field_ty(key)
        if key in self.immutable:
            if st is not None and st.ghost.get("pending"):
                self.flush(st, key)
            return self.imm(key[0], key[1], ref)
        lt = st.heap.get(key)
        if lt is None:
            lt = self.hkey_initial(key, ty)
        return tmap(lambda a: z3.Select(a, ref), lt)

    def imm(self, cls, name, ref):
        """An immutable field as a function of the object."""
        key = (cls, name)
        sh, fs = self.hfun(key, self.field_ty(key))
        it = iter(fs)
        return tmap(lambda _: next(it)(ref), sh)

    def flush(self, st, key=None):
        """Commit the initial values of immutable fields of new objects."""
        pend = st.ghost.get("pending")
        if not pend:
            return
        rest = {}
        w = st.ghost.get("written", frozenset())
        for (k, rid), (ref, val) in pend.items():
            if key is not None and k != key:
                rest[(k, rid)] = (ref, val)
                continue
            w = w | {(k, rid)}
            cur = self.imm(k[0], k[1], ref)
            for a, b in zip(leaves(cur), leaves(val)):
                st.fact(a == coerce_sort(b, a.sort()))
        st.ghost["pending"] = rest
        st.ghost["written"] = w

    def heap_set(self, st, key, ref, val):
        ty = self.field_ty(key)
        if key in self.immutable:
            if not any(ref.eq(r) for r in st.ghost.get("fresh", ())):
                raise Unsupported("write to immutable field %s::%s" % key)
            w = st.ghost.get("written", frozenset())
            if (key, ref.get_id()) in w:
                raise Unsupported("second write to immutable field %s::%s" % key)
            pend = dict(st.ghost.get("pending", {}))
            pend[(key, ref.get_id())] = (ref, val)
            st.ghost["pending"] = pend
            return
        lt = st.heap.get(key)
        if lt is None:
            lt = self.hkey_initial(key, ty)
        st.heap[key] = tmap(lambda a, v: z3.Store(a, ref, coerce_sort(v, a.sort().range())), lt, val)

    # ------------------------------------------------------------ lvalues
    def read(self, st, lv):
        if not isinstance(lv, LVal):
            return lv
        if "stale" in st.ghost and any(el[0] == "e" and el[1].get_id() in st.ghost["stale"] for el in lv.path):
            raise Unsupported("use of a map entry after its key changed")
        if lv.root[0] == "c":
            if lv.root not in st.mem:
                raise Unsupported("uninitialized cell %s" % (lv.root,))
            return self.get(st.mem[lv.root], lv.path)
        ref = lv.root[1]
        if not lv.path:
            if lv.ty is None or lv.ty.s not in self.P.records:
                raise Unsupported("whole-object read of %s" % (lv.ty,))
            return Node("rec", {n: self.heap_get(st, (cls, n), ref)
                                for (cls, n, _, _) in self.P.all_fields(lv.ty.s)})
        el = lv.path[0]
        return self.get(self.heap_get(st, (el[1], el[2]), ref), lv.path[1:])

    def get(self, t, path):
        for el in path:
            if el[0] == "f":
                if not isinstance(t, Node) or el[2] not in t.ch:
                    raise Unsupported("field %s of %s" % (el[2], t))
                t = t.ch[el[2]]
            elif el[0] == "i":
                t = tmap(lambda a: z3.Select(a, el[1]), t.ch["at"])
            elif el[0] == "k":
                t = tmap(lambda a: z3.Select(a, el[1]), t.ch["val"])
            elif el[0] == "e":
                t = Node("rec", {"first": unpack(el[1], t.meta), "second": tmap(lambda a: z3.Select(a, el[1]), t.ch["val"])})
            else:
                raise Unsupported("path")
        return t

    def put(self, t, path, v):
        if not path:
            return self.conform(v, t)
        el, rest = path[0], path[1:]
        if el[0] == "f":
            if not isinstance(t, Node) or el[2] not in t.ch:
                raise Unsupported("store to field %s of %s" % (el[2], t))
            return t.set(el[2], self.put(t.ch[el[2]], rest, v))
        if el[0] == "e":
            if rest and rest[0][0] == "f" and rest[0][2] == "second":
                return self.put(t, (("k", el[1]),) + tuple(rest[1:]), v)
            raise Unsupported("store to a map entry")
        part = "at" if el[0] == "i" else "val"
        old = tmap(lambda a: z3.Select(a, el[1]), t.ch[part])
        new = self.put(old, rest, v)
        return t.set(part, tmap(lambda a, x: z3.Store(a, el[1], coerce_sort(x, a.sort().range())), t.ch[part], new))

    def conform(self, v, old):
        if isinstance(v, z3.ExprRef) and isinstance(old, z3.ExprRef) and v.sort() != old.sort():
            return coerce_sort(v, old.sort())
        return v

    def rename_key(self, st, lv, i, v):
        """Assignment to the key of an entry of a linear map (by reference)."""
        k = lv.path[i][1]
        clv = LVal(lv.root, lv.path[:i], None)
        m = self.read(st, clv)
        nk = pack(v)
        self.oblige(st, z3.Or(nk == k, z3.Not(z3.Select(m["dom"], nk))), "key", "the keys of the map stay unique")
        for f in self.lib.set_update_facts(m["dom"], k, False):
            st.fact(f)
        d1 = z3.Store(m["dom"], k, z3.BoolVal(False))
        for f in self.lib.set_update_facts(d1, nk, True):
            st.fact(f)
        nv = tmap(lambda a: z3.Store(a, nk, z3.Select(a, k)), m["val"])
        self.write(st, clv, m.with_(dom=z3.Store(d1, nk, z3.BoolVal(True)), val=nv))
        st.ghost["stale"] = st.ghost.get("stale", frozenset()) | {k.get_id()}
        st.ghost["keep"] = st.ghost.get("keep", ()) + (k,)

    def write(self, st, lv, v):
        if isinstance(v, LVal):
            v = self.read(st, v)
        for i, el in enumerate(lv.path):
            if el[0] == "e" and len(lv.path) == i + 2 and lv.path[i + 1][0] == "f" and lv.path[i + 1][2] == "first":
                return self.rename_key(st, lv, i, v)
        if lv.root[0] == "c":
            if not lv.path:
                st.mem[lv.root] = v if lv.root not in st.mem else self.conform(v, st.mem[lv.root])
            else:
                st.mem[lv.root] = self.put(st.mem[lv.root], lv.path, v)
            return
        ref = lv.root[1]
        if not lv.path:
            if lv.ty is None or lv.ty.s not in self.P.records:
                raise Unsupported("whole-object write")
            for (cls, n, _, _) in self.P.all_fields(lv.ty.s):
                self.heap_set(st, (cls, n), ref, v.ch[n])
            return
        el = lv.path[0]
        key = (el[1], el[2])
        if len(lv.path) == 1:
            self.heap_set(st, key, ref, v)
        else:
            self.heap_set(st, key, ref, self.put(self.heap_get(st, key, ref), lv.path[1:], v))

    def temp(self, st, v, ty=None):
        if isinstance(v, LVal):
            return v
        root = ("c", fresh_name("t"))
        st.mem[root] = v
        return LVal(root, (), ty)

    def rv(self, st, x):
        return self.read(st, x) if isinstance(x, LVal) else x

    def heap_lv(self, ref, ty):
        if ty.cat == "record" and ty.s in self.P.records:
            return LVal(("h", ref), (), ty)
        return LVal(("h", ref), (("f", "*" + ty.s, "*"),), ty)

    def deref(self, st, p, ty):
        """p: pointer value -> LVal of the pointee with type ty."""
        if isinstance(p, LVal):
            p = self.read(st, p)
        if isinstance(p, Node) and p.kind == "iter":
            return self.lib.iter_deref(st, p)
        if isinstance(p, PtrTo):
            return p.lv
        if isinstance(p, z3.ExprRef):
            if self.opts.get("null", False):
                self.oblige(st, p != 0, "null", "pointer is not null")
            return self.heap_lv(p, ty)
        raise Unsupported("deref of %s" % (p,))

    def addr(self, lv):
        if lv.root[0] == "h" and not lv.path:
            return lv.root[1]
        if lv.root[0] == "h" and len(lv.path) == 1 and lv.path[0][1].startswith("*"):
            return lv.root[1]
        return PtrTo(lv)

    def alloc(self, st, ty=None):
        if st.alloc is None:
            st.alloc = z3.Const("alloc0", INT)
            st.fact(st.alloc > 0)
        r = z3.Const(fresh_name("new"), INT)
        st.fact(r == st.alloc)
        st.alloc = r + 1
        st.ghost["fresh"] = st.ghost.get("fresh", ()) + (r,)
        return r

    def flush_fresh(self, st):
        """Objects under construction keep their pending fields; the fields of
        finished ones are committed before a callee sees them."""
        done = st.ghost.get("created", frozenset())
        if done:
            for k, rid in list(st.ghost.get("pending", {})):
                if rid in done:
                    self.flush(st, k)

    def flush_except(self, st, *keys):
        for k in {k for k, _ in st.ghost.get("pending", {})} - set(keys):
            self.flush(st, k)

    def created(self, st, r, ty):
        """Class invariants to establish on a new object of the type."""
        h = self.opts.get("on_new", {}).get(ty.s)
        if h is None:
            return
        obls, facts = h(self, st, r)
        st.ghost["created"] = st.ghost.get("created", frozenset()) | {r.get_id()}
        for n, t in obls:
            self.oblige(st, t, "new", "%s: %s" % (ty.s.split("::")[-1], n))
        for t in facts:
            st.fact(t)

    # ------------------------------------------------------------ proving
    def oblige(self, st, goal, kind, label):
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        self.obls.append(Obligation("%s/%s:%s" % (self.cur, kind, label), kind, st.pc, goal))
        st.fact(goal)

    def feasible(self, st, extra=None, ms=250):
        s = z3.Solver()
        s.set("timeout", ms)
        for p in st.pc:
            if not has_quant(p):
                s.add(p)
        if extra is not None:
            s.add(extra)
        return s.check() != z3.unsat

    def throw(self, st, tyname):
        if not self.sinks:
            raise Unsupported("throw without sink")
        self.sinks[-1].append((st, tyname))

    # ------------------------------------------------------------ merging
    def merge(self, base, results, heap=False):
        """results: [(state, value)] descending from base; merge into one if
        possible (same memory or heap=True), keeping branch conditions."""
        if len(results) <= 1:
            return results
        states = [s for s, _ in results]
        vals = [v for _, v in results]
        for s in states:
            if s.alloc is not base.alloc and not heap:
                return results
        for s in states:
            if s.ghost.get("pending") is not base.ghost.get("pending"):
                self.flush(s)
        if not self.mergeable_vals(vals):
            return results
        for s in states:
            for k, v in base.mem.items():
                if k not in s.mem or not (s.mem[k] is v or (isinstance(v, Node) or isinstance(v, z3.ExprRef)) and same(s.mem[k], v)):
                    if not heap:
                        return results
            for k in set(s.heap) | set(base.heap):
                a, b = s.heap.get(k), base.heap.get(k)
                if a is b:
                    continue
                if a is None or b is None or not same(a, b):
                    if not heap:
                        return results
        nb, np_ = len(base.br), len(base.pc)
        conds, facts = [], []
        for s in states:
            brs = s.br[nb:]
            idx = {i for i, _ in brs}
            conds.append(z3.And(*[c for _, c in brs]) if brs else z3.BoolVal(True))
            facts.append([p for i, p in enumerate(s.pc) if i >= np_ and i not in idx])
        m = base.copy()
        for s in states:
            for k, v in s.mem.items():
                if k not in m.mem:
                    m.mem[k] = v
        if heap:
            for k in list(m.mem):
                vs = [s.mem.get(k) for s in states]
                if any(v is None for v in vs):
                    m.mem[k] = next(v for v in vs if v is not None)
                    continue
                if all(v is vs[0] for v in vs):
                    continue
                if not self.mergeable_vals(vs):
                    if k in base.mem:
                        return results
                    continue
                m.mem[k] = self.ite_chain(conds, vs)
            for k in set().union(*[set(s.heap) for s in states]):
                vs = [s.heap.get(k) if k in s.heap else self.hkey_initial(k, self.field_ty(k)) for s in states]
                if all(v is vs[0] for v in vs):
                    m.heap[k] = vs[0]
                else:
                    m.heap[k] = self.ite_chain(conds, vs)
            if any(s.alloc is not base.alloc for s in states):
                m.alloc = self.ite_chain(conds, [s.alloc for s in states])
            fr = ()
            wr = frozenset()
            for s in states:
                fr += tuple(x for x in s.ghost.get("fresh", ()) if not any(x is y for y in fr))
                wr |= s.ghost.get("written", frozenset())
            m.ghost["fresh"], m.ghost["written"] = fr, wr
            m.ghost["pending"] = {}
        for c, fs in zip(conds, facts):
            for f in fs:
                m.fact(f if z3.is_true(c) else z3.Implies(c, f))
        m.fact(z3.Or(*conds))
        return [(m, self.ite_chain(conds, vals))]

    def mergeable_vals(self, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return True
        if all(isinstance(v, LVal) for v in vals):
            if all(v.root == v0.root and len(v.path) == len(v0.path) and
                   all(self.same_el(a, b) for a, b in zip(v.path, v0.path)) for v in vals if True):
                return True
            return all(v.root[0] == "h" and not v.path for v in vals)
        if all(isinstance(v, z3.ExprRef) for v in vals):
            return all(v.sort() == v0.sort() for v in vals)
        if all(isinstance(v, Node) for v in vals):
            return all(v.kind == v0.kind and v.ch.keys() == v0.ch.keys() and
                       (v.meta is v0.meta or self.same_meta(v.meta, v0.meta)) for v in vals) and \
                all(self.mergeable_vals([v.ch[k] for v in vals]) for k in v0.ch)
        return False

    def same_meta(self, a, b):
        if a is b:
            return True
        if isinstance(a, LVal) and isinstance(b, LVal):
            return self.same_lv(a, b)
        return a == b

    def same_lv(self, a, b):
        ra = a.root == b.root or (a.root[0] == "h" == b.root[0] and a.root[1].eq(b.root[1]))
        return ra and len(a.path) == len(b.path) and all(self.same_el(x, y) for x, y in zip(a.path, b.path))

    def same_el(self, a, b):
        return all((x.eq(y) if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) else x is y or
                    (not isinstance(x, (z3.ExprRef, Node)) and x == y)) for x, y in zip(a, b)) and len(a) == len(b)

    def ite_chain(self, conds, vals):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            return v0
        if isinstance(v0, LVal):
            if all(self.same_lv(v, v0) for v in vals):
                return v0
            return LVal(("h", self.ite_chain(conds, [v.root[1] for v in vals])), (), v0.ty)
        r = vals[-1]
        for c, v in list(zip(conds, vals))[-2::-1]:
            r = tmap(lambda a, b: a if a.eq(b) else z3.If(c, a, b), v, r)
        return r

    # ------------------------------------------------------------ expressions
    def ev(self, st, e, fr):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s %s at line %s of %s" % (e["k"], e.get("cls", ""), e.get("l"), fr.key))
        return m(st, e, fr)

    def evr(self, st, e, fr):
        """Evaluate to an rvalue tree."""
        return [(s, self.rv(s, v)) for s, v in self.ev(st, e, fr)]

    def evs(self, st, es, fr):
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(s, e, fr):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def ty(self, e, fr):
        return fr.tu.types[e["t"]]

    def e_Int(self, st, e, fr):
        return [(st, z3.IntVal(int(e["v"])))]

    def e_Float(self, st, e, fr):
        if self.real_mode == "real":
            return [(st, z3.RealVal(_decimal(e["s"])))]
        return [(st, z3.FPVal(float(e["v"]), self.fsort))]

    def e_Bool(self, st, e, fr):
        return [(st, z3.BoolVal(bool(e["v"])))]

    def e_Null(self, st, e, fr):
        return [(st, z3.IntVal(0))]

    def e_Str(self, st, e, fr):
        return [(st, text_lit(e["v"]))]

    def e_Enum(self, st, e, fr):
        return [(st, z3.IntVal(e["v"]))]

    def e_Fn(self, st, e, fr):
        return [(st, FnVal(e["f"]))]

    def e_This(self, st, e, fr):
        if fr.this is None:
            raise Unsupported("no this")
        return [(st, self.addr(fr.this))]

    def e_ZeroInit(self, st, e, fr):
        return [(st, self.default(self.ty(e, fr)))]

    def e_PyVal(self, st, e, fr):
        return [(st, e["v"])]

    def s_PyStmt(self, st, s, fr):
        return s["fn"](st)

    def e_Typeid(self, st, e, fr):
        return [(st, z3.Const(fresh_name("typeid"), INT))]

    def e_Var(self, st, e, fr):
        v = e["v"]
        t = self.ty(e, fr)
        lv = st.mem.get(("r", fr.id, v))
        if lv is not None:
            return [(st, lv)]
        root = ("c", (fr.id, v))
        if root in st.mem:
            return [(st, LVal(root, (), t))]
        if "cv" in e:
            if t.k == "float":
                val = z3.RealVal(_decimal(e["cv"])) if self.real_mode == "real" else z3.FPVal(float(e["cv"]), self.fsort)
            elif t.k == "bool":
                val = z3.BoolVal(int(e["cv"]) != 0)
            else:
                val = z3.IntVal(int(e["cv"]))
            return [(st, self.temp(st, val, t))]
        if e.get("global") is not None:
            g = ("c", ("global", e["global"]))
            if g not in st.mem:
                if "ginit" in e:
                    r = self.evr(st, e["ginit"], fr)
                    if len(r) != 1:
                        raise Unsupported("global init forks")
                    st, val = r[0]
                    st.mem[g] = val
                elif t.cat == "record" and t.s in self.P.records and not t.d.startswith("ext::"):
                    return [(st, self.global_object(st, e["global"], t))]
                else:
                    if e["global"] not in self.globals:
                        self.globals[e["global"]] = self.fresh(t, "g_" + e["global"])
                    st.mem[g] = self.globals[e["global"]]
            return [(st, LVal(g, (), t))]
        raise Unsupported("unbound variable %s in %s" % (e.get("n"), fr.key))

    def global_object(self, st, name, t):
        """A static object: a distinct location that always exists."""
        r = z3.Const("g_" + name, INT)
        seen = st.ghost.get("globals", ())
        if not any(x.eq(r) for x in seen):
            st.fact(z3.And(r > 0, r < z3.Const("alloc0", INT), *[r != x for x in seen]))
            st.ghost["globals"] = seen + (r,)
        return LVal(("h", r), (), t)

    def e_Member(self, st, e, fr):
        if "f" in e:
            return [(st, FnVal(e["f"]))]
        out = []
        bt = self.ty(e["b"], fr)
        for s, b in self.ev(st, e["b"], fr):
            if e["arrow"]:
                b = self.deref(s, b, bt.elem)
            elif not isinstance(b, LVal):
                b = self.temp(s, b, bt)
            lv = b.sub(("f", e.get("cls", "?"), e["n"]))
            ft = self.ty(e, fr)
            lv.ty = ft
            try:
                fty = self.field_ty((e.get("cls", "?"), e["n"])) if e.get("cls") in self.P.records else ft
            except Unsupported:
                fty = ft
            if fty.k in ("lref", "rref"):
                p = self.read(s, lv)
                if not (isinstance(p, z3.ExprRef) and p.sort() == REAL):   # a value stands for a reference to it
                    lv = self.deref(s, p, fty.elem)
            elif e.get("mref"):
                p = self.read(s, lv)
                if not (isinstance(p, z3.ExprRef) and p.sort() == REAL):
                    lv = self.deref(s, p, ft)
            out.append((s, lv))
        return out

    def e_Mat(self, st, e, fr):
        t = self.ty(e, fr)
        return [(s, v if isinstance(v, (LVal, Closure)) else self.temp(s, v, t)) for s, v in self.ev(st, e["e"], fr)]

    def e_Cast(self, st, e, fr):
        ck = e["ck"]
        out = []
        t = self.ty(e, fr)
        ft = self.ty(e["e"], fr) if "t" in e["e"] else None
        for s, v in self.ev(st, e["e"], fr):
            if ck == "LValueToRValue":
                v = self.rv(s, v)
            elif ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "UserDefinedConversion",
                        "ConstructorConversion", "BitCast", "ArrayToPointerDecay", "LValueBitCast", "AtomicToNonAtomic"):
                if isinstance(v, LVal) and ck in ("BaseToDerived",) :
                    v = LVal(v.root, v.path, t.elem if t.k == "ptr" else t)
                if isinstance(v, LVal) and ck in ("DerivedToBase", "UncheckedDerivedToBase") and e.get("lv"):
                    v = LVal(v.root, v.path, v.ty)
            elif ck in ("IntegralCast", "IntegralToBoolean", "FloatingCast", "IntegralToFloating", "FloatingToIntegral",
                        "FloatingToBoolean", "PointerToBoolean", "BooleanToSignedIntegral"):
                v = self.cast(s, self.rv(s, v), ck, ft, t)
                if ck == "ArrayToPointerDecay" and isinstance(v, LVal):
                    av = self.read(s, v)
                    if isinstance(av, Node) and av.kind == "vec":
                        v = self.lib.vec_iter(v, z3.IntVal(0))
            elif ck == "NullToPointer":
                v = z3.IntVal(0)
            elif ck == "ToVoid":
                v = None
            elif ck == "Dynamic":
                v = self.dyncast(s, v, ft, t)
            else:
                raise Unsupported("cast " + ck)
            out.append((s, v))
        return out

    def dyncast(self, st, v, ft, t):
        v = self.rv(st, v)
        if not isinstance(v, z3.ExprRef):
            raise Unsupported("dynamic_cast of non-heap")
        f = z3.Function("is_" + t.elem.s, INT, BOOL)
        return z3.If(f(v), v, z3.IntVal(0))

    def cast(self, st, v, ck, ft, t):
        if ck == "IntegralCast":
            if isinstance(v, z3.ExprRef) and v.sort() == BOOL:
                return bool_to_int(v)
            if t.k == "int" and t.u and ft.k == "int" and not ft.u and self.opts.get("wrap", False):
                return z3.If(v >= 0, v, v + (1 << t.w))
            if t.k == "int" and t.u and ft.k == "int" and not ft.u:
                if not (z3.is_int_value(v) and v.as_long() >= 0):
                    if self.opts.get("unsigned_check", False):
                        self.oblige(st, v >= 0, "range", "conversion of a negative value to unsigned")
                    else:
                        self.assumed.add("signed-to-unsigned conversions treated as mathematical identity")
            return v
        if ck == "IntegralToBoolean":
            return int_to_bool(v) if v.sort() != BOOL else v
        if ck == "PointerToBoolean":
            return v != 0 if isinstance(v, z3.ExprRef) and v.sort() == INT else z3.BoolVal(True)
        if ck == "FloatingCast":
            return v
        if ck == "IntegralToFloating":
            if v.sort() == BOOL:
                v = bool_to_int(v)
            if self.real_mode == "real":
                return z3.ToReal(v) if not z3.is_int_value(v) else z3.RealVal(v.as_long())
            if z3.is_int_value(v):
                return z3.FPVal(float(v.as_long()), self.fsort)
            return z3.fpToFP(z3.RNE(), z3.ToReal(v), self.fsort)
        if ck == "FloatingToIntegral":
            if self.real_mode == "real":
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            raise Unsupported("fp to int")
        if ck == "FloatingToBoolean":
            return v != self.fval(0) if self.real_mode == "real" else z3.Not(z3.fpEQ(v, self.fval(0)))
        raise Unsupported("cast " + ck)

    def e_Un(self, st, e, fr):
        op = e["op"]
        out = []
        t = self.ty(e, fr)
        for s, v in self.ev(st, e["e"], fr):
            if op == "&":
                out.append((s, self.addr(v) if isinstance(v, LVal) else v))
                continue
            if op == "*":
                et = self.ty(e["e"], fr)
                v = self.rv(s, v)
                if isinstance(v, (FnVal, Closure)):
                    out.append((s, v))
                elif is_text(v):
                    out.append((s, cstr_head(v)))
                else:
                    out.append((s, self.deref(s, v, et.elem)))
                continue
            if op in ("++", "--"):
                old = self.rv(s, v)
                if isinstance(old, Node) and old.kind == "iter":
                    new = old.set("idx", old["idx"] + (1 if op == "++" else -1))
                elif is_text(old) and op == "++":
                    self.oblige(s, cstr_head(old) != 0, "bounds", "the pointer stays within the C string")
                    new = cstr_tail(old)
                else:
                    one = 1 if old.sort() == INT else self.fval(1)
                    new = self.arith(s, "+" if op == "++" else "-", old, z3.IntVal(1) if old.sort() == INT else one, t)
                    self.overflow(s, new, t)
                self.write(s, v, new)
                out.append((s, old if e["post"] else v))
                continue
            v = self.rv(s, v)
            if op == "!":
                out.append((s, z3.Not(v) if v.sort() == BOOL else v == 0))
            elif op == "-":
                if v.sort() == BOOL:
                    v = bool_to_int(v)
                r = -v if not z3.is_fp(v) else z3.fpNeg(v)
                if z3.is_int_value(v):
                    r = z3.IntVal(-v.as_long())
                self.overflow(s, r, t)
                out.append((s, r))
            elif op == "+":
                out.append((s, v))
            else:
                raise Unsupported("unary " + op)
        return out

    def overflow(self, st, v, t):
        if self.opts.get("overflow") and t.k == "int" and not t.u and isinstance(v, z3.ExprRef) and v.sort() == INT:
            lim = 1 << (t.w - 1)
            self.oblige(st, z3.And(v >= -lim, v < lim), "overflow", "signed arithmetic stays in range")

    def num2(self, a, b):
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == BOOL and b.sort() != BOOL:
                a = bool_to_int(a)
            if b.sort() == BOOL and a.sort() != BOOL:
                b = bool_to_int(b)
            if a.sort() == REAL and b.sort() == INT:
                b = z3.ToReal(b)
            if b.sort() == REAL and a.sort() == INT:
                a = z3.ToReal(a)
        return a, b

    def arith(self, st, op, a, b, t):
        a, b = self.num2(a, b)
        if isinstance(a, Node) and a.kind == "iter":
            if isinstance(b, Node):
                if op == "-":
                    return a["idx"] - b["idx"]
            elif op in "+-":
                return a.set("idx", a["idx"] + b if op == "+" else a["idx"] - b)
            raise Unsupported("iterator arithmetic %s %s" % (a, b))
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported("arith on %s %s" % (a, b))
        if is_text(a) or is_text(b):
            if op == "+" and is_text(a) and is_text(b):
                return z3.Concat(a, b)
            raise Unsupported("string arith")
        if a.sort() == BOOL and b.sort() == BOOL:
            if op == "^":
                return bool_to_int(z3.Xor(a, b))
            if op == "&":
                return bool_to_int(z3.And(a, b))
            if op == "|":
                return bool_to_int(z3.Or(a, b))
            a, b = bool_to_int(a), bool_to_int(b)
        if z3.is_fp(a):
            rm = z3.RNE()
            return {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}[op](rm, a, b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if a.sort() == REAL:
                if self.opts.get("divzero", False):
                    self.oblige(st, b != 0, "div", "divisor is not zero")
                return a / b
            if self.opts.get("divzero", True):
                self.oblige(st, b != 0, "div", "integer divisor is not zero")
            return cdiv(a, b)
        if op == "%":
            if self.opts.get("divzero", True):
                self.oblige(st, b != 0, "div", "modulus is not zero")
            return a - b * cdiv(a, b)
        if op in ("^", "&", "|"):
            x, y = int_as_bool(a), int_as_bool(b)
            if x is not None and y is not None:
                f = {"^": z3.Xor, "&": z3.And, "|": z3.Or}[op]
                return bool_to_int(f(x, y))
        if op == "<<" and z3.is_int_value(b):
            return a * (1 << b.as_long())
        if op == "<<" and z3.is_int_value(a) and a.as_long() == 1:
            f = z3.Function("pow2", INT, INT)
            st.fact(f(b) >= 1)
            return f(b)
        if op == ">>" and z3.is_int_value(b):
            return a / (1 << b.as_long())
        raise Unsupported("arith op " + op)

    def compare(self, st, op, a, b):
        a, b = self.num2(a, b)
        if isinstance(a, PtrTo) or isinstance(b, PtrTo):
            if isinstance(a, PtrTo) and isinstance(b, PtrTo) and self.same_lv(a.lv, b.lv):
                eq = z3.BoolVal(True)
            elif isinstance(a, z3.ExprRef) or isinstance(b, z3.ExprRef):
                eq = z3.BoolVal(False)
            else:
                raise Unsupported("pointer comparison")
            return eq if op == "==" else z3.Not(eq)
        if isinstance(a, Node) and isinstance(b, Node):
            if a.kind == "iter":
                return self.lib.iter_cmp(st, op, a, b)
            if op in ("==", "!="):
                eq = self.tree_eq(a, b)
                return eq if op == "==" else z3.Not(eq)
            raise Unsupported("compare nodes " + op)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef):
            raise Unsupported("compare %s %s" % (a, b))
        if z3.is_fp(a):
            f = {"==": z3.fpEQ, "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}
            if op == "!=":
                return z3.Not(z3.fpEQ(a, b))
            return f[op](a, b)
        if a.sort() == BOOL and op not in ("==", "!="):
            a, b = bool_to_int(a), bool_to_int(b)
        if op == "==":
            x = int_as_bool(a) if a.sort() == INT else None
            y = int_as_bool(b) if b.sort() == INT else None
            if x is not None and y is not None and not (z3.is_int_value(a) and z3.is_int_value(b)):
                return x == y
            return a == b
        if op == "!=":
            x = int_as_bool(a) if a.sort() == INT else None
            y = int_as_bool(b) if b.sort() == INT else None
            if x is not None and y is not None and not (z3.is_int_value(a) and z3.is_int_value(b)):
                return z3.Xor(x, y)
            return a != b
        if is_text(a):
            if op == "<":
                return a < b
            if op == "<=":
                return a <= b
            if op == ">":
                return b < a
            return b <= a
        return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op]()

    def same_tree(self, a, b):
        return z3.And(*[x == y for x, y in zip(leaves(a), leaves(b))])

    def tree_eq(self, a, b):
        cs = []
        if isinstance(a, Node) and a.kind == "vec":
            i = z3.Const(fresh_name("qi"), INT)
            ea = tmap(lambda x: z3.Select(x, i), a["at"])
            eb = tmap(lambda x: z3.Select(x, i), b["at"])
            return z3.And(a["len"] == b["len"],
                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a["len"]), self.tree_eq(ea, eb))))
        if isinstance(a, Node) and a.kind == "map":
            raise Unsupported("map equality")
        if isinstance(a, Node) and a.kind == "variant" and "p" not in a.ch:
            return z3.And(a["which"] == b["which"], *[z3.Implies(a["which"] == i, self.tree_eq(a["a%d" % i], b["a%d" % i]))
                                                      for i in range(len(a.ch) - 1)])
        if isinstance(a, Node):
            for k in a.ch:
                cs.append(self.tree_eq(a.ch[k], b.ch[k]))
            return z3.And(*cs) if cs else z3.BoolVal(True)
        return a == b

    def e_Bin(self, st, e, fr):
        op = e["op"]
        if op in ("&&", "||"):
            out = []
            for s, a in self.evr(st, e["a"], fr):
                a = z3.simplify(a) if not has_quant(a) else a
                if (op == "&&" and z3.is_false(a)) or (op == "||" and z3.is_true(a)):
                    out.append((s, a))
                    continue
                if z3.is_true(a) or z3.is_false(a):
                    out += self.evr(s, e["b"], fr)
                    continue
                s1, s2 = s.copy(), s.copy()
                s1.branch(a if op == "&&" else z3.Not(a))
                s2.branch(z3.Not(a) if op == "&&" else a)
                rs = self.evr(s1, e["b"], fr)
                mg = self.merge(s, rs + [(s2, z3.BoolVal(op == "||"))])
                if len(mg) == 1 and len(rs) >= 1:
                    m, v = mg[0]
                    if len(rs) == 1:
                        v = z3.And(a, rs[0][1]) if op == "&&" else z3.Or(a, rs[0][1])
                        if m.pc and len(m.pc) and m.pc[-1].decl().kind() == z3.Z3_OP_OR:
                            m.pc.pop()
                    out.append((m, v))
                else:
                    out += mg
            return out
        if op == ",":
            out = []
            for s, _ in self.ev(st, e["a"], fr):
                out += self.ev(s, e["b"], fr)
            return out
        if op == "=":
            out = []
            for s, b in self.evr(st, e["b"], fr):
                for s2, a in self.ev(s, e["a"], fr):
                    self.write(s2, a, b)
                    out.append((s2, a))
            return out
        out = []
        t = self.ty(e, fr)
        for s, vs in self.evs(st, [e["a"], e["b"]], fr):
            a, b = self.rv(s, vs[0]), self.rv(s, vs[1])
            if op in ("==", "!=", "<", "<=", ">", ">="):
                out.append((s, self.compare(s, op, a, b)))
            else:
                r = self.arith(s, op, a, b, t)
                self.overflow(s, r, t)
                out.append((s, r))
        return out

    def e_CAssign(self, st, e, fr):
        out = []
        for s, b in self.evr(st, e["b"], fr):
            for s2, lv in self.ev(s, e["a"], fr):
                a = self.rv(s2, lv)
                t = self.ty(e, fr)
                ct = fr.tu.types[e["ct"]]
                x = a
                if isinstance(a, z3.ExprRef) and a.sort() == INT and ct.k == "float":
                    x = self.cast(s2, a, "IntegralToFloating", t, ct)
                r = self.arith(s2, e["op"], x, b, t)
                if isinstance(a, z3.ExprRef):
                    if a.sort() == BOOL and r.sort() == INT:
                        r = int_to_bool(r)
                    elif a.sort() == INT and r.sort() == REAL:
                        r = self.cast(s2, r, "FloatingToIntegral", ct, t)
                self.overflow(s2, r, t)
                self.write(s2, lv, r)
                out.append((s2, lv))
        return out

    def e_Cond(self, st, e, fr):
        out = []
        for s, c in self.evr(st, e["c"], fr):
            c = z3.simplify(c) if not has_quant(c) else c
            if z3.is_true(c):
                out += self.ev(s, e["a"], fr)
                continue
            if z3.is_false(c):
                out += self.ev(s, e["b"], fr)
                continue
            s1, s2 = s.copy(), s.copy()
            s1.branch(c)
            s2.branch(z3.Not(c))
            rs = []
            if self.feasible(s1):
                rs += self.ev(s1, e["a"], fr)
            if self.feasible(s2):
                rs += self.ev(s2, e["b"], fr)
            if not e.get("lv"):
                rs = [(x, self.rv(x, v)) for x, v in rs]
            out += self.merge(s, rs)
        return out

    def e_Index(self, st, e, fr):
        out = []
        for s, vs in self.evs(st, [e["a"], e["b"]], fr):
            a, i = vs[0], self.rv(s, vs[1])
            if isinstance(a, LVal):
                av = self.read(s, a)
                if isinstance(av, Node) and av.kind == "iter":
                    a = av
            if isinstance(a, Node) and a.kind == "iter" and isinstance(a.meta, LVal):
                i = z3.simplify(a["idx"] + i)
                a = a.meta
            if is_text(a) or isinstance(a, LVal) and is_text(self.read(s, a)):
                a = a if is_text(a) else self.read(s, a)
                if not z3.is_int_value(i) or not 0 <= i.as_long() < 8:
                    raise Unsupported("index of a C string")
                for _ in range(i.as_long()):
                    self.oblige(s, cstr_head(a) != 0, "bounds", "the index is within the C string")
                    a = cstr_tail(a)
                out.append((s, cstr_head(a)))
                continue
            if isinstance(a, PtrTo):
                a = a.lv
            if not isinstance(a, LVal):
                raise Unsupported("index of pointer")
            v = self.read(s, a)
            if not (isinstance(v, Node) and v.kind == "vec"):
                raise Unsupported("index of non-array")
            self.bounds(s, i, v)
            out.append((s, a.sub(("i", i), self.ty(e, fr))))
        return out

    def bounds(self, st, i, vec):
        if self.opts.get("bounds", False):
            self.oblige(st, z3.And(i >= 0, i < vec["len"]), "bounds", "index within bounds")

    def e_InitList(self, st, e, fr):
        t = self.ty(e, fr)
        if e.get("transparent") or (t.k not in ("record", "array") and len(e["args"]) == 1):
            return self.ev(st, e["args"][0], fr)
        if t.k not in ("record", "array"):
            return [(st, self.default(t))]
        out = []
        for s, vs in self.evs(st, e["args"], fr):
            refs = [f[2].k in ("lref", "rref") for f in (self.P.all_fields(t.s) or []) if f[0] == t.s] if t.k == "record" and t.cat == "record" else []
            refs = refs if len(refs) >= len(vs) and not self.P.bases(t.s) else []
            vs = [self.addr(v) if i < len(refs) and refs[i] and isinstance(v, LVal) else self.rv(s, v) for i, v in enumerate(vs)]
            out.append((s, self.aggregate(s, t, vs)))
        return out

    def aggregate(self, st, t, vs):
        if t.cat == "vec" or t.k == "array":
            # std::array: nested init list yields a single vec.
            if len(vs) == 1 and isinstance(vs[0], Node) and vs[0].kind == "vec" and t.k != "array":
                return vs[0]
            r = self.default(t)
            return self.vec_lit(t, vs, r)
        if t.cat in ("pair",):
            return Node("rec", dict(zip(("first", "second"), vs)))
        fields = self.P.all_fields(t.s)
        if fields is None:
            raise Unsupported("aggregate " + t.s)
        own = [f for f in fields if f[0] == t.s]
        bases = [b for b in self.P.bases(t.s)]
        r = self.default(t)
        if len(vs) > len(own) and bases:
            for b, v in zip(bases, vs):
                for k in v.ch:
                    r = r.set(k, v.ch[k])
            vs = vs[len(bases):]
        for f, v in zip(own, vs):
            r = r.set(f[1], self.conform(v, r[f[1]]))
        return r

    def vec_lit(self, t, vs, base=None):
        r = base or self.default(t)
        at = r["at"]
        for i, v in enumerate(vs):
            at = tmap(lambda a, x: z3.Store(a, z3.IntVal(i), coerce_sort(x, a.sort().range())), at, v)
        n = t.n if t.k == "array" else (int(t.args[1]) if t.d == "std::array" else len(vs))
        return Node("vec", {"len": z3.IntVal(n), "at": at})

    def e_StdInitList(self, st, e, fr):
        return self.ev(st, e["e"], fr)

    def e_Lambda(self, st, e, fr):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
            elif "initcap" in c:
                iv = c["initcap"]
                rs = self.ev(st, iv["init"], fr)
                if len(rs) != 1:
                    raise Unsupported("forking init capture")
                st, v = rs[0]
                it = fr.tu.types[iv["t"]]
                caps[c["v"]] = v if it.k == "lref" else self.temp(st, self.rv(st, v), it)
            elif "v" in c:
                lv = st.mem.get(("r", fr.id, c["v"]))
                if lv is None:
                    root = ("c", (fr.id, c["v"]))
                    if root not in st.mem:
                        continue
                    lv = LVal(root)
                if not c["byref"]:
                    lv = self.temp(st, self.read(st, lv))
                caps[c["v"]] = lv
        return [(st, Closure(e, caps, this, fr.tu))]

    def e_Throw(self, st, e, fr):
        self.throw(st, fr.tu.types[e["tt"]].s if "tt" in e else "rethrow")
        return []

    def e_Delete(self, st, e, fr):
        return [(s, None) for s, _ in self.ev(st, e["e"], fr)]

    def e_New(self, st, e, fr):
        t = fr.tu.types[e["at"]]
        r = self.alloc(st)
        lv = self.heap_lv(r, t)
        init = e["init"]
        if init is None:
            return [(st, r)]
        if init["k"] in ("Ctor", "InhCtor"):
            out = []
            for s, _ in self.construct(st, init, fr, lv, t):
                self.created(s, r, t)
                out.append((s, r))
            return out
        out = []
        for s, v in self.evr(st, init, fr):
            self.write(s, lv, v)
            out.append((s, r))
        return out

    # ------------------------------------------------------------ construction
    def e_Ctor(self, st, e, fr):
        t = self.ty(e, fr)
        fd = self.P.fdecls[e["f"]]
        kind = fd.get("ctor")
        if kind in ("copy", "move") and len(e["args"]) == 1 and (fd.get("defaulted") or fd.get("implicit") or not fd["root"]):
            return self.evr(st, e["args"][0], fr)
        if not fd["root"]:
            out = []
            for s, vs in self.evs(st, e["args"], fr):
                for s2, v in self.lib.construct(s, t, fd, vs, e, fr):
                    out.append((s2, v))
            return out
        lv = self.temp(st, self.default_uninit(t), t)
        return [(s, self.read(s, lv)) for s, _ in self.construct(st, e, fr, lv, t)]

    def e_InhCtor(self, st, e, fr):
        raise Unsupported("inherited constructor")

    def default_uninit(self, t):
        if t.cat == "record" and t.s in self.P.records:
            ch = {}
            for (_, n, ft, fj) in self.P.all_fields(t.s):
                if ft.k in ("int", "float", "bool", "enum", "ptr", "lref"):
                    ch[n] = self.fresh(ft, "uninit_" + n)
                elif ft.cat == "record" and ft.s in self.P.records:
                    ch[n] = self.default_uninit(ft)
                else:
                    ch[n] = self.default(ft)
            return Node("rec", ch)
        return self.default(t)

    def construct(self, st, e, fr, lv, t):
        """Run the constructor e on the location lv."""
        if e["k"] == "InhCtor":
            raise Unsupported("inherited constructor")
        key = e["f"]
        out = []
        for s, vs in self.evs(st, e["args"], fr):
            out += self.construct_vals(s, key, vs, lv, t, e)
        return out

    def construct_vals(self, st, key, vs, lv, t, e=None):
        fd = self.P.fdecls[key]
        con = self.C.get(key)
        if con is not None and con is not self.C.current:
            return self.apply_contract(st, con, key, lv, vs)
        if t is not None and t.d == "scram::mef::TableRange" and not fd.get("ctor") in ("copy", "move"):
            self.write(st, lv, self.lib.table_range(st, vs[0]))
            return [(st, None)]
        if not fd["root"] or (t is not None and t.cat in ("vec", "map", "set") and self.lib.repo_model(fd)):
            out = []
            for s, v in self.lib.construct(st, t, fd, vs, e, None):
                self.write(s, lv, v)
                out.append((s, None))
            return out
        f = self.P.functions.get(key)
        if f is None or (fd.get("defaulted")):
            if fd.get("ctor") in ("copy", "move"):
                self.write(st, lv, self.rv(st, vs[0]))
                return [(st, None)]
            if fd.get("ctor") == "default" and (fd.get("defaulted") or fd.get("implicit")):
                sts = self.init_fields(st, lv, fd["cls"], {}, None)
                return [(s, None) for s in sts]
            raise Unsupported("constructor without body " + fd["q"])
        return [(s, None) for s, _ in self.run_body(st, key, f, lv, vs, ctor=True)]

    def init_fields(self, st, lv, cls, inits, fr):
        rec = self.P.records.get(cls)
        if rec is None:
            return [st]
        sts = [st]
        # bases
        for b in self.P.bases(cls):
            if b.s not in self.P.records:
                continue   # library bases (boost::noncopyable) hold no modelled state
            bi = inits.get(("b", b.s))
            nxt = []
            for s in sts:
                if bi is not None:
                    e = bi
                    blv = LVal(lv.root, lv.path, b)
                    if e["k"] == "Ctor":
                        nxt += [x for x, _ in self.construct(s, e, fr, blv, b)]
                    elif e["k"] == "InhCtor":
                        nxt += [x for x, _ in self.construct_vals(s, e["f"], list(fr.args), blv, b)]
                    else:
                        for x, v in self.evr(s, e, fr):
                            if isinstance(v, Node) and v.kind == "rec":
                                for (c2, n, _, _) in self.P.all_fields(b.s) or []:
                                    self.write(x, LVal(lv.root, lv.path + (("f", c2, n),)), v.ch[n])
                            nxt.append(x)
                elif b.s in self.P.records:
                    nxt += self.init_fields(s, lv, b.s, {}, None)
                else:
                    nxt.append(s)
            sts = nxt
        for f in rec["fields"]:
            ft = rec["tu"].types[f["t"]]
            flv = LVal(lv.root, lv.path + (("f", cls, f["n"]),), ft)
            e = inits.get(("f", f["n"]))
            efr = fr
            if e is None and f.get("init") is not None:
                e = f["init"]
                efr = Frame(rec["tu"], lv, "init:" + cls)
            nxt = []
            for s in sts:
                if e is None:
                    if ft.k in ("int", "float", "bool", "enum", "ptr"):
                        if lv.root[0] == "h" and (cls, f["n"]) not in self.immutable:
                            self.write(s, flv, self.fresh(ft, "uninit_" + f["n"]))
                        nxt.append(s)
                    elif ft.cat == "record" and ft.s in self.P.records:
                        self.write(s, flv, self.default_uninit(ft)) if lv.root[0] == "h" or True else None
                        nxt.append(s)
                    else:
                        self.write(s, flv, self.default(ft))
                        nxt.append(s)
                elif ft.k in ("lref", "rref"):
                    for x, v in self.ev(s, e, efr):
                        p = self.addr(v) if isinstance(v, LVal) else v
                        self.write(x, flv, p)
                        nxt.append(x)
                else:
                    for x, v in self.evr(s, e, efr):
                        self.write(x, flv, v)
                        nxt.append(x)
            sts = nxt
        return sts

    # ------------------------------------------------------------ calls
    def e_Call(self, st, e, fr):
        if "f" not in e:
            return self.call_value(st, e, fr)
        key = e["f"]
        fd = self.P.fdecls[key]
        if fd["q"] in ("__assert_fail", "abort", "__builtin_unreachable", "std::terminate"):
            if fd["q"] == "__assert_fail":
                msg = e["args"][0]
                while "e" in msg:
                    msg = msg["e"]
                label = msg.get("v", "assert")
                if self.asserts == "check":
                    self.obls.append(Obligation("%s/assert:%s" % (self.cur, label), "assert", st.pc, z3.BoolVal(False)))
                elif self.asserts == "assume":
                    self.assumed.add("assert assumed: %s in %s" % (label, self.cur))
            else:
                self.obls.append(Obligation("%s/unreachable:%s" % (self.cur, fd["q"]), "assert", st.pc, z3.BoolVal(False)))
            return []
        out = []
        for s, vs in self.evs(st, e["args"], fr):
            out += self.call(s, key, None, vs, e, fr)
        return out

    def call_value(self, st, e, fr):
        out = []
        for s, c in self.ev(st, e["callee"], fr):
            for s2, vs in self.evs(s, e["args"], fr):
                out += self.invoke(s2, self.rv(s2, c), vs)
        return out

    def invoke(self, st, c, vs):
        if isinstance(c, LVal):
            c = self.read(st, c)
        if isinstance(c, Closure):
            return self.call_closure(st, c, vs)
        if isinstance(c, FnVal):
            fd = self.P.fdecls[c.key]
            if fd.get("clsq") and not fd.get("static") and not fd.get("ctor"):
                o = vs[0]
                if not isinstance(o, LVal) or isinstance(self.rv(st, o), (z3.ExprRef, PtrTo)):
                    o = self.deref(st, o, self.P.tystr[fd["cls"]])
                return self.call(st, c.key, o, vs[1:], None, None)
            return self.call(st, c.key, None, vs, None, None)
        if callable(c):
            return c(st, vs)
        raise Unsupported("call of a value %s" % (c,))

    def call_closure(self, st, c, vs):
        ops = c.node["ops"]
        op = None
        for o in ops:
            if len(o["params"]) == len(vs):
                if op is None or self.params_fit(c.tu, o, vs):
                    op = o
        if op is None:
            raise Unsupported("closure arity")
        fr = Frame(c.tu, c.this, op["key"])
        for v, lv in c.caps.items():
            st.mem[("r", fr.id, v)] = lv
        self.bind_params(st, fr, op["params"], vs)
        return self.finish_body(st, op["body"], fr, op["key"], c.tu.types[op["r"]])

    def params_fit(self, tu, o, vs):
        """The specialization of a generic lambda for the given arguments."""
        for p, v in zip(o["params"], vs):
            if isinstance(v, LVal) and v.ty is not None:
                t = tu.types[p["t"]]
                t = t.elem if t.k in ("lref", "rref") else t
                if t.s.replace("const ", "") != v.ty.s.replace("const ", ""):
                    return False
        return True

    def bind_params(self, st, fr, params, vs):
        for p, v in zip(params, vs):
            pt = fr.tu.types[p["t"]]
            if pt.k in ("lref", "rref"):
                if not isinstance(v, (LVal, Closure, FnVal)):
                    v = self.temp(st, v, pt.elem)
                st.mem[("r", fr.id, p["v"])] = v
            else:
                v = self.rv(st, v)
                st.mem[("c", (fr.id, p["v"]))] = v

    def e_MCall(self, st, e, fr):
        if "f" not in e:
            raise Unsupported("member pointer call")
        key = e["f"]
        out = []
        ot = self.ty(e["o"], fr)
        for s, o in self.ev(st, e["o"], fr):
            if e["arrow"]:
                o = self.deref(s, o, ot.elem)
            elif not isinstance(o, (LVal, Closure)):
                o = self.temp(s, o, ot)
            for s2, vs in self.evs(s, e["args"], fr):
                out += self.call(s2, key, o, vs, e, fr)
        return out

    def e_OpCall(self, st, e, fr):
        if "f" not in e:
            raise Unsupported("operator call w/o callee")
        key = e["f"]
        fd = self.P.fdecls[key]
        out = []
        es = e["args"]
        order = es
        if fd["q"] == "boost::operator<<":      # an error annotation: like a throw's operand, not modelled
            return self.ev(st, es[0], fr)
        for s, vs in self.evs(st, order, fr):
            if e.get("m"):
                o = vs[0]
                if fd.get("lambda") and isinstance(self.rv(s, o) if isinstance(o, LVal) else o, Closure):
                    out += self.call_closure(s, self.rv(s, o) if isinstance(o, LVal) else o, vs[1:])
                    continue
                if not isinstance(o, (LVal, Closure, FnVal)):
                    o = self.temp(s, o, self.ty(es[0], fr))
                out += self.call(s, key, o, vs[1:], e, fr)
            else:
                out += self.call(s, key, None, vs, e, fr)
        return out

    def call(self, st, key, this, vs, e, fr):
        fd = self.P.fdecls[key]
        hook = self.C.hook(fd)
        if hook is not None:
            r = hook(self, st, this, vs, fd)
            if r is not None:
                self.used_models.add("hook:" + fd["q"])
                return r
        con = self.C.get(key)
        if con is None and fd.get("virtual") and not (e and e.get("qual")):
            for o in fd.get("over", []):
                if self.C.get(o) is not None:
                    con = self.C.get(o)
        if con is not None:
            return self.apply_contract(st, con, key, this, vs)
        if not fd["root"]:
            self.used_models.add(fd["q"])
            return self.lib.call(st, fd, this, vs, e, fr)
        if fd.get("virtual") and not (e and e.get("qual")):
            # Dynamic dispatch: unique implementation or unsupported.
            impls = self.impls(key)
            if len(impls) != 1:
                raise Unsupported("virtual call without contract: " + fd["q"])
            key = impls[0]
            fd = self.P.fdecls[key]
        if fd.get("dtor"):
            return [(st, None)]
        if self.lib.repo_model(fd):
            return self.lib.repo_call(st, fd, this, vs, e, fr)
        f = self.P.functions.get(key)
        if fd.get("assign") and (f is None or fd.get("defaulted")):
            self.write(st, this, self.rv(st, vs[0]))
            return [(st, this)]
        if f is None or "body" not in f:
            raise Unsupported("no body and no contract: %s" % fd["q"])
        if self.fn_stack.count(key) >= 1 or key == self.opts.get("self_key"):
            raise Unsupported("recursion without contract: " + fd["q"])
        if len(self.fn_stack) > 14:
            raise Unsupported("inline depth")
        self.inlined.add(fd["q"])
        base = st
        nbase = st.copy()
        rs = self.run_body(st, key, f, this, vs)
        return self.merge(nbase, rs) if self.opts.get("merge_calls", True) else rs

    def impls(self, key):
        seen, todo = set(), [key]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            todo += list(self.P.overriders.get(k, ()))
        return [k for k in seen if k in self.P.functions and "body" in self.P.functions[k]]

    def run_body(self, st, key, f, this, vs, ctor=False):
        fr = Frame(f["tu"], this, key)
        fr.args = vs
        self.fn_stack.append(key)
        try:
            self.bind_params(st, fr, f["params"], vs)
            states = [st]
            if ctor:
                cls = self.P.fdecls[key]["cls"]
                inits = {}
                deleg = None
                for i in f.get("inits", []):
                    if "f" in i:
                        inits[("f", i["f"])] = i["e"]
                    elif "b" in i:
                        inits[("b", f["tu"].types[i["b"]].s)] = i["e"]
                    else:
                        deleg = i["e"]
                if deleg:
                    states = [s for s, _ in self.construct(st, deleg, fr, this, this.ty)]
                else:
                    states = self.init_fields(st, this, cls, inits, fr)
            out = []
            rt = f["tu"].types[f["tu"].fdecls[key]["r"]] if key in f["tu"].fdecls else None
            rt = f["tu"].types[f["tu"].fdecls[key]["r"]]
            for s in states:
                out += self.finish_body(s, f["body"], fr, key, rt)
            return out
        finally:
            self.fn_stack.pop()

    def finish_body(self, st, body, fr, key, rt):
        out = []
        fd = self.P.fdecls.get(key)
        ne = fd and fd.get("noexcept") and not fd.get("lambda")
        if ne:
            self.sinks.append([])
        for s, o in self.ex(st, body, fr):
            if o is None:
                out.append((s, None))
            elif o[0] == "ret":
                v = o[1]
                if rt.k not in ("lref", "rref") and isinstance(v, LVal):
                    v = self.read(s, v)
                if isinstance(v, z3.ExprRef) and rt.k == "bool" and v.sort() == INT:
                    v = int_to_bool(v)
                if isinstance(v, z3.ExprRef) and rt.k == "float" and v.sort() == INT:
                    v = self.cast(s, v, "IntegralToFloating", None, rt)
                out.append((s, v))
            else:
                raise Unsupported("stray outcome %s" % (o[0],))
        if ne:
            for s, t in self.sinks.pop():
                self.obls.append(Obligation("%s/noexcept:%s" % (self.cur, fd["q"]), "noexcept", s.pc, z3.BoolVal(False)))
        return out

    def apply_contract(self, st, con, key, this, vs):
        self.used_contracts.add(con.name)
        self.flush_fresh(st)
        fd = self.P.fdecls[key]
        f = self.P.functions.get(key)
        tu = self.P.fdecl_tu[key]
        ptys = [tu.types[i] for i in fd["p"]]
        args = []
        for v, pt in zip(vs, ptys):
            if pt.k in ("lref", "rref") and not isinstance(v, (LVal, Closure, FnVal)):
                v = self.temp(st, v, pt.elem)
            elif pt.k not in ("lref", "rref"):
                v = self.rv(st, v)
            args.append(v)
        pre = st.copy()
        c = Ctx(self, con, pre, st, this, args, ptys, call=True)
        for name, t in con.requires_of(c):
            self.oblige(st, t, "pre", "%s requires %s" % (con.name, name))
        # exceptional exits
        out = []
        for (tyname, cond, eff) in con.throws_of(c):
            s2 = st.copy()
            s2.branch(cond)
            if eff:
                self.havoc(s2, con, c)
            self.throw(s2, tyname)
            st.branch(z3.Not(cond))
        self.havoc(st, con, c)
        rt = tu.types[fd["r"]]
        if rt.k in ("lref", "rref"):
            if rt.elem.cat == "record" and rt.elem.s in self.P.records:
                res = LVal(("h", z3.Const(fresh_name("res"), INT)), (), rt.elem)
            else:
                res = self.temp(st, self.fresh(rt.elem, "res"), rt.elem)
        elif rt.s == "void" or fd.get("ctor"):
            res = None
        else:
            res = self.fresh(rt, "res_" + fd["n"])
            for t in self.type_facts(rt, res):
                st.fact(t)
        c2 = Ctx(self, con, pre, st, this, args, ptys, res=res, call=True)
        if con.result:
            res = con.result(c2)
            c2.res = res
        ens = con.ensures_of(c2)
        if isinstance(res, z3.ExprRef) and z3.is_const(res):
            for j, (name, t) in enumerate(ens):   # `result == term` defines the result
                if z3.is_eq(t) and t.arg(0).eq(res) and not occurs(t.arg(1), res):
                    d = t.arg(1)
                    ens = [(n2, z3.substitute(t2, (res, d))) for j2, (n2, t2) in enumerate(ens) if j2 != j]
                    res = c2.res = d
                    break
        for name, t in ens:
            st.fact(t)
        for t in con.assumes_of(c2):
            st.fact(t)
        return [(st, c2.res)]

    def type_facts(self, ty, v):
        if ty.k == "int" and ty.u and isinstance(v, z3.ExprRef):
            return [v >= 0]
        if isinstance(v, Node) and v.kind == "vec":
            return [v["len"] >= 0]
        return []

    def havoc(self, st, con, c):
        for m in con.modifies_of(c):
            st.ghost["mapmods"] = st.ghost.get("mapmods", 0) + 1
            if isinstance(m, LVal):
                old = self.read(st, m)
                new = self.fresh_like(old, "hv")
                self.write(st, m, new)
                if isinstance(new, Node) and new.kind == "vec":
                    st.fact(new["len"] >= 0)
            else:
                key, ref = m
                ty = self.field_ty(key)
                if ref is None:
                    lt = st.heap.get(key)
                    if lt is None:
                        lt = self.hkey_initial(key, ty)
                    st.heap[key] = self.fresh_like(lt, "hv_" + key[1])
                else:
                    self.heap_set(st, key, ref, self.fresh(ty, "hv_" + key[1]))
        if con.allocates:
            a = z3.Const(fresh_name("alloc"), INT)
            if st.alloc is None:
                st.alloc = z3.Const("alloc0", INT)
                st.fact(st.alloc > 0)
            st.fact(a >= st.alloc)
            st.alloc = a

    # ------------------------------------------------------------ statements
    def ex(self, st, s, fr):
        """-> [(state, outcome)]; outcome None | ('ret', v) | ('break',) | ('cont',)"""
        if s is None:
            return [(st, None)]
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            raise Unsupported("statement %s %s line %s" % (s["k"], s.get("cls", ""), s.get("l")))
        r = m(st, s, fr)
        if s["k"] in ("Compound", "If"):
            for _ in range(8):
                jumps = [(y, o) for y, o in r if o is not None and o[0] == "goto" and has_label(s, o[1])]
                if not jumps:
                    break
                r = [x for x in r if x not in jumps]
                for y, o in jumps:
                    if ("jump", o[1], fr.id) in y.ghost:
                        raise Unsupported("loop by goto " + o[1])
                    y.ghost[("jump", o[1], fr.id)] = True
                    r += self.from_label(y, s, o[1], fr)
        self.npaths = max(self.npaths, len(r))
        if len(r) > MAXPATHS:
            raise Unsupported("too many paths")
        return r

    def s_Null(self, st, s, fr):
        return [(st, None)]

    def s_Expr(self, st, s, fr):
        return [(x, None) for x, _ in self.ev(st, s["e"], fr)]

    def s_Label(self, st, s, fr):
        return self.ex(st, s["s"], fr)

    def s_Goto(self, st, s, fr):
        return [(st, ("goto", s["label"]))]

    def from_label(self, st, s, label, fr):
        """The rest of the statement from its label on."""
        k = s["k"]
        if k == "Label" and s["label"] == label:
            return self.ex(st, s["s"], fr)
        if k == "Compound":
            n = next(i for i, b in enumerate(s["b"]) if has_label(b, label))
            out = []
            for y, o in self.from_label(st, s["b"][n], label, fr):
                out += self.run_seq(y, s["b"][n + 1:], fr) if o is None else [(y, o)]
            return out
        if k == "If":
            return self.from_label(st, s["then"] if has_label(s["then"], label) else s["else"], label, fr)
        raise Unsupported("goto into " + k)

    def s_Compound(self, st, s, fr):
        cur = [(st, None)]
        done = []
        for b in s["b"]:
            nxt = []
            for x, o in cur:
                for y, o2 in self.ex(x, b, fr):
                    (nxt if o2 is None else done).append((y, o2))
            cur = nxt
            if not cur:
                break
        guards = [d["v"] for b in s["b"] if b and b["k"] == "Decl" for d in b["d"]
                  if "t" in d and fr.tu.types[d["t"]].d == "ext::scope_guard"]
        out = done + cur
        for v in reversed(guards):   # the guard's destructor runs its callback
            nxt = []
            for x, o in out:
                c = x.ghost.get(("guard", fr.id, v))
                if c is None:
                    nxt.append((x, o))
                    continue
                x.ghost = {k: w for k, w in x.ghost.items() if k != ("guard", fr.id, v)}
                nxt += [(y, o) for y, _ in self.invoke(x, c, [])]
            out = nxt
        return out

    def declare(self, st, d, fr):
        t = fr.tu.types[d["t"]]
        if t.d.startswith("scram::Timer"):
            return [st]
        root = ("c", (fr.id, d["v"]))
        if d.get("static"):
            raise Unsupported("static local")
        if t.d == "ext::scope_guard":
            e = d["init"]
            while e["k"] != "Ctor":
                e = e.get("e") or e["args"][0]
            out = []
            for s, c in self.ev(st, e["args"][0], fr):
                if isinstance(c, LVal):
                    c = self.read(s, c)
                if not isinstance(c, Closure):
                    raise Unsupported("scope guard over %s" % (c,))
                s.ghost = {**s.ghost, ("guard", fr.id, d["v"]): c}
                out.append(s)
            return out
        if "bindings" in d:
            out = []
            for s, v in self.ev(st, d["init"], fr):
                if t.k not in ("lref", "rref") or not isinstance(v, LVal):
                    v = self.temp(s, self.rv(s, v), t)
                st.mem[("r", fr.id, d["v"])] = v
                tree = self.read(s, v)
                tree_names = list(tree.ch) if isinstance(tree, Node) and tree.kind == "rec" else None
                if tree_names is None:
                    raise Unsupported("structured binding of %s" % (t.s,))
                for b, n in zip(d["bindings"], tree_names):
                    cls = t.s if t.k == "record" else (t.elem.s if t.elem else "?")
                    s.mem[("r", fr.id, b["v"])] = v.sub(("f", cls, n), fr.tu.types[b["t"]])
                    if "hv" in b:
                        s.mem[("r", fr.id, b["hv"]["v"])] = v.sub(("f", cls, n), fr.tu.types[b["t"]])
                out.append(s)
            return out
        if t.k in ("lref", "rref"):
            out = []
            for s, v in self.ev(st, d["init"], fr):
                if not isinstance(v, (LVal, Closure, FnVal)):
                    v = self.temp(s, v, t.elem)
                s.mem[("r", fr.id, d["v"])] = v
                out.append(s)
            return out
        if t.s in self.opts.get("boxed", ()):     # an object with an address of its own
            e = d.get("init")
            if e is not None and not (e["k"] == "Ctor" and not e["args"]):
                raise Unsupported("initialization of " + t.s)
            lv = self.heap_lv(self.alloc(st), t)
            out = []
            for s, _ in self.lib.construct_at(st, t, lv, []):
                s.mem[("r", fr.id, d["v"])] = lv
                out.append(s)
            return out
        if "init" not in d:
            st.mem[root] = self.default_uninit(t) if t.k == "record" else self.fresh(t, d["n"])
            return [st]
        e = d["init"]
        if t.cat == "record" and e["k"] == "Ctor" and self.P.fdecls[e["f"]]["root"] and t.s in self.P.records and \
                not (self.P.fdecls[e["f"]].get("ctor") in ("copy", "move")):
            st.mem[root] = self.default_uninit(t)
            return [s for s, _ in self.construct(st, e, fr, LVal(root, (), t), t)]
        out = []
        for s, v in self.ev(st, e, fr):
            v = self.rv(s, v)
            if isinstance(v, z3.ExprRef):
                v = coerce_sort(v, self.shape(t).sort()) if isinstance(self.shape(t), z3.ExprRef) else v
            s.mem[root] = v
            out.append(s)
        return out

    def s_Decl(self, st, s, fr):
        sts = [st]
        for d in s["d"]:
            sts = [y for x in sts for y in self.declare(x, d, fr)]
        return [(x, None) for x in sts]

    def s_Return(self, st, s, fr):
        if "e" not in s:
            return [(st, ("ret", None))]
        return [(x, ("ret", v)) for x, v in self.ev(st, s["e"], fr)]

    def s_Break(self, st, s, fr):
        return [(st, ("break",))]

    def s_Continue(self, st, s, fr):
        return [(st, ("cont",))]

    def is_log(self, e):
        """LOG(level): dropped (side-effect-free by the documented rule)."""
        if isinstance(e, dict):
            if e.get("k") == "Call" and "f" in e and self.P.fdecls[e["f"]]["q"] == "scram::Logger::report_level":
                return True
            return any(self.is_log(v) for v in e.values() if isinstance(v, (dict, list)))
        if isinstance(e, list):
            return any(self.is_log(v) for v in e)
        return False

    def s_If(self, st, s, fr):
        if s.get("else") is None and self.is_log(s["c"]):
            return [(st, None)]
        if s.get("constexpr"):
            r = []
            for x, c in self.evr(st, s["c"], fr):
                c = z3.simplify(c)
                if z3.is_true(c):
                    r += self.ex(x, s["then"], fr)
                elif z3.is_false(c):
                    r += self.ex(x, s.get("else"), fr)
                else:
                    raise Unsupported("if constexpr with symbolic condition")
            return r
        sts = [(st, None)]
        if "init" in s:
            sts = self.ex(st, s["init"], fr)
        out = []
        for x, _ in sts:
            ys = self.declare(x, s["cv"], fr) if "cv" in s else [x]
            for y in ys:
                for z, c in self.evr(y, s["c"], fr):
                    out += self.branch2(z, c, lambda q: self.ex(q, s["then"], fr), lambda q: self.ex(q, s.get("else"), fr))
        return out

    def branch2(self, st, c, f, g):
        cs = z3.simplify(c) if not has_quant(c) else c
        if z3.is_true(cs):
            return f(st)
        if z3.is_false(cs):
            return g(st)
        base = st.copy()
        s1, s2 = st.copy(), st
        s1.branch(c)
        s2.branch(z3.Not(c))
        r = []
        if self.feasible(s1):
            r += f(s1)
        if self.feasible(s2):
            r += g(s2)
        norm = [(x, None) for x, o in r if o is None]
        rest = [(x, o) for x, o in r if o is not None]
        if len(norm) > 1:
            norm = self.merge(base, norm, heap=self.opts.get("merge", False))
        return rest + norm

    def s_Switch(self, st, s, fr):
        sts = [(st, None)]
        if "init" in s:
            sts = self.ex(st, s["init"], fr)
        body = s["body"]["b"] if s["body"]["k"] == "Compound" else [s["body"]]
        # Flatten labels.
        flat, labels = [], []

        def add(b):
            while b["k"] in ("Case", "Default"):
                labels.append((len(flat), b["v"] if b["k"] == "Case" else None))
                b = b["s"]
                if b is None:
                    return
            flat.append(b)
        for b in body:
            add(b)
        out = []
        for x, _ in sts:
            for y, c in self.evr(x, s["c"], fr):
                if c.sort() == BOOL:
                    c = bool_to_int(c)
                conds, default = [], None
                for pos, v in labels:
                    if v is None:
                        default = pos
                    else:
                        r = self.evr(y, v, fr)
                        conds.append((pos, c == r[0][1]))
                base = y.copy()
                res = []
                for pos, cond in conds:
                    z = y.copy()
                    cs = z3.simplify(cond)
                    if z3.is_false(cs):
                        continue
                    if not z3.is_true(cs):
                        z.branch(cond)
                    if not self.feasible(z):
                        continue
                    res += self.run_seq(z, flat[pos:], fr)
                z = y
                rest = z3.And(*[z3.Not(cc) for _, cc in conds]) if conds else z3.BoolVal(True)
                if not z3.is_false(z3.simplify(rest)):
                    z.branch(rest)
                    if self.feasible(z):
                        res += self.run_seq(z, flat[default:], fr) if default is not None else [(z, None)]
                res = [(q, None if o == ("break",) else o) for q, o in res]
                norm = [(q, o) for q, o in res if o is None]
                other = [(q, o) for q, o in res if o is not None]
                if len(norm) > 1:
                    norm = self.merge(base, norm, heap=self.opts.get("merge", False))
                out += other + norm
        return out

    def run_seq(self, st, stmts, fr):
        return self.s_Compound(st, {"b": stmts}, fr)

    def s_Case(self, st, s, fr):
        return self.ex(st, s["s"], fr)

    s_Default = s_Case

    def s_Try(self, st, s, fr):
        self.sinks.append([])
        out = self.ex(st, s["body"], fr)
        thrown = self.sinks.pop()
        for x, tn in thrown:
            handled = False
            for h in s["h"]:
                ht = fr.tu.types[h["t"]] if h["t"] >= 0 else None
                hs = None
                if ht is not None:
                    hs = ht.elem.s if ht.k == "lref" else ht.s
                if hs is None or tn == hs or self.P.derives(tn, hs) or hs in ("std::exception", "boost::exception"):
                    if "v" in h:
                        x.mem[("r", fr.id, h["v"]["v"])] = self.temp(x, Node("opaque", {"id": z3.Const(fresh_name("exc"), INT)}))
                    self.sinks.append([])
                    out += self.ex(x, h["body"], fr)
                    for y, t2 in self.sinks.pop():
                        self.throw(y, tn if t2 == "rethrow" else t2)
                    handled = True
                    break
            if not handled:
                self.throw(x, tn)
        return out

    # ------------------------------------------------------------ loops
    def iter_loop(self, st, s, fr):
        """for (auto it = X.begin(); it != X.end(); ++it) over a set or a map,
        with the iterator used only to reach the element: as a range-for."""
        def peel(e):
            while e["k"] in ("Mat", "Cast", "Clean", "Paren") or (e["k"] == "Ctor" and len(e.get("args", ())) == 1):
                e = e["e"] if "e" in e else e["args"][0]
            return e

        def uses(x, out):
            if isinstance(x, dict):
                if x.get("k") == "Var" and x.get("v") == d["v"]:
                    out.append("bare")
                    return
                if x.get("k") == "OpCall" and x.get("op") in ("*", "->") and peel(x["args"][0]).get("v") == d["v"]:
                    return
                for y in x.values():
                    uses(y, out)
            elif isinstance(x, list):
                for y in x:
                    uses(y, out)
        try:
            d, = s["init"]["d"] if s["init"]["k"] == "Decl" else ()
            ini, inc, c = peel(d["init"]), s["inc"], peel(s["c"])
            f = self.P.fdecls[ini["f"]]
            end = peel(c["args"][1])
            if f["n"] not in ("begin", "cbegin", "rbegin", "crbegin") or ini["k"] != "MCall" or c.get("op") != "!=" or inc.get("op") != "++":
                return None
            if self.P.fdecls[end["f"]]["n"] != f["n"].replace("begin", "end") or len(inc["args"]) != 1 or peel(inc["args"][0]).get("v") != d["v"]:
                return None
            strip = lambda x: {k: (strip(v) if isinstance(v, dict) else v) for k, v in x.items() if k != "l"}
            if strip(peel(ini["o"])) != strip(peel(end["o"])) or peel(c["args"][0]).get("v") != d["v"]:
                return None
        except (KeyError, TypeError, ValueError, IndexError):
            return None
        o = peel(ini["o"])
        if o["k"] not in ("Member", "Var"):
            return None
        bad = []
        uses(s["body"], bad)
        if bad:
            return None
        (x, lv), = self.ev(st, o, fr)
        if not isinstance(lv, LVal):
            return None
        v = self.read(x, lv)
        if not (isinstance(v, Node) and v.kind in ("set", "map")):
            return None
        s2 = dict(s, var=d, iter=True)
        x.ghost["keep_s"] = x.ghost.get("keep_s", ()) + (s2,)
        return self.loop(x, fr, s2, body=s["body"], rng=lv)

    def s_For(self, st, s, fr):
        out = self.iter_loop(st, s, fr) if s["init"] and s["inc"] and s["c"] else None
        if out is not None:
            return out
        out = []
        for x, _ in self.ex(st, s["init"], fr) if s["init"] else [(st, None)]:
            out += self.loop(x, fr, s, cond=s["c"], body=s["body"], inc=s["inc"])
        return out

    def s_While(self, st, s, fr):
        return self.loop(st, fr, s, cond=s["c"], body=s["body"], cv=s.get("cv"))

    def s_Do(self, st, s, fr):
        out = []
        for x, o in self.ex(st, s["body"], fr):
            if o is None or o == ("cont",):
                out += self.loop(x, fr, s, cond=s["c"], body=s["body"])
            elif o == ("break",):
                out.append((x, None))
            else:
                out.append((x, o))
        return out

    def s_RangeFor(self, st, s, fr):
        out = []
        for x, r in self.ev(st, s["range"], fr):
            rt = self.ty(s["range"], fr)
            if not isinstance(r, LVal):
                r = self.temp(x, r, rt)
            v = self.read(x, r) if not (r.root[0] == "h" and not r.path) else None
            xf = None
            while isinstance(v, Node) and v.kind == "xform":
                r, f = v.meta[:2]
                xf = (f,) + (xf or ())
                v = self.read(x, r)
            if v is None or not (isinstance(v, Node) and v.kind in ("vec", "set", "map")):
                r2 = self.lib.as_range(x, r, rt)
                if r2 is None:
                    raise Unsupported("range-for over %s" % rt.s)
                r = r2
                v = self.read(x, r)
            n = z3.simplify(v["len"]) if v.kind == "vec" else None
            if n is not None and not xf and z3.is_int_value(n) and n.as_long() <= self.opts.get("unroll", 4):
                out += self.unroll(x, fr, s, r, n.as_long())
            else:
                if xf:
                    x.ghost["xf"] = {**x.ghost.get("xf", {}), (fr.id, id(s)): xf}
                out += self.loop(x, fr, s, body=s["body"], rng=r)
        return out

    def bind_x(self, st, fr, s, lv):
        """Bind the loop variable to the (possibly transformed) element.
        Returns the states to run the body in and the states that skip it
        (the element does not pass a filter of the view)."""
        cur, skip = [(st, lv)], []
        for f in st.ghost.get("xf", {}).get((fr.id, id(s)), ()):
            flt = isinstance(f, Node) and f.kind == "filter"
            nxt = []
            for x, y in cur:
                for z, r in self.invoke(x, f.meta[0] if flt else f, [y]):
                    if not flt:
                        nxt.append((z, r))
                        continue
                    b = self.rv(z, r)
                    z2 = z.copy()
                    z.branch(b)
                    z2.branch(z3.Not(b))
                    if self.feasible(z):
                        nxt.append((z, y))
                    if self.feasible(z2):
                        skip.append(z2)
            cur = nxt
        for x, y in cur:
            self.bind_elem(x, fr, s["var"], y)
        return [x for x, _ in cur], skip

    def bind_elem(self, st, fr, d, lv, is_map_key=None):
        t = fr.tu.types[d["t"]]
        root = ("c", (fr.id, d["v"]))
        if "bindings" in d:
            v = lv if isinstance(lv, LVal) and t.k in ("lref", "rref") else self.temp(st, self.rv(st, lv), t)
            tree = self.read(st, v)
            for b, n in zip(d["bindings"], list(tree.ch)):
                st.mem[("r", fr.id, b["v"])] = v.sub(("f", "?", n), fr.tu.types[b["t"]])
                if "hv" in b:
                    st.mem[("r", fr.id, b["hv"]["v"])] = v.sub(("f", "?", n), fr.tu.types[b["t"]])
            return
        if t.k in ("lref", "rref"):
            st.mem[("r", fr.id, d["v"])] = lv if isinstance(lv, LVal) else self.temp(st, lv, t.elem)
        else:
            v = self.rv(st, lv)
            st.mem[root] = v

    def unroll(self, st, fr, s, r, n):
        cur, done = [st], []
        for i in range(n):
            nxt = []
            for x in cur:
                self.bind_elem(x, fr, s["var"], r.sub(("i", z3.IntVal(i)), self.elem_ty(r)))
                for y, o in self.ex(x, s["body"], fr):
                    if o is None or o == ("cont",):
                        nxt.append(y)
                    elif o == ("break",):
                        done.append((y, None))
                    else:
                        done.append((y, o))
            cur = nxt
        return done + [(x, None) for x in cur]

    def elem_ty(self, r):
        t = r.ty
        if t is None:
            return None
        if t.k in ("lref", "rref"):
            t = t.elem
        if t.cat == "vec":
            return t.args[0]
        if t.k == "array":
            return t.elem
        return None

    def changed(self, base, s):
        """Memory roots/heap keys differing from base."""
        m = set()
        for k, v in base.mem.items():
            w = s.mem.get(k)
            if w is None or w is v:
                continue
            if isinstance(v, LVal) and isinstance(w, LVal):
                if not self.same_lv(v, w):
                    m.add(("m", k))
                continue
            if not same(v, w):
                m.add(("m", k))
        for k, v in s.heap.items():
            b = base.heap.get(k)
            if b is v:
                continue
            if b is None:
                b = self.hkey_initial(k, self.field_ty(k))
            if not same(b, v):
                m.add(("h", k))
        return m

    def loop(self, st, fr, s, cond=None, body=None, inc=None, rng=None, cv=None):
        entry = st
        spec = self.C.loop_spec(self.cur_key, fr.key, s)
        mods = set()
        nob, nsink = len(self.obls), [len(x) for x in self.sinks]

        def reset():
            del self.obls[nob:]
            for x, n in zip(self.sinks, nsink):
                del x[n:]

        alc = ren = False
        for _ in range(12):
            hv, L = self.loop_head(entry, mods, fr, s, rng, alc, ren)
            ends, exits = self.loop_body(hv, L, fr, s, cond, body, inc, rng, cv)
            if not alc and any(x.alloc is not hv.alloc and (x.alloc is None or hv.alloc is None or not x.alloc.eq(hv.alloc)) for x, _ in ends):
                alc = True
                reset()
                continue
            new = set()
            for x, o in ends + exits:
                new |= self.changed(hv, x)
            new = {m for m in new if not (m[0] == "m" and m[1] not in entry.mem)}
            new -= mods
            ren = ren or any("stale" in x.ghost and x.ghost["stale"] - entry.ghost.get("stale", frozenset()) for x, _ in ends)
            if not new:
                break
            mods |= new
            reset()
        else:
            raise Unsupported("loop modification set does not stabilize")
        # Candidate invariants (optimistic Houdini: the final round assumes
        # exactly the set that the round verifies).
        if rng is not None:
            v0 = self.read(entry, rng)
            if v0.kind != "vec":
                for f in self.lib.set_loop_facts(v0["dom"], z3.K(v0["dom"].sort().domain(), z3.BoolVal(False))):
                    entry.fact(f)
        cands_entry = self.loop_cands(entry, entry, L, spec, first=True)
        alive = [n for n, t in cands_entry if self.quick_prove(entry.pc, t)]
        if DEBUG_LOOPS:
            print("loop", s.get("l"), "cands", [n for n, _ in cands_entry])
            print("loop", s.get("l"), "dead on entry:", [n for n, _ in cands_entry if n not in alive])
        while True:
            reset()
            hv, L = self.loop_head(entry, mods, fr, s, rng, alc, ren)
            for n, t in self.loop_cands(entry, hv, L, spec):
                if n in alive:
                    hv.fact(t)
            ends, exits = self.loop_body(hv, L, fr, s, cond, body, inc, rng, cv)
            end_terms = [(x, dict(self.loop_cands(entry, x, L, spec, next_=True))) for x, _ in ends]
            bad = set()
            for x, terms in end_terms:
                for n in alive:
                    if n not in bad and (n not in terms or not self.quick_prove(x.pc, terms[n])):
                        bad.add(n)
            if not bad:
                break
            alive = [n for n in alive if n not in bad]
            if DEBUG_LOOPS:
                print("loop", s.get("l"), "not preserved:", sorted(bad))
        self.loop_specs.append((self.cur, s.get("l"), sorted(alive), [n for n, _ in cands_entry]))
        if rng is not None and L["kind"] == "vec":
            n0 = self.read(entry, rng)["len"]
            for x, _ in ends:
                n1 = self.read(x, rng)["len"]
                if not n1.eq(n0) and not n1.eq(self.read(hv, rng)["len"]):
                    self.obls.append(Obligation("%s/loop:the range keeps its length" % self.cur, "inv", x.pc, n1 == n0))
        if "rngkeep" in L:
            for x, _ in ends:
                self.obls.append(Obligation("%s/loop:the range is unchanged" % self.cur, "inv", x.pc, self.same_tree(self.read(x, rng), L["rngkeep"])))
        for x, terms in end_terms:
            for n in alive:
                self.obls.append(Obligation("%s/loop:%s preserved" % (self.cur, n), "inv", x.pc, terms[n]))
        for n, t in cands_entry:
            if n in alive:
                self.obls.append(Obligation("%s/loop:%s on entry" % (self.cur, n), "inv", entry.pc, t))
        return list(exits)

    def loop_head(self, entry, mods, fr, s, rng, alc=True, ren=False):
        hv = entry.copy()
        L = {"frame": fr, "stmt": s, "entry": entry, "mods": set(mods), "rng": rng}
        for kind, k in sorted(mods, key=str):
            if kind == "m":
                v = hv.mem[k]
                if isinstance(v, LVal):
                    raise Unsupported("loop rebinds a reference")
                if isinstance(v, (Closure, PtrTo, FnVal)):
                    raise Unsupported("loop modifies a pointer local")
                hv.mem[k] = self.fresh_like(v, "lp")
                for l in self._lens(hv.mem[k]):
                    hv.fact(l >= 0)
            else:
                lt = hv.heap.get(k)
                if lt is None:
                    lt = self.hkey_initial(k, self.field_ty(k))
                hv.heap[k] = self.fresh_like(lt, "lph_" + k[1])
        if alc:
            a = z3.Const(fresh_name("alloc"), INT)
            if hv.alloc is None:
                hv.alloc = z3.Const("alloc0", INT)
                hv.fact(hv.alloc > 0)
            hv.fact(a >= hv.alloc)
            hv.alloc = a
        if rng is not None:
            v = self.read(hv, rng)
            v0 = self.read(entry, rng)
            if v.kind == "vec":
                L["i"] = z3.Const(fresh_name("i"), INT)
                L["kind"] = "vec"
                hv.fact(v["len"] == v0["len"])
                hv.fact(z3.And(L["i"] >= 0, L["i"] <= v["len"]))
            else:
                dom = v0["dom"]
                if not dom.eq(v["dom"]):
                    if not self.opts.get("rename_keys"):
                        raise Unsupported("container modified while iterated")
                    if ren:
                        L["renamed"] = True
                    else:
                        L["rngkeep"] = v0
                        hv.fact(self.same_tree(v, v0))
                L["kind"] = v.kind
                L["vis"] = z3.Const(fresh_name("vis"), dom.sort())
                kk = z3.Const(fresh_name("k"), dom.sort().domain())
                hv.fact(z3.ForAll([kk], z3.Implies(z3.Select(L["vis"], kk), z3.Select(dom, kk)), patterns=[z3.Select(L["vis"], kk)]))
                for f in self.lib.set_loop_facts(dom, L["vis"]):
                    hv.fact(f)
        return hv, L

    def _lens(self, t):
        if isinstance(t, Node):
            r = []
            if t.kind == "vec" and isinstance(t.ch.get("len"), z3.ExprRef) and t.ch["len"].sort() == INT:
                r.append(t.ch["len"])
            if t.kind == "vec":
                return r
            for x in t.ch.values():
                r += self._lens(x)
            return r
        return []

    def loop_body(self, hv, L, fr, s, cond, body, inc, rng, cv=None):
        ends, exits = [], []
        start = hv.copy()
        if rng is not None:
            v = self.read(start, rng)
            ex_st = start.copy()
            if v.kind == "vec":
                start.branch(L["i"] < v["len"])
                ex_st.branch(L["i"] == v["len"])
                for f in self.lib.seq_at(v, L["i"]):
                    start.fact(f)
                todo, skip = self.bind_x(start, fr, s, rng.sub(("i", L["i"]), self.elem_ty(rng)))
            else:
                dom = L["rngkeep"]["dom"] if "rngkeep" in L else v["dom"]
                k = z3.Const(fresh_name("k"), dom.sort().domain())
                L["k"] = k
                if L.get("renamed"):
                    # Only keys of visited entries change (checked: no insertion or erasure in the body).
                    v0 = self.read(L["entry"], rng)
                    dom = v0["dom"]
                    start.fact(z3.Select(v["dom"], k))
                    for a, b in zip(leaves(v["val"]), leaves(v0["val"])):
                        start.fact(z3.Select(a, k) == z3.Select(b, k))
                    start.ghost["mapmods"] = 0
                start.fact(z3.Select(dom, k))
                start.fact(z3.Not(z3.Select(L["vis"], k)))
                start.br.append((len(start.pc) - 1, start.pc[-1]))
                for f in self.lib.set_step_facts(L["vis"], k, dom):
                    start.fact(f)
                ex_st.branch(L["vis"] == dom)
                sh = self.lib.key_tree(rng, k, self, start)
                if v.kind == "set":
                    todo, skip = self.bind_x(start, fr, s, Node("iter", {"key": k, "end": z3.BoolVal(False)}, rng) if "iter" in s else self.temp(start, sh))
                else:
                    inv = self.lib.entry_inv(start, rng, k, tmap(lambda a: z3.Select(a, k), v["val"]), v.meta)
                    if inv is not None:
                        start.fact(inv)
                    todo, skip = self.bind_x(start, fr, s, Node("iter", {"key": k, "end": z3.BoolVal(False)}, rng) if "iter" in s else rng.sub(("e", k)))
            exits.append((ex_st, None))
            todo = [x for x in todo if self.feasible(x)]
            ends += [(x, None) for x in skip]
        else:
            todo = []
            ys = self.declare(start, cv, fr) if cv else [start]
            for y in ys:
                for z, c in (self.evr(y, cond, fr) if cond is not None else [(y, z3.BoolVal(True))]):
                    s1, s2 = z.copy(), z.copy()
                    s1.branch(c)
                    s2.branch(z3.Not(c))
                    todo.append(s1)
                    if cond is not None:
                        exits.append((s2, None))
        for x in todo:
            for y, o in self.ex(x, body, fr):
                if L.get("renamed") and y.ghost.get("mapmods"):
                    raise Unsupported("insertion or erasure in a map while iterated")
                if o is None or o == ("cont",):
                    if inc is not None:
                        for z, _ in self.ev(y, inc, fr):
                            ends.append((z, None))
                    else:
                        ends.append((y, None))
                elif o == ("break",):
                    exits.append((y, None))
                else:
                    exits.append((y, o))
        return ends, exits

    def loop_cands(self, entry, st, L, spec, first=False, next_=False):
        v = LoopView(self, entry, st, L, first, next_)
        out = []
        try:
            for fn in spec:
                out += [(n, t) for n, t in fn(v)]
        except (KeyError, AttributeError, IndexError) as ex:
            raise Unsupported("loop invariant template: %r" % ex)
        if L["rng"] is None:
            out += v.auto()
        return out + v.kept_frames()

    def quick_prove(self, pc, goal, ms=None):
        import solve
        return solve.quick(pc, goal, ms or self.opts.get("houdini_ms", 3000))


class LoopView:
    """What an invariant template may talk about."""

    def __init__(self, en, entry, st, L, first, next_):
        self.en, self.entry, self.st, self.L = en, entry, st, L
        self.fr = L["frame"]
        if L["rng"] is not None:
            if L["kind"] == "vec":
                self.i = z3.IntVal(0) if first else (L["i"] + 1 if next_ else L["i"])
            else:
                d = en.read(entry, L["rng"])["dom"]
                emp = z3.K(d.sort().domain(), z3.BoolVal(False))
                self.vis = emp if first else (z3.Store(L["vis"], L["k"], z3.BoolVal(True)) if next_ else L["vis"])
                self.dom = d
            self.range = en.read(st, L["rng"])
            self.range0 = en.read(entry, L["rng"])

    def mod_locals(self, sort=None, kind=None):
        """[(name, value, entry value)] of the modified locals by leaf sort."""
        out = []
        for kd, k in sorted(self.L["mods"], key=str):
            if kd != "m":
                continue
            v, v0 = self.st.mem.get(k), self.entry.mem.get(k)
            if v is None:
                continue
            if sort is not None and isinstance(v, z3.ExprRef) and v.sort() == sort:
                out.append(("L%s" % (k[1],), v, v0))
            if kind is not None and isinstance(v, Node) and v.kind == kind:
                out.append(("L%s" % (k[1],), v, v0))
        return out

    def locals(self, sort=None, kind=None):
        out = []
        for k, v in self.st.mem.items():
            if k[0] != "c" or k not in self.entry.mem or not (isinstance(k[1], tuple)):
                continue
            if sort is not None and isinstance(v, z3.ExprRef) and v.sort() == sort:
                out.append(("L%s" % (k[1],), v, self.entry.mem[k]))
            if kind is not None and isinstance(v, Node) and v.kind == kind:
                out.append(("L%s" % (k[1],), v, self.entry.mem[k]))
        return out

    def refs(self, sort=None, kind=None):
        """What local references (parameters) refer to."""
        out = []
        for k, v in self.st.mem.items():
            if k[0] != "r" or not isinstance(v, LVal):
                continue
            try:
                x, x0 = self.en.read(self.st, v), self.en.read(self.entry, v)
            except Exception:
                continue
            if sort is not None and isinstance(x, z3.ExprRef) and x.sort() == sort or kind is not None and isinstance(x, Node) and x.kind == kind:
                out.append(("R%s" % (k[1:],), x, x0))
        return out

    def fld(self, ref, cls, name, old=False):
        return self.en.heap_get(self.entry if old else self.st, (cls, name), ref)

    def kept_frames(self):
        skip = self.en.opts.get("skip_frames", ())
        return [(n, t) for n, t in self.frames() if not any(x in n for x in skip)]

    def frames(self):
        """What loops usually leave alone: other objects, lengths, and the
        elements that are still to be visited."""
        out = []
        this = self.fr.this.root[1] if isinstance(self.fr.this, LVal) and self.fr.this.root[0] == "h" else None
        for kd, k in sorted(self.L["mods"], key=str):
            if kd == "m":
                v, v0 = self.st.mem.get(k), self.entry.mem.get(k)
                if isinstance(v, Node) and v.kind == "vec" and isinstance(v0, Node) and v0.kind == "vec":
                    out.append(("L%s keeps its length" % (k[1],), v["len"] == v0["len"]))
                continue
            h = self.st.heap.get(k)
            h0 = self.entry.heap.get(k)
            if h0 is None:
                h0 = self.en.hkey_initial(k, self.en.field_ty(k))
            if h is None:
                h = h0
            x = z3.Const(fresh_name("ox"), INT)
            eq = z3.And(*[z3.Select(a, x) == z3.Select(b, x) for a, b in zip(leaves(h), leaves(h0))])
            pats = [z3.Select(a, x) for a in leaves(h)]
            if this is not None:
                out.append(("%s::%s of other objects" % (k[0].split("::")[-1], k[1]), qall([x], z3.Implies(x != this, eq), *pats)))
            al = self.entry.alloc
            if al is not None:
                out.append(("%s::%s of old objects" % (k[0].split("::")[-1], k[1]), qall([x], z3.Implies(x < al, eq), *pats)))
            if this is not None and isinstance(h, Node) and h.kind == "vec":
                out.append(("%s keeps its length" % k[1], z3.Select(h["len"], this) == z3.Select(h0["len"], this)))
        if self.L["rng"] is not None and self.L["kind"] == "vec":
            r, r0 = self.range, self.range0
            if self.L["rng"].root[0] == "h" or ("m", self.L["rng"].root) in self.L["mods"]:
                j = z3.Const(fresh_name("rj"), INT)
                eq = z3.And(*[z3.Select(a, j) == z3.Select(b, j) for a, b in zip(leaves(r["at"]), leaves(r0["at"]))])
                out.append(("elements to visit are unchanged", qall([j], z3.Implies(j >= self.i, eq), *[z3.Select(a, j) for a in leaves(r["at"])])))
        return out

    def auto(self):
        """Generic bounds for counting loops."""
        out = []
        for n, v, v0 in self.mod_locals(sort=INT):
            out.append((n + ">=entry", v >= v0))
            out.append((n + "<=entry", v <= v0))
            for m, w, w0 in self.locals(sort=INT):
                if m != n and not any(m == x for x, _, _ in self.mod_locals(sort=INT)):
                    out.append(("%s<=%s" % (n, m), v <= w))
                    out.append(("%s>=%s" % (n, m), v >= w))
        for n, v, v0 in self.mod_locals(kind="iter"):
            if "idx" in v.ch and isinstance(v.meta, LVal):
                c = self.en.read(self.st, v.meta)
                out.append((n + ".it>=entry", v["idx"] >= v0["idx"]))
                if isinstance(c, Node) and c.kind == "vec":
                    out.append((n + ".it<=len", v["idx"] <= c["len"]))
                    out.append((n + ".it>=0", v["idx"] >= 0))
        return out


def has_label(s, label):
    """The statement contains the label (not within a loop or a switch)."""
    if not isinstance(s, dict):
        return False
    if s["k"] == "Label":
        return s["label"] == label or has_label(s["s"], label)
    if s["k"] == "Compound":
        return any(has_label(b, label) for b in s["b"])
    return s["k"] == "If" and (has_label(s["then"], label) or has_label(s.get("else"), label))


class Ctx:
    """What a contract may talk about."""

    def __init__(self, en, con, pre, post, this, args, ptys, res=None, call=False):
        self.en, self.con, self.pre, self.post = en, con, pre, post
        self._this, self._args, self.ptys, self.res = this, args, ptys, res
        self.call = call

    @property
    def this(self):
        lv = self._this
        if isinstance(lv, LVal) and lv.root[0] == "h" and not lv.path:
            return lv.root[1]
        return lv

    def objval(self, lv, st):
        """Address for heap records, value tree otherwise."""
        if isinstance(lv, LVal):
            if lv.root[0] == "h" and not lv.path:
                return lv.root[1]
            return self.en.read(st, lv)
        return lv

    def arg(self, i, post=False):
        return self.objval(self._args[i], self.post if post else self.pre)

    def ptr_arg(self, i, post=False):
        """The pointee's value of a pointer argument."""
        st = self.post if post else self.pre
        p = self._args[i]
        if isinstance(p, LVal):
            p = self.en.read(st, p)
        lv = self.en.deref(st, p, self.ptys[i].elem if self.ptys[i].k == "ptr" else self.ptys[i].elem.elem)
        return self.en.read(st, lv)

    def ptr_lv(self, i):
        p = self._args[i]
        if isinstance(p, LVal):
            p = self.en.read(self.pre, p)
        return self.en.deref(self.pre, p, self.ptys[i].elem if self.ptys[i].k == "ptr" else self.ptys[i].elem.elem)

    def fld(self, x, cls, name, old=False):
        """Field of an object (address or value)."""
        st = self.pre if old else self.post
        if isinstance(x, LVal):
            return self.en.read(st, x.sub(("f", cls, name)))
        if isinstance(x, Node):
            return x.ch[name]
        return self.en.heap_get(st, (cls, name), x)

    def result(self):
        return self.objval(self.res, self.post)

    def val(self, i, post=False):
        """Value tree of an argument, also of a record in the heap."""
        return self.en.rv(self.post if post else self.pre, self._args[i])

    def rval(self):
        return self.en.rv(self.post, self.res)


def qall(vars_, body, *pats):
    """ForAll with the patterns that are legal triggers."""
    good = [p for p in pats if trigger_ok(p, vars_)]
    return z3.ForAll(vars_, body, patterns=good) if good else z3.ForAll(vars_, body)


def trigger_ok(p, vars_):
    seen, want, todo = set(), {v.get_id() for v in vars_}, [p]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x) or not z3.is_app(x):
            return False
        k = x.decl().kind()
        if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IMPLIES,
                 z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_XOR, z3.Z3_OP_IFF):
            return False
        want.discard(x.get_id())
        todo += x.children()
    return not want and p.num_args() > 0


def occurs(t, c):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.eq(c):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def has_quant(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        todo += x.children()
    return False


def cdiv(a, b):
    """C++ truncated integer division over mathematical integers."""
    if z3.is_int_value(a) and z3.is_int_value(b) and b.as_long() != 0:
        q = abs(a.as_long()) // abs(b.as_long())
        return z3.IntVal(q if (a.as_long() < 0) == (b.as_long() < 0) else -q)
    if z3.is_int_value(b) and b.as_long() > 0:
        return z3.If(a >= 0, a / b, -((-a) / b))
    return z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))


def _decimal(s):
    """A double literal -> the exact decimal a reader sees (shortest repr)."""
    from fractions import Fraction
    x = float(s)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite literal")
    return str(Fraction(repr(x)))
