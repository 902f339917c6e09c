"""Contracts on the contiguous containers (src/ext/linear_map.h, linear_set.h, index_map.h), proved on the instances of native/inst/ext.cc."""
import z3
import core
from core import *
from contracts import Contract
from engine import qall, LVal

# the classes under contract are records here, not models of the verifier
core.SET.discard("ext::linear_set")
core.MAP.discard("ext::linear_map")

PAIRS = {"ext::linear_map<int, int, ext::DefaultEraser, std::vector>": False, "ext::linear_map<int, int, ext::MoveEraser, std::vector>": True}
SETC = "ext::linear_set<int, ext::identity, std::vector>"
IMAP = "ext::index_map<2, int, std::vector>"
OUT = "std::out_of_range"
i, j, k = (z3.Const("r!" + n, INT) for n in "ijk")


def keyed(v):
    """(length, key at, value at) of the entries."""
    a = v["at"]
    if isinstance(a, Node):
        return v["len"], lambda n: z3.Select(a["first"], n), lambda n: z3.Select(a["second"], n)
    return v["len"], lambda n: z3.Select(a, n), lambda n: z3.Select(a, n)


def uniq(v):
    n, key, _ = keyed(v)
    return z3.And(n >= 0, qall([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), key(i) != key(j)), z3.MultiPattern(key(i), key(j))))


def has(v, x):
    n, key, _ = keyed(v)
    return z3.Exists([k], z3.And(k >= 0, k < n, key(k) == x))


ARR = z3.ArraySort(INT, INT)
HK = z3.Function("has_key", ARR, INT, INT, BOOL)            # an index below n holds x
WK = z3.Function("has_key_at", ARR, INT, INT, INT)
HR = z3.Function("has_pair", ARR, ARR, INT, INT, INT, INT, BOOL)  # an index in [lo, hi) holds the pair
WR = z3.Function("has_pair_at", ARR, ARR, INT, INT, INT, INT, INT)


def axioms(en):
    """Definitions of has_key and has_pair (with witnesses), and their direct consequences."""
    a, b = z3.Const("r!a", ARR), z3.Const("r!b", ARR)
    n, m, x, y, lo, hi = (z3.Const("r!" + t, INT) for t in ("n", "m", "x", "y", "lo", "hi"))
    w = WK(a, n, x)
    h = HR(a, b, lo, hi, x, y)
    v = WR(a, b, lo, hi, x, y)
    return [z3.ForAll([a, n, x], z3.Implies(HK(a, n, x), z3.And(w >= 0, w < n, a[w] == x)), patterns=[HK(a, n, x)]),
            z3.ForAll([a, n, x, i], z3.Implies(z3.And(i >= 0, i < n, a[i] == x), HK(a, n, x)), patterns=[z3.MultiPattern(HK(a, n, x), a[i])]),
            z3.ForAll([a, n, x], z3.Implies(z3.And(n > 0, a[n - 1] == x), HK(a, n, x)), patterns=[HK(a, n, x)]),
            z3.ForAll([a, n, b, m, x], z3.Implies(z3.And(w >= 0, w < m, b[w] == x), HK(b, m, x)), patterns=[z3.MultiPattern(HK(a, n, x), HK(b, m, x))]),
            z3.ForAll([a, b, lo, hi, x, y], z3.Implies(h, z3.And(v >= lo, v < hi, a[v] == x, b[v] == y)), patterns=[h]),
            z3.ForAll([a, b, lo, hi, x, y], z3.Implies(z3.And(hi > lo, a[hi - 1] == x, b[hi - 1] == y), h), patterns=[h]),
            z3.ForAll([a, b, lo, hi, m, x, y], z3.Implies(z3.And(h, hi <= m), HR(a, b, lo, m, x, y)), patterns=[z3.MultiPattern(h, HR(a, b, lo, m, x, y))])]


def key_arrays(v):
    a = v["at"]
    return (a["first"], a["second"]) if isinstance(a, Node) else (a, a)


def same_prefix(a, b, n):
    """The first n entries of a are those of b."""
    _, ka, va = keyed(a)
    _, kb, vb = keyed(b)
    return qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(ka(k) == kb(k), va(k) == vb(k))), ka(k))


def mk(prog):
    out = []
    cls_of = {}
    for rec in list(PAIRS) + [SETC]:
        cls_of[rec] = rec.replace(", ext::DefaultEraser, std::vector", "").replace(", std::vector", "").replace(", ext::identity", "")

    for rec, q in cls_of.items():
        is_set = rec == SETC
        move = PAIRS.get(rec)
        field = "set_" if is_set else "map_"
        label = q.replace("ext::", "")
        tys = lambda fd, key, prog: [prog.fdecl_tu[key].types[t] for t in fd["p"]]

        def sel(n, ok=lambda ts: True, q=q):
            return lambda fd, key, prog: fd["q"] == q + "::" + n and ok(tys(fd, key, prog))
        it1 = lambda ts: len(ts) == 1 and "__normal_iterator" in ts[0].s
        key1 = lambda ts: len(ts) == 1 and "__normal_iterator" not in ts[0].s
        two = lambda ts: len(ts) == 2

        def box(c, post, rec=rec, field=field):
            return c.fld(c.this, rec, field, not post)
        def iter_(c, rec=rec, field=field):
            return c.en.lib.vec_iter(c._this.sub(("f", rec, field), c.en.field_ty((rec, field))), z3.Const(core.fresh_name("it"), INT))
        both = lambda c, iter_=iter_: Node("rec", {"first": iter_(c), "second": z3.Const(core.fresh_name("new"), BOOL)})
        inv = lambda c, box=box: [("keys are unique", uniq(box(c, False)))]
        mods = lambda c, rec=rec, field=field: [((rec, field), c.this)]
        frame = lambda c: []
        keyval = lambda c: c.val(0)["first"] if isinstance(c.val(0), Node) else c.val(0)

        def sought(c, idx, v, x):
            """idx is the position of x, or the end."""
            n, key, _ = keyed(v)
            return z3.Or(z3.And(idx >= 0, idx < n, key(idx) == x), z3.And(idx == n, qall([k], z3.Implies(z3.And(k >= 0, k < n), key(k) != x), key(k))))

        def found(c, box=box, sought=sought):
            return [("the entry of the key, or the end", sought(c, c.rval()["idx"], box(c, False), c.val(0)))]
        out.append(Contract(label + "::find", [sel("find")] + ([sel("find_value")] if is_set else []), None, found, frame, result=iter_))
        present = lambda c, box=box: [("one entry or none", c.rval() == z3.If(has(box(c, False), c.val(0)), 1, 0))]
        out.append(Contract(label + "::count", sel("count"), None, present, frame))
        if is_set:
            out.append(Contract(label + "::count_value", sel("count_value"), None, lambda c, box=box: [("one entry or none", c.rval() == (has(box(c, False), c.val(0)) if c.rval().sort() == BOOL else z3.If(has(box(c, False), c.val(0)), 1, 0)))], frame))

        def added(c, x, y, box=box):
            """The entry (x, y) is appended unless the key is there."""
            a, b = box(c, False), box(c, True)
            n, ka, va = keyed(a)
            m, kb, vb = keyed(b)
            h = has(a, x)
            return [("keys are unique", uniq(b)), ("the entries before are kept", same_prefix(b, a, n)), ("at most one more entry", m == z3.If(h, n, n + 1)),
                    ("the new entry", z3.Implies(z3.Not(h), z3.And(kb(n) == x, vb(n) == y)))]

        def ins(c, added=added, box=box):
            x = c.val(0)
            p = (x["first"], x["second"]) if isinstance(x, Node) else (x, x)
            r = c.rval()
            m, kb, _ = keyed(box(c, True))
            return added(c, *p) + [("inserted exactly if the key was absent", r["second"] == z3.Not(has(box(c, False), p[0]))),
                                   ("the iterator of the key", z3.And(r["first"]["idx"] >= 0, r["first"]["idx"] < m, kb(r["first"]["idx"]) == p[0]))]
        out.append(Contract(label + "::insert", sel("insert", key1), inv, ins, mods, result=both))

        def empl(c, added=added, box=box, is_set=is_set):
            p = (c.val(0), c.val(0)) if is_set else (c.val(0), c.val(1))
            r = c.rval()
            m, kb, _ = keyed(box(c, True))
            return added(c, *p) + [("inserted exactly if the key was absent", r["second"] == z3.Not(has(box(c, False), p[0]))),
                                   ("the iterator of the key", z3.And(r["first"]["idx"] >= 0, r["first"]["idx"] < m, kb(r["first"]["idx"]) == p[0]))]
        out.append(Contract(label + "::emplace", sel("emplace"), inv, empl, mods, result=both))

        # ranges
        def from_range(c, before, after, box=box):
            """Everything of the range [first, last) is in, nothing else is new."""
            f, l = c.val(0), c.val(1)
            if isinstance(f, PtrTo) or f.kind != "iter":
                raise Unsupported("pointer range")
            src = c.en.read(c.pre, f.meta)
            _, ks, vs = keyed(src)
            n, ka, va = keyed(before)
            m, kb, vb = keyed(after)
            rng = lambda x: z3.And(x >= f["idx"], x < l["idx"])
            return [("keys are unique", uniq(after)), ("the entries before are kept", z3.And(m >= n, same_prefix(after, before, n))),
                    ("every key of the range is in", qall([k], z3.Implies(rng(k), HK(key_arrays(after)[0], m, ks(k))), ks(k))),
                    ("every new entry is from the range", qall([k], z3.Implies(z3.And(k >= n, k < m), HR(*key_arrays(src), f["idx"], l["idx"], kb(k), vb(k))), kb(k)))]

        def rsetup(en, st, this, args, prog=prog, is_set=is_set):
            from verify import ranged
            vt = next(t for tu in prog.tus for t in tu.types if t.cat == "vec" and t.d == "std::vector" and (t.args[0].k == "int" and t.args[0].w == 32 if is_set else t.args[0].cat == "pair"))
            lv = en.temp(st, en.fresh(vt, "source"), vt)
            n = en.read(st, lv)["len"]
            a, b = z3.Const("first", INT), z3.Const("last", INT)
            st.fact(z3.And(0 <= a, a <= b, b <= n))
            args[0], args[1] = en.lib.vec_iter(lv, a), en.lib.vec_iter(lv, b)
        is_it = lambda ts: len(ts) == 2 and "__normal_iterator" in ts[0].s
        out.append(Contract(label + "::insert(range)", sel("insert", is_it), inv, lambda c, box=box, fr=from_range: fr(c, box(c, False), box(c, True)), mods, setup=rsetup))

        # erasure
        def gone(a, b, p, move=move):
            """The entry at p is removed, all others are kept."""
            n, ka, va = keyed(a)
            m, kb, vb = keyed(b)
            eq = lambda x, y: z3.And(kb(x) == ka(y), vb(x) == va(y))
            if move:
                rest = z3.And(qall([k], z3.Implies(z3.And(k >= 0, k < n - 1, k != p), eq(k, k)), kb(k)), z3.Implies(p < n - 1, eq(p, n - 1)))
            else:
                rest = qall([k], z3.Implies(z3.And(k >= 0, k < n - 1), eq(k, z3.If(k < p, k, k + 1))), kb(k))
            return z3.And(m == n - 1, rest)

        def esetup(en, st, this, args, rec=rec, field=field, prog=prog):
            t = next(t for c_, n, t, _ in prog.all_fields(rec) if n == field)
            args[0] = en.lib.vec_iter(this.sub(("f", rec, field), t), z3.Const("pos", INT))
        ereq = lambda c, box=box, inv=inv: inv(c) + [("an iterator to an entry", z3.And(c.val(0)["idx"] >= 0, c.val(0)["idx"] < box(c, False)["len"]))]
        eens = lambda c, box=box, gone=gone: [("the entry is removed and the others are kept", gone(box(c, False), box(c, True), c.val(0)["idx"])), ("keys are unique", uniq(box(c, True))),
                                              ("the iterator keeps its place", c.rval()["idx"] == c.val(0)["idx"])]
        out.append(Contract(label + "::erase(iterator)", sel("erase", it1), ereq, eens, mods, setup=esetup, result=iter_))

        def kens(c, box=box, gone=gone, move=move):
            a, b = box(c, False), box(c, True)
            n, ka, va = keyed(a)
            m, kb, vb = keyed(b)
            h = has(a, c.val(0))
            x = c.val(0)
            eq = lambda x, y: z3.And(x >= 0, x < m, kb(x) == ka(y), vb(x) == va(y))
            kept = lambda y: z3.Exists([j], eq(j, y)) if move else z3.Or(eq(y, y), eq(y - 1, y))
            return [("one entry or none is removed", c.rval() == z3.If(h, 1, 0)), ("the number of entries", m == z3.If(h, n - 1, n)), ("keys are unique", uniq(b)), ("the key is gone", z3.Not(has(b, x))),
                    ("other entries are kept", qall([k], z3.Implies(z3.And(k >= 0, k < n, ka(k) != x), kept(k)), ka(k))),
                    ("nothing is invented", qall([k], z3.Implies(z3.And(k >= 0, k < m), z3.Exists([j], z3.And(j >= 0, j < n, kb(k) == ka(j), vb(k) == va(j)))), kb(k)))]
        out.append(Contract(label + "::erase(key)", sel("erase", key1), inv, kens, mods))

        # whole containers
        eqv = lambda a, b: z3.And(keyed(a)[0] == keyed(b)[0], same_prefix(a, b, keyed(b)[0]))
        other = lambda c, post, rec=rec, field=field: c.fld(c._args[0], rec, field, not post)
        out.append(Contract(label + "::swap", sel("swap"), None, lambda c, box=box, other=other, eqv=eqv: [
            ("this holds the entries of the other", eqv(box(c, True), other(c, False))), ("the other holds the entries of this", eqv(other(c, True), box(c, False)))],
            lambda c, rec=rec, field=field: [((rec, field), c.this), ((rec, field), c._args[0].root[1])]))
        out.append(Contract(label + "::size", sel("size"), None, lambda c, box=box: [("the number of entries", c.rval() == box(c, False)["len"])], frame))
        out.append(Contract(label + "::empty", sel("empty"), None, lambda c, box=box: [("no entry", c.rval() == (box(c, False)["len"] == 0))], frame))
        out.append(Contract(label + "::clear", sel("clear"), None, lambda c, box=box: [("no entry", box(c, True)["len"] == 0)], mods))
        out.append(Contract(label + "::reserve", sel("reserve"), None, lambda c, box=box, eqv=eqv: [("the entries are kept", eqv(box(c, True), box(c, False)))], mods))
        for n, at_end in (("begin", 0), ("cbegin", 0), ("end", 1), ("cend", 1)):
            out.append(Contract(label + "::" + n, sel(n), None, lambda c, box=box, at_end=at_end: [("the position", c.rval()["idx"] == (box(c, False)["len"] if at_end else 0))], frame, result=iter_))

        if not is_set:
            def idx(c, box=box, added=added):
                a, b = box(c, False), box(c, True)
                n, kb, vb = keyed(b)
                x = c.val(0)
                r = c.rval()
                return added(c, x, z3.IntVal(0)) + [("the value of the key", qall([k], z3.Implies(z3.And(k >= 0, k < n, kb(k) == x), vb(k) == r), kb(k)))]
            out.append(Contract(label + "::operator[]", sel("operator[]"), inv, idx, mods))
            at = lambda c, box=box: [("the value of the key", z3.Exists([k], z3.And(k >= 0, k < keyed(box(c, False))[0], keyed(box(c, False))[1](k) == c.val(0), keyed(box(c, False))[2](k) == c.rval())))]
            out.append(Contract(label + "::at", sel("at"), None, at, frame, lambda c, box=box: [(OUT, z3.Not(has(box(c, False), c.val(0))), False)]))

        # comparison
        def eq_sel(n, rec=rec):
            return lambda fd, key, prog: fd["q"] == "ext::" + n and rec in tys(fd, key, prog)[0].s

        def eq(c, rec=rec, field=field):
            a, b = c.fld(c._args[0], rec, field), c.fld(c._args[1], rec, field)
            n, ka, va = keyed(a)
            m, kb, vb = keyed(b)
            return z3.And(n == m, qall([k], z3.Implies(z3.And(k >= 0, k < n), z3.Exists([j], z3.And(j >= 0, j < m, kb(j) == ka(k), vb(j) == va(k)))), ka(k)))
        out.append(Contract(label + " ==", eq_sel("operator=="), None, lambda c, eq=eq: [("as many entries, each of them in the other", c.rval() == eq(c))], frame))
        out.append(Contract(label + " !=", eq_sel("operator!="), None, lambda c, eq=eq: [("not equal", c.rval() == z3.Not(eq(c)))], frame))

    # ---- the map by index: element i of the map is element i - 2 of the sequence
    out.append(Contract("index_map<2, int>::operator[]", lambda fd, key, prog: fd["q"] == "ext::index_map<2, int>::operator[]", lambda c: [("an index of the range", z3.And(c.val(0) >= 2, c.val(0) < 2 + c.en.read(c.pre, c.this)["len"]))],
                        lambda c: [("the element of the index", c.res.path[-1][1] == c.val(0) - 2)], lambda c: []))
    return out


def invs(v):
    """Insertion of ranges, comparison."""
    out = []
    en = v.en
    this = v.fr.this
    if not isinstance(this, LVal):
        return out + compare(v)
    for kd, key in sorted(v.L["mods"], key=str):
        if kd != "h" or key[1] not in ("map_", "set_"):
            continue
        new, old = en.heap_get(v.st, key, this.root[1]), en.heap_get(v.entry, key, this.root[1])
        n, ka, va = keyed(old)
        m, kb, vb = keyed(new)
        out += [("keys are unique", uniq(new)), ("entries are kept", z3.And(m >= n, same_prefix(new, old, n)))]
        its = [(nm, x) for nm, x, x0 in v.mod_locals(kind="iter") if "idx" in x.ch and isinstance(x.meta, LVal)]
        for nm, x in its:
            x0 = next(e for n2, _, e in v.mod_locals(kind="iter") if n2 == nm)
            src = en.read(v.st, x.meta)
            _, ks, vs = keyed(src)
            rng = lambda t: z3.And(t >= x0["idx"], t < x["idx"])
            out += [(nm + " moves on", x["idx"] >= x0["idx"]),
                    (nm + " visited are in", qall([k], z3.Implies(rng(k), HK(key_arrays(new)[0], m, ks(k))), ks(k))),
                    (nm + " new ones are visited", qall([k], z3.Implies(z3.And(k >= n, k < m), HR(*key_arrays(src), x0["idx"], x["idx"], kb(k), vb(k))), kb(k)))]
            for n2, y, _ in v.locals(kind="iter"):
                if n2 != nm and "idx" in y.ch:
                    out.append((nm + " up to " + n2, x["idx"] <= y["idx"]))
    return out


def compare(v):
    """The entries seen so far are in the other container."""
    out = []
    if v.L["rng"] is None or v.L["kind"] != "vec":
        return out
    en = v.en
    _, ka, va = keyed(v.range)
    for key, x in v.st.mem.items():
        if key[0] == "r" and isinstance(x, LVal) and x.ty is not None and x.ty.s.replace("const ", "") in list(PAIRS):
            m, kb, vb = keyed(en.heap_get(v.st, (x.ty.s.replace("const ", ""), "map_"), x.root[1]))
            out.append(("seen are in %s" % (key[1:],), qall([k], z3.Implies(z3.And(k >= 0, k < v.i), z3.Exists([j], z3.And(j >= 0, j < m, kb(j) == ka(k), vb(j) == va(k)))), ka(k))))
    return out


SPEC = dict(id="C23", tus=["VERIF/native/inst/ext.cc"], contracts=mk, axioms=axioms, opts=dict(asserts="check", bounds=True, verify_ext=True, range_field={"ext::linear_map": "map_", "ext::linear_set": "set_"}), loops=[invs], lemmas=lambda: [])
