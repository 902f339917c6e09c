"""Core data model of the VC generator: types, value trees, states."""
import re
import json
import z3

INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
STR = z3.StringSort()

# C strings as sequences of characters up to the terminator (0)
# (declared on use: the order of declarations steers the solver)
def cstr_head(v):
    return z3.Function("cstr_head", STR, INT)(v)


def cstr_tail(v):
    return z3.Function("cstr_tail", STR, STR)(v)


def is_text(v):
    return isinstance(v, z3.ExprRef) and v.sort() == STR


def text_lit(s):
    return z3.StringVal(s)


def opaque_text(*modules):
    """Strings as elements of an uninterpreted sort (for the specifications that
    say what a string is by axioms); distinct literals are distinct elements.
    -> the axioms of the literals."""
    global STR, cstr_head, cstr_tail, text_lit
    STR = z3.DeclareSort("Text")
    cstr_head = z3.Function("cstr_head", STR, INT)
    cstr_tail = z3.Function("cstr_tail", STR, STR)
    mk, num = z3.Function("literal", INT, STR), z3.Function("number_of_literal", STR, INT)
    known = {}

    def text_lit(s):
        return mk(z3.IntVal(known.setdefault(s, len(known))))
    for m in modules:
        for n in ("STR", "cstr_head", "cstr_tail", "text_lit"):
            if hasattr(m, n):
                setattr(m, n, globals()[n])
    k = z3.Int("lk")
    return [z3.ForAll([k], num(mk(k)) == k, patterns=[mk(k)])]



class Unsupported(Exception):
    """The construct is outside of the verifier's reach (never a violation)."""


VEC = {"std::vector", "std::array", "std::deque", "std::initializer_list",
       "boost::container::small_vector", "boost::container::vector",
       "boost::container::static_vector", "std::forward_list", "std::list",
       "boost::iterator_range", "boost::container::small_vector_base", "ext::index_map"}
SET = {"std::set", "std::unordered_set", "boost::container::flat_set",
       "ext::linear_set", "std::multiset"}
MAP = {"std::map", "std::unordered_map", "boost::container::flat_map",
       "ext::linear_map", "boost::unordered_map"}
PTR = {"std::shared_ptr", "std::unique_ptr", "boost::intrusive_ptr",
       "std::__shared_ptr", "std::__shared_ptr_access", "std::weak_ptr",
       "std::__weak_ptr", "boost::weak_ptr"}
OPT = {"std::optional", "boost::optional", "boost::optional_detail::optional_base"}
PAIR = {"std::pair"}
VARIANT = {"std::variant", "boost::variant"}
TUPLE = {"std::tuple"}
STRING = {"std::basic_string", "std::__cxx11::basic_string",
          "std::basic_string_view"}


class Ty:
    __slots__ = ("mi", "k", "s", "const", "elem", "d", "args", "n", "w", "u", "lam", "cat")

    def __repr__(self):
        return "Ty(%s)" % self.s


class TU:
    """One extracted translation unit."""

    def __init__(self, path, data=None):
        d = data or json.load(open(path))
        self.path = path
        self.errors = d["errors"]
        self.enums = d["enums"]
        self.records = d["records"]
        self.fdecls = d["fdecls"]
        self.types = [Ty() for _ in d["types"]]
        for t, o in zip(self.types, d["types"]):
            t.k, t.s = o["k"], o["s"]
            t.const = o.get("c", False)
            t.elem = self.types[o["e"]] if "e" in o else None
            t.d = o.get("d", "")
            t.d = t.d.replace("__cxx11::", "")
            t.n, t.w, t.u = o.get("n"), o.get("w"), o.get("u")
            t.lam = o.get("lambda")
            t.args = [self.types[a["t"]] if "t" in a else a.get("i", a.get("d"))
                      for a in o.get("a", [])]
            if t.d == "ext::index_map":        # a vector with an index base
                t.n, t.args = int(t.args[0]), t.args[1:]
            t.mi = None
            t.cat = category(t)
        self.functions = {}
        for f in d["functions"]:
            f["tu"] = self
            self.functions[f["key"]] = f


def category(t):
    if t.k != "record":
        return t.k
    d = t.d
    if d == "boost::multi_index::multi_index_container":
        m = re.search(r"&(scram::mef::\w+::\w+)>", t.s)
        if t.s.count("hashed_unique<") == 1 and m:
            t.mi = m.group(1)   # a set of pointers, unique by this key
            return "set"
    for name, st in (("vec", VEC), ("set", SET), ("map", MAP), ("sptr", PTR),
                     ("opt", OPT), ("pair", PAIR), ("tuple", TUPLE),
                     ("variant", VARIANT), ("string", STRING)):
        if d in st:
            return name
    if t.lam:
        return "lambda"
    if "iterator" in d.lower() and not d.startswith("scram"):
        return "iter"
    if d.startswith("ext::find_iterator"):
        return "iter"
    return "record"


def ptr_variant(ty):
    """A variant of pointers only: one shared value."""
    return all(isinstance(a, Ty) and a.k == "ptr" for a in ty.args)


class Program:
    """The union of several translation units."""

    def __init__(self, tus):
        self.tus = tus
        self.functions, self.fdecls, self.records, self.enums = {}, {}, {}, {}
        self.fdecl_tu = {}
        self.tystr = {}
        for tu in tus:
            for k, v in tu.fdecls.items():
                if k not in self.fdecls:
                    self.fdecls[k] = v
                    self.fdecl_tu[k] = tu
            for k, v in tu.functions.items():
                self.functions.setdefault(k, v)
            for k, v in tu.records.items():
                if k not in self.records:
                    self.records[k] = dict(v, tu=tu)
            self.enums.update(tu.enums)
            for t in tu.types:
                self.tystr.setdefault(t.s, t)
        self.overriders = {}
        for k, v in self.fdecls.items():
            for o in v.get("over", []):
                self.overriders.setdefault(o, set()).add(k)

    def find(self, qname, targs=None, pred=None):
        """Function keys by qualified name (bodies only)."""
        out = []
        for k, f in self.functions.items():
            fd = self.fdecls[k]
            if fd["q"] != qname:
                continue
            if targs is not None:
                ta = [self.fdecl_tu[k].types[a["t"]].s if "t" in a else a.get("i")
                      for a in fd.get("a", [])]
                if ta != targs:
                    continue
            if pred and not pred(self, k, fd, f):
                continue
            out.append(k)
        return sorted(out)

    def bases(self, rec):
        r = self.records.get(rec)
        if not r:
            return []
        return [r["tu"].types[b] for b in r["bases"]]

    def derives(self, rec, base):
        if rec == base:
            return True
        return any(self.derives(b.s, base) for b in self.bases(rec))

    def all_fields(self, rec):
        """[(declaring class, name, Ty, field json)] bases first."""
        r = self.records.get(rec)
        if not r:
            return None
        out = []
        for b in self.bases(rec):
            bf = self.all_fields(b.s)
            if bf:
                out += bf
        for f in r["fields"]:
            out.append((rec, f["n"], r["tu"].types[f["t"]], dict(f, tu=r["tu"])))
        return out


# ---------------------------------------------------------------- value trees
class Node:
    __slots__ = ("kind", "ch", "meta")

    def __init__(self, kind, ch, meta=None):
        self.kind, self.ch, self.meta = kind, ch, meta

    def __getitem__(self, k):
        return self.ch[k]

    def with_(self, **kw):
        c = dict(self.ch)
        c.update(kw)
        return Node(self.kind, c, self.meta)

    def set(self, k, v):
        c = dict(self.ch)
        c[k] = v
        return Node(self.kind, c, self.meta)

    def __repr__(self):
        return "%s%r" % (self.kind, self.ch)


def tmap(f, t, *ts):
    if isinstance(t, Node):
        ch = {}
        for k, v in t.ch.items():
            try:
                ch[k] = tmap(f, v, *[x.ch[k] for x in ts])
            except (KeyError, AttributeError):
                raise Unsupported("tree shape mismatch %s vs %s" % (t.kind, [getattr(x, 'kind', x) for x in ts]))
        return Node(t.kind, ch, t.meta)
    if isinstance(t, z3.ExprRef):
        for x in ts:
            if not isinstance(x, z3.ExprRef):
                raise Unsupported("tree leaf mismatch %s" % (x,))
        return f(t, *ts)
    if all(x is t for x in ts):
        return t
    return f(t, *ts)


def leaves(t):
    if isinstance(t, Node):
        out = []
        for k in t.ch:
            out += leaves(t.ch[k])
        return out
    return [t]


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Node) and isinstance(b, Node):
        return (a.kind == b.kind and a.ch.keys() == b.ch.keys() and
                (a.meta is b.meta or a.meta == b.meta) and
                all(same(a.ch[k], b.ch[k]) for k in a.ch))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


_uid = [0]


def fresh_name(p="v"):
    _uid[0] += 1
    return "%s!%d" % (p, _uid[0])


def coerce_sort(v, sort):
    if not isinstance(v, z3.ExprRef) or v.sort() == sort:
        return v
    if sort == REAL and v.sort() == INT:
        return int_to_real(v)
    if sort == REAL and v.sort() == BOOL:
        return int_to_real(bool_to_int(v))
    if sort == BOOL and v.sort() == INT:
        return int_to_bool(v)
    if sort == INT and v.sort() == BOOL:
        return bool_to_int(v)
    if sort == STR and z3.is_int_value(v):
        return z3.Const(fresh_name("nullstr"), STR)
    raise Unsupported("sort coercion %s -> %s" % (v.sort(), sort))


def int_to_real(v):
    if z3.is_int_value(v):
        return z3.RealVal(v.as_long())
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        return z3.If(v.arg(0), int_to_real(v.arg(1)), int_to_real(v.arg(2)))
    return z3.ToReal(v)


def bool_to_int(b):
    if z3.is_true(b):
        return z3.IntVal(1)
    if z3.is_false(b):
        return z3.IntVal(0)
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


def int_as_bool(t):
    """The Boolean b if t is syntactically If(b,1,0) (or the literals)."""
    if z3.is_int_value(t):
        if t.as_long() in (0, 1):
            return z3.BoolVal(bool(t.as_long()))
        return None
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c, a, b = t.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() == 1 and b.as_long() == 0:
                return c
            if a.as_long() == 0 and b.as_long() == 1:
                return z3.Not(c)
    return None


def int_to_bool(t):
    b = int_as_bool(t)
    return b if b is not None else t != 0


_tups = {}


def tup_sort(sorts):
    key = ",".join(str(s) for s in sorts)
    if key not in _tups:
        n = "Tup_" + str(len(_tups)) + "_" + "".join(c for c in key if c.isalnum())
        d = z3.Datatype(n)
        d.declare("mk_" + n, *[("f%d_%s" % (i, n), s) for i, s in enumerate(sorts)])
        _tups[key] = d.create()
    return _tups[key]


def pack(t):
    ls = leaves(t)
    for x in ls:
        if not isinstance(x, z3.ExprRef):
            raise Unsupported("pack of non-term")
    if len(ls) == 1:
        return ls[0]
    s = tup_sort([x.sort() for x in ls])
    return s.constructor(0)(*ls)


def unpack(t, shape):
    ls = leaves(shape)
    if len(ls) == 1:
        vals = [t]
    else:
        s = t.sort()
        vals = [z3.simplify(s.accessor(0, i)(t)) for i in range(len(ls))]
    it = iter(vals)
    return tmap(lambda _: next(it), shape)


def pack_sort(shape):
    ls = leaves(shape)
    if len(ls) == 1:
        return ls[0].sort()
    return tup_sort([x.sort() for x in ls])


class LVal:
    """A location: root is ('c', cell id) or ('h', ref term); path of
    ('f', cls, name) | ('i', index term, 'at') | ('k', key term)."""
    __slots__ = ("root", "path", "ty")

    def __init__(self, root, path=(), ty=None):
        self.root, self.path, self.ty = root, tuple(path), ty

    def sub(self, el, ty=None):
        return LVal(self.root, self.path + (el,), ty)

    def __repr__(self):
        return "LVal(%s%s)" % (self.root, self.path)


class PtrTo:
    """A pointer to a non-heap (or sub-object) location."""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class FnVal:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Closure:
    __slots__ = ("node", "caps", "this", "tu")

    def __init__(self, node, caps, this, tu):
        self.node, self.caps, self.this, self.tu = node, caps, this, tu


class State:
    __slots__ = ("mem", "heap", "pc", "br", "ghost", "alloc", "trace")

    def __init__(self):
        self.mem, self.heap, self.pc, self.br = {}, {}, [], []
        self.ghost, self.alloc, self.trace = {}, None, []

    def copy(self):
        s = State.__new__(State)
        s.mem, s.heap = dict(self.mem), dict(self.heap)
        s.pc, s.br = list(self.pc), list(self.br)
        s.ghost, s.alloc, s.trace = dict(self.ghost), self.alloc, list(self.trace)
        return s

    def fact(self, t):
        if z3.is_true(t):
            return
        self.pc.append(t)

    def branch(self, t):
        self.br.append((len(self.pc), t))
        self.pc.append(t)
