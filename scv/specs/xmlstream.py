"""Contracts on the XML output stream (src/xml_stream.h).

The writes to the FILE drive a ghost writer: it knows where in the document
the output stands, which elements are open, and the text that a reader of
the current attribute or text will get.  A write that leaves the language of
well-formed documents puts the writer into the error state, and it stays
there; every contract says that the error state is not reached."""
import z3
import core
import engine
import lib
import verify
LITERALS = core.opaque_text(engine, lib, verify)
from core import *
from core import cstr_head as HD, cstr_tail as TL, text_lit as S
from contracts import Contract
from engine import qall, LVal

X = "scram::xml::"
D = X + "detail::"
SE, ST, FS, IN = X + "StreamElement", X + "Stream", D + "FileStream", D + "Indenter"
ERRT = X + "StreamError"
FILE = "_IO_FILE"
ERR, CONTENT, LT, TAG, ATTR, EQ, VALUE, CLOSE, CLOSED = -1, 0, 1, 2, 3, 4, 5, 6, 7
GH = ("mode", "rb", "stack", "text", "attr", "rooted")

PLAIN = z3.Function("plain", STR, BOOL)          # no markup character in the string
BLANK = z3.Function("blank", STR, BOOL)          # white space only
APP = z3.Function("append", STR, STR, STR)       # the text, the string after it
APP1 = z3.Function("append_char", STR, INT, STR)
PUSH = z3.Function("push", INT, STR, INT)        # open elements
TOP = z3.Function("top", INT, STR)
POP = z3.Function("pop", INT, INT)
DEC = z3.Function("decimal", INT, STR)           # decimal digits of a natural number
FLT = z3.Function("percent_g", REAL, STR)        # what fprintf writes for "%g"
OWN = z3.Function("stack_of", INT, INT)          # the open elements when the element is the innermost
EMPTY = z3.IntVal(0)
HEADER = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"


def axioms(en):
    s, t = z3.Consts("xs xt", STR)
    k, c = z3.Ints("xk xc")
    special = lambda ch: z3.Or(*[ch == ord(x) for x in "&<>\""])
    lit = [PLAIN(S(x)) for x in ("true", "false")] + [z3.Not(PLAIN(S(x))) for x in ("<", "</", HEADER, "&amp;", "&lt;", "&gt;", "&quot;", ">", ">\n", "/>\n", "=\"", "\"")]
    lit += [z3.Not(BLANK(S(x))) for x in ("<", "</", HEADER, "&amp;", "&lt;", "&gt;", "&quot;", ">")]
    return LITERALS + [qall([s], (HD(s) == 0) == (s == S("")), HD(s)),
            qall([s], z3.Implies(HD(s) != 0, PLAIN(s) == z3.And(z3.Not(special(HD(s))), PLAIN(TL(s)))), z3.MultiPattern(PLAIN(s), HD(s))),
            qall([s, t], z3.Implies(HD(s) != 0, APP(t, s) == APP(APP1(t, HD(s)), TL(s))), z3.MultiPattern(APP(t, s), HD(s))),
            qall([t], APP(t, S("")) == t, APP(t, S(""))),
            PLAIN(S("")), *lit,
            qall([k, s], z3.And(TOP(PUSH(k, s)) == s, POP(PUSH(k, s)) == k, PUSH(k, s) != EMPTY), PUSH(k, s))]


class W:
    """The ghost writer of a file in a state."""

    def __init__(self, en, st, f):
        self.en, self.st, self.f = en, st, f

    def __getattr__(self, n):
        return self.en.heap_get(self.st, (FILE, "$" + n), self.f)


def step_string(w, s):
    """[(condition, updates)] of writing the string in the state w; an update is {ghost: value}."""
    m = w.mode
    eq = lambda x: s == S(x)
    text = z3.Or(m == VALUE, m == CONTENT)
    inside = z3.And(text, z3.Or(m == VALUE, w.stack != EMPTY))
    ent = lambda x, c: (z3.And(inside, eq(x)), dict(text=APP1(w.text, ord(c)), rb=0))
    return [(z3.And(m == CONTENT, eq("<")), dict(mode=LT)),
            (z3.And(m == CONTENT, eq("</"), w.stack != EMPTY), dict(mode=CLOSE)),
            (z3.And(m == CONTENT, eq(HEADER), w.stack == EMPTY, z3.Not(w.rooted)), dict(rb=0)),
            (z3.And(m == LT, s != S(""), z3.Or(w.stack != EMPTY, z3.Not(w.rooted))), dict(mode=TAG, stack=PUSH(w.stack, s), rooted=z3.BoolVal(True))),
            (z3.And(m == TAG, eq(" ")), dict(mode=ATTR)),
            (z3.And(m == TAG, z3.Or(eq(">"), eq(">\n"))), dict(mode=CONTENT, text=S(""), rb=0)),
            (z3.And(m == TAG, eq("/>\n")), dict(mode=CONTENT, stack=POP(w.stack), rb=0)),
            (z3.And(m == ATTR, s != S("")), dict(mode=EQ, attr=s)),
            (z3.And(m == EQ, eq("=\"")), dict(mode=VALUE, text=S(""))),
            (z3.And(m == VALUE, eq("\"")), dict(mode=TAG)),
            (z3.And(m == CLOSE, s == TOP(w.stack)), dict(mode=CLOSED)),
            (z3.And(m == CLOSED, eq(">\n")), dict(mode=CONTENT, stack=POP(w.stack), rb=0)),
            ent("&amp;", "&"), ent("&lt;", "<"), ent("&gt;", ">"), ent("&quot;", "\""),
            (z3.And(inside, eq(">"), z3.Or(m == VALUE, w.rb == 0)), dict(text=APP1(w.text, ord(">")), rb=0)),
            (z3.And(inside, PLAIN(s)), dict(text=APP(w.text, s), rb=None)),
            (z3.And(m == CONTENT, BLANK(s)), dict(rb=0)),
            (z3.BoolVal(True), dict(mode=ERR))]


def step_char(w, c):
    inside = z3.Or(w.mode == VALUE, z3.And(w.mode == CONTENT, w.stack != EMPTY))
    ok = z3.And(inside, c != 0, *[c != ord(x) for x in "&<>\""])
    return [(ok, dict(text=APP1(w.text, c), rb=z3.If(c == ord("]"), 1, 0))), (z3.BoolVal(True), dict(mode=ERR))]


def step_num(w, s):
    inside = z3.Or(w.mode == VALUE, z3.And(w.mode == CONTENT, w.stack != EMPTY))
    return [(inside, dict(text=APP(w.text, s), rb=0)), (z3.BoolVal(True), dict(mode=ERR))]


def post_is(w, n, cases):
    """The writer n is w after the first case that applies."""
    out = []
    for g in GH:
        old, new = getattr(w, g), getattr(n, g)
        body = z3.BoolVal(True)
        for cond, up in reversed(cases):
            v = up.get(g, old)
            body = z3.If(cond, z3.Or(new == 0, new == 1) if v is None else new == v, body)
        out.append((g, body))
    return out


def mk(prog):
    out = []
    ftype = lambda fd, key, i: prog.fdecl_tu[key].types[fd["p"][i]].s
    nofile = lambda c: []

    def sel(q, *types, rt=None):
        def f(fd, key, P):
            return fd["q"] == q and len(fd["p"]) >= len(types) and all(t is None or ftype(fd, key, i) == t for i, t in enumerate(types))
        return f

    def frame(fileof, gs=GH):
        return lambda c: [((FILE, "$" + g), fileof(c)) for g in gs]

    # ---- what is trusted: the writes to the FILE
    fs_file = lambda c: c.fld(c.this, FS, "file_", True)
    STRT = "const char *"

    def trusted(name, sel_, fileof, cases, why):
        out.append(Contract(name, sel_, None, None, frame(fileof), assumes=lambda c: [b for _, b in post_is(W(c.en, c.pre, fileof(c)), W(c.en, c.post, fileof(c)), cases(c, W(c.en, c.pre, fileof(c))))], trusted=why))
    lib = "the C library writes the characters to the file; the writer follows them"
    trusted("FileStream::write(const char*)", sel(FS + "::write", STRT), fs_file, lambda c, w: step_string(w, c.val(0)), lib)
    trusted("FileStream::write(char)", sel(FS + "::write", "char"), fs_file, lambda c, w: step_char(w, c.val(0)), lib)
    trusted("FileStream::write(size_t)", sel(FS + "::write", "unsigned long"), fs_file, lambda c, w: step_num(w, DEC(c.val(0))), "writes the decimal digits of the number (decided by the runs)")
    trusted("FileStream::write(double)", sel(FS + "::write", "double"), fs_file, lambda c, w: step_num(w, FLT(c.val(0))), lib)
    trusted("fputc", "fputc", lambda c: c.val(1), lambda c, w: step_char(w, c.val(0)), lib)

    inside = lambda w: z3.Or(w.mode == VALUE, z3.And(w.mode == CONTENT, w.stack != EMPTY))
    INT_TEXT = lambda t, v: z3.If(v < 0, APP(APP1(t, ord("-")), DEC(-v)), APP(t, DEC(v)))

    # ---- numbers
    def wr(c, fileof):
        return W(c.en, c.pre, fileof(c)), W(c.en, c.post, fileof(c))

    def same(c, fileof, but=()):
        a, b = wr(c, fileof)
        return [("the %s of the writer is kept" % g, getattr(a, g) == getattr(b, g)) for g in GH if g not in but]

    def num_post(fileof, text, i=0):
        return lambda c: [("the text gets the value", wr(c, fileof)[1].text == text(wr(c, fileof)[0].text, c.val(i)))] + same(c, fileof, ("text", "rb")) + [("bracket", RB(wr(c, fileof)[1]))]
    RB = lambda w: z3.Or(w.rb == 0, w.rb == 1)
    out.append(Contract("FileStream::write(int)", sel(FS + "::write", "int"), lambda c: [("within a value or a text", inside(wr(c, fs_file)[0]))],
                        num_post(fs_file, INT_TEXT), frame(fs_file, ("text", "rb"))))

    # ---- values
    el_out = lambda c, old=True: c.fld(c.this, SE, "out_", old)
    el_file = lambda c: c.fld(el_out(c), FS, "file_", True)
    TEXT = {"int": INT_TEXT, "double": lambda t, v: APP(t, FLT(v)), "unsigned long": lambda t, v: APP(t, DEC(v)),
            "bool": lambda t, v: APP(t, z3.If(v, S("true"), S("false"))), STRT: APP, "str": APP}

    def kind(fd, key, i):
        s = ftype(fd, key, i).replace("&", "").strip()
        return "str" if "basic_string" in s else s
    for kd, text in TEXT.items():
        put = lambda fd, key, P, kd=kd: fd["q"] == SE + "::PutValue" and kind(fd, key, 0) == kd
        out.append(Contract("PutValue(%s)" % kd, put, lambda c: [("within a value or a text", inside(wr(c, el_file)[0])), ("bracket", RB(wr(c, el_file)[0]))],
                            num_post(el_file, text), frame(el_file, ("text", "rb"))))

    # ---- elements
    fl = lambda c, n, old=True: c.fld(c.this, SE, n, old)
    par = lambda c: c.fld(c.this, SE, "parent_", True)

    def inv(c, e, old, stack=None, active=True):
        """An element that can be written to."""
        g = lambda n: c.fld(e, SE, n, old)
        a, el, tx = g("accept_attributes_"), g("accept_elements_"), g("accept_text_")
        w = W(c.en, c.pre if old else c.post, c.fld(c.fld(e, SE, "out_", True), FS, "file_", True))
        return z3.And(flags(a, el, tx), z3.Implies(g("active_"), z3.And(w.mode == z3.If(a, z3.IntVal(TAG), z3.IntVal(CONTENT)), w.stack == OWN(e), w.rooted)),
                      OWN(e) != EMPTY, TOP(OWN(e)) == g("kName_"), RB(w))
    flags = lambda a, el, tx: z3.And(z3.Implies(a, z3.And(el, tx)), z3.Or(el, tx), z3.Implies(z3.And(el, tx), a))

    req = lambda c: [("the element is sound", inv(c, c.this, True))]
    post = lambda c: ("the element is sound", inv(c, c.this, False))
    for kd, text in TEXT.items():
        sa = lambda fd, key, P, kd=kd: fd["q"] == SE + "::SetAttribute" and kind(fd, key, 1) == kd
        out.append(Contract("SetAttribute(%s)" % kd, sa, req, lambda c, text=text: [
            post(c), ("a reader gets the value", wr(c, el_file)[1].text == text(S(""), c.val(1))), ("the name", wr(c, el_file)[1].attr == c.val(0)),
            ("the open elements are the same", wr(c, el_file)[1].stack == wr(c, el_file)[0].stack), ("this element", c.result() == c.this)],
            frame(el_file, ("mode", "rb", "text", "attr")),
            throws=lambda c: [(ERRT, z3.Or(z3.Not(fl(c, "active_")), z3.Not(fl(c, "accept_attributes_")), c.val(0) == S("")), False)]))
        at = lambda fd, key, P, kd=kd: fd["q"] == SE + "::AddText" and kind(fd, key, 0) == kd
        out.append(Contract("AddText(%s)" % kd, at, req, lambda c, text=text: [
            post(c), ("a reader gets the text after the texts before", wr(c, el_file)[1].text == text(z3.If(fl(c, "accept_attributes_"), S(""), wr(c, el_file)[0].text), c.val(0))),
            ("no more elements or attributes", z3.Not(z3.Or(fl(c, "accept_elements_", False), fl(c, "accept_attributes_", False)))), ("more text", fl(c, "accept_text_", False)),
            ("the open elements are the same", wr(c, el_file)[1].stack == wr(c, el_file)[0].stack), ("this element", c.result() == c.this)],
            lambda c: frame(el_file, ("mode", "rb", "text"))(c) + [((SE, "accept_elements_"), c.this), ((SE, "accept_attributes_"), c.this)],
            throws=lambda c: [(ERRT, z3.Or(z3.Not(fl(c, "active_")), z3.Not(fl(c, "accept_text_"))), False)]))
    # ---- the life of an element
    why = "the buffer of the indentation holds spaces up to its terminator (decided by the runs)"
    out.append(Contract("Indenter::operator()", IN + "::operator()", None, None, lambda c: [((IN, "spaces"), c.this)], trusted=why))
    out.append(Contract("Indentation::operator const char*", lambda fd, key, P: fd["q"].startswith(IN + "::Indentation::operator const char"), None, None, nofile,
                        assumes=lambda c: [BLANK(c.rval())], trusted=why))

    def family(c, e, p):
        """p is the parent of e, waiting for e to end."""
        g = lambda o, n: c.fld(o, SE, n, True)
        return z3.Implies(p != 0, z3.And(p != e, z3.Not(g(p, "active_")), g(p, "out_") == g(e, "out_"), g(p, "accept_elements_"), z3.Not(g(p, "accept_attributes_")), z3.Not(g(p, "accept_text_")),
                                         OWN(p) != EMPTY, TOP(OWN(p)) == g(p, "kName_"), POP(OWN(e)) == OWN(p)))
    out.append(Contract("~StreamElement", SE + "::~StreamElement", lambda c: req(c) + [("no child element is alive", fl(c, "active_")), ("the parent waits", family(c, c.this, par(c)))],
                        lambda c: [("the element is closed", z3.And(wr(c, el_file)[1].mode == CONTENT, wr(c, el_file)[1].stack == POP(OWN(c.this)))),
                                   ("the parent can be written to", z3.Implies(par(c) != 0, z3.And(c.fld(par(c), SE, "active_"), inv(c, par(c), False)))),
                                   ("the text of the element ends with its last text", z3.Implies(z3.And(z3.Not(fl(c, "accept_elements_"))), wr(c, el_file)[1].text == wr(c, el_file)[0].text)),
                                   ("one root", wr(c, el_file)[1].rooted)],
                        lambda c: frame(el_file)(c) + [((SE, "active_"), par(c)), ((IN, "spaces"), c.fld(c.this, SE, "indenter_", True))]))
    # a new element: `own` is what it is in the stack of open elements
    def fresh_el(c, g, name, parent, out_ref, indent):
        w, n = W(c.en, c.pre, c.fld(out_ref, FS, "file_", True)), W(c.en, c.post, c.fld(out_ref, FS, "file_", True))
        return [("the start tag is open", z3.And(n.mode == TAG, n.stack == PUSH(w.stack, name), n.rooted)), ("bracket", RB(n)),
                ("the element accepts all", z3.And(g("accept_attributes_"), g("accept_elements_"), g("accept_text_"), g("active_"))),
                ("its name", g("kName_") == name), ("its parent", g("parent_") == parent), ("its output", g("out_") == out_ref), ("its indentation", g("kIndent_") == indent)]

    res = lambda c: (lambda n: c.fld(c.result(), SE, n))
    lim = lambda c: ("the indentation fits an int", fl(c, "kIndent_") < 2 ** 31 - 2)
    out.append(Contract("AddChild", SE + "::AddChild", lambda c: req(c) + [lim(c), ("non-negative indentation", fl(c, "kIndent_") >= 0)],
                        lambda c: fresh_el(c, res(c), c.val(0), c.this, el_out(c), fl(c, "kIndent_") + 2) + [
                            ("the element waits for the child", z3.And(z3.Not(fl(c, "active_", False)), fl(c, "accept_elements_", False), z3.Not(fl(c, "accept_attributes_", False)), z3.Not(fl(c, "accept_text_", False)))),
                            ("the stack of the child", wr(c, el_file)[1].stack == PUSH(OWN(c.this), c.val(0)))],
                        lambda c: frame(el_file)(c) + [((SE, f), c.this) for f in ("active_", "accept_text_", "accept_attributes_")] + [((IN, "spaces"), None)],
                        throws=lambda c: [(ERRT, z3.Or(z3.Not(fl(c, "active_")), z3.Not(fl(c, "accept_elements_")), c.val(0) == S("")), False)]))
    return out


def loops_(v):
    out = []
    en = v.en
    mods = [(k, v.st.mem[k]) for kd, k in sorted(v.L["mods"], key=str) if kd == "m" and is_text(v.st.mem.get(k)) and k in v.entry.mem]
    f = None
    for kd, key in sorted(v.L["mods"], key=str):
        if kd == "h" and key == (FILE, "$text"):
            f = 1
    for n, (k, x) in enumerate(mods):
        x0 = v.entry.mem[k]
        out.append(("plain rest %d" % n, PLAIN(x) == PLAIN(x0)))
        this = v.fr.this
        if this is not None and f:
            fr = en.heap_get(v.st, (SE, "out_"), this.root[1])
            fr = en.heap_get(v.st, (FS, "file_"), fr)
            w, w0 = W(en, v.st, fr), W(en, v.entry, fr)
            out.append(("rest of the text %d" % n, APP(w.text, x) == APP(w0.text, x0)))
            out.append(("bracket", z3.Or(w.rb == 0, w.rb == 1)))
            x_ = z3.Int("xf")
            for g in ("text", "rb"):
                now, then = getattr(W(en, v.st, x_), g), getattr(W(en, v.entry, x_), g)
                out.append(("%s of other files" % g, qall([x_], z3.Implies(x_ != fr, now == then), now)))
            for nm, y, y0 in v.mod_locals(sort=INT):
                out.append(("bracket is remembered in " + nm, z3.Implies(w.rb == 1, y == ord("]"))))
            for g in GH:
                out.append(("same " + g, getattr(w, g) == getattr(w0, g)))
    return out


OPTS = dict(asserts="check", ghost_fields={(FILE, "$" + g): {"mode": "int", "rb": "int", "stack": "int", "text": "const char *", "attr": "const char *", "rooted": "bool"}[g] for g in GH},
            overflow=True)
SPEC = dict(id="C20", tus=["VERIF/native/inst/xml.cc"], contracts=mk, axioms=axioms, opts=OPTS, loops=[loops_], lemmas=lambda: [], assumptions=[
    "the names of elements and attributes are XML names when they are not empty (the documented duty of the caller)",
    "strings have no NUL within (they are C strings up to the terminator)",
    "the ghost writer's steps are the grammar of well-formed documents restricted to what this class writes: tags, attributes with quotes, the entities of & < > \", text without ]]>",
    "the stack of open elements of an element is the one when it is made (AddChild ensures it); one element of a document is written to at a time (documented precondition)",
    "constructor, root() and destructor of Stream, the digits of FileStream::write(size_t) and the buffer of the indentation are decided by the runs only"])
