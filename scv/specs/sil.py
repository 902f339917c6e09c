"""Contracts on the integration and the bucketing of the probability curve
(src/probability_analysis.cc); doubles are real numbers here."""
import z3
from core import *
from contracts import Contract
from engine import qall

C = "scram::core::"
AN = C + "(anonymous namespace)::"
PA = C + "ProbabilityAnalysis"
SILC = C + "Sil"


def share(p0, p1, dt, b0, b1):
    """Time of a straight segment from p0 to p1 within the bucket (b0, b1]
    (the first bucket contains its bound 0)."""
    lo, hi = z3.If(p0 <= p1, p0, p1), z3.If(p0 <= p1, p1, p0)
    k = (p1 - p0) / dt
    k = z3.If(k < 0, -k, k)
    up = z3.If(b1 <= hi, b1, hi)
    dn = z3.If(b0 >= lo, b0, lo)
    return z3.If(p0 == p1, z3.If(z3.And(z3.Or(b0 < p0, b0 == 0), p0 <= b1), dt, 0),
                 z3.If(dn > up, 0, z3.If(z3.And(dn == lo, up == hi), dt, (up - dn) / k)))


area = z3.Function("area", z3.ArraySort(INT, REAL), z3.ArraySort(INT, REAL), INT, REAL)   # over y, x, points
portion = z3.Function("portion", z3.ArraySort(INT, REAL), z3.ArraySort(INT, REAL), INT, REAL, REAL, REAL)


HY = z3.Const("hourly", z3.ArraySort(INT, REAL))
LEVELS = {"pfd_fractions": ["1/100000", "1/10000", "1/1000", "1/100", "1/10", "1"],
          "pfh_fractions": ["1/1000000000", "1/100000000", "1/10000000", "1/1000000", "1/100000", "1"]}


def yx(v):
    at = v["at"]
    return at["first"], at["second"]


def lemmas():
    p0, p1, dt, b0, b1, b2, k = z3.Reals("p0 p1 dt b0 b1 b2 k")
    lo, hi = z3.If(p0 <= p1, p0, p1), z3.If(p0 <= p1, p1, p0)
    h = [dt > 0, b0 >= 0, b0 < b1]
    lin = lambda a, b: dt * ((z3.If(b <= hi, b, hi) - z3.If(a >= lo, a, lo)) / (hi - lo))
    over = z3.And(z3.If(b1 <= hi, b1, hi) >= z3.If(b0 >= lo, b0, lo))
    return [("a share is the linear part of the segment's time (%s)" % n, h + [c, over], share(p0, p1, dt, b0, b1) == lin(b0, b1)) for n, c in (("rising", p0 < p1), ("falling", p0 > p1))] + [
        ("shares are additive (%s)" % n, h + [b1 < b2, c], share(p0, p1, dt, b0, b1) + share(p0, p1, dt, b1, b2) == share(p0, p1, dt, b0, b2)) for n, c in
        (("rising", p0 < p1), ("falling", p0 > p1), ("constant", p0 == p1))] + [
        ("the share of [0, 1] is the whole segment", [dt > 0, p0 >= 0, p0 <= 1, p1 >= 0, p1 <= 1], share(p0, p1, dt, z3.RealVal(0), z3.RealVal(1)) == dt)]


def axioms(en):
    n, m = z3.Consts("an am", INT)
    y, x = z3.Const("ay", z3.ArraySort(INT, REAL)), z3.Const("ax", z3.ArraySort(INT, REAL))
    b0, b1 = z3.Reals("b0 b1")
    s = z3.Select
    y2, x2, i = z3.Const("ay2", z3.ArraySort(INT, REAL)), z3.Const("ax2", z3.ArraySort(INT, REAL)), z3.Const("ai", INT)
    same = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(s(y, i) == s(y2, i), s(x, i) == s(x2, i))))
    ext = [qall([y, x, y2, x2, n], z3.Implies(same, area(y, x, n) == area(y2, x2, n)), z3.MultiPattern(area(y, x, n), area(y2, x2, n))),
           qall([y, x, y2, x2, n, b0, b1], z3.Implies(same, portion(y, x, n, b0, b1) == portion(y2, x2, n, b0, b1)), z3.MultiPattern(portion(y, x, n, b0, b1), portion(y2, x2, n, b0, b1)))]
    return ext + [qall([y, x], area(y, x, 1) == 0, area(y, x, 1)),
            qall([y, x, n], z3.Implies(n >= 1, area(y, x, n + 1) == area(y, x, n) + (s(y, n) + s(y, n - 1)) * (s(x, n) - s(x, n - 1))),
                 z3.MultiPattern(area(y, x, n), s(y, n))),
            qall([y, x, b0, b1], portion(y, x, 1, b0, b1) == 0, portion(y, x, 1, b0, b1)),
            qall([y, x, n, b0, b1], z3.Implies(n >= 1, portion(y, x, n + 1, b0, b1) == portion(y, x, n, b0, b1) + share(s(y, n - 1), s(y, n), s(x, n) - s(x, n - 1), b0, b1)),
                 z3.MultiPattern(portion(y, x, n, b0, b1), s(y, n)))]


S = z3.Select


def ascending_t(x, n):
    i, j = z3.Consts("oi oj", INT)
    return qall([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), S(x, i) < S(x, j)), z3.MultiPattern(S(x, i), S(x, j)))


def mk(prog):
    out = []

    def pts(c, i=0):
        return c.val(i)

    def int_loop(v):
        o = []
        for n, i, i0 in v.mod_locals(sort=INT):
            o.append(("%s from 1" % n, i >= 1))
            for m, t, t0 in v.mod_locals(sort=REAL):
                for l, p in points(v):
                    y, x = yx(p)
                    o.append(("%s is the area of %s" % (m, l), t == area(y, x, i)))
                    o.append(("%s is within %s" % (n, l), i <= p["len"]))
        return o

    def points(v):
        o = []
        for k, t in v.st.mem.items():
            if isinstance(t, Node) and t.kind == "vec" and isinstance(t["at"], Node) and "first" in t["at"].ch and not any(l.sort().range() != REAL for l in leaves(t["at"])):
                o.append((k, t))
        return o

    def enough(c):
        return [("two points", pts(c)["len"] >= 2)]
    out.append(Contract("Integrate", AN + "Integrate", enough, lambda c: [("trapezoids", c.rval() == area(*yx(pts(c)), pts(c)["len"]) / 2)], lambda c: [], loops=[int_loop]))

    def span(p):
        return z3.Select(p["at"]["second"], p["len"] - 1) - z3.Select(p["at"]["second"], 0)
    out.append(Contract("AverageY", AN + "AverageY", lambda c: enough(c) + [("a span", span(pts(c)) > 0)],
                        lambda c: [("average", c.rval() == area(*yx(pts(c)), pts(c)["len"]) / 2 / span(pts(c)))], lambda c: []))

    # ---- buckets
    def low(a, q):
        return z3.If(q == 0, z3.RealVal(0), S(a["at"]["first"], q - 1))

    def ascending(p):
        return ascending_t(p["at"]["second"], p["len"])

    def bounds(a):
        q = z3.Const("bq", INT)
        return qall([q], z3.Implies(z3.And(q >= 0, q < a["len"]), S(a["at"]["first"], q) > low(a, q)), S(a["at"]["first"], q))

    def per(a, f, upto=None):
        q = z3.Const("pq", INT)
        return qall([q], z3.Implies(z3.And(q >= 0, q < (a["len"] if upto is None else upto)), f(q)), S(a["at"]["second"], q))

    def kept(a, a0):
        q = z3.Const("pq", INT)
        return qall([q], z3.Implies(z3.And(q >= 0, q < a["len"]), S(a["at"]["first"], q) == S(a0["at"]["first"], q)), S(a["at"]["first"], q))

    def part_req(c):
        return enough(c) + [("times ascend", ascending(pts(c))), ("bounds ascend", bounds(c.ptr_arg(1)))]

    def part_ens(c):
        a0, a, p = c.ptr_arg(1), c.ptr_arg(1, True), pts(c)
        y, x = yx(p)
        return [("bounds are kept", kept(a, a0)), ("as many buckets", a["len"] == a0["len"]),
                ("shares of the span", per(a, lambda q: S(a["at"]["second"], q) == (S(a0["at"]["second"], q) + portion(y, x, p["len"], low(a0, q), S(a0["at"]["first"], q))) / span(p)))]

    def is_buckets(t):
        return isinstance(t, Node) and t.kind == "vec" and isinstance(t["at"], Node) and set(t["at"].ch) == {"first", "second"}

    def part_loop(v):
        out = []
        pt = points(v)
        if v.L["rng"] is None:
            # over the segments
            for n, i, i0 in v.mod_locals(sort=INT):
                out.append(("%s from 1" % n, i >= 1))
                for k, p in pt:
                    if any(isinstance(k3, tuple) and k3 == k for kd, k3 in v.L["mods"] if kd == "m"):
                        continue
                    y, x = yx(p)
                    out += [("%s within %s" % (n, k), i <= p["len"]), ("the span of %s is positive" % (k,), z3.Implies(i >= 2, S(x, i - 1) > S(x, 0))), ("the span of %s is not negative" % (k,), S(x, i - 1) >= S(x, 0))]
                    for k2, a in pt:
                        if k2 != k:
                            a0 = v.entry.mem.get(k2)
                            out += [("bounds of %s are kept" % (k2,), kept(a, a0)),
                                    ("%s %s: shares so far" % (k, k2), per(a, lambda q: S(a["at"]["second"], q) == S(a0["at"]["second"], q) + portion(y, x, i, low(a0, q), S(a0["at"]["first"], q))))]
            return out
        if getattr(v, "i", None) is None or not is_buckets(v.range):
            return out
        a, a0 = v.range, v.range0
        out.append(("bounds are kept", kept(a, a0)))
        for n, b, b0 in v.mod_locals(sort=REAL):
            out.append(("%s is the lower bound" % n, b == low(a0, v.i)))
        sec, sec0 = (lambda q: S(a["at"]["second"], q)), (lambda q: S(a0["at"]["second"], q))
        same = lambda p: all(l.eq(m) for l, m in zip(leaves(p), leaves(a)))
        reals = v.locals(sort=REAL)
        for n, i, i0 in v.locals(sort=INT):
            for k, p in pt:
                if same(p) or len(reals) < 4:
                    continue
                y, x = yx(p)
                out.append(("%s %s: segment's share" % (n, k), per(a, lambda q: sec(q) == sec0(q) + share(S(y, i - 1), S(y, i), S(x, i) - S(x, i - 1), low(a0, q), S(a0["at"]["first"], q)), v.i)))
        for n, r, r0 in reals if len(reals) < 4 else []:
            out.append(("normalized by %s" % n, per(a, lambda q: sec(q) == sec0(q) / r, v.i)))
        return out
    out.append(Contract("PartitionY", AN + "PartitionY", part_req, part_ens, lambda c: [c.ptr_lv(1)], loops=[part_loop]))

    # ---- the levels of the analysis
    def sil(c):
        return c.fld(c.this, PA, "sil_")

    def curve(c):
        return c.fld(c.this, PA, "p_time_", True)

    def sil_req(c):
        p = curve(c)
        i = z3.Const("oi", INT)
        y, x = yx(p)
        return [("the curve is available", p["len"] >= 1), ("times ascend", ascending(p)), ("times are not negative", S(x, 0) >= 0),
                ("probabilities", qall([i], z3.Implies(z3.And(i >= 0, i < p["len"]), z3.And(S(y, i) >= 0, S(y, i) <= 1)), S(y, i))),
                ("not computed yet", sil(c) == 0),
                ("hourly curve", qall([i], z3.Implies(z3.And(i >= 0, i < p["len"]), S(HY, i) == z3.If(S(x, i) != 0, S(y, i) / S(x, i), 0)), S(HY, i)))]

    def frac(c, name, y, x, n, sp):
        a = c.fld(sil(c), SILC, name)
        out = []
        for j in range(6):
            lo, hi = (z3.RealVal(0) if j == 0 else z3.RealVal(LEVELS[name][j - 1])), z3.RealVal(LEVELS[name][j])
            out.append(("%s %d" % (name, j), z3.And(S(a["at"]["first"], j) == hi, S(a["at"]["second"], j) == portion(y, x, n, lo, hi) / sp)))
        return z3.And(*[t for _, t in out])

    def sil_ens(c):
        p = curve(c)
        y, x = yx(p)
        n, sp = p["len"], span(p)
        g = lambda f: c.fld(sil(c), SILC, f)
        a = g("pfd_fractions")["at"]
        one = []
        for j in range(6):
            lo, hi = (z3.RealVal(0) if j == 0 else z3.RealVal(LEVELS["pfd_fractions"][j - 1])), z3.RealVal(LEVELS["pfd_fractions"][j])
            one.append(S(a["second"], j) == z3.If(z3.And(z3.Or(S(y, 0) > lo, lo == 0), S(y, 0) <= hi), z3.RealVal(1), z3.RealVal(0)))
        many = n > 1
        return [("constant: average", z3.Implies(n == 1, g("pfd_avg") == S(y, 0))), ("constant: level", z3.Implies(n == 1, z3.And(*one))),
                ("PFD average", z3.Implies(many, g("pfd_avg") == area(y, x, n) / 2 / sp)), ("PFD fractions", z3.Implies(many, frac(c, "pfd_fractions", y, x, n, sp))),
                ("PFH average", z3.Implies(many, g("pfh_avg") == area(HY, x, n) / 2 / sp)), ("PFH fractions", z3.Implies(many, frac(c, "pfh_fractions", HY, x, n, sp)))]

    def sil_loop(v):
        out = []
        if getattr(v, "i", None) is None or not is_buckets(v.range):
            return out
        y, x = yx(v.range)
        i = z3.Const("hi", INT)
        for n, t, t0 in v.mod_locals(kind="vec"):
            if is_buckets(t):
                yy, xx = yx(t)
                out += [("%s as long" % n, t["len"] == v.i),
                        ("%s hourly" % n, qall([i], z3.Implies(z3.And(i >= 0, i < v.i), z3.And(S(yy, i) == z3.If(S(x, i) != 0, S(y, i) / S(x, i), 0), S(xx, i) == S(x, i))), S(yy, i), S(xx, i)))]
        return out
    out.append(Contract("ComputeSil", PA + "::ComputeSil", sil_req, sil_ens, lambda c: [((PA, "sil_"), c.this)], allocates=True, loops=[sil_loop]))
    return out


SPEC = dict(id="C16", tus=["probability_analysis.cc"], contracts=mk, axioms=axioms, lemmas=lemmas, opts=dict(asserts="check"), loops=[],
            assumptions=["floating-point arithmetic of the integration is treated as real arithmetic"])
