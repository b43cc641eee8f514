"""C14: line-curve intersection is sound and complete."""
from pyvc.api import contract
from . import common  # noqa: F401
from .c12 import droots, use_get  # noqa: F401

EPS = (1, 10 ** 6)          # the tolerance of approximately


def poly(k, t): return ((k[3] * t + k[2]) * t + k[1]) * t + k[0]


def heights(vc, k):
    """The Bernstein coefficients of the polynomial k0 + k1 t + k2 t^2 (+ k3 t^3)."""
    if len(k) == 3: return [k[0], k[0] + k[1] * vc.frac(1, 2), k[0] + k[1] + k[2]]
    return [k[0], k[0] + k[1] * vc.frac(1, 3), k[0] + (2 * k[1] + k[2]) * vc.frac(1, 3), k[0] + k[1] + k[2] + k[3]]


def negligible(vc, x): return vc.and_(vc.le(x, vc.frac(*EPS)), vc.le(-x, vc.frac(*EPS)))


def norm(vc, k):
    """a, b, c of the monic cubic, its p / 3 and q / 2, and its discriminant."""
    c, b, a, d = k
    a, b, c = vc.div(a, d), vc.div(b, d), vc.div(c, d)
    p3 = (b - a * a * vc.frac(1, 3)) * vc.frac(1, 3)
    q2 = (2 * a * a * a - 9 * a * b + 27 * c) * vc.frac(1, 54)
    return a, b, c, p3, q2, q2 * q2 + p3 * p3 * p3


def three(vc, a, b, c, p3, q2, D):
    """Three real roots, by Vieta's formula: the roots, and a rule that says so for a number u."""
    third = vc.frac(1, 3)
    m = -p3
    sign = vc.theorem("sign", 2, lambda p, q: vc.implies(q * q < p * p * p, p > 0))
    vc.lemma("discriminant", q2 * q2 < m * m * m)
    sign(m, q2)
    r = vc.sqrt(m * m * m)
    cube = vc.theorem("cube", 2, lambda x, y: vc.implies(vc.eq(x * x * x, y * y * y), vc.eq(x, y)))
    pos = vc.theorem("positive", 2, lambda r, m: vc.implies(vc.and_(r >= 0, vc.eq(r * r, m * m * m), m > 0), r > 0))
    vc.lemma("r", vc.eq(r * r, m * m * m))
    pos(r, m)
    small = vc.theorem("smaller", 2, lambda q, r: vc.implies(vc.and_(q * q < r * r, r > 0), vc.and_(-q < r, q < r)))
    vc.lemma("q", q2 * q2 < r * r)
    small(q2, r)
    cosphi = vc.div(-q2, r)
    over = vc.theorem("ratio", 3, lambda t, q, r: vc.implies(vc.and_(-q < r, q < r, r > 0, vc.eq(t * r, q)), vc.and_(t < 1, -1 < t)))
    vc.lemma("cosine", vc.eq(cosphi * r, -q2))
    over(cosphi, -q2, r)
    vc.lemma("in acos's domain", vc.and_(-1 <= cosphi, cosphi <= 1))
    rho = vc.cbrt(r)
    vc.lemma("rho", vc.eq(rho * rho * rho, r))
    vc.lemma("sixth power", vc.eq((rho * rho) * (rho * rho) * (rho * rho), m * m * m))
    cube(rho * rho, m)
    s, x = vc.sincos(vc.acos(cosphi) * third)
    vc.lemma("triple angle", vc.eq(4 * x * x * x - 3 * x, cosphi))
    w = vc.sqrt(3) * s
    vc.lemma("w", vc.eq(w * w, 3 - 3 * x * x))
    xs = [2 * rho * x - a * third, -rho * x - rho * w - a * third, -rho * x + rho * w - a * third]
    vc.lemma("b", vc.eq(b, a * a * third - 3 * rho * rho))
    vc.lemma("q2", vc.eq(q2, -rho * rho * rho * (4 * x * x * x - 3 * x)))
    vc.lemma("c", vc.eq(c, (54 * q2 - 2 * a * a * a + 9 * a * b) * vc.frac(1, 27)))

    def cub(a, b, c, u): return ((u + a) * u + b) * u + c

    def factors(a, b, c, q2, rho, x, w, u):
        return vc.implies(vc.and_(vc.eq(b, a * a * third - 3 * rho * rho), vc.eq(c, (54 * q2 - 2 * a * a * a + 9 * a * b) * vc.frac(1, 27)),
                                  vc.eq(q2, -rho * rho * rho * (4 * x * x * x - 3 * x)), vc.eq(w * w, 3 - 3 * x * x)),
                          vc.eq(cub(a, b, c, u), (u - (2 * rho * x - a * third)) * (u - (-rho * x - rho * w - a * third)) * (u - (-rho * x + rho * w - a * third))))
    rule = vc.theorem("factors", 8, factors)
    return xs, lambda u: rule(a, b, c, q2, rho, x, w, u)


def one(vc, a, b, c, p3, q2, D):
    """One real root and a complex pair, by Cardano's formula: the real root, the real part of the pair, how far it is from coinciding
    (its distance times 2 / sqrt 3), and a rule that says so for a number u."""
    third, half = vc.frac(1, 3), vc.frac(1, 2)
    sd = vc.sqrt(D)
    vc.lemma("sd", vc.eq(sd * sd, q2 * q2 + p3 * p3 * p3))
    zero = vc.theorem("zero", 2, lambda q, p: vc.implies(vc.and_(vc.eq(q, 0), vc.eq(q * q + p * p * p, 0)), vc.eq(p, 0)))
    positive = bool(q2 > 0)
    size = (q2 if positive else -q2) + sd
    if vc.when(size <= 0):
        vc.lemma("nothing", vc.and_(vc.eq(q2, 0), vc.eq(sd, 0)))
        zero(q2, p3)
        vc.lemma("nothing either", vc.eq(p3, 0))
        u1 = v1 = 0
    else:
        w = vc.cbrt(size)
        vc.lemma("w", vc.eq(w * w * w, size))
        nz = vc.theorem("not zero", 2, lambda w, s: vc.implies(vc.and_(vc.eq(w * w * w, s), s > 0), w > 0))
        nz(w, size)
        vc.lemma("w is positive", w > 0)
        w2 = vc.div(p3, w)
        vc.lemma("product", vc.eq(w2 * w, p3))
        other = vc.theorem("the other cube", 5, lambda w, x, p, q, s: vc.implies(
            vc.and_(vc.eq(x * w, p), vc.eq(s * s, q * q + p * p * p), vc.eq(w * w * w, q + s), w > 0), vc.eq(x * x * x, s - q)))
        other(w, w2, p3, q2 if positive else -q2, sd)
        vc.lemma("the other cube", vc.eq(w2 * w2 * w2, sd - (q2 if positive else -q2)))
        u1, v1 = (w2, w) if positive else (w, w2)
        if not positive and vc.when(vc.eq(q2, 0)):
            # either sign of q2 gives the same numbers
            w3 = vc.cbrt(q2 + sd)
            vc.lemma("the same cube", vc.eq(w3 * w3 * w3, w * w * w))
            vc.theorem("cube", 2, lambda x, y: vc.implies(vc.eq(x * x * x, y * y * y), vc.eq(x, y)))(w3, w)
            vc.lemma("the same root", vc.eq(w3, w))
            w4 = vc.div(p3, w3)
            vc.theorem("quotient", 4, lambda x, y, w, v: vc.implies(vc.and_(vc.eq(x * w, y * v), vc.eq(w, v), w > 0), vc.eq(x, y)))(w4, w2, w3, w)
            vc.lemma("the same product", vc.eq(w4 * w3, w2 * w))
            vc.lemma("the same quotient", vc.eq(w4, w2))
    vc.lemma("p", vc.eq(p3, u1 * v1))
    vc.lemma("q", vc.eq(2 * q2, v1 * v1 * v1 - u1 * u1 * u1))
    vc.lemma("b", vc.eq(b, a * a * third + 3 * u1 * v1))
    vc.lemma("c", vc.eq(c, (27 * (v1 * v1 * v1 - u1 * u1 * u1) - 2 * a * a * a + 9 * a * b) * vc.frac(1, 27)))

    def factors(a, b, c, u1, v1, u):
        y = u + a * third
        return vc.implies(vc.and_(vc.eq(b, a * a * third + 3 * u1 * v1), vc.eq(c, (27 * (v1 * v1 * v1 - u1 * u1 * u1) - 2 * a * a * a + 9 * a * b) * vc.frac(1, 27))),
                          vc.eq(((u + a) * u + b) * u + c, (y - (u1 - v1)) * ((y + (u1 - v1) * half) * (y + (u1 - v1) * half) + vc.frac(3, 4) * (u1 + v1) * (u1 + v1))))
    rule = vc.theorem("factors", 6, factors)
    return u1 - v1 - a * third, (v1 - u1) * half - a * third, u1 + v1, lambda u: rule(a, b, c, u1, v1, u)


CASES = ("three", "one or two", "quadratic", "linear", "constant")


@contract("C14", ["Bezier.roots", "BezierUtilities.crt", "BezierUtilities.sqrt", "BezierUtilities.approximately"], params=[(c,) for c in CASES], tol=1e-6, budget=200)
def cubic(vc, case):
    """The crossings of a cubic and the x axis (coefficients that are not negligible, or 0)."""
    B = vc.modular()
    u = vc.unit("u")
    k = [vc.real(f"k{i}") for i in range(4)]
    if case in ("quadratic", "linear", "constant"): k[3] = 0
    if case in ("linear", "constant"): k[2] = 0
    if case == "constant": k[1] = 0
    crossing = vc.exact(poly(k, u), 0)
    if not vc.symbolic:
        crossing = vc.flag("through u")
        if crossing: k[0] = -u * poly(k[1:] + [0], u)
        crossing = crossing and abs(poly([k[1], 2 * k[2], 3 * k[3], 0], u)) > .01 * max(map(abs, k))         # a transversal one
    if case == "quadratic": vc.assume(vc.not_(negligible(vc, k[2])))
    if case == "linear": vc.assume(vc.not_(negligible(vc, k[1])))
    if case == "constant": vc.assume(vc.not_(negligible(vc, k[0])))
    xs = []
    if case in ("three", "one or two"):
        vc.assume(vc.not_(negligible(vc, k[3])))
        a, b, c, p3, q2, D = norm(vc, k)
        vc.assume(vc.lt(D, 0) if case == "three" else vc.ge(D, 0))
        if vc.symbolic:
            if case == "three": xs, rule = three(vc, a, b, c, p3, q2, D)
            else: x1, x2, s, rule = one(vc, a, b, c, p3, q2, D)
    pts = [(vc.real(f"x{i}"), y) for i, y in enumerate(heights(vc, k))]
    snap = vc.snapshot(pts)
    r = vc.curve(B, pts).roots()
    eps = vc.frac(*EPS)
    vc.prove("in [0, 1]", vc.and_(*[z for x in r for z in (vc.le(-eps, x), vc.le(x, 1 + eps))]))
    for x in r:
        if case == "one or two" and vc.symbolic:
            rule(x)
            vc.prove("a root, or almost a double root", vc.or_(vc.eq(poly(k, x), 0), vc.and_(vc.eq(poly(k, x), k[3] * (x - x1) * vc.frac(3, 4) * s * s), s <= eps, -s <= eps)))
        else: vc.prove("a root", vc.eq(poly(k, x), 0))
    if vc.symbolic and case in ("three", "one or two"): 
        m = ((u + a) * u + b) * u + c
        vc.lemma("monic", vc.eq(poly(k, u), k[3] * m))
        cancel = vc.theorem("cancel", 2, lambda d, m: vc.implies(vc.and_(vc.eq(d * m, 0), vc.not_(vc.eq(d, 0))), vc.eq(m, 0)))
        cancel(k[3], m)
        vc.lemma("a crossing of the monic cubic", vc.implies(crossing, vc.eq(m, 0)))
        rule(u)
        vc.lemma("factors at u", vc.implies(crossing, vc.eq((u - xs[0]) * (u - xs[1]) * (u - xs[2]) if xs else
                                                              (u - x1) * ((u - x2) * (u - x2) + vc.frac(3, 4) * s * s), 0)))
        zero = vc.theorem("factor", 3, lambda a, b, c: vc.implies(vc.eq(a * b * c, 0), vc.or_(vc.eq(a, 0), vc.eq(b, 0), vc.eq(c, 0))))
        pair = vc.theorem("pair", 3, lambda a, b, c: vc.implies(vc.eq(a * (b * b + vc.frac(3, 4) * c * c), 0), vc.or_(vc.eq(a, 0), vc.and_(vc.eq(b, 0), vc.eq(c, 0)))))
        if xs: zero(u - xs[0], u - xs[1], u - xs[2])
        else: pair(u - x1, u - x2, s)
    vc.prove("every crossing is reported", vc.implies(crossing, vc.or_(*[vc.eq(u, x) if vc.symbolic else abs(u - x) < 1e-4 for x in r])))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C14", ["Bezier.roots", "BezierUtilities.approximately"], params=[("quadratic",), ("linear",), ("constant",)])
def tolerant(vc, case):
    """Coefficients that are negligible, but not 0: what is reported is a crossing up to the tolerance."""
    B = vc.modular()
    k = [vc.real(f"k{i}") for i in range(4)]
    scale = [1, 1, 1, 1]
    small = {"quadratic": (3,), "linear": (2, 3), "constant": (1, 2, 3)}[case]
    for i in small:
        if not vc.symbolic: k[i] = vc.real(f"small{i}", -4, 4) * 2.4e-7
        vc.assume(negligible(vc, k[i]))
    if case != "constant": vc.assume(vc.not_(negligible(vc, k[3 - len(small)])))
    pts = [(vc.real(f"x{i}"), y) for i, y in enumerate(heights(vc, k))]
    r = vc.curve(B, pts).roots()
    eps = vc.frac(*EPS)
    vc.prove("in [0, 1]", vc.and_(*[z for x in r for z in (vc.le(-eps, x), vc.le(x, 1 + eps))]))
    for x in r:
        low = ((k[2] if case == "quadratic" else 0) * x + k[1]) * x + k[0]
        vc.lemma("a crossing of the rest", vc.eq(low, 0))
        small_power = vc.theorem("small", 3, lambda k, p, e: vc.implies(vc.and_(k <= e, -k <= e, p <= 2, -p <= 2, e >= 0), vc.and_(k * p <= 2 * e, -k * p <= 2 * e)))
        powers = vc.theorem("powers", 1, lambda x: vc.implies(vc.and_(x <= vc.frac(11, 10), -vc.frac(1, 10) <= x), vc.and_(x * x <= 2, -x * x <= 2, x * x * x <= 2, -x * x * x <= 2)))
        powers(x)
        small_power(k[3], x * x * x, eps)
        small_power(k[2], x * x, eps)
        rest = [k[3] * x * x * x] + ([k[2] * x * x] if case != "quadratic" else [])
        for z in rest: vc.lemma("negligible term", vc.and_(z <= 2 * eps, -z <= 2 * eps))
        y = poly(k, x)
        vc.prove("almost a crossing", vc.and_(vc.le(y, 4 * eps), vc.le(-y, 4 * eps)))


@contract("C14", ["Bezier.roots", "BezierUtilities.droots"], tol=1e-6)
def quadratic(vc):
    """The crossings of a quadratic curve and the x axis."""
    B = vc.modular()
    u = vc.unit("u")
    k = [vc.real(f"k{i}") for i in range(3)]
    crossing = vc.exact(poly(k + [0], u), 0)
    if not vc.symbolic:
        crossing = vc.flag("through u")
        if crossing: k[0] = -u * (k[1] + u * k[2])
        crossing = crossing and abs(k[1] + 2 * u * k[2]) > .01 * max(map(abs, k))
    vc.assume(vc.not_(vc.and_(*[vc.exact(x, 0) for x in k])))
    pts = [(vc.real(f"x{i}"), y) for i, y in enumerate(heights(vc, k))]
    snap = vc.snapshot(pts)
    r = vc.curve(B, pts).roots()
    eps = vc.frac(*EPS)
    vc.prove("in [0, 1]", vc.and_(*[z for x in r for z in (vc.le(-eps, x), vc.le(x, 1 + eps))]))
    for x in r: vc.prove("a root", vc.eq(poly(k + [0], x), 0))
    if vc.symbolic and not vc.when(vc.exact(k[2], 0)):
        D = k[1] * k[1] - 4 * k[2] * k[0]
        if vc.when(D < 0):
            square = vc.theorem("square", 1, lambda z: z * z >= 0)
            square(2 * k[2] * u + k[1])
            vc.lemma("completing the square", vc.eq((2 * k[2] * u + k[1]) * (2 * k[2] * u + k[1]), D + 4 * k[2] * poly(k + [0], u)))
            zero = vc.theorem("no root", 2, lambda p, a: vc.implies(vc.eq(p, 0), vc.eq(4 * a * p, 0)))
            zero(poly(k + [0], u), k[2])
        else:
            m = vc.sqrt(D)
            # m is twice the root of the discriminant of the Bernstein coefficients
            g = heights(vc, k)
            vc.lemma("discriminants", vc.eq(D, 4 * (g[1] * g[1] - g[0] * g[2])))
            xs = [vc.div(-k[1] + m, 2 * k[2]), vc.div(-k[1] - m, 2 * k[2])]
            vc.lemma("factors", vc.eq(poly(k + [0], u), k[2] * (u - xs[0]) * (u - xs[1])))
            zero = vc.theorem("factor", 3, lambda a, b, c: vc.implies(vc.eq(a * b * c, 0), vc.or_(vc.eq(a, 0), vc.eq(b, 0), vc.eq(c, 0))))
            zero(k[2], u - xs[0], u - xs[1])
    vc.prove("every crossing is reported", vc.implies(crossing, vc.or_(*[vc.eq(u, x) if vc.symbolic else abs(u - x) < 1e-4 for x in r])))
    vc.prove_unchanged("frame", (pts, snap))


def a_line(vc):
    line = (vc.pt("from"), vc.pt("to"))
    vc.assume(vc.not_(vc.exact(line[0], line[1])))
    return line


def across(p, line):
    """How far p is from the line (times its length)."""
    (sx, sy), (ex, ey) = line
    return (p[1] - sy) * (ex - sx) - (p[0] - sx) * (ey - sy)


@contract("C14", [], params=[(2,), (3,)], symbolic_only=True)
def height(vc, n):
    """Mathematics, no code: when the control points' heights above a line are the aligned curve's (contract align of C11), a
    crossing of the aligned curve and the x axis is one of the curve and the line, and the other way round."""
    pts, line = vc.pts("p", n + 1), a_line(vc)
    y = [vc.real(f"y{i}") for i in range(n + 1)]
    L, t = vc.real("L"), vc.param("t")
    vc.assume(L > 0)
    for p, h in zip(pts, y): vc.assume(vc.eq(across(p, line), L * h))
    a, b = across(vc.bernstein(pts, t), line), vc.bernstein1(y, t)
    vc.lemma("linear", vc.eq(a, vc.bernstein1([across(p, line) for p in pts], t)))
    vc.lemma("heights", vc.eq(a, L * b))
    zero = vc.theorem("factor", 2, lambda l, h: vc.implies(l > 0, vc.iff(vc.eq(l * h, 0), vc.eq(h, 0))))
    zero(L, b)
    vc.prove("crossings", vc.iff(vc.eq(a, 0), vc.eq(b, 0)))


@contract("C14", ["Bezier.roots", "Bezier.align"], params=[(2,), (3,)], tol=1e-6, budget=120)
def line(vc, n):
    """roots(line) are the roots of the curve aligned with the line (its control points' heights above the line: contract align of C11)."""
    seen = []

    def aligned(real, points, segment):
        for p, s, q in seen:
            if p == list(points) and s == list(segment): return list(q)
        q = vc.pts(f"q{len(seen)}_", len(points))
        seen.append((list(points), list(segment), q))
        return list(q)
    if vc.symbolic: vc.summary("Bezier", "Bezier._align", aligned)
    B = vc.modular()
    pts, l = vc.pts("p", n + 1), a_line(vc)
    snap = vc.snapshot((pts, l))
    c = vc.curve(B, pts)
    r, want = c.roots(l), c.align(l).roots()
    vc.prove("the aligned curve's", vc.eq(r, want))
    if not vc.symbolic:
        size = vc.dist2(*l) ** .5 * max(1, max(abs(x) for p in pts + list(l) for x in p))
        for t in r: vc.prove("on the line", abs(across(vc.bernstein(pts, t), l)) <= 2e-5 * size)
    vc.prove_unchanged("frame", ((pts, l), snap))


def use_roots(vc):
    """roots through its contracts: up to three numbers in [0, 1] (almost)."""
    calls = []

    def roots(real, c, segment=None):
        for d, s, r in calls:
            if d is c and (s is segment or s == segment): return list(r)
        k = len(calls)
        eps = vc.frac(*EPS)
        r = [vc.real(f"root{k}_{i}", -eps, 1 + eps) for i in range(vc.choose(f"roots{k}", range(4)))]
        calls.append((c, segment, r))
        return list(r)
    if vc.symbolic: vc.summary("Bezier", "Bezier.roots", roots)


@contract("C14", ["Bezier.lineIntersects", "BezierUtilities.between"], params=[(2,), (3,)], tol=1e-6)
def segment(vc, n):
    """Exactly the crossings within the segment's bounding box."""
    use_roots(vc)
    B = vc.modular()
    pts, l = vc.pts("p", n + 1), a_line(vc)
    snap = vc.snapshot((pts, l))
    c = vc.curve(B, pts)
    value = use_get(vc, c)
    got, every = c.lineIntersects(l), c.roots(l)
    lo, hi = [[f(l[0][d], l[1][d]) for d in (0, 1)] for f in (vc.min, vc.max)]

    def within(q, eps): return vc.and_(*[z for d in (0, 1) for z in (q[d] <= hi[d] + eps, lo[d] - eps <= q[d])])
    at = 0
    for t in every:
        kept = at < len(got) and vc.when(vc.exact(got[at], t))
        if kept:
            at += 1
            vc.prove("within the segment's box, up to the tolerance", within(value(t), 2 * vc.frac(*EPS)))
        else:
            vc.prove("not within the segment's box, give or take half the tolerance", vc.not_(within(value(t), vc.frac(*EPS) / 2)))
    vc.prove("nothing else", at == len(got))
    vc.prove_unchanged("frame", ((pts, l), snap))


@contract("C14", ["Bezier.intersectWithLine"], params=[(2,), (3,)], tol=1e-6)
def with_line(vc, n):
    """A point of the curve on the line, or nothing when there is none."""
    use_roots(vc)
    B = vc.modular()
    pts, l = vc.pts("p", n + 1), list(a_line(vc))
    snap = vc.snapshot((pts, l))
    c, d = vc.curve(B, pts), B(l)
    value = use_get(vc, c)
    got, every = c.intersectWithLine(d), c.roots(l)
    vc.prove("nothing exactly when there is no crossing", (got is None) == (not every))
    if every and got is not None:
        vc.prove("a crossing", vc.or_(*[vc.pteq(got, value(vc.max(0, vc.min(1, t)))) for t in every]))
    vc.prove_unchanged("frame", ((pts, l), snap))


@contract("C14", ["Bezier.intersectWithLine", "BezierUtilities.lli", "BezierUtilities.lli4", "BezierUtilities.lli8"])
def lines(vc):
    """Two lines: the point on both, or nothing when they are parallel."""
    B = vc.modular()
    k, l = list(a_line(vc)), [vc.pt("a"), vc.pt("b")]
    snap = vc.snapshot((k, l))
    got = B(k).intersectWithLine(B(l))
    det = (k[1][0] - k[0][0]) * (l[1][1] - l[0][1]) - (k[1][1] - k[0][1]) * (l[1][0] - l[0][0])
    if vc.when(vc.exact(det, 0)): vc.prove("parallel: nothing", got is None)
    else:
        vc.assume(vc.symbolic or abs(det) > 1e-3)
        vc.prove("not parallel: a point", got is not None)
        vc.prove("on both lines", vc.and_(vc.eq(across(got, k), 0), vc.eq(across(got, l), 0)))
    vc.prove_unchanged("frame", ((k, l), snap))
