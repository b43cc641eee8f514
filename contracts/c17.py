"""C17: offset curves run at the requested distance."""
from pyvc.api import constructor_facts, contract
from . import common  # noqa: F401


def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def minus(a, b): return (a[0] - b[0], a[1] - b[1])


def hodograph(pts):
    n = len(pts) - 1
    return [(n * (b[0] - a[0]), n * (b[1] - a[1])) for a, b in zip(pts, pts[1:])]


def moving(vc, v):
    """The derivative v is not zero."""
    if vc.symbolic: vc.assume(vc.not_(vc.and_(vc.exact(v[0], 0), vc.exact(v[1], 0))))
    else: vc.assume(v[0] * v[0] + v[1] * v[1] > 1e-6 * vc.scale ** 2)


def unit_normal(vc, v):
    """v turned left by a right angle, of length 1."""
    L = vc.sqrt(v[0] * v[0] + v[1] * v[1])
    vc.lemma("speed", L > 0)
    return vc.div(-v[1], L), vc.div(v[0], L)


@contract("C17", ["Bezier.offset", "Bezier.normal", "Bezier.get", "Bezier._derivative"], params=[(1,), (2,), (3,)], tol=1e-6)
def point(vc, n):
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    t, d = vc.param("t"), 0 if vc.flag("zero") else vc.real("d")
    v = vc.bernstein(hodograph(pts), t)
    moving(vc, v)
    got = vc.curve(B, pts).offset(t, d)
    q, m = vc.bernstein(pts, t), unit_normal(vc, v)
    vc.prove("three points", len(got) == 3)
    vc.prove("the point of the curve", vc.pteq(got[0], q))
    vc.prove("the unit normal", vc.pteq(got[1], m))
    vc.prove("moved along it", vc.pteq(got[2], (q[0] + d * m[0], q[1] + d * m[1])))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C17", ["Bezier.offset", "Bezier.normal", "Bezier._align"], params=[(1,), (2,), (3,)], tol=1e-6)
def straight(vc, n):
    """All control points on the line through the (different) end points."""
    B = vc.modular()
    a, b = vc.pt("a"), vc.pt("b")
    v = minus(b, a)
    moving(vc, v)
    s = [0] + [vc.real(f"s{i}", conc=(-2, 2)) for i in range(1, n)] + [1]
    vc.assume(vc.not_(vc.exact(s[1], 0)) if vc.symbolic else abs(s[1]) > .01)           # the derivative at 0
    pts = [(a[0] + x * v[0], a[1] + x * v[1]) for x in s]
    snap = vc.snapshot(pts)
    d = vc.real("d")
    got = vc.curve(B, pts).offset(d)
    vc.prove("one curve", len(got) == 1)
    new = [tuple(p) for p in got[0].controlPoints]
    m = unit_normal(vc, minus(pts[1], pts[0]))
    vc.prove("all of it moved along the normal", vc.exact(len(new), n + 1) and vc.and_(*[vc.pteq(q, (p[0] + d * m[0], p[1] + d * m[1])) for p, q in zip(pts, new)]))
    vc.prove_unchanged("frame", (pts, snap))


def dot(a, b): return a[0] * b[0] + a[1] * b[1]
def same_points(vc, a, b): return vc.and_(vc.exact(len(a), len(b)), *[vc.pteq(p, q) for p, q in zip(a, b)])


def use_lli(vc, pts=None):
    """lli8 through its contract (C07): nothing for parallel lines, else the point on both.  The first of a scaled curve's meeting
    points is that of the normals: it is not an end point."""
    if not vc.symbolic: return
    known = []

    def centre(o):
        v = hodograph(pts)
        v = (v[0], v[-1])
        chord = minus(pts[-1], pts[0])
        same = vc.theorem("no vector", 4, lambda a, b, c, d: vc.implies(vc.and_(vc.eq(a * c + b * d, 0), vc.eq(a * d - b * c, 0), vc.or_(vc.not_(vc.eq(a, 0)), vc.not_(vc.eq(b, 0)))),
                                                                        vc.and_(vc.eq(c, 0), vc.eq(d, 0))))
        w = [minus(o, pts[0]), minus(o, pts[-1])]
        for x, y in zip(v, w):
            L = vc.sqrt(dot(x, x))
            m = (vc.div(-x[1], L), vc.div(x[0], L))
            vc.lemma("on the normal", vc.eq(m[0] * y[1] - m[1] * y[0], 0))
            scale = vc.theorem("not scaled", 2, lambda k, z: vc.implies(vc.eq(z, 0), vc.eq(k * z, 0)))
            scale(L, m[0] * y[1] - m[1] * y[0])
            vc.lemma("turned", vc.eq(L * (m[0] * y[1] - m[1] * y[0]), -dot(x, y)))
            vc.lemma("at a right angle to the derivative", vc.eq(dot(x, y), 0))
        for i, j in ((0, 1), (1, 0)):
            same(*v[i], *w[i])
            near = vc.and_(vc.eq(w[i][0], 0), vc.eq(w[i][1], 0))
            # if it were this end, the chord would be at a right angle to the other end's derivative
            vanish = vc.theorem("zero vector", 4, lambda a, b, c, d: vc.implies(vc.and_(vc.eq(c, 0), vc.eq(d, 0)), vc.eq(a * c + b * d, 0)))
            vanish(*v[j], *w[i])
            vc.lemma("the other end", vc.eq(dot(v[j], w[i]), dot(v[j], w[j]) + (dot(v[j], chord) if i == 0 else -dot(v[j], chord))))
            vc.lemma("not this end", vc.not_(near))
            # so the control point's direction from it is not the derivative's
            k = pts[1] if i == 0 else pts[-2]
            vc.lemma("the control point lies on the tangent", vc.eq(cross(v[i], minus(k, o)), -cross(v[i], w[i])))
            vc.lemma("not parallel", vc.not_(vc.eq(cross(v[i], minus(k, o)), 0)))
            no = vc.theorem("no cross product", 4, lambda a, b, c, d: vc.implies(vc.and_(vc.eq(c, 0), vc.eq(d, 0)), vc.eq(a * d - b * c, 0)))
            no(*v[i], *minus(k, o))
            vc.lemma("the control point is not the meeting point", vc.hypot(k, o) > 0)

    def summary(real, *a):
        p, q, r, s = [tuple(a[i:i + 2]) for i in (0, 2, 4, 6)]
        if vc.when(vc.exact(cross(minus(q, p), minus(s, r)), 0)): return None
        x = vc.pt(f"meet{len(known)}")
        known.append(x)
        vc.known(vc.and_(vc.eq(cross(minus(q, p), minus(x, p)), 0), vc.eq(cross(minus(s, r), minus(x, r)), 0)))
        if pts and len(known) == 1: centre(x)
        return x
    vc.summary("BezierUtilities", "lli8", summary)


def scalable(vc, pts):
    """A curve whose end normals meet, away from its ends.  Returns the derivatives and unit normals at the ends."""
    v = hodograph(pts)
    v = (v[0], v[-1])
    for x in v: moving(vc, x)
    det = cross(*v)
    if vc.symbolic: vc.assume(vc.not_(vc.exact(det, 0)))
    else: vc.assume(abs(det) > .05 * (vc.dist2(v[0], (0, 0)) * vc.dist2(v[1], (0, 0))) ** .5)
    chord = minus(pts[-1], pts[0])
    for x in v:
        along = x[0] * chord[0] + x[1] * chord[1]
        vc.assume(vc.not_(vc.exact(along, 0)) if vc.symbolic else abs(along) > .05 * (vc.dist2(x, (0, 0)) * vc.dist2(chord, (0, 0))) ** .5)
    m = [unit_normal(vc, x) for x in v]
    if vc.symbolic:
        L = [vc.sqrt(dot(x, x)) for x in v]
        vc.lemma("normals", vc.eq(cross(*m) * L[0] * L[1], det))
        zero = vc.theorem("factors", 3, lambda a, b, c: vc.implies(vc.eq(a, 0), vc.eq(a * b * c, 0)))
        zero(cross(*m), *L)
        vc.lemma("the normals are not parallel", vc.not_(vc.eq(cross(*m), 0)))
    return v, m


@contract("C17", ["Bezier.scale", "Bezier.offset", "Bezier.normal", "Bezier._derivative"], params=[(2,), (3,)], tol=1e-5, budget=120)
def scaled(vc, n):
    pts = vc.pts("p", n + 1)
    use_lli(vc, pts)
    B = vc.modular()
    snap = vc.snapshot(pts)
    d = vc.real("d")
    v, m = scalable(vc, pts)
    r = vc.curve(B, pts).scale(d)
    new = [None if p is None else tuple(p) for p in r.controlPoints]
    vc.prove("degree", vc.exact(len(new), n + 1) and None not in new)
    for end, i in ((0, 0), (1, -1)):
        vc.prove(f"end {end} moved along the normal", vc.pteq(new[i], (pts[i][0] + d * m[end][0], pts[i][1] + d * m[end][1])))
    if not vc.symbolic: vc.scale = vc.scale ** 2 * 10
    vc.prove("tangent at the start", vc.eq(cross(v[0], minus(new[1], new[0])), 0))
    if n == 3: vc.prove("tangent at the end", vc.eq(cross(v[1], minus(new[3], new[2])), 0))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C17", ["Bezier.scale"], params=[(2,), (3,)], tol=1e-5, budget=120)
def scaled_by_function(vc, n):
    """A distance that varies along the curve: the end points move by its values at 0 and 1."""
    pts = vc.pts("p", n + 1)
    if n == 3: use_lli(vc, pts)
    B = vc.modular()
    snap = vc.snapshot(pts)
    a, b = vc.real("a"), vc.real("b")
    v, m = scalable(vc, pts)
    if n == 2 and vc.symbolic: scalable(vc, raised(vc, pts))
    if n == 2: use_lli(vc, raised(vc, pts))
    r = vc.curve(B, pts).scale(lambda t: a + (b - a) * t)
    new = [tuple(p) for p in r.controlPoints]
    for end, i, d in ((0, 0, a), (1, -1, b)):
        vc.prove(f"end {end} moved along the normal", vc.pteq(new[i], (pts[i][0] + d * m[end][0], pts[i][1] + d * m[end][1])))
    vc.prove_unchanged("frame", (pts, snap))


def raised(vc, pts):
    k = len(pts)
    return [pts[0], *[tuple(vc.frac(k - i, k) * pts[i][j] + vc.frac(i, k) * pts[i - 1][j] for j in (0, 1)) for i in range(1, k)], pts[-1]]


def by(vc, d, args, named):
    given = [x for x in (*args, *named.values()) if x is not None]
    return len(given) == 1 and vc.decided(vc.exact(given[0], d))


@contract("C17", ["Bezier.offset"], params=[(2, 1), (3, 1), (3, 2), (3, 3), (2, 2)], bound="up to 3 pieces")
def pieces(vc, n, count):
    """A curve that is not straight: its pieces, in order, straight ones moved, the others scaled."""
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    d = vc.real("d")
    snap = vc.snapshot(pts)
    c = B(pts)
    shape = [k for k in constructor_facts()[1] if k.endswith("linear")] if vc.symbolic else []
    if shape:
        setattr(c, shape[0], False)
        parts = [B(vc.pts(f"q{i}_", n + 1)) for i in range(count)]
        for i, p in enumerate(parts): setattr(p, shape[0], vc.flag(f"straight{i}"))
        vc.summary("Bezier", "Bezier.reduce", lambda real, s: list(parts) if s is c else real(s))
        calls = []

        def scale(real, s, *a, **k):
            calls.append((s, a, k))
            return ("scaled", s)
        vc.summary("Bezier", "Bezier.scale", scale)
        for p in parts: moving(vc, minus(p.controlPoints[1], p.controlPoints[0]))
        got = c.offset(d)
        vc.prove("one for every piece", len(got) == count)
        for p, g in zip(parts, got):
            if getattr(p, shape[0]):
                vc.prove("a straight piece is moved", same_points(vc, g.controlPoints, p.offset(d)[0].controlPoints))
            else:
                vc.prove("other pieces are scaled by d", g == ("scaled", p))
        vc.prove("scaled by d", all(by(vc, d, a, k) for s, a, k in calls))
    else:
        try: want = [r.offset(d)[0] if r._linear else r.scale(d) for r in c.reduce()]
        except (ValueError, TypeError, ZeroDivisionError): want = None
        vc.assume(want is not None and not c._linear)
        got = c.offset(d)
        vc.prove("every piece", len(got) == len(want) and all(same_points(vc, g.controlPoints, w.controlPoints) for g, w in zip(got, want)))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C17", ["Bezier.offset"], symbolic_only=True)
def pieces_any(vc):
    """Any number m of pieces: in the result, at w what becomes of piece w."""
    from .c16 import Numbered
    m, w, d = vc.int("m", 0), vc.int("w", 0), vc.real("d")
    vc.ranges(w)
    N = Numbered(vc)
    vc.modular()
    shape = [k for k in constructor_facts()[1] if k.endswith("linear")]
    if not shape: return vc.prove("no such attribute", True)
    make = N.of("piece")

    def piece(i):
        p = make(i)
        setattr(p, shape[0], vc.at("straight", vc.integer(0) + i) > 0)
        return p
    curve = object.__new__(N.B)
    setattr(curve, shape[0], False)
    vc.summary("Bezier", "Bezier.reduce", lambda real, c: vc.list(vc.seq(m, piece, [w])) if c is curve else vc.hard("another curve is reduced"))
    made = {}

    def result(what):
        def summary(real, c, *a, **k):
            if c is curve: return real(c, *a, **k)
            i = N.number(c, "piece")
            vc.prove("by the distance", by(vc, d, a, k))
            key = (what, str(i.e))
            if key not in made: made[key] = (what, i)
            return [made[key]] if what == "moved" else made[key]
        return summary
    vc.summary("Bezier", "Bezier.offset", result("moved"))
    vc.summary("Bezier", "Bezier.scale", result("scaled"))
    got = curve.offset(d)
    vc.prove("one for every piece", vc.eq(vc.size(got), m))
    if vc.when(w < m):
        what, i = vc.item(got, w)
        vc.prove("in order", vc.eq(i, w))
        vc.prove("a straight piece is moved, another one scaled", (vc.at("straight", w) > 0) if what == "moved" else vc.not_(vc.at("straight", w) > 0))
