"""C12: curve bounding boxes contain the whole curve and are tight."""
from pyvc.api import contract
from . import common  # noqa: F401

BIG = 2 ** 53 - 1


def real_only(vc, l):
    return [x for x in l if not (isinstance(x, float) and x != x)]


@contract(["C12", "C14"], ["BezierUtilities.droots", "BezierUtilities.sqrt"], params=[(1,), (2,), (3,)], tol=1e-6)
def droots(vc, n):
    """The roots of a linear or quadratic Bernstein polynomial, and nothing else."""
    U = vc.m("BezierUtilities")
    p = [vc.real(f"p{i}") for i in range(n)]
    snap = vc.snapshot(p)
    r = real_only(vc, U.droots(p))
    d = p[0] - 2 * p[1] + p[2] if n == 3 else p[1] - p[0] if n == 2 else 0
    if not vc.symbolic: vc.assume(n == 1 or d == 0 or abs(d) > 0.01)
    for x in r: vc.prove("every reported value is a root", vc.eq(vc.bernstein1(p, x), 0))
    zero = vc.theorem("a zero product has a zero factor", 3, lambda a, b, c: vc.implies(vc.eq(a * b * c, 0), vc.or_(vc.eq(a, 0), vc.eq(b, 0), vc.eq(c, 0))))
    u = vc.param("u")
    root = vc.eq(vc.bernstein1(p, u), 0)
    if vc.symbolic and n > 1 and r:
        if n == 3 and not vc.when(vc.exact(d, 0)):
            vc.lemma("factors", vc.eq(vc.bernstein1(p, u), d * (u - r[0]) * (u - r[-1])))
            zero(d, u - r[0], u - r[-1])
        elif vc.when(vc.exact(d, 0)) or n == 2:
            e = p[1] - p[0] if n == 2 else 2 * (p[1] - p[0])
            zero(e, u - r[0], 1)
    vc.prove("every root is reported, unless every number is one", vc.implies(vc.and_(root, vc.or_(*[vc.not_(vc.exact(x, 0)) for x in p])), vc.or_(*[vc.eq(u, x) for x in r])))
    vc.prove_unchanged("frame", (p, snap))


def hodograph(vals):
    n = len(vals) - 1
    return [n * (b - a) for a, b in zip(vals, vals[1:])]


def lazy_combined(vc):
    """extrema's combined list is not looked at here: removeDuplicates (a pure function, see its contract) waits until it is."""
    vc.modular()
    vc.summary("BezierUtilities", "removeDuplicates", lambda real, l: vc.defer(real, l))


def use_droots(vc):
    """droots through its contract: at most degree many numbers; every root (of a polynomial that is not zero) is among them."""
    calls = []

    def summary(real, p):
        p = list(p)
        n = vc.choose(f"droots{len(calls)}", range(len(p)))
        r = [vc.real(f"root{len(calls)}_{i}") for i in range(n)]
        calls.append((p, r))
        return r
    vc.summary("BezierUtilities", "droots", summary)

    def at(u):
        for p, r in calls:
            vc.known(vc.implies(vc.and_(vc.exact(vc.bernstein1(p, u), 0), vc.or_(*[vc.not_(vc.exact(x, 0)) for x in p])), vc.or_(*[vc.eq(u, x) for x in r])))
    return at


@contract("C12", ["Bezier.extrema"], params=[(n, d) for n in (1, 2, 3) for d in (0, 1)], tol=1e-6, budget=120)
def extrema(vc, n, dim):
    lazy_combined(vc)
    roots_at = use_droots(vc)
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    e = c.extrema
    h = hodograph([p[dim] for p in pts])
    vc.prove("in [0, 1]", vc.and_(*[z for t in e[dim] for z in (vc.le(0, t), vc.le(t, 1))]))
    vc.prove("at most three", len(e[dim]) <= 3)
    if not vc.symbolic and n == 3: vc.assume(abs(h[0] - 2 * h[1] + h[2]) > 0.01 or h[0] - 2 * h[1] + h[2] == 0)
    u = vc.unit("u")
    roots_at(u)
    vc.prove("every isolated critical parameter is listed", vc.implies(vc.and_(vc.exact(vc.bernstein1(h, u), 0), vc.or_(*[vc.not_(vc.exact(x, 0)) for x in h])), vc.or_(*[vc.eq(u, t) for t in e[dim]])))
    if n == 3:
        h2 = hodograph(h)
        vc.prove("every isolated zero of the second derivative is listed", vc.implies(vc.and_(vc.exact(vc.bernstein1(h2, u), 0), vc.or_(*[vc.not_(vc.exact(x, 0)) for x in h2])), vc.or_(*[vc.eq(u, t) for t in e[dim]])))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C12", ["BezierUtilities.removeDuplicates"], params=[("any",), ("ascending",)], bound="lists of up to 4 (ascending: 6) values symbolically")
def distinct(vc, kind):
    U = vc.m("BezierUtilities")
    l = [vc.real(f"v{i}") for i in range(vc.count("n", 0, 4 if kind == "any" else 6, 9))]
    if kind == "ascending":
        if vc.symbolic: vc.assume(vc.and_(*[a <= b for a, b in zip(l, l[1:])]))
        else: l.sort()
    snap = vc.snapshot(l)
    r = U.removeDuplicates(l)
    vc.prove("the same values", vc.and_(*[vc.or_(*[vc.exact(x, y) for y in r]) for x in l], *[vc.or_(*[vc.exact(x, y) for y in l]) for x in r]))
    vc.prove("no duplicates", vc.and_(*[vc.not_(vc.exact(a, b)) for i, a in enumerate(r) for b in r[:i]]))
    if kind == "ascending": vc.prove("ascending", vc.and_(*[a < b for a, b in zip(r, r[1:])]))
    vc.prove_unchanged("frame", (l, snap))


@contract("C12", ["Bezier.extrema"], params=[(1,), (2,), (3,)], tol=1e-6, budget=120)
def combined(vc, n):
    lazy_combined(vc)
    use_droots(vc)
    c = vc.m("Bezier").Bezier(vc.pts("p", n + 1))
    e = c.extrema
    both = [*e[0], *e[1]]
    l, strict = e[2], True
    if vc.symbolic and getattr(l, "done", 1) is None: l, strict = l.args[0], False      # what removeDuplicates is given
    vc.prove("combined list: sorted", vc.and_(*[a < b if strict else a <= b for a, b in zip(l, l[1:])]))
    vc.prove("combined list: every parameter of both", vc.and_(*[vc.or_(*[vc.exact(x, y) for y in l]) for x in both]))
    vc.prove("combined list: nothing else", vc.and_(*[vc.or_(*[vc.exact(x, y) for y in both]) for x in l]))


def use_extrema(vc, n):
    """extrema through its contract: up to three parameters per dimension, in [0, 1], every critical parameter of a non-constant coordinate
    among them."""
    state = {}

    def summary(real, c):
        if "e" not in state:
            lim = {1: 0, 2: 1, 3: 3}[n]
            e = {d: [vc.real(f"e{d}_{i}", 0, 1) for i in range(vc.choose(f"e{d}n", range(lim + 1)))] for d in (0, 1)}
            e[2] = vc.defer(lambda: vc.hard("the combined list"))
            state["e"] = e
        return state["e"]
    vc.summary("Bezier", "Bezier.extrema", summary)

    def at(d, u):
        """u is an isolated critical parameter (or 0)"""
        vc.known(vc.implies(vc.and_(u >= 0, u <= 1), vc.or_(vc.exact(u, 0), *[vc.eq(u, t) for t in state["e"][d]])))
    return at


def dominated(vc, y, y0, y1, crit):
    """y lies between the smallest and the largest of y0, y1 and the values at those critical parameters that are in [0, 1]."""
    return vc.and_(vc.or_(y >= y0, y >= y1, *[vc.and_(u >= 0, u <= 1, y >= w) for u, w in crit]),
                   vc.or_(y <= y0, y <= y1, *[vc.and_(u >= 0, u <= 1, y <= w) for u, w in crit]))


@contract("C12", [], params=[(1,), (2,), (3,)], symbolic_only=True)
def geometry(vc, n):
    """Mathematics, no code: a coordinate of a curve on [0, 1] is bounded by its values at 0, 1 and the critical parameters in [0, 1]."""
    f = [vc.real(f"f{i}") for i in range(n + 1)]
    t = vc.unit("t")
    h = hodograph(f)
    y0, y1, yt = f[0], f[-1], vc.bernstein1(f, t)
    # with derivative k (t - u) (t - v), k (t - u), or without real roots
    P3 = lambda k, u, v, t: k * (2 * t * t * t - 3 * (u + v) * t * t + 6 * u * v * t)
    P2 = lambda k, u, t: k * (t * t - 2 * u * t)
    in01 = lambda x: vc.and_(x >= 0, x <= 1)
    if n == 1:
        return vc.prove("bounded", vc.and_(vc.or_(yt >= y0, yt >= y1), vc.or_(yt <= y0, yt <= y1)))
    two = vc.theorem("quadratic", 3, lambda k, u, t: vc.implies(in01(t), dominated(vc, P2(k, u, t), 0, P2(k, u, 1), [(u, P2(k, u, u))])))
    if n == 2: k0, k1 = h
    else:
        A, B, C = h
        d = A - 2 * B + C
        if not vc.when(vc.exact(d, 0)):
            D = B * B - A * C
            if vc.when(D < 0):
                none = vc.theorem("no critical parameter", 4, lambda a, b, c, t: vc.implies(vc.and_(in01(t), b * b < a * c), dominated(
                    vc, vc.bernstein1([0, a, a + b, a + b + c], t), 0, a + b + c, [])))
                none(*[vc.frac(1, 3) * x for x in h], t)
                vc.lemma("integral", vc.eq(yt - y0, vc.bernstein1([0, A * vc.frac(1, 3), (A + B) * vc.frac(1, 3), (A + B + C) * vc.frac(1, 3)], t)))
                return vc.prove("bounded", dominated(vc, yt, y0, y1, []))
            m = vc.sqrt(D)
            u, v = vc.div(A - B + m, d), vc.div(A - B - m, d)
            for x in (u, v): vc.prove("critical", vc.eq(vc.bernstein1(h, x), 0))
            names = [vc.real(x) for x in ("U", "V", "K", "Yt", "Y1", "Yu", "Yv")]
            sides = [u, v, d * vc.frac(1, 6), yt - y0, y1 - y0, vc.bernstein1(f, u) - y0, vc.bernstein1(f, v) - y0]
            U, V, K, Yt, Y1, Yu, Yv = names
            eqs = [vc.eq(Yt, P3(K, U, V, t)), vc.eq(Y1, P3(K, U, V, 1)), vc.eq(Yu, P3(K, U, V, U)), vc.eq(Yv, P3(K, U, V, V))]
            # the same equations hold for the real values
            vc.prove("integral", vc.and_(vc.eq(sides[3], P3(sides[2], u, v, t)), vc.eq(sides[4], P3(sides[2], u, v, 1)),
                                         vc.eq(sides[5], P3(sides[2], u, v, u)), vc.eq(sides[6], P3(sides[2], u, v, v))))
            return cubic_bound(vc, U, V, K, Yt, Y1, Yu, Yv, t, eqs, in01)
        k0, k1 = A, 2 * B - A           # the derivative is linear
        vc.prove("linear derivative", vc.eq(vc.bernstein1(h, t), k0 + (k1 - k0) * t))
    if vc.when(vc.exact(k0, k1)):
        return vc.prove("bounded", vc.and_(vc.or_(yt >= y0, yt >= y1), vc.or_(yt <= y0, yt <= y1)))
    u = vc.div(k0, k0 - k1)
    vc.prove("critical", vc.eq(vc.bernstein1(h, u), 0))
    k = (k1 - k0) * vc.frac(1, 2)
    vc.lemma("integral", vc.and_(vc.eq(yt - y0, P2(k, u, t)), vc.eq(y1 - y0, P2(k, u, 1)), vc.eq(vc.bernstein1(f, u) - y0, P2(k, u, u))))
    two(k, u, t)
    vc.prove("bounded", dominated(vc, yt, y0, y1, [(u, vc.bernstein1(f, u))]))


def cubic_bound(vc, U, V, K, Yt, Y1, Yu, Yv, t, eqs, in01):
    vc.assume(vc.and_(*eqs))
    vc.prove("bounded", dominated(vc, Yt, 0, Y1, [(U, Yu), (V, Yv)]))


@contract("C12", ["Bezier.bbox", "Bezier._getminmax", "Bezier.boundsRectangle"], params=[(n, d) for n in (1, 2, 3) for d in (0, 1)], tol=1e-6, budget=150)
def box(vc, n, dim):
    """The bounding box contains the curve and each of its edges is attained."""
    critical_at = use_extrema(vc, n)
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    for p in pts: vc.assume(vc.and_(p[0] <= BIG, -BIG <= p[0], p[1] <= BIG, -BIG <= p[1]))
    c = vc.curve(B, pts)
    value = use_get(vc, c)
    lo, hi = c.bbox[dim]
    r = c.boundsRectangle
    vc.prove("bounds rectangle: the same box", vc.exact((lo, hi), (r.left, r.right) if dim == 0 else (r.bottom, r.top)))
    at = [0, 1] + list(c.extrema[dim])
    vals = [value(t)[dim] for t in at]
    for v in vals: vc.known(vc.and_(v <= BIG, -BIG <= v))         # between control points (theorem 'hull' of contract convex)
    vc.prove("each edge is attained by a point of the curve", vc.and_(vc.or_(*[vc.eq(lo, v) for v in vals]), vc.or_(*[vc.eq(hi, v) for v in vals])))
    vc.prove("no extremum or end point is outside", vc.and_(*[z for v in vals for z in (vc.le(lo, v), vc.le(v, hi))]))
    t = vc.unit("t")
    y = value(t)[dim]
    if vc.symbolic:
        us = [vc.real(f"u{i}") for i in range(n - 1)]
        for u in us: critical_at(dim, u)
        vc.known(dominated(vc, y, value(0)[dim], value(1)[dim], [(u, value(u)[dim]) for u in us]))          # contract geometry
    vc.prove("every point of the curve is inside", vc.and_(vc.le(lo, y), vc.le(y, hi)))
    vc.prove_unchanged("frame", (pts, snap))


def use_get(vc, c):
    """get through its contract: a function of the parameter; the end points at 0 and 1."""
    if not vc.symbolic: return c.get
    pts = c.controlPoints

    def value(t):
        if vc.decided(vc.exact(t, 0)) or vc.decided(vc.exact(t, 1)): return tuple(pts[0] if vc.decided(vc.exact(t, 0)) else pts[-1])
        q = tuple(vc.function(f"point{d}", t) for d in (0, 1))
        for e, p in ((0, pts[0]), (1, pts[-1])): vc.known(vc.implies(vc.exact(t, e), vc.exact(q, p)))
        return q
    vc.summary("Bezier", "Bezier.get", lambda real, self, t: value(t))
    return value


@contract("C12", [], params=[(1,), (2,), (3,)], symbolic_only=True)
def convex(vc, n):
    """Mathematics, no code: a point of the curve is between its control points."""
    f = [vc.real(f"f{i}") for i in range(n + 1)]
    t, m = vc.unit("t"), vc.real("m")
    s = 1 - t
    vc.assume(vc.and_(*[x <= m for x in f]))
    w = [1, n, 1] if n == 2 else [1, 3, 3, 1] if n == 3 else [1, 1]
    gap = 0
    for i in range(n + 1):
        g = w[i] * (m - f[i])
        for _ in range(i): g = g * t
        for _ in range(n - i): g = g * s
        vc.lemma("non-negative", g >= 0)
        gap = gap + g
    vc.lemma("gap", vc.eq(m - vc.bernstein1(f, t), gap))
    vc.prove("at most the largest", vc.bernstein1(f, t) <= m)


def use_bounds(vc):
    """boundsRectangle through its contract: some rectangle that encloses every point of the curve (contract box); the same one when asked again."""
    known = {}

    def summary(real, c):
        if id(c) not in known:
            i = len(known)
            l, r, b, t = [vc.real(f"box{i}.{k}") for k in "lrbt"]
            vc.assume(vc.and_(l <= r, b <= t))
            known[id(c)] = (c, vc.m("PathUtilities").BoundsRectangle((l, b), (r, t)))
        return known[id(c)][1]
    vc.summary("Bezier", "Bezier.boundsRectangle", summary)

    def at(q):
        for c, r in known.values(): vc.known(vc.and_(r.left <= q[0], q[0] <= r.right, r.bottom <= q[1], q[1] <= r.top))
        return [r for _c, r in known.values()]
    return at


@contract("C12", ["Bezier.tightbbox", "Transform.rotateAndMove", "BoundsRectangle.contour"], params=[(1,), (2,), (3,)], tol=1e-6)
def tight_box(vc, n):
    encloses = use_bounds(vc)
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    box = c.tightbbox
    sx, sy = pts[0]
    dx, dy = pts[-1][0] - sx, pts[-1][1] - sy
    if vc.when(vc.and_(vc.exact(dx, 0), vc.exact(dy, 0))): dx, dy, L = 1, 0, 1
    else: L = vc.sqrt(dx * dx + dy * dy)
    if not vc.symbolic: dx, dy, L = dx / L, dy / L, 1

    def frame(p):
        """coordinates along and across the baseline (times its length)"""
        return ((p[0] - sx) * dx + (p[1] - sy) * dy, (p[1] - sy) * dx - (p[0] - sx) * dy)
    corners = [tuple(s[0]) for s in box]
    vc.prove("a closed contour of four lines", vc.exact(len(box), 4) and all(len(s) == 2 for s in box) and
             vc.and_(*[vc.pteq(s[1], corners[(i + 1) % 4]) for i, s in enumerate(box)]))
    t = vc.unit("t")
    q = frame(vc.bernstein(pts, t))
    if vc.symbolic:
        # the aligned curve's point at t, which the aligned curve's box encloses (contracts align of C11 and box)
        a = (vc.div(q[0], L), vc.div(q[1], L))
        vc.lemma("L is positive", L > 0)
        scaled = vc.theorem("scaled", 3, lambda l, x, y: vc.implies(vc.and_(l > 0, x <= y), l * x <= l * y))
        for r in encloses(a):
            for x, y in ((r.left, a[0]), (a[0], r.right), (r.bottom, a[1]), (a[1], r.top)): scaled(L, x, y)
    f = [frame(p) for p in corners]
    if vc.symbolic:
        for i, p in enumerate(f):
            for x, sides in ((p[0], (r.left, r.right)), (p[1], (r.bottom, r.top))):
                mine = [vc.eq(x, L * side) for side in sides if vc.decided(vc.eq(x, L * side))]
                vc.lemma(f"corner {i}", mine[0] if mine else vc.or_(*[vc.eq(x, L * side) for side in sides]))
    xs, ys = [f[0][0], f[2][0]], [f[0][1], f[2][1]]
    if not vc.when(xs[0] <= xs[1]): xs.reverse()
    if not vc.when(ys[0] <= ys[1]): ys.reverse()
    vc.prove("sides along and across the baseline", vc.and_(*[vc.or_(vc.eq(p[0], xs[0]), vc.eq(p[0], xs[1])) for p in f], *[vc.or_(vc.eq(p[1], ys[0]), vc.eq(p[1], ys[1])) for p in f]))
    vc.prove("contains the curve", vc.and_(*[vc.le(xs[0], q[0]), vc.le(q[0], xs[1]), vc.le(ys[0], q[1]), vc.le(q[1], ys[1])]))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C12", ["Bezier.skeletonBounds"], params=[(1,), (2,), (3,)])
def skeleton(vc, n):
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.modular()(pts)
    r = c.skeletonBounds
    vc.prove("encloses the control points", vc.and_(*[z for x, y in pts for z in (vc.le(r.left, x), vc.le(x, r.right), vc.le(r.bottom, y), vc.le(y, r.top))]))
    vc.prove("asked again: the same", vc.exact([r.left, r.bottom, r.right, r.top], [getattr(c.skeletonBounds, k) for k in ("left", "bottom", "right", "top")]))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C12", ["Bezier.overlaps"], params=[(1, 3), (3, 2), (2, 3), (3, 3)])
def overlaps(vc, n, m):
    use_bounds(vc)
    B = vc.modular()
    c, d = B(vc.pts("p", n + 1)), B(vc.pts("q", m + 1))
    r, s = c.boundsRectangle, d.boundsRectangle
    q = vc.pt("x")
    share = vc.and_(*[z for b in (r, s) for z in (b.left <= q[0], q[0] <= b.right, b.bottom <= q[1], q[1] <= b.top)])
    o = c.overlaps(d)
    vc.prove("a shared point: they overlap", vc.implies(share, o))
    common = (vc.max(r.left, s.left), vc.max(r.bottom, s.bottom))
    vc.prove("they overlap: a shared point", vc.implies(o, vc.and_(*[z for b in (r, s) for z in (b.left <= common[0], common[0] <= b.right, b.bottom <= common[1], common[1] <= b.top)])))
    vc.prove("symmetric", vc.iff(d.overlaps(c), o))
