"""C22: the closest-point search never does worse than its samples."""
from pyvc.api import contract
from . import common  # noqa: F401
from .c12 import BIG


def use_points(vc, query):
    """get through its contract (C08): a point that depends on the curve and the parameter alone, the end points at 0 and 1.
    Returns the list of the parameters looked at, with their points."""
    if not vc.symbolic: return None
    vc.modular()
    vc.opaque_roots()
    seen = []

    def point(real, c, t):
        pts = c.controlPoints
        for d, u, q, _ in seen:
            if d is c and vc.decided(vc.exact(t, u)): return q
        if vc.decided(vc.exact(t, 0)) or vc.decided(vc.exact(t, 1)): q = tuple(pts[0] if vc.decided(vc.exact(t, 0)) else pts[-1])
        else:
            k = next((i for i, (d, _, _) in enumerate(curves) if d is c), None)
            if k is None:
                k = len(curves)
                curves.append((c, None, None))
            q = tuple(vc.function(f"curve{k}.{x}", t) for x in "xy")
        d = vc.hypot(q, query)
        seen.append((c, t, q, d))
        vc.known(d < BIG)           # contracts convex of C12 and far: coordinates are within BIG / 4
        return q
    curves = []
    for f in ("get", "_compute"): vc.summary("Bezier", "Bezier." + f, point)
    return seen


def on_contour(vc, bc, q):
    """Is q (almost) a point of the contour?  Concrete runs only."""
    n = 4000
    for c in bc:
        p = c.controlPoints
        speed = (len(p) - 1) * max(vc.dist2(a, b) for a, b in zip(p, p[1:])) ** 0.5
        if min(vc.dist2(c.get(i / n), q) for i in range(n + 1)) ** 0.5 <= speed / n + 1e-6 * vc.scale: return True
    return False


@contract("C22", [], symbolic_only=True)
def far(vc):
    """Mathematics, no code: points with coordinates within M / 2 are closer than 1.5 M to each other."""
    a, b, m = vc.pt("a"), vc.pt("b"), vc.real("m")
    vc.assume(m > 0)
    vc.assume(vc.and_(*[z for p in (a, b) for x in p for z in (x <= m * vc.frac(1, 2), x >= -m * vc.frac(1, 2))]))
    dx, dy = a[0] - b[0], a[1] - b[1]
    vc.lemma("differences", vc.and_(dx <= m, dx >= -m, dy <= m, dy >= -m))
    sq = vc.theorem("square", 2, lambda x, m: vc.implies(vc.and_(x <= m, x >= -m), x * x <= m * m))
    sq(dx, m)
    sq(dy, m)
    d = vc.sqrt(vc.dist2(a, b))
    vc.lemma("squared", vc.and_(vc.eq(d * d, dx * dx + dy * dy), dx * dx <= m * m, dy * dy <= m * m))
    vc.prove("close", 2 * d < 3 * m)


def shapes(vc):
    """Do the helpers have the signatures that the contracts 'argmin' and 'refine' are about?  (If not, they are not summarised.)"""
    from pyvc.api import concrete_module
    C, B = concrete_module("Bezier").BContour, concrete_module("Bezier").Bezier
    out = set()
    try:
        if C._findClosest((0, 1), [(3, 3), (0, 0), (9, 9)]) == 1: out.add("argmin")
    except Exception: pass
    try:
        c = B([(0, 0), (2, 0)])
        q, d = C._refineBinary((0, 1), c, c.getLUT(3), 0)
        if len(q) == 2 and d > 0: out.add("refine")
    except Exception: pass
    return out


def within(vc, *points):
    for p in points: vc.assume(vc.and_(*[z for x in p for z in (x <= BIG // 4, x >= -BIG // 4)]))


@contract("C22", ["BContour._findClosest"], params=[(n,) for n in range(1, 9)], bound="tables of up to 8 points")
def argmin(vc, n):
    if "argmin" not in shapes(vc): return vc.prove("no such helper", True)
    vc.opaque_roots()
    pts, q = vc.pts("p", n), vc.pt("q")
    within(vc, q, *pts)
    snap = vc.snapshot((pts, q))
    for p in pts: vc.known(vc.hypot(p, q) < BIG)            # contract far
    i = vc.m("Bezier").BContour._findClosest(q, pts)
    vc.prove("an index", vc.and_(vc.le(0, i), vc.lt(i, n)))
    ds = [vc.hypot(p, q) for p in pts]
    vc.prove("of the closest", vc.and_(*[vc.implies(vc.exact(i, k), vc.le(ds[k], d)) for k in range(n) for d in ds]))
    vc.prove_unchanged("frame", ((pts, q), snap))


@contract("C22", ["BContour._findClosest"], symbolic_only=True)
def argmin_any(vc):
    """Tables of any size; w: any of its points."""
    if "argmin" not in shapes(vc): return vc.prove("no such helper", True)
    vc.opaque_roots()
    n, w, q = vc.int("n", 1), vc.int("w", 0), vc.pt("q")
    vc.assume(w < n)
    P = lambda i: (vc.at("p.x", i), vc.at("p.y", i))
    within(vc, q, P(w))
    table = vc.seq(n, P, [w])
    near = lambda i: vc.at("distance", i)

    def look(i):
        vc.known(vc.and_(vc.eq(near(i), vc.hypot(P(i), q)), near(i) < BIG))         # contract far
    look(w)

    def invariant(vc, state, entry, what):
        k = state["#"]
        if what == "havoc":
            c, i = vc.fresh("closest"), vc.fresh_int("i")
            vc.assume(vc.and_(i >= -1, i < k, vc.iff(i < 0, vc.eq(k, 0)), vc.implies(i < 0, vc.eq(c, BIG)), vc.implies(i >= 0, vc.eq(c, near(i))), vc.implies(w < k, c <= near(w))))
            look(k)
            return {"closest": c, "i": i}
        c, i = state["closest"], state["i"]
        vc.prove(f"{what}: an index so far", vc.and_(i >= -1, i < k, vc.iff(i < 0, vc.eq(k, 0)), vc.implies(i < 0, vc.eq(c, BIG))))
        vc.prove(f"{what}: its distance", vc.implies(i >= 0, vc.eq(c, near(i))) if vc.isterm(i) else i < 0)
        vc.prove(f"{what}: no point so far is closer", vc.implies(w < k, c <= near(w)))
    vc.invariant("BContour._findClosest", ("for", 0), ("closest", "i", "dist", "px", "py", "index"), invariant)
    i = vc.m("Bezier").BContour._findClosest(q, table)
    vc.prove("an index", vc.and_(vc.le(0, i), vc.lt(i, n)))
    look(i)
    vc.prove("of the closest", vc.le(vc.hypot(P(i), q), vc.hypot(P(w), q)))


@contract("C22", ["BContour._refineBinary"], budget=200, symbolic_only=True)
def refine_any(vc):
    """Tables of any size, starting at any sample."""
    if "refine" not in shapes(vc): return vc.prove("no such helper", True)
    q = vc.pt("q")
    seen = use_points(vc, q)
    M = vc.m("Bezier")
    pts = vc.pts("p", 2)
    within(vc, q, *pts)
    c = M.Bezier(pts)
    n, i = vc.int("n", 2), vc.int("i", 0)
    vc.assume(i < n)
    vc.ranges(i - 1, i, i + 1)
    lut = vc.seq(n, lambda k: c.get(vc.div(k, n - 1)), [i])
    start = vc.item(lut, i)
    names = ("i", "closest", "steps", "tt", "q", "lut")

    def invariant(vc, state, entry, what):
        if what == "havoc":
            if state["#"] == 0: return {k: entry[k] for k in names if k in entry}
            ts, at, j = [vc.fresh(f"t{k}") for k in range(5)], vc.fresh("t"), vc.fresh_int("i")
            vc.assume(vc.and_(0 <= ts[0], ts[4] <= 1, *[a <= b for a, b in zip(ts, ts[1:])], 0 <= at, at <= 1, j >= 1, j <= 3))
            p = c.get(at)
            return {"i": j, "closest": vc.hypot(p, q), "tt": ts, "q": p, "lut": [c.get(t) for t in ts]}
        if what == "established": return
        ts, points, j = [list(state[k]) for k in ("tt", "lut")] + [state["i"]]
        vc.prove(f"{what}: five parameters in [0, 1], ascending", len(ts) == 5 and vc.and_(0 <= ts[0], ts[4] <= 1, *[a <= b for a, b in zip(ts, ts[1:])]))
        vc.prove(f"{what}: and their points", len(points) == 5 and vc.and_(*[vc.pteq(p, c.get(t)) for p, t in zip(points, ts)]))
        vc.prove(f"{what}: the closest of them is one in between, or an earlier one was", vc.and_(j >= 1, j <= 3))
        vc.prove(f"{what}: a point found and its distance", vc.or_(*[vc.and_(vc.pteq(state["q"], p), vc.eq(state["closest"], e), 0 <= t, t <= 1) for _, t, p, e in seen]))
    vc.invariant("BContour._refineBinary", ("for", 0), names, invariant)
    got, d = M.BContour._refineBinary(q, c, lut, i)
    on_curve(vc, [c], q, got, d, seen)
    vc.prove("not worse than the sample", vc.le(d, vc.hypot(start, q)))


@contract("C22", ["BContour._refineBinary"], params=[(5, 0), (5, 4), (20, 0), (20, 9), (20, 19)] + [(50, i) for i in (0, 25, 49)] + [(102, i) for i in (0, 1, 50, 100, 101)] + [(180, 0), (180, 90), (180, 179), (450, 3), (450, 449)],
          thorough=[(2, 0), (2, 1), (3, 1), (5, 2)], bound="the table sizes and starting samples listed", budget=200, conc_secs=.3)
def refine(vc, steps, i):
    """Refining never does worse than the sample it starts from, and stays on the curve."""
    if "refine" not in shapes(vc): return vc.prove("no such helper", True)
    q = vc.pt("q")
    seen = use_points(vc, q)
    M = vc.m("Bezier")
    pts = vc.pts("p", 2 if vc.symbolic else vc.choose("size", (2, 3, 4)))
    within(vc, q, *pts)
    c = M.Bezier(pts)
    if not vc.symbolic:
        steps = vc.choose("steps", (2, 3, 4, 5, 7, 20, 100, steps))
        i = vc.choose("i", range(steps))
    lut = c.getLUT(steps)
    start = lut[i]
    snap = vc.snapshot((pts, q))
    got, d = M.BContour._refineBinary(q, c, lut, i)
    on_curve(vc, [c], q, got, d, seen)
    vc.prove("not worse than the sample", vc.le(d, vc.hypot(start, q)))
    vc.prove_unchanged("frame", ((pts, q), snap))


def on_curve(vc, curves, query, q, d, seen, more=()):
    vc.prove("the distance is not negative", vc.ge(d, 0))
    if vc.symbolic:
        near = [vc.and_(vc.pteq(q, p), vc.eq(d, e), 0 <= t, t <= 1) for c, t, p, e in seen if any(c is b for b in curves)]
        vc.prove("a point of the contour, and its distance", vc.or_(*near, *[vc.and_(vc.pteq(q, p), vc.eq(d, e)) for p, e in more]))
    else:
        vc.prove("the point's distance", vc.eq(d, vc.sqrt(vc.dist2(q, query))))
        vc.prove("a point of the contour", on_contour(vc, curves, q))


def use_helpers(vc, query):
    """The helpers through their contracts 'argmin' and 'refine'."""
    found = []
    if not vc.symbolic: return found
    have = shapes(vc)

    def closest(real, point, lut):
        lut = list(lut)
        i = vc.choose(f"closest{len(lut)}", range(len(lut)))
        d = [vc.hypot(p, point) for p in lut]
        vc.assume(vc.and_(*[d[i] <= e for e in d]))
        return i

    def refined(real, point, curve, lut, i):
        k = len(found)
        q, d = vc.pt(f"refined{k}"), vc.real(f"refined{k}.d")
        found.append((q, d))
        vc.assume(vc.and_(d >= 0, d <= vc.hypot(lut[i], point)))
        return q, d
    if "argmin" in have: vc.summary("Bezier", "BContour._findClosest", closest)
    if "refine" in have: vc.summary("Bezier", "BContour._refineBinary", refined)
    return found


FUNCS = ["BContour.findClosestPoint", "BContour.getLUT", "Bezier.getLUT"]


@contract("C22", FUNCS, params=[(c, n) for c in (1, 2, 3, 4) for n in (2, 3, 4, 5)], bound="contours of up to 4 segments, 2 to 5 samples per segment", conc_secs=1, budget=120)
def closest(vc, curves, steps):
    point = vc.pt("query")
    seen = use_points(vc, point)
    found = use_helpers(vc, point)
    segs = [vc.pts(f"s{i}_", 2 if vc.symbolic else vc.choose(f"size{i}", (2, 3, 4))) for i in range(curves)]
    for a, b in zip(segs, segs[1:]): b[0] = a[-1]
    snap = vc.snapshot((segs, point))
    bc = vc.m("Bezier").BContour(segs)
    within(vc, point, *[p for s in segs for p in s])
    if not vc.symbolic: steps = vc.choose("steps", (steps, *range(2, 12)))
    if vc.flag("before"): bc.getLUT(vc.choose("other", (2, 3) if vc.symbolic else range(2, 7)))
    d, q = bc.findClosestPoint(point, steps)
    vc.prove_unchanged("frame", ((segs, point), snap))
    on_curve(vc, list(bc), point, q, d, seen, found)
    vc.prove("no sample is closer", vc.and_(*[vc.le(d, vc.hypot(c.get(vc.frac(k, steps - 1)), point)) for c in bc for k in range(steps)]))


@contract("C22", ["BContour.findClosestPoint"], params=[(1,), (2,)], symbolic_only=True, budget=200)
def closest_any(vc, least):
    """Any number of segments, any number of samples per segment; the helpers and the tables through their contracts (argmin_any,
    refine_any, any_edit of C21, C08).  least: the number of segments is this at least (1: exactly)."""
    if len(shapes(vc)) != 2: return vc.prove("no such helpers", True)
    vc.modular()
    n = 1 if least == 1 else vc.int("n", 2)
    n = vc.integer(0) + n
    s1 = vc.int("intervals", 1)
    steps, zero, query = s1 + 1, vc.integer(0), vc.pt("query")
    w, v = vc.int("w", 0), vc.int("v", 0)
    vc.assume(vc.and_(w < n, v <= s1))                # any sample: number v of segment w
    P = lambda i, q: (vc.at("P.x", i, q), vc.at("P.y", i, q))
    S = lambda i, q: (vc.at("S.x", i, q), vc.at("S.y", i, q))
    D = lambda i, q: vc.at("distance", i, q)          # of sample number q of segment i from the query point

    def segment(i): return [P(i, zero), P(i, zero + 1)]       # the points are not looked at here

    def number(curve):
        i = vc.arguments(curve.controlPoints[0][0], "P.x")
        if i is None: vc.hard("a segment that is not one of those given")
        return i[0]
    tables, joined, at, found = [], [], [], []

    def table(real, curve, size=100):
        if not vc.decided(vc.eq(size, steps)): vc.hard("a table of another size")
        t = vc.seq(steps, lambda q: S(i, q))
        i = number(curve)
        tables.append((i, t))
        return t

    def whole(real, bc, size=100):
        if bc is not contour or not vc.decided(vc.eq(size, steps)): vc.hard("a table of another size")
        joined.append(vc.seq(n * s1 + 1, lambda j: vc.hard("a point of the joined table")))
        return joined[-1]

    def closest(real, point, lut):
        if all(lut is not t for t in joined) or not vc.eq(point, query): vc.hard("another table than the contour's")
        # the joined table is sample 0 of the first segment, then the samples 1 and on of every segment (any_edit)
        i, q = vc.fresh_int("nearest segment"), vc.fresh_int("nearest sample")
        first = vc.flag("the first sample")
        if first: vc.assume(vc.and_(vc.eq(i, 0), vc.eq(q, 0)))
        else: vc.assume(vc.and_(0 <= i, i < n, 1 <= q, q <= s1))
        vc.assume(D(i, q) <= D(w, v))
        at[:] = [i, q]
        if first: return zero
        vc.known(i * s1 >= 0)
        vc.known(vc.implies(i >= 1, i * s1 >= s1))
        return i * s1 + q

    def refined(real, point, curve, lut, j):
        i = number(curve)
        vc.prove("refine: a segment of the contour", vc.and_(0 <= i, i < n))
        mine = [k for k, t in tables if lut is t]
        if not mine: vc.hard("a table that is none of the segments'")
        vc.prove("refine: the segment's own table", vc.eq(mine[0], i))
        vc.prove("refine: a sample of it", vc.and_(0 <= j, j < steps))
        p, d = vc.pt(f"refined{len(found)}"), vc.real(f"refined{len(found)}.d")
        # consecutive segments share an end point
        vc.known(vc.eq(D(i, s1), D(i + 1, 0)))
        vc.assume(vc.and_(d >= 0, d <= D(i, j)))
        found.append((p, d))
        return p, d
    for f, fn in (("Bezier.getLUT", table), ("BContour.getLUT", whole), ("BContour._findClosest", closest), ("BContour._refineBinary", refined)): vc.summary("Bezier", f, fn)
    M = vc.m("Bezier")
    vc.invariant("BContour._update", ("for", 0), ("bounds", "bezier"), lambda vc, state, entry, what: {"bounds": vc.m("PathUtilities").BoundsRectangle(vc.pt("corner"), vc.pt("corner2"))} if what == "havoc" else None)
    vc.summary("Bezier", "Bezier.boundsRectangle", lambda real, c: vc.m("PathUtilities").BoundsRectangle(vc.pt("box"), vc.pt("box2")))
    contour = M.BContour(vc.seq(n, segment))
    d, p = contour.findClosestPoint(query, steps)
    vc.prove("a point that a refinement found, and its distance", vc.or_(*[vc.and_(vc.pteq(p, q), vc.eq(d, e)) for q, e in found]))
    vc.prove("no sample is closer", vc.le(d, D(w, v)))
