"""C06: segment measurements."""
from pyvc.api import contract

INF = float("inf")


def seg(vc, name="s"):
    return vc.pts(name, vc.count(name + "n", 2, 4, 6, (8, 12, 20)))


def any_seg(vc):
    """A segment of any number (at least two) of points."""
    n = vc.int("n", 2)
    return vc.seq(n, lambda i: (vc.at("p.x", i), vc.at("p.y", i)), [vc.integer(0), n - 1])


def xy(p):
    return p if isinstance(p, tuple) else (p.real, p.imag)


@contract("C06", ["PathUtilities.endPoints", "PathUtilities.getDeltas", "PathUtilities.length", "PathUtilities.midpoint", "PathUtilities.slope", "PathUtilities.pointXY"])
def measures(vc):
    s = seg(vc)
    for k in sorted({0, len(s) - 2, len(s) - 1}):
        if isinstance(s[k], tuple) and vc.flag(f"complex{k}"): s[k] = vc.cpt(f"z{k}")
    snap = vc.snapshot(s)
    measured(vc, s, s[::-1], xy(s[0]), xy(s[-1]))
    vc.prove_unchanged("frame", (s, snap))


@contract("C06", ["PathUtilities.endPoints", "PathUtilities.getDeltas", "PathUtilities.length", "PathUtilities.midpoint", "PathUtilities.slope", "PathUtilities.pointXY"], symbolic_only=True)
def measures_any(vc):
    """Segments of any number of points."""
    s = any_seg(vc)
    measured(vc, s, s[::-1], vc.item(s, 0), vc.item(s, s.n - 1))


def measured(vc, s, rev, first, last):
    P = vc.m("PathUtilities")
    (x0, y0), (x1, y1) = first, last
    dx, dy = x1 - x0, y1 - y0
    vc.prove("end points", vc.exact(tuple(P.endPoints(s)), (x0, y0, x1, y1)))
    vc.prove("deltas", vc.eq(tuple(P.getDeltas(s)), (dx, dy)))
    ln = P.length(s)
    vc.prove("length: the non-negative root", vc.and_(ln >= 0, vc.eq(ln * ln, dx * dx + dy * dy)))
    vc.prove("midpoint", vc.eq(tuple(P.midpoint(s)), (vc.div(x0 + x1, 2), vc.div(y0 + y1, 2))))
    vc.prove("reversed: deltas negate", vc.eq(tuple(P.getDeltas(rev)), (-dx, -dy)))
    vc.prove("reversed: same length and midpoint", vc.and_(vc.eq(P.length(rev), ln), vc.eq(tuple(P.midpoint(rev)), tuple(P.midpoint(s)))))
    m = P.slope(s)
    if vc.when(vc.exact(dx, 0)):
        vc.prove("slope: infinite for vertical", vc.exact(m, INF))
        vc.prove("reversed: same slope", vc.exact(P.slope(rev), INF))
    else:
        vc.prove("slope: rise over run", vc.isnum(m) and vc.eq(m, vc.div(dy, dx)))
        vc.prove("reversed: same slope", vc.eq(P.slope(rev), vc.div(dy, dx)))


@contract("C06", ["PathUtilities.isVerticalLine", "PathUtilities.isHorizontalLine", "PathUtilities.isDiagonalLine"])
def classes(vc):
    s = seg(vc)
    classified(vc, s, s[0], s[-1], len(s) == 2)


@contract("C06", ["PathUtilities.isVerticalLine", "PathUtilities.isHorizontalLine", "PathUtilities.isDiagonalLine"], symbolic_only=True)
def classes_any(vc):
    """Segments of any number of points."""
    s = any_seg(vc)
    classified(vc, s, vc.item(s, 0), vc.item(s, s.n - 1), vc.eq(s.n, 2))


def classified(vc, s, first, last, two):
    P = vc.m("PathUtilities")
    (x0, y0), (x1, y1) = first, last
    v, h = vc.exact(x0, x1), vc.exact(y0, y1)
    for k, t in (("", s), ("reversed: ", s[::-1])):
        vc.prove(k + "vertical", vc.iff(P.isVerticalLine(t), vc.and_(two, v)))
        vc.prove(k + "horizontal", vc.iff(P.isHorizontalLine(t), vc.and_(two, h)))
        vc.prove(k + "diagonal", vc.iff(P.isDiagonalLine(t), vc.and_(two, vc.not_(v), vc.not_(h))))


@contract("C06", ["PathUtilities.slopeAngle", "PathUtilities.rawSlopeAngle"], tol=1e-9)
def angles(vc):
    s = seg(vc)
    angled(vc, s, s[0], s[-1])


@contract("C06", ["PathUtilities.slopeAngle", "PathUtilities.rawSlopeAngle"], symbolic_only=True)
def angles_any(vc):
    """Segments of any number of points."""
    s = any_seg(vc)
    angled(vc, s, vc.item(s, 0), vc.item(s, s.n - 1))


def angled(vc, s, first, last):
    P = vc.m("PathUtilities")
    (x0, y0), (x1, y1) = first, last
    dx, dy = x1 - x0, y1 - y0
    h = vc.sqrt(dx * dx + dy * dy)
    raw, a = P.rawSlopeAngle(s), P.slopeAngle(s)
    if vc.when(vc.and_(vc.exact(dx, 0), vc.exact(dy, 0))):
        vc.prove("degenerate: zero", vc.and_(vc.eq(raw, 0), vc.eq(a, 0)))
        return
    vc.prove("signed angle: turns the x axis to the segment", vc.and_(vc.eq(h * vc.cosd(raw), dx), vc.eq(h * vc.sind(raw), dy)))
    vc.prove("signed angle in (-180, 180]", vc.and_(raw > -180, vc.le(raw, 180)))
    vc.prove("angle from the vertical: tangent is |run| over |rise|", vc.and_(vc.eq(h * vc.sind(a), vc.abs(dx)), vc.eq(h * vc.cosd(a), vc.abs(dy))))
    vc.prove("angle from the vertical in [0, 90]", vc.and_(a >= 0, vc.le(a, 90)))
    vc.prove("reversed: same angle from the vertical", vc.eq(P.slopeAngle(s[::-1]), a))


@contract("C06", ["PathUtilities.flatten", "PathUtilities.minMax", "PathUtilities.toMicros"])
def keep_content(vc):
    P = vc.m("PathUtilities")
    contours = [[vc.pts(f"c{j}s{i}_", 2) for i in range(vc.count(f"c{j}n", 0, 2, 4))] for j in range(vc.count("n", 0, 3, 5))]
    snap = vc.snapshot(contours)
    flat = P.flatten(contours)
    want = [s for c in contours for s in c]
    vc.prove("flatten: every segment, in order", len(flat) == len(want) and vc.exact([list(s) for s in flat], want))
    vc.prove_unchanged("frame", (contours, snap))
    a, b = vc.real("a"), vc.real("b")
    lo, hi = P.minMax(a, b)
    vc.prove("minMax: ordered", lo <= hi)
    vc.prove("minMax: the same two values", vc.or_(vc.exact((lo, hi), (a, b)), vc.exact((lo, hi), (b, a))))
    u = vc.real("upem")
    vc.assume(vc.not_(vc.exact(u, 0)))
    vc.prove("toMicros", vc.eq(P.toMicros(a, u) * u, a * 1000))
