"""C07: line intersection and point-on-line."""
from pyvc.api import contract


def cross(ax, ay, bx, by): return ax * by - ay * bx


def on_infinite(p, a, b): return cross(b[0] - a[0], b[1] - a[1], p[0] - a[0], p[1] - a[1])


def on_segment(vc, p, a, b):
    """p lies on the closed segment from a to b."""
    return vc.and_(vc.exact(on_infinite(p, a, b), 0), vc.min(a[0], b[0]) <= p[0], p[0] <= vc.max(a[0], b[0]), vc.min(a[1], b[1]) <= p[1], p[1] <= vc.max(a[1], b[1]))


@contract("C07", ["BezierUtilities.lli8", "BezierUtilities.lli4", "BezierUtilities.lli"], params=[("lli",), ("lli4",), ("lli8",)])
def infinite_lines(vc, which):
    U = vc.m("BezierUtilities")
    a, b, c, d = vc.pts("p", 4)
    snap = vc.snapshot((a, b, c, d))
    if which == "lli": r = U.lli([a, b], [c, d])
    elif which == "lli4": r = U.lli4(a, b, c, d)
    else: r = U.lli8(*a, *b, *c, *d)
    det = cross(b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1])
    if r is None:
        vc.prove("absent only for parallel lines", vc.exact(det, 0))
        return
    vc.prove("absent for parallel lines", vc.not_(vc.exact(det, 0)))
    if not vc.symbolic: vc.scale = vc.scale ** 3
    vc.prove("on the first line", vc.eq(on_infinite(r, a, b), 0))
    vc.prove("on the second line", vc.eq(on_infinite(r, c, d), 0))


def exactly(vc, v):
    """Exact numbers on both sides: the tests compare for equality."""
    from fractions import Fraction
    if vc.symbolic: return v
    return Fraction(v)


@contract("C07", ["PathUtilities.intersectionPoint"])
def segments(vc):
    P = vc.m("PathUtilities")
    l1, l2 = vc.pts("a", 2), vc.pts("b", 2)
    if not vc.symbolic:
        l1, l2 = [[(exactly(vc, x), exactly(vc, y)) for x, y in l] for l in (l1, l2)]
    (a, b), (c, d) = l1, l2
    s = vc.snapshot((l1, l2))
    r = P.intersectionPoint(l1, l2)
    det = cross(b[0] - a[0], b[1] - a[1], d[0] - c[0], d[1] - c[1])
    if r is not None:
        vc.prove("not reported for parallel lines", vc.not_(vc.exact(det, 0)))
        vc.lemma("reported: on both lines", vc.and_(vc.exact(on_infinite(r, a, b), 0), vc.exact(on_infinite(r, c, d), 0)))
        vc.prove("reported: on both segments", vc.and_(on_segment(vc, r, a, b), on_segment(vc, r, c, d)))
    else:
        if vc.when(vc.exact(det, 0)): return
        # the unique common point q of the two infinite lines is not on both segments
        if vc.symbolic:
            t = vc.div(cross(c[0] - a[0], c[1] - a[1], d[0] - c[0], d[1] - c[1]), det)
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        else:
            t = cross(c[0] - a[0], c[1] - a[1], d[0] - c[0], d[1] - c[1]) / det
            q = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
        lib = vc.m("BezierUtilities").lli(l1, l2)
        vc.prove("the library's point is the common point", lib is not None and vc.eq(tuple(lib), q), )
        q = tuple(lib)
        vc.prove("absent: the common point is not on both segments", vc.not_(vc.and_(
            vc.min(a[0], b[0]) <= q[0], q[0] <= vc.max(a[0], b[0]), vc.min(a[1], b[1]) <= q[1], q[1] <= vc.max(a[1], b[1]),
            vc.min(c[0], d[0]) <= q[0], q[0] <= vc.max(c[0], d[0]), vc.min(c[1], d[1]) <= q[1], q[1] <= vc.max(c[1], d[1]))))
    vc.prove_unchanged("frame", ((l1, l2), s))


@contract("C07", ["PathUtilities.pointOnLine"])
def point_on_line(vc):
    P = vc.m("PathUtilities")
    p, line = vc.pt("p"), vc.pts("a", 2)
    if not vc.symbolic:
        line = [(exactly(vc, x), exactly(vc, y)) for x, y in line]
        p = (exactly(vc, p[0]), exactly(vc, p[1]))
        if vc.rng is not None and vc.rng.random() < 0.5:
            # a point of the infinite line
            from fractions import Fraction
            t = Fraction(vc.rng.randrange(-4, 13), 8)
            p = tuple(line[0][i] + t * (line[1][i] - line[0][i]) for i in (0, 1))
            vc.values.update({"p.x": str(p[0]), "p.y": str(p[1])})
        elif vc.fixed is not None:
            p = tuple(Fraction_(vc.fixed["values"].get(f"p.{k}", 0)) for k in "xy")
    s = vc.snapshot((p, line))
    r = P.pointOnLine(p, line)
    vc.prove("on the line exactly when between its end points on the straight line", vc.iff(r, on_segment(vc, p, *line)))
    vc.prove_unchanged("frame", ((p, line), s))


def Fraction_(v):
    from fractions import Fraction
    return Fraction(v)
