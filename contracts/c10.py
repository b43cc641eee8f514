"""C10: splitting a curve reproduces the curve on the sub-interval."""
from pyvc.api import contract
from . import common  # noqa: F401


def curve(vc, n):
    """A curve that itself covers an arbitrary interval [a, b] of some curve (as pieces of splits do)."""
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    c = B(pts)
    vc.prove("a new curve covers [0, 1]", vc.exact((c._t1, c._t2), (0, 1)))
    if vc.flag("piece"):
        a, b = vc.real("a", conc=(0, 1)), vc.real("b", conc=(0, 1))
        c._t1, c._t2 = a, b
    else:
        a, b = 0, 1
    return pts, c, a, b


def on_interval(vc, label, piece, pts, lo, hi):
    s = vc.param("s")
    vc.prove(f"{label}: degree", vc.exact(len(piece.controlPoints), len(pts)))
    vc.prove(f"{label}: exactly the original on its interval", vc.pteq(vc.bernstein(piece.controlPoints, s), vc.bernstein(pts, lo + (hi - lo) * s)))


def recorded(vc, label, piece, a, b, lo, hi):
    vc.prove(f"{label}: records the interval it covers", vc.eq((piece._t1, piece._t2), (a + (b - a) * lo, a + (b - a) * hi)))


@contract("C10", ["Bezier.split", "Bezier.hull", "BezierUtilities.map", "BezierUtilities.lerp"], params=[(1,), (2,), (3,)])
def split_at(vc, n):
    pts, c, a, b = curve(vc, n)
    snap = vc.snapshot(pts)
    t = vc.param("t")
    left, right, hull = c.split(t)
    on_interval(vc, "left", left, pts, 0, t)
    on_interval(vc, "right", right, pts, t, 1)
    recorded(vc, "left", left, a, b, 0, t)
    recorded(vc, "right", right, a, b, t, 1)
    q = vc.bernstein(pts, t)
    vc.prove("they meet at the point at t", vc.and_(vc.pteq(left.controlPoints[-1], q), vc.pteq(right.controlPoints[0], q)))
    vc.prove("hull", vc.eq([tuple(p) for p in hull], [tuple(p) for p in c.hull(t)]))
    vc.prove_unchanged("original points unchanged", (pts, snap))
    vc.prove("original unchanged", vc.exact((c._t1, c._t2), (a, b)) and c.controlPoints is pts)


@contract("C10", ["Bezier.split"], params=[(1,), (2,), (3,)])
def split_between(vc, n):
    pts, c, a, b = curve(vc, n)
    snap = vc.snapshot(pts)
    t1 = 0 if vc.flag("from0") else vc.real("t1", 0, 1)
    t2 = 1 if vc.flag("to1") else vc.real("t2", 0, 1)
    vc.assume(t1 < t2)
    piece = c.split(t1, t2)
    on_interval(vc, "piece", piece, pts, t1, t2)
    recorded(vc, "piece", piece, a, b, t1, t2)
    vc.prove_unchanged("original points unchanged", (pts, snap))
    vc.prove("original unchanged", vc.exact((c._t1, c._t2), (a, b)) and c.controlPoints is pts)


@contract("C10", ["Bezier.split"], params=[(1,), (2,), (3,)], bound="two levels from a new curve (any depth follows from split_at and split_between)")
def nested(vc, n):
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    t, u = vc.unit("t"), vc.unit("u")
    i, j = vc.choose("i", (0, 1)), vc.choose("j", (0, 1))
    piece = B(pts).split(t)[i].split(u)[j]
    lo, hi = (0, t) if i == 0 else (t, 1)
    m = lo + (hi - lo) * u
    lo, hi = (lo, m) if j == 0 else (m, hi)
    on_interval(vc, "piece of a piece", piece, pts, lo, hi)
    recorded(vc, "piece of a piece", piece, 0, 1, lo, hi)
