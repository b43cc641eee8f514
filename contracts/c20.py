"""C20: ABC projection satisfies the ABC identities."""
from pyvc.api import contract
from . import common  # noqa: F401


@contract("C20", ["Bezier.getABC", "Bezier.hull", "BezierUtilities.quadraticRatio", "BezierUtilities.cubicRatio", "BezierUtilities.lli4", "BezierUtilities.lli8"],
          params=[(2,), (3,)], tol=1e-6)
def abc(vc, n):
    B = vc.m("Bezier").Bezier
    if vc.symbolic: vc.modular()
    pts, other = vc.pts("p", n + 1), vc.pts("q", n + 1)
    snap = vc.snapshot((pts, other))
    t = vc.unit("t")
    vc.assume(0 < t)
    vc.assume(t < 1)
    curve = B(pts)
    a, b, c, ratio, hull = curve.getABC(t)
    vc.prove("B is the curve's point at t", vc.pteq(b, vc.bernstein(pts, t)))
    want = pts[1] if n == 2 else vc.bernstein(pts[1:3], t)
    vc.prove("A is the hull's projection point", vc.pteq(a, want))
    vc.prove("the hull is the hull at t", vc.eq([tuple(p) for p in hull], [tuple(p) for p in curve.hull(t)]))
    vc.prove("the ratio depends only on degree and t", vc.exact(ratio, B(other).getABC(t)[3]))
    vc.prove("the ratio is not negative", vc.ge(ratio, 0))
    (x0, y0), (x1, y1) = pts[0], pts[-1]
    dx, dy = x1 - x0, y1 - y0
    # the projection of A: weights of the end points in the curve's point, scaled to sum to 1
    w0 = (1 - t) ** n
    w1 = t ** n
    s = w0 + w1
    vc.prove("the ratio, by the end points' weights", vc.eq(ratio * s, 1 - s))
    parallel = vc.exact((a[0] - b[0]) * dy, (a[1] - b[1]) * dx)
    if not vc.symbolic:
        k = (a[0] - b[0]) * dy - (a[1] - b[1]) * dx
        vc.assume(k == 0 or abs(k) > 1e-6 * (1 + dx * dx + dy * dy))
        if k == 0 and c is not None: return            # rounding decided
    if c is None:
        vc.prove("missing only if A, B and the baseline have no single meeting point", parallel)
        return
    vc.prove("there is a single meeting point", vc.not_(parallel))
    if vc.symbolic:
        # C is known: both lines pass through the weighted mean of the end points
        k = (a[0] - b[0]) * dy - (a[1] - b[1]) * dx
        meet = (w0 * x0 + w1 * x1, w0 * y0 + w1 * y1)
        for i in range(2): vc.lemma("B between A and the end points' mean", vc.eq(b[i], (1 - s) * a[i] + meet[i]))
        for i in range(2): vc.lemma("C is the end points' weighted mean", vc.eq(c[i] * s, meet[i]))
    vc.prove("C lies on the baseline", vc.eq((c[0] - x0) * dy, (c[1] - y0) * dx))
    vc.prove("A, B and C are collinear", vc.eq((b[0] - a[0]) * (c[1] - b[1]), (b[1] - a[1]) * (c[0] - b[0])))
    vc.prove("|BC| is ratio times |AB|", vc.eq(vc.sqrt(vc.dist2(b, c)), ratio * vc.sqrt(vc.dist2(a, b))) if not vc.symbolic else
             vc.and_(vc.eq(b[0] - c[0], ratio * (a[0] - b[0])), vc.eq(b[1] - c[1], ratio * (a[1] - b[1]))))
    vc.prove_unchanged("frame", ((pts, other), snap))
