"""C11: degree elevation and alignment preserve the curve."""
from pyvc.api import contract


@contract("C11", ["Bezier.raiseOrder"], params=[(n,) for n in range(1, 9)])
def raise_order(vc, n):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    r = c.raiseOrder()
    vc.prove("one degree higher", vc.exact(r.order, n + 1))
    t = vc.param("t")
    vc.prove("the same point at every parameter", vc.pteq(vc.bernstein(r.controlPoints, t), vc.bernstein(pts, t)))
    vc.prove("evaluates to the same point", vc.pteq(r.get(t), c.get(t)))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C11", ["Bezier.raiseOrder"], symbolic_only=True)
def raise_any(vc):
    """Any order: the control points of the raised curve."""
    n, w = vc.int("n", 1), vc.int("w", 0)
    P = lambda i: (vc.at("P.x", i), vc.at("P.y", i))
    k = n + 1
    vc.assume(w <= k)
    vc.ranges(w)
    r = vc.modular()(vc.seq(k, P, [vc.integer(0), w - 1, w, n])).raiseOrder()
    q = r.controlPoints
    vc.prove("one point more", vc.eq(vc.size(q), k + 1))
    q = tuple(vc.item(q, w))
    if vc.when(vc.eq(w, 0)): vc.prove("first: the first", vc.pteq(q, P(w)))
    elif vc.when(vc.eq(w, k)): vc.prove("last: the last", vc.pteq(q, P(n)))
    else: vc.prove("between: of its neighbours", vc.pteq(tuple(k * v for v in q), tuple((k - w) * a + w * b for a, b in zip(P(w), P(w - 1)))))


@contract("C11", [], symbolic_only=True)
def raising_keeps(vc):
    """Those control points Q give the same curve: with b(i) = C(n, i) t^i (1-t)^(n-i) and c(i) the same for k = n + 1, c(w) Q_w = (1-t) b(w) P_w + t b(w-1) P_(w-1);
    so the sum of the first terms is (1-t) S(m) + t S(m-1), S(m) being the original's, and that of all k + 1 terms is S(k)."""
    n, w, t, P, O = vc.int("n", 1), vc.int("w", 1), vc.real("t"), vc.real("P"), vc.real("before P")
    C, D, E, p, q = [vc.real(x) for x in ("C(n,w)", "C(n,w-1)", "C(k,w)", "t^(w-1)", "(1-t)^(n-w)")]
    k = n + 1
    vc.assume(w <= n)
    vc.known(vc.and_(vc.eq(k * C, (k - w) * E), vc.eq(k * D, w * E)))       # C(n,w) = (k-w)/k C(k,w), C(n,w-1) = w/k C(k,w)
    Q = vc.div((k - w) * P + w * O, k)
    vc.prove("one term", vc.eq(k * (E * (t * p) * (q * (1 - t)) * Q), k * ((1 - t) * (C * (t * p) * q * P) + t * (D * p * (q * (1 - t)) * O))))
    m = vc.int("m", 0)
    S, R, b, c = [lambda i, f=f: vc.at(f, i) for f in ("S", "R", "bP", "cQ")]
    first = vc.and_(vc.eq(S(vc.integer(0)), 0), vc.eq(S(vc.integer(1)), b(vc.integer(0))), vc.eq(R(vc.integer(1)), c(vc.integer(0))), vc.eq(c(vc.integer(0)), (1 - t) * b(vc.integer(0))))
    whole = lambda m: vc.eq(R(m), (1 - t) * S(m) + t * S(m - 1))
    vc.prove("the first term", vc.implies(first, whole(vc.integer(1))))
    m = m + 1
    step = vc.and_(vc.eq(S(m + 1), S(m) + b(m)), vc.eq(S(m), S(m - 1) + b(m - 1)), vc.eq(R(m + 1), R(m) + c(m)), vc.eq(c(m), (1 - t) * b(m) + t * b(m - 1)))
    vc.prove("one more term", vc.implies(vc.and_(step, whole(m)), whole(m + 1)))
    vc.prove("all terms", vc.implies(vc.and_(whole(k + 1), vc.eq(S(k + 1), S(k))), vc.eq(R(k + 1), S(k))))


@contract("C11", ["Bezier.align", "Bezier._align", "Transform.moveAndRotate", "PathUtilities.rawSlopeAngle"], params=[(n, k) for n in (1, 2, 3, 4) for k in ("self", 2, 3, 4)], tol=1e-6)
def align(vc, n, how):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    c = vc.curve(B, pts)
    seg = pts if how == "self" else vc.pts("s", how)
    snap = vc.snapshot((pts, seg))
    r = c.align() if how == "self" else c.align(seg)
    (sx, sy), (ex, ey) = seg[0], seg[-1]
    dx, dy = ex - sx, ey - sy
    L = vc.sqrt(dx * dx + dy * dy)
    vc.prove("degree", vc.exact(r.order, n))
    moved = [tuple(p) for p in r.controlPoints]
    if vc.when(vc.and_(vc.exact(dx, 0), vc.exact(dy, 0))):
        vc.prove("no direction: moved only", vc.and_(*[vc.pteq(q, (x - sx, y - sy)) for q, (x, y) in zip(moved, pts)]))
    else:
        # the rotation that takes (dx, dy) to (|d|, 0), about the segment's start
        vc.prove("rigid motion: start to the origin, end onto the non-negative x axis",
                 vc.and_(*[vc.pteq((q[0] * L, q[1] * L), ((x - sx) * dx + (y - sy) * dy, (y - sy) * dx - (x - sx) * dy)) for q, (x, y) in zip(moved, pts)]))
        if how == "self":
            vc.prove("starts at the origin", vc.pteq(moved[0], (0, 0)))
            vc.prove("ends on the non-negative x axis", vc.and_(vc.eq(moved[-1][1], 0), vc.eq(moved[-1][0], L)))
    vc.prove_unchanged("frame", ((pts, seg), snap))
