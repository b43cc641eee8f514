"""C19: direction, straightness and turning are those of the curve."""
from pyvc.api import contract
from . import common  # noqa: F401


def rises(vc, ys, label):
    """Non-decreasing control values give a non-decreasing function on [0, 1]."""
    n = len(ys) - 1
    t, u = vc.unit("t"), vc.unit("u")
    vc.assume(t <= u)
    steps = [b - a for a, b in zip(ys, ys[1:])]
    for a in steps: vc.lemma(f"{label}: control values never fall", vc.ge(a, 0))
    weights = []
    for i in range(n):
        vals = [0] * (i + 1) + [1] * (n - i)
        w = vc.bernstein1(vals, u) - vc.bernstein1(vals, t)
        if vc.symbolic:
            w0 = w
            w = vc.real(f"w{i}")
            vc.assume(vc.eq(w, w0))
            rule = vc.theorem(f"{label}: weight {i} of degree {n} never falls", 2, lambda a, b: vc.implies(vc.and_(a >= 0, a <= b, b <= 1), vc.bernstein1(vals, b) >= vc.bernstein1(vals, a)))
            rule(t, u)
            vc.lemma("weight", vc.ge(w, 0))
            prod = vc.theorem("non-negative product", 2, lambda a, b: vc.implies(vc.and_(a >= 0, b >= 0), a * b >= 0))
            prod(steps[i], w)
        weights.append(w)
    d = vc.bernstein1(ys, u) - vc.bernstein1(ys, t)
    if vc.symbolic:
        total = sum((a * w for a, w in zip(steps, weights)), 0)
        vc.lemma(f"{label}: sum of weighted steps", vc.eq(d, total))
    vc.prove(f"{label}: y never falls", vc.ge(d, 0))


@contract("C19", ["Bezier._computeDirection", "Bezier.direction", "Bezier.__init__"], params=[(1,), (2,), (3,)])
def direction(vc, n):
    B = vc.m("Bezier").Bezier
    if vc.symbolic: vc.modular()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    d = c.direction
    ys = [p[1] for p in pts]
    vc.prove("one of the four", any(d is x or d == x for x in (B.dir_up, B.dir_down, B.dir_mixed, B.dir_flat)))
    if d == B.dir_up: rises(vc, ys, "up")
    elif d == B.dir_down: rises(vc, [-y for y in ys], "down")
    elif d == B.dir_flat:
        vc.prove("flat: constant y", vc.and_(*[vc.eq(y, ys[0]) for y in ys]))
    else:
        vc.prove("mixed: not monotonic", vc.not_(vc.or_(vc.and_(*[a <= b for a, b in zip(ys, ys[1:])]), vc.and_(*[a >= b for a, b in zip(ys, ys[1:])]))))
    vc.prove("the four are different", len({B.dir_up, B.dir_down, B.dir_mixed, B.dir_flat}) == 4)
    vc.prove_unchanged("frame", (pts, snap))


@contract("C19", ["Bezier._computeDirection"], params=[(4,), (5,)])
def high_order(vc, n):
    """Higher orders: up and down are only claimed if they are."""
    B = vc.m("Bezier").Bezier
    if vc.symbolic: vc.modular()
    pts = vc.pts("p", n + 1)
    d = vc.curve(B, pts).direction
    ys = [p[1] for p in pts]
    if d == B.dir_up: vc.prove("up: monotonic", vc.and_(*[a <= b for a, b in zip(ys, ys[1:])]))
    elif d == B.dir_down: vc.prove("down: monotonic", vc.and_(*[a >= b for a, b in zip(ys, ys[1:])]))
    else: vc.prove("mixed", d == B.dir_mixed)


def baseline(vc, pts):
    (x0, y0), (x1, y1) = pts[0], pts[-1]
    dx, dy = x1 - x0, y1 - y0
    vc.assume(vc.not_(vc.and_(vc.exact(dx, 0), vc.exact(dy, 0))))
    cross = [dx * (y - y0) - dy * (x - x0) for x, y in pts]
    dot = [dx * (x - x0) + dy * (y - y0) for x, y in pts]
    return dx, dy, cross, dot


def bool_term(vc, v):
    return v if vc.symbolic else bool(v)


@contract("C19", ["Bezier.__init__", "Bezier._align", "Transform.moveAndRotate", "PathUtilities.rawSlopeAngle"], params=[(n,) for n in (1, 2, 3, 4, 5)])
def straight(vc, n):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    dx, dy, cross, _ = baseline(vc, pts)
    L = vc.sqrt(dx * dx + dy * dy)
    near = vc.frac(1, 10000)
    if not vc.symbolic: vc.assume(all(abs(abs(k) / L - 0.0001) > 1e-7 for k in cross))
    c = vc.curve(B, pts)
    inside = vc.and_(*[z for k in cross for z in (k <= near * L, k >= -near * L)])
    if vc.symbolic:
        # the distances from the baseline, as the aligned curve (C11) has them
        rule = vc.theorem("scaling by a positive length", 3, lambda d, k, l: vc.implies(vc.and_(l > 0, vc.eq(d * l, k)), vc.and_(vc.iff(d <= near, k <= near * l), vc.iff(d >= -near, k >= -near * l))))
        lemmas = []
        for k, q in zip(cross, c.align().controlPoints):
            lemma = vc.and_(vc.iff(q[1] <= near, k <= near * L), vc.iff(q[1] >= -near, k >= -near * L))
            vc.lemma("distance", vc.eq(q[1] * L, k))
            rule(q[1], k, L)
            lemmas.append(lemma)
            vc.lemma("near", lemma)
        vc.lemma("all near", vc.iff(bool_term(vc, c._linear), inside), using=lemmas)
    vc.prove("straight exactly when every control point is within 0.0001 of the baseline", vc.iff(bool_term(vc, c._linear), inside))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C19", ["Bezier.__init__", "BezierUtilities.angle"], params=[(n,) for n in (1, 2, 3, 4, 5)])
def clockwise(vc, n):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    dx, dy, cross, dot = baseline(vc, pts)
    vc.assume(vc.not_(vc.and_(vc.exact(cross[1], 0), dot[1] <= 0)))
    if not vc.symbolic: vc.assume(cross[1] == 0 or abs(cross[1]) > 1e-9 * (dx * dx + dy * dy))
    c = vc.curve(B, pts)
    vc.prove("clockwise exactly when the first control point turns to the positive side", vc.iff(bool(c._clockwise), cross[1] > 0))
