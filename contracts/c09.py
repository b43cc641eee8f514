"""C09: derivative, tangent and normal are those of the curve."""
from pyvc.api import contract


@contract("C09", ["Bezier.dcPoints", "Bezier.get", "Bezier._compute"], params=[(n,) for n in range(1, 7)], tol=1e-6)
def hodographs(vc, n):
    """Taylor's formula with the hodographs' values as derivatives: they are the derivatives of every order."""
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    dc = c.dcPoints
    vc.prove("one hodograph per order, each a degree lower", len(dc) == n and all(len(d) == n - k for k, d in enumerate(dc)))
    t, h = vc.param("t"), vc.param("h")
    want, fact, power = list(vc.bernstein(pts, t)), 1, 1
    for k, d in enumerate(dc):
        fact, power = fact * (k + 1), power * h
        v = vc.bernstein(d, t)
        for i in range(2): want[i] = want[i] + v[i] * power * vc.frac(1, fact)
    vc.prove("Taylor's formula", vc.pteq(c.get(t + h), want))
    for k in range(1, n):
        vc.prove("derivative of the derivative", vc.and_(*[vc.pteq(q, tuple((n - k) * (b - a) for a, b in zip(dc[k - 1][i], dc[k - 1][i + 1]))) for i, q in enumerate(dc[k])]))
    vc.prove("asked again: the same", vc.eq([list(map(tuple, d)) for d in c.dcPoints], [list(map(tuple, d)) for d in dc]))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C09", ["Bezier._derivative"], params=[(n, k) for n in (1, 2, 3) for k in ("float", "Decimal")])
def derivative(vc, n, kind):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    c = vc.curve(B, pts)
    t = vc.param("t")
    d = c._derivative(t if kind == "float" else vc.Decimal(t))
    first = [tuple(n * (b - a) for a, b in zip(p, q)) for p, q in zip(pts, pts[1:])]
    vc.prove("the derivative", vc.pteq(tuple(vc.value(x) for x in d), vc.bernstein(first, t)))


def direction(vc, n):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    c = vc.curve(B, pts)
    t = vc.choose("at", (0, 1, None))
    if t is None: t = vc.param("t")
    dx, dy = vc.bernstein([tuple(n * (b - a) for a, b in zip(p, q)) for p, q in zip(pts, pts[1:])], t)
    vc.assume(vc.not_(vc.and_(vc.exact(dx, 0), vc.exact(dy, 0))))
    if not vc.symbolic: vc.assume(dx * dx + dy * dy > 1e-4)
    return c, t, dx, dy, vc.sqrt(dx * dx + dy * dy)


@contract("C09", ["Bezier.normal", "Bezier._normal"], params=[(1,), (2,), (3,)], tol=1e-6)
def normal(vc, n):
    c, t, dx, dy, q = direction(vc, n)
    for label, f in (("normal", c.normal), ("_normal", c._normal)):
        nx, ny = f(t)
        vc.prove(f"{label}: the unit tangent turned by +90 degrees", vc.and_(vc.eq(nx * q, -dy), vc.eq(ny * q, dx)))
        vc.prove(f"{label}: unit length", vc.eq(nx * nx + ny * ny, 1))


@contract("C09", ["Bezier._tangent"], params=[(1,), (2,), (3,)], tol=1e-6)
def tangent(vc, n):
    c, t, dx, dy, q = direction(vc, n)
    tx, ty = c._tangent(t)
    vc.prove("the derivative scaled to unit length", vc.and_(vc.eq(tx * q, dx), vc.eq(ty * q, dy), vc.eq(tx * tx + ty * ty, 1)))
