"""C18: arc length is the 24-point Gauss-Legendre length."""
from fractions import Fraction

from pyvc.api import contract
from . import common  # noqa: F401


def exactly(vc, v):
    v = vc.value(v) if vc.symbolic else v
    return Fraction(v)


def table(vc):
    U = vc.m("BezierUtilities")
    return [exactly(vc, v) for v in U.tValues], [exactly(vc, v) for v in U.cValues]


@contract("C18", ["BezierUtilities.tValues", "BezierUtilities.cValues"], exact=True)
def quadrature_table(vc):
    """Exact rational arithmetic on the decimal constants."""
    t, w = table(vc)
    vc.prove("24 nodes and weights", len(t) == len(w) == 24 and len(set(t)) == 24)
    vc.prove("nodes inside (-1, 1), weights positive", all(-1 < x < 1 for x in t) and all(x > 0 for x in w))
    vc.prove("symmetric", sorted(zip(t, w)) == sorted((-x, y) for x, y in zip(t, w)))
    eps = Fraction(1, 10 ** 36)
    for k in range(48):
        integral = Fraction(2, k + 1) if k % 2 == 0 else 0
        vc.prove(f"integrates x^{k} over [-1, 1] (to 36 digits)", abs(sum(y * x ** k for x, y in zip(t, w)) - integral) <= eps)


def speed2(vc, pts, s):
    n = len(pts) - 1
    dx, dy = vc.bernstein([tuple(n * (b - a) for a, b in zip(p, q)) for p, q in zip(pts, pts[1:])], s)
    return dx * dx + dy * dy


def quadrature(vc, pts):
    """The specification: the 24-point rule for the speed over [0, 1]."""
    t, w = table(vc)
    half = Fraction(1, 2)
    if not vc.symbolic: return sum(float(y) * vc.sqrt(speed2(vc, pts, float(half * x + half))) for x, y in zip(t, w)) / 2
    total = 0
    for x, y in zip(t, w): total = total + half * y * vc.sqrt(speed2(vc, pts, half * x + half))
    return total


@contract("C18", ["Bezier.length", "Bezier._arcfun", "Bezier._derivative"], params=[(1,), (2,), (3,)])
def length(vc, n):
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    got = vc.value(c.length)
    vc.prove("the 24-point quadrature of the speed", vc.eq(got, quadrature(vc, pts)))
    vc.prove("never negative", vc.ge(got, 0))
    vc.prove("asked again: the same", vc.eq(vc.value(c.length), got))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C18", ["Bezier.length"], params=[(1,), (2,), (3,)])
def moved(vc, n):
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    a, b = vc.pt("by")
    got = vc.value(vc.curve(B, pts).length)
    vc.prove("independent of translation", vc.eq(got, vc.value(B([(x + a, y + b) for x, y in pts]).length)))
    vc.prove("independent of the direction of travel", vc.eq(got, vc.value(B(pts[::-1]).length)))


@contract("C18", ["Bezier.length"], params=[(1,), (2,), (3,)])
def straight(vc, n):
    B = vc.modular()
    (x, y), (dx, dy) = vc.pt("p"), vc.pt("d")
    i = vc.frac(1, n)
    got = vc.value(B([(x + k * i * dx, y + k * i * dy) for k in range(n + 1)]).length)
    want = vc.sqrt(dx * dx + dy * dy)
    small = vc.frac(1, 10 ** 30)
    if vc.symbolic: vc.prove("exact for straight, uniformly parameterised curves (to 30 digits)", vc.and_(got - want <= small * want, want - got <= small * want))
    else: vc.prove("exact for straight, uniformly parameterised curves (to 30 digits)", vc.eq(got, want))


@contract("C18", ["Bezier.length"], params=[(1,), (2,), (3,)])
def context(vc, n):
    """The decimal context, whether the computation succeeds or fails (at any of its operations)."""
    B = vc.modular()
    c = B(vc.pts("p", n + 1))
    before = vc.prec()
    try:
        p = vc.int("prec", 3, 60)
        vc.setprec(p)
        with vc.decimal_fault():
            failed = vc.raises(lambda: c.length)
        vc.prove("precision as it was", vc.exact(vc.prec(), p))
        if failed:
            vc.prove("it can be computed later", vc.eq(vc.value(c.length), vc.value(B(list(c.controlPoints)).length)))
            vc.prove("precision as it was", vc.exact(vc.prec(), p))
    finally:
        vc.setprec(before)
