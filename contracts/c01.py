"""C01: transforms compose left to right and act point by point."""
from pyvc.api import contract

from .common import pointwise


def mat(vc, name):
    return [[vc.real(f"{name}{r}{c}") for c in range(3)] for r in range(3)]


def spec_row(row, m):
    return [row[0] * m[0][c] + row[1] * m[1][c] + row[2] * m[2][c] for c in range(3)]


def spec_apply(vc, m, p):
    """The homogeneous row vector rule; the weight must not vanish."""
    w = spec_row([p[0], p[1], 1], m)
    vc.assume(vc.not_(w[2] == 0))
    return (vc.div(w[0], w[2]), vc.div(w[1], w[2]))


@contract("C01", ["Transform.multiplyRowByMatrix"])
def multiply_row(vc):
    T = vc.m("Transform").Transform
    m = mat(vc, "m")
    row = [vc.real("r0"), vc.real("r1"), vc.real("r2")]
    sm, sr = vc.snapshot(m), vc.snapshot(row)
    out = T.multiplyRowByMatrix(row, m)
    vc.prove("row times matrix", vc.eq(out, spec_row(row, m)))
    vc.prove_unchanged("frame: row and matrix unchanged", (m, sm), (row, sr))


@contract("C01", ["Transform.multiplyMatrixByMatrix"])
def multiply_matrices(vc):
    T = vc.m("Transform").Transform
    a, b = mat(vc, "a"), mat(vc, "b")
    sa, sb = vc.snapshot(a), vc.snapshot(b)
    out = T.multiplyMatrixByMatrix(a, b)
    vc.prove("matrix product", vc.eq(out, [spec_row(r, b) for r in a]))
    vc.prove_unchanged("frame: both matrices unchanged", (a, sa), (b, sb))


@contract("C01", ["Transform.concatenateMatrices", "Transform.__init__", "Transform.transform", "Transform.applyToPoint"])
def compose(vc):
    T = vc.m("Transform").Transform
    n = vc.count("n", 1, 3, 6, (7, 8, 9, 12, 17))
    ms = [mat(vc, f"m{i}_") for i in range(n)]
    if vc.symbolic is False:
        vc.tol = 1e-5
    sm = vc.snapshot(ms)
    p = vc.pt("p")
    q, prod = p, None
    w = 1
    for i, m in enumerate(ms):
        wi = spec_row([q[0], q[1], 1], m)[2]
        q = spec_apply(vc, m, q)
        prod = m if prod is None else [spec_row(r, m) for r in prod]
        w = w * wi
        vc.lemma(f"the weight of a product is the product of the weights ({i})", vc.eq(spec_row([p[0], p[1], 1], prod)[2], w))
    t = T(*ms)
    st = vc.snapshot(t.transform)
    out = t.applyToPoint(p)
    vc.prove("same as applying each matrix in turn", vc.eq(out, q))
    vc.prove("asked again, the same", vc.eq(t.applyToPoint(p), q))
    vc.prove_unchanged("frame: matrices and transform unchanged", (ms, sm), (t.transform, st))


@contract("C01", ["Transform.applyToPoint"])
def apply_point(vc):
    T = vc.m("Transform").Transform
    m = mat(vc, "m")
    p = vc.pt("p")
    q = spec_apply(vc, m, p)
    t = T(m)
    vc.prove("homogeneous row vector rule", vc.eq(t.applyToPoint(p), q))


@contract("C01", ["Transform.applyToSegment", "Transform.applyToContour", "Transform.applyToContours"], params=[("segment",), ("contour",), ("contours",)])
def apply_many(vc, what):
    T = vc.m("Transform").Transform
    m = mat(vc, "m")
    t = T(m)
    memo = {}

    def build(name, depth):
        n = vc.count(name + "n", 0, 3 if what == "segment" else 2 if what == "contour" or depth else 1, 6, (9, 17, 40))
        if depth == 0:
            return vc.pts(name, n)
        return [build(f"{name}{i}_", depth - 1) for i in range(n)]

    def spec(x, depth):
        if depth < 0:
            return spec_apply(vc, m, x)
        return [spec(y, depth - 1) for y in x]

    depth = {"segment": 0, "contour": 1, "contours": 2}[what]
    arg = build("x", depth)
    want = spec(arg, depth)
    s, st = vc.snapshot(arg), vc.snapshot(t.transform)
    out = getattr(t, {"segment": "applyToSegment", "contour": "applyToContour", "contours": "applyToContours"}[what])(arg)
    vc.prove("every point, same number, order and nesting", vc.eq(out, want))
    vc.prove_unchanged("frame: argument and transform unchanged", (arg, s), (t.transform, st))


@contract("C01", ["Transform.applyToPoint", "Transform.applyToSegment", "Transform.applyToContour", "Transform.applyToContours"], params=[(0,), (1,), (2,)], symbolic_only=True)
def apply_any(vc, depth):
    """Segments, contours and lists of contours of any size: the arbitrary element at the indices w."""
    T = vc.m("Transform").Transform
    m = mat(vc, "m")
    t = T(m)
    pointwise(vc, depth, (t.applyToSegment, t.applyToContour, t.applyToContours)[depth], lambda p: spec_apply(vc, m, p))


@contract("C01", ["Transform.concatenateMatrices", "Transform.multiplyMatrixByMatrix", "Transform.__init__", "Transform.transform", "Transform.applyToPoint"], symbolic_only=True)
def compose_any(vc):
    """Any number of matrices.  P(i): the product of the first i; q(i): the point after the first i, W(i): its weight so far."""
    T = vc.m("Transform").Transform
    n = vc.int("n", 1)
    family = lambda name, i: [[vc.at(f"{name}{r}{c}", i) for c in range(3)] for r in range(3)]
    M, P = (lambda i: family("M", i)), (lambda i: family("P", i))
    ms = vc.seq(n, M)
    vc.known(vc.eq(P(vc.integer(1)), M(vc.integer(0))))

    def invariant(vc, state, entry, what):
        done = state["#"] + 1
        if what == "havoc":
            vc.known(vc.eq(P(done + 1), [spec_row(r, M(done)) for r in P(done)]))
            return {"concatenation": P(done)}
        vc.prove(f"{what}: the product of the matrices so far", vc.eq(state["concatenation"], P(done)))
    vc.invariant("Transform.concatenateMatrices", ("for", 0), ("concatenation", "matrix"), invariant)
    first = vc.snapshot(vc.item(ms, 0))
    t = T(*ms._vc_starargs())
    vc.prove("the product of all", vc.eq(t.transform, P(n)))
    vc.prove_unchanged("the matrices", (vc.item(ms, 0), first))
    # the point: (p 1) P(i) = W(i) (q(i) 1), by induction on i
    p, A, B = vc.pt("p"), mat(vc, "a"), mat(vc, "b")
    row, q, W = [p[0], p[1], 1], vc.pt("q"), vc.real("W")
    w = spec_row(row, A)[2]
    vc.prove("one matrix", vc.implies(vc.not_(vc.exact(w, 0)), vc.eq(spec_row(row, A)[:2], [w * vc.div(v, w) for v in spec_row(row, A)[:2]])) if not vc.when(vc.exact(w, 0)) else True)
    vc.prove("one more matrix: first the others, then it", vc.eq(spec_row(spec_row(row, A), B), spec_row(row, [spec_row(r, B) for r in A])))
    vc.prove("one more matrix: weights multiply", vc.eq(spec_row([W * q[0], W * q[1], W], B), [W * v for v in spec_row([q[0], q[1], 1], B)]))
    vc.assume(vc.not_(vc.exact(W, 0)))
    vc.known(vc.eq(spec_row(row, P(n)), [W * q[0], W * q[1], W]))
    vc.prove("same as applying each matrix in turn", vc.eq(t.applyToPoint(p), q))
