"""C27: curve fitting passes through the data at the chosen parameters."""
import z3

from pyvc.api import contract


def column(c):
    return [r[0] for r in c]


@contract("C27", ["computeTimeValues", "dist"], params=[(n, k) for n in (2, 3, 4, 5) for k in (None, 2, 3) if k is None or k <= n])
def parameters(vc, n, k):
    F = vc.m("CurveFitting")
    p = vc.pts("p", n)
    snap = vc.snapshot(p)
    m = k or n
    acc = [0]
    for i in range(1, m): acc.append(acc[-1] + vc.sqrt(vc.dist2(p[i - 1], p[i])))
    vc.assume(acc[-1] > 0)
    s = F.computeTimeValues(p) if k is None else F.computeTimeValues(p, k)
    vc.prove("one per point", len(s) == m)
    vc.prove("from 0 to 1", vc.and_(vc.eq(s[0], 0), vc.eq(s[-1], 1)))
    for a, b in zip(s, s[1:]): vc.prove("never decreasing", vc.le(a, b))
    for x, d in zip(s, acc): vc.prove("proportional to the accumulated distance", vc.eq(x * acc[-1], d))
    e = F.computeTimeValues(p, polygonal=False) if k is None else F.computeTimeValues(p, k, False)
    vc.prove("equally spaced on request", vc.eq(list(e), [vc.frac(i, m - 1) for i in range(m)]))
    vc.prove_unchanged("frame", (p, snap))


@contract("C27", ["computeTimeValues", "dist"], symbolic_only=True)
def parameters_any(vc):
    """Any number of points; A(i): the distance accumulated up to point i."""
    F = vc.m("CurveFitting")
    n, w, given = vc.int("n", 2), vc.int("w", 0), vc.flag("given")
    vc.assume(w < n)
    P, A = (lambda i: (vc.at("P.x", i), vc.at("P.y", i))), (lambda i: vc.at("A", i))
    p = vc.seq(n + vc.int("more", 0) if given else n, P, [w, n - 1])
    zero = vc.integer(0)

    def step(i): vc.known(vc.eq(A(i + 1), A(i) + vc.hypot(P(i), P(i + 1))))
    vc.known(vc.eq(A(zero), 0))
    vc.ranges(w)

    def invariant(vc, state, entry, what):
        k = state["#"]
        if what == "havoc":
            step(k)
            return {"d": vc.list(vc.seq(k + 1, A, [w, zero, k, n - 1]))}
        d = state["d"]
        vc.prove(f"{what}: one per point so far", vc.eq(vc.size(d), k + 1))
        if vc.when(w <= k): vc.prove(f"{what}: the accumulated distances", vc.eq(vc.item(d, w), A(w)))
        vc.prove(f"{what}: the last one", vc.eq(vc.item(d, vc.integer(0) + k), A(vc.integer(0) + k)))
    vc.invariant("computeTimeValues", ("for", 0), ("n", "d", "i", "length", "v"), invariant)
    vc.assume(A(n - 1) > 0)
    s = F.computeTimeValues(p, n) if given else F.computeTimeValues(p)
    vc.prove("one per point", vc.eq(vc.size(s), n))
    at = lambda i: vc.item(s, i)
    vc.prove("from 0 to 1", vc.and_(vc.eq(at(zero), 0), vc.eq(at(n - 1), 1)))
    vc.prove("proportional to the accumulated distance", vc.eq(at(w) * A(n - 1), A(w)))
    if vc.when(w < n - 1):
        step(w)
        vc.prove("never decreasing", vc.le(at(w), at(w + 1)))
    e = F.computeTimeValues(p, n, False) if given else F.computeTimeValues(p, polygonal=False)
    vc.prove("as many on request", vc.eq(vc.size(e), n))
    vc.prove("equally spaced on request", vc.eq(vc.item(e, w) * (n - 1), w))


def interpolates(vc, n, p, s, c):
    xs, ys = column(c[0]), column(c[1])
    vc.prove("one control point per basis function", len(xs) == n and len(ys) == n)
    for q, t in zip(p, s):
        vc.prove("through the point at its parameter", vc.pteq(vc.bernstein(list(zip(xs, ys)), t), q))


def use_inverse(vc, points):
    """matrixInvert through its contract (C25): the inverse, of a matrix that is invertible; a matrix of numbers is inverted by the real code."""
    calls = []

    def summary(real, m):
        if not any(vc.isterm(x) for r in m for x in r): return real(m)
        n = len(m)
        if n <= 4: vc.lemma("the Gram matrix is invertible", vc.eq(det(m), gram(points)))       # larger ones: the same identity, assumed
        inv = [[vc.real(f"inv{len(calls)}_{i}_{j}") for j in range(n)] for i in range(n)]
        calls.append(([list(r) for r in m], inv))
        return inv
    vc.summary("CurveFitting", "matrixInvert", summary)
    return calls


def det(m):
    if len(m) == 1: return m[0][0]
    return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), 0)


def gram(s):
    """The square of the Vandermonde determinant: not zero for distinct numbers."""
    out = 1
    for i, a in enumerate(s):
        for b in s[:i]: out = out * (a - b) * (a - b)
    return out


def argue(vc, n, p, s, c, calls):
    """Why the curve interpolates: the residual is orthogonal to all powers of the parameters, of which there are as many as points."""
    zero = vc.theorem("a zero product", 2, lambda a, b: vc.implies(vc.eq(a, 0), vc.eq(a * b, 0)))
    factor = vc.theorem("a zero factor", 2, lambda a, b: vc.implies(vc.and_(vc.eq(a * b, 0), vc.not_(vc.exact(a, 0))), vc.eq(b, 0)))
    for d in (0, 1):
        col = column(c[d])
        res = [vc.bernstein1(col, t) - q[d] for t, q in zip(s, p)]
        y = [sum((power(t, k) * q[d] for t, q in zip(s, p)), 0) for k in range(n)]
        for g, inv in calls:
            for i in range(n):
                for j in range(n):
                    e = sum((g[i][k] * inv[k][j] for k in range(n)), 0) - (1 if i == j else 0)
                    vc.known(vc.eq(e, 0))
                    zero(e, y[j])
        moments = [sum((power(t, k) * r for t, r in zip(s, res)), 0) for k in range(n)]
        for k in range(n): vc.lemma("residual orthogonal to every power", vc.eq(moments[k], 0))
        for j in range(n):
            # the polynomial that vanishes at the other parameters
            coef = [1]
            for i in range(n):
                if i != j: coef = [(coef[k - 1] if k else 0) - s[i] * (coef[k] if k < len(coef) else 0) for k in range(len(coef) + 1)]
            for k in range(n): zero(moments[k], coef[k])
            top = 1
            for i in range(n):
                if i != j: top = top * (s[j] - s[i])
            vc.lemma("Lagrange", vc.eq(top * res[j], 0))
            rest = [s[j] - s[i] for i in range(n) if i != j]
            for i in range(len(rest)):
                tail = res[j]
                for f in reversed(rest[i + 1:]): tail = f * tail
                factor(rest[i], tail)
            vc.lemma("no residual", vc.eq(res[j], 0))


def power(t, k):
    out = 1
    for _ in range(k): out = out * t
    return out


@contract("C27", ["bestFit", "getPointValuesColumn", "multiply", "formTMatrix"], params=[(1,), (2,), (3,), (4,)], tol=1e-3, budget=200)
def best_fit(vc, n):
    F = vc.m("CurveFitting")
    p = vc.pts("p", n)
    s = [vc.real(f"s{i}", conc=(0, 1)) for i in range(n)]
    vc.assume(vc.and_(*[vc.not_(vc.exact(a, b)) if vc.symbolic else abs(a - b) > 0.05 for i, a in enumerate(s) for b in s[:i]]))
    m = F.basisMatrix(n)
    snaps = [vc.snapshot(x) for x in (p, s, m)]
    calls = use_inverse(vc, s) if n > 2 else []
    c = F.bestFit(p, m, s)
    if vc.symbolic and n > 2: argue(vc, n, p, s, c, calls)
    interpolates(vc, n, p, s, c)
    vc.prove_unchanged("frame", *zip((p, s, m), snaps))


SPACED = {2: [(0, 1), (-1, 3)], 3: [(0, .25, 1), (0, .5, 1), (1, 0, .5)], 4: [(0, .25, .5, 1), (0, .125, .875, 1), (0, .5, .25, 1)],
          5: [(0, .25, .5, .75, 1), (0, .1, .2, .6, 1)], 6: [(0, .1, .2, .5, .9, 1)], 8: [(0, .125, .25, .375, .5, .625, .75, 1)]}


@contract("C27", ["bestFit"], params=[(n, i) for n, l in SPACED.items() for i in range(len(l))], tol=1e-3,
          bound="more than three points: a few parameter sequences, all points")
def best_fit_at(vc, n, i):
    F = vc.m("CurveFitting")
    p = vc.pts("p", n)
    s = [vc.value(v) for v in SPACED[n][i]]
    if vc.symbolic: s = [vc.frac(round(v * 1000), 1000) for v in s]
    else: s = [vc.ratio(round(v * 1000)) / 1000 for v in s]
    c = F.bestFit(p, F.basisMatrix(n), s)
    interpolates(vc, n, p, s, c)


@contract("C27", ["bestFit"], params=[(2, 3), (2, 4), (3, 4), (3, 5), (1, 3)], exact=True, bound="parameter sequences from a small set, all points")
def least_squares(vc, n, count):
    F = vc.m("CurveFitting")
    p = vc.pts("p", count)
    s = vc.choose("s", [[i for i in range(count)], [i * i for i in range(count)], [0, *range(2, count), 50]])
    s = [vc.frac(v, s[-1]) if vc.symbolic else vc.ratio(v) / s[-1] for v in s]
    c = F.bestFit(p, F.basisMatrix(n), s, n)
    xs, ys = column(c[0]), column(c[1])
    vc.prove("one control point per basis function", len(xs) == n and len(ys) == n)
    # the residual is orthogonal to every power of the parameters
    for d in (0, 1):
        res = [vc.bernstein1((xs, ys)[d], t) - q[d] for t, q in zip(s, p)]
        for k in range(n): vc.prove("residual orthogonal to every basis function", vc.eq(sum((r * t ** k for r, t in zip(res, s)), 0), 0))


def use_parameters(vc, n):
    """computeTimeValues through its contract: distinct parameters for distinct neighbours; a function of its arguments."""
    memo = {}

    def summary(real, p, n_=None, polygonal=True):
        if not polygonal or n_ is not None: return real(p, n_, polygonal)
        key = tuple(id(x) for x in p)
        if key not in memo:
            s = [vc.real(f"s{len(memo)}_{i}", 0, 1) for i in range(n)]
            for a, b in zip(s, s[1:]): vc.known(a < b)
            memo[key] = s, list(p)
        return list(memo[key][0])
    vc.summary("CurveFitting", "computeTimeValues", summary)


@contract("C27", ["fit"], params=[(2, True), (2, False), (3, False), (4, False), (5, False), (3, True), (4, True)], tol=1e-4, budget=200)
def whole(vc, n, polygonal):
    F = vc.m("CurveFitting")
    p = vc.pts("p", n)
    snap = vc.snapshot(p)
    steps = [vc.sqrt(vc.dist2(a, b)) for a, b in zip(p, p[1:])]
    if polygonal: vc.assume(vc.and_(*[d > 0 for d in steps]))
    calls = []
    if vc.symbolic and polygonal:
        use_parameters(vc, n)
        calls = use_inverse(vc, F.computeTimeValues(p))
    r = F.fit(p) if polygonal else F.fit(p, polygonal=False)
    vc.prove("the points, the basis matrix, the parameters, the curve", len(r) == 4 and r[0] is p)
    pts, m, s, c = r
    vc.prove("basis matrix", vc.eq([list(x) for x in m], [list(x) for x in F.basisMatrix(n)]))
    vc.prove("parameters", vc.eq(list(s), list(F.computeTimeValues(p, polygonal=polygonal))))
    if not vc.symbolic and polygonal: vc.assume(min(b - a for a, b in zip(s, s[1:])) > 0.05)
    if vc.symbolic and polygonal: argue(vc, n, p, s, c, calls)
    interpolates(vc, n, p, s, c)
    vc.prove_unchanged("frame", (p, snap))


class Words:
    """Matrices of any size by what they are products of: a matrix stands for a word over M, T, their transposes and inverses, and the columns of coordinates."""

    def __init__(self, vc):
        self.vc, self.known, self.keep, self.count = vc, {}, [], 0

    def name(self, matrix, word, rows, cols):
        self.known[id(matrix)] = (word, rows, cols)
        self.keep.append(matrix)
        return matrix

    def matrix(self, word, rows, cols):
        """A matrix of which only the word is known."""
        self.count += 1
        f = f"matrix{self.count}"
        return self.name(self.vc.seq(rows, lambda i: self.vc.seq(cols, lambda j: self.vc.at(f, i, j))), self.reduce(word), rows, cols)

    def of(self, m):
        if id(m) not in self.known: self.vc.hard("a matrix that is not built by these functions")
        return self.known[id(m)]

    def reduce(self, word):
        out = []
        for x in word:
            out.append(x)
            while self.cancel(out): pass
        return tuple(out)

    def cancel(self, out):
        for k in range(1, len(out)):
            if out[-1] == inverse(tuple(out[-k - 1:-1])) or out[-k - 1] == inverse(tuple(out[-k:])):
                del out[-k - 1:]
                return True
        return False


def inverse(word): return ("inv", word)


def exact_basis(n):
    from math import comb
    return [[comb(n - 1, c) * comb(n - 1 - c, r - c) * (-1) ** (r - c) if c <= r else 0 for c in range(n)] for r in range(n)]


def times(a, b): return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def turn(a): return [list(r) for r in zip(*a)]


def invert(m):
    from fractions import Fraction
    n = len(m)
    a = [[Fraction(x) for x in r] + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for i in range(n):
        p = next(r for r in range(i, n) if a[r][i] != 0)
        a[i], a[p] = a[p], a[i]
        a[i] = [x / a[i][i] for x in a[i]]
        for r in range(n):
            if r != i: a[r] = [x - a[r][i] * y for x, y in zip(a[r], a[i])]
    return [r[n:] for r in a]


def sample(word, n, count, d):
    """The value of a word for sample parameters and points."""
    T = [[(3 * i * i + i + 1) ** k for k in range(n)] for i in range(count)]
    of = {"M": exact_basis(n), "T": T, "T'": turn(T), "M'": turn(exact_basis(n)), "X0": [[7 * i % 5 + i * i] for i in range(count)], "X1": [[3 * i % 7 - i] for i in range(count)]}
    out = None
    for x in word:
        v = of[x] if isinstance(x, str) else invert(sample(x[1], n, count, d))
        out = v if out is None else times(out, v)
    return out


@contract("C27", ["bestFit", "getPointValuesColumn"], params=[(False,), (True,)], symbolic_only=True)
def best_fit_any(vc, fewer):
    """Any number of points and of basis functions: M C = (T' T)^-1 T' X, the normal equations' solution (T C interpolates if there are as many functions as points).
    multiply, transpose, formTMatrix (C26) and matrixInvert (C25) enter through their contracts; matrix products are associative."""
    F = vc.m("CurveFitting")
    count, n, w = vc.int("count", 1), vc.int("n", 1), vc.int("w", 0)
    vc.assume(vc.and_(w < count, n < count if fewer else vc.eq(n, count)))
    P = lambda i: (vc.at("P.x", i), vc.at("P.y", i))
    p, s = vc.seq(count, P, [w]), vc.seq(count, lambda i: vc.at("s", i), [w])
    W = Words(vc)
    m = W.matrix(("M",), n, n)
    T, Tt = W.matrix(("T",), count, n), W.matrix(("T'",), n, count)

    def form(real, row, k=None):
        if row is not s: vc.hard("powers of something else")
        vc.prove("as many powers as basis functions", vc.eq(n, count) if k is None else vc.eq(k, n))
        return Tt, T

    def multiply(real, a, b):
        u, r, k = W.of(a)
        if id(b) not in W.known:
            if not vc.decided(vc.eq(vc.size(b), count)): vc.hard("a matrix of another size")
            x = vc.item(b, w)
            if vc.size(x) != 1: vc.hard("not a column")
            d = [j for j in (0, 1) if vc.decided(vc.exact(vc.item(x, 0), P(w)[j]))]
            if not d: vc.hard("a column of something else")
            W.name(b, (f"X{d[0]}",), count, 1)
        v, l, c = W.of(b)
        vc.prove("matrices that fit", vc.eq(k, l))
        return W.matrix(u + v, r, c)

    def transpose(real, a):
        u, r, c = W.of(a)
        other = {"M": "M'", "M'": "M", "T": "T'", "T'": "T"}
        if not all(isinstance(x, str) and x in other for x in u): vc.hard("the transpose of something else")
        return W.matrix(tuple(other[x] for x in reversed(u)), c, r)

    def invert(real, a):
        u, r, c = W.of(a)
        vc.prove("a square matrix", vc.eq(r, c))
        if not all(isinstance(x, str) for x in u): vc.hard("the inverse of something else")
        return W.matrix((inverse(u),), r, c)
    for name, f in (("formTMatrix", form), ("multiply", multiply), ("transpose", transpose), ("matrixInvert", invert)): vc.summary("CurveFitting", name, f)
    c = F.bestFit(p, m, s, n) if fewer or vc.flag("given") else F.bestFit(p, m, s)
    vc.prove("a column for each coordinate", len(c) == 2)
    for d in (0, 1):
        word, rows, cols = W.of(c[d])
        vc.prove("one control point per basis function", vc.and_(vc.eq(rows, n), vc.eq(cols, 1)))
        got, want = W.reduce(("M",) + word), (inverse(("T'", "T")), "T'", f"X{d}")
        if got == want: vc.prove("the solution of the normal equations", True)
        else:
            for k in range(1, 8):
                l = k + 3 if fewer else k
                if vc.ctx.known_value(z3.And(n.e == k, count.e == l)) is False: continue
                if not same_value(got, want, k, l, d): vc.prove("the solution of the normal equations", vc.not_(vc.and_(vc.eq(n, k), vc.eq(count, l))))
            vc.hard("another product")


def same_value(a, b, n, count, d):
    try: return sample(a, n, count, d) == sample(b, n, count, d)
    except StopIteration: return False


@contract("C27", ["fit"], params=[(True,), (False,)], symbolic_only=True)
def whole_any(vc, polygonal):
    """Any number of points: the basis matrix, the parameters and the best fit of just these points (through their contracts)."""
    F = vc.m("CurveFitting")
    n, w = vc.int("n", 2), vc.int("w", 0)
    vc.assume(w < n)
    p = vc.seq(n, lambda i: (vc.at("P.x", i), vc.at("P.y", i)), [w])
    m, s, c = vc.seq(n, lambda i: vc.seq(n, lambda j: vc.at("m", i, j))), vc.seq(n, lambda i: vc.at("s", i), [w]), (object(), object())

    def basis(real, k):
        vc.prove("as many basis functions as points", vc.eq(k, n))
        return m

    def times_of(real, points, k=None, polygonal=True):
        vc.prove("the parameters of the points", points is p and (k is None or vc.decided(vc.eq(k, n))) and bool(polygonal) == how)
        return s

    def best(real, points, matrix, row, k=None):
        vc.prove("the fit of the points", points is p and matrix is m and row is s and (k is None or vc.decided(vc.eq(k, n))))
        return c
    how = polygonal
    for name, f in (("basisMatrix", basis), ("computeTimeValues", times_of), ("bestFit", best)): vc.summary("CurveFitting", name, f)
    r = F.fit(p, polygonal) if not polygonal or vc.flag("given") else F.fit(p)
    vc.prove("the points, the basis matrix, the parameters, the curve", len(r) == 4 and r[0] is p and r[1] is m and r[2] is s and r[3] is c)
