"""C26: matrix algebra and the Bernstein basis matrix."""
import math

from pyvc.api import contract

SIZES = (1, 2, 3, 4)


def matrix(vc, name, rows, cols):
    return [[vc.real(f"{name}{i}_{j}") for j in range(cols)] for i in range(rows)]


def same(vc, a, b):
    return vc.eq([list(r) for r in a], [list(r) for r in b])


@contract("C26", ["multiply", "row", "col"], params=[(a, b, c) for a in SIZES for b in SIZES for c in SIZES] + [(6, 6, 6), (1, 9, 1)], exact=True, conc_secs=0.1)
def product(vc, a, b, c):
    F = vc.m("CurveFitting")
    x, y = matrix(vc, "x", a, b), matrix(vc, "y", b, c)
    sx, sy = vc.snapshot(x), vc.snapshot(y)
    z = F.multiply(x, y)
    vc.prove("matrix product", same(vc, z, [[sum((x[i][k] * y[k][j] for k in range(b)), 0) for j in range(c)] for i in range(a)]))
    vc.prove_unchanged("frame", (x, sx), (y, sy))
    vc.prove("a new matrix", all(r is not q for r in z for q in (*x, *y)))


@contract("C26", ["transpose"], params=[(a, b) for a in (1, 2, 3, 4, 5) for b in (1, 2, 3, 4, 5)], exact=True, conc_secs=0.1)
def swap(vc, a, b):
    F = vc.m("CurveFitting")
    x = matrix(vc, "x", a, b)
    sx = vc.snapshot(x)
    t = F.transpose(x)
    vc.prove("rows and columns swapped", same(vc, t, [[x[i][j] for i in range(a)] for j in range(b)]))
    vc.prove("twice: the original", same(vc, F.transpose(t), x))
    vc.prove_unchanged("frame", (x, sx))
    vc.prove("a new matrix", all(r is not q for r in t for q in x))


def any_matrix(vc, name, rows, cols, ws, vs):
    """A matrix of any number of rows and columns, looked at in the rows ws and the columns vs."""
    X = lambda i, j: vc.at(name, i, j)
    return X, vc.seq(rows, lambda i: vc.seq(cols, lambda j: X(i, j), vs), ws)


@contract("C26", ["transpose"], symbolic_only=True)
def swap_any(vc):
    """Any number of rows and columns."""
    n, m, R, C = vc.int("n", 1), vc.int("m", 1), vc.int("R", 0), vc.int("C", 0)
    vc.assume(vc.and_(R < n, C < m))
    X, x = any_matrix(vc, "x", n, m, [R], [C])
    vc.ranges(R, C)
    t = vc.m("CurveFitting").transpose(x)
    vc.prove("as many rows as columns", vc.eq(vc.size(t), m))
    r = vc.item(t, C)
    vc.prove("as many columns as rows", vc.eq(vc.size(r), n))
    vc.prove("rows and columns swapped", vc.exact(vc.item(r, R), X(R, C)))


@contract("C26", ["multiply", "row", "col"], symbolic_only=True)
def product_any(vc):
    """Any sizes that fit; S(r, c, i): the sum of the first i products of row r and column c."""
    a, b, d, R, C = vc.int("a", 1), vc.int("b", 1), vc.int("c", 1), vc.int("R", 0), vc.int("C", 0)
    vc.assume(vc.and_(R < a, C < d))
    X, x = any_matrix(vc, "x", a, b, [R], [])
    Y, y = any_matrix(vc, "y", b, d, [], [C])
    vc.ranges(R, C)
    S = lambda r, c, i: vc.at("S", r, c, i)

    def invariant(vc, state, entry, what):
        r, c, k = state["r"], state["c"], state["#"]
        if what == "havoc":
            vc.known(vc.eq(S(r, c, k + 1), S(r, c, k) + X(r, k) * Y(k, c)))
            return {"a": S(r, c, k)}
        if what == "established": vc.known(vc.eq(S(r, c, vc.integer(0)), 0))
        vc.prove(f"{what}: the sum so far", vc.eq(state["a"], S(r, c, k)))
    vc.invariant("multiply", ("for", 2), ("M", "r", "mr", "_row", "c", "_col", "a", "i"), invariant)
    z = vc.m("CurveFitting").multiply(x, y)
    vc.prove("as many rows as the left one", vc.eq(vc.size(z), a))
    r = vc.item(z, R)
    vc.prove("as many columns as the right one", vc.eq(vc.size(r), d))
    vc.prove("row by column", vc.eq(vc.item(r, C), S(R, C, b)))


@contract("C26", ["formTMatrix", "raiseRowPower", "transpose"], params=[(m, n) for m in (1, 2, 3, 4, 5, 6) for n in (None, 1, 2, 3) if n is None or n <= m], conc_secs=0.2)
def powers(vc, m, n):
    F = vc.m("CurveFitting")
    s = [vc.real(f"s{i}", conc=(-2, 2)) for i in range(m)]
    snap = vc.snapshot(s)
    tt, t = F.formTMatrix(s) if n is None else F.formTMatrix(s, n)
    want = []
    for i in range(n or m):
        r = []
        for v in s:
            p = 1
            for _ in range(i): p = p * v
            r.append(p)
        want.append(r)
    vc.prove("powers of each parameter", same(vc, tt, want))
    vc.prove("and the transpose", same(vc, t, [[r[j] for r in want] for j in range(m)]))
    vc.prove_unchanged("frame", (s, snap))


@contract("C26", ["formTMatrix", "raiseRowPower", "transpose"], symbolic_only=True)
def powers_any(vc):
    """Any number of parameters and of powers."""
    m, n, r, c = vc.int("m", 1), vc.int("n", 1), vc.int("r", 0), vc.int("c", 0)
    s = vc.seq(m, lambda i: vc.at("s", i), [c])
    vc.ranges(vc.integer(0), r, c)
    given = vc.flag("given")
    if not given: vc.assume(vc.eq(n, m))
    vc.assume(vc.and_(r < n, c < m))
    F = vc.m("CurveFitting")
    tt, t = F.formTMatrix(s, n) if given else F.formTMatrix(s)
    for label, a, (rows, cols), (i, j) in (("a row for every power", tt, (n, m), (r, c)), ("and the transpose", t, (m, n), (c, r))):
        vc.prove(f"{label}: rows", vc.eq(vc.size(a), rows))
        vc.prove(f"{label}: columns", vc.eq(vc.size(vc.item(a, i)), cols))
        vc.prove(f"{label}: the powers", vc.eq(vc.item(vc.item(a, i), j), vc.power(vc.at("s", c), r)))


@contract("C26", ["binomial"], params=[(k,) for k in (1, 2, 3)], bound="sizes up to 30 in any order of up to three requests")
def coefficients(vc, history):
    F = vc.m("CurveFitting")
    sizes = (0, 1, 2, 5, 6, 7, 8, 11) if vc.symbolic else range(31)
    if history == 1: sizes = range(31)
    asked = [vc.choose(f"n{i}", sizes) for i in range(history)]
    for n in asked:
        ks = range(n + 1)
        if len(asked) > 1: ks = sorted({0, n // 2, n}, key=lambda k: -k)
        for k in ks: vc.prove("exact", F.binomial(n, k) == math.comb(n, k))
    for n in asked: vc.prove("still exact", all(F.binomial(n, k) == math.comb(n, k) for k in range(n + 1)))


@contract("C26", ["binomial"], symbolic_only=True)
def coefficients_any(vc):
    """Any size, whatever rows of Pascal's triangle the table has so far; B(n, k): the binomial coefficients, which Pascal's rule defines."""
    F = vc.m("CurveFitting")
    if not isinstance(getattr(F, "binomialCoefficients", None), list): return vc.prove("no such table", True)
    n, k, rows, N, K = [vc.int(x, 0) for x in ("n", "k", "rows", "N", "K")]
    vc.assume(vc.and_(k <= n, rows >= 1, K <= N))
    B = lambda n, k: vc.at("B", n, k)
    row = lambda i: vc.seq(i + 1, lambda j: B(i, j), [k, K, K - 1])
    table = lambda m: vc.list(vc.seq(m, row, [n, N, m - 1]))
    F.binomialCoefficients = lut = table(rows)
    vc.ranges(K)
    zero = vc.integer(0)
    now = []

    def invariant(vc, state, entry, what):
        l = state["lut"]
        if what == "havoc":
            m = vc.fresh_int("rows")
            vc.assume(m >= 1)
            for i in (m - 1, m): vc.known(vc.and_(vc.eq(B(i, zero), 1), vc.eq(B(i, i), 1)))
            vc.known(vc.implies(vc.and_(K >= 1, K <= m - 1), vc.eq(B(m, K), B(m - 1, K - 1) + B(m - 1, K))))
            now.append(m)
            return {"lut": table(m)}
        if l is not lut: vc.hard("another table")
        m = vc.size(l)
        if what == "established": return vc.prove("established: the table", vc.eq(m, rows))
        vc.prove(f"{what}: one row more", vc.eq(m, now[0] + 1))
        last = vc.item(l, now[0])
        vc.prove(f"{what}: its size", vc.eq(vc.size(last), now[0] + 1))
        if vc.when(K <= now[0]): vc.prove(f"{what}: Pascal's rule", vc.eq(vc.item(last, K), B(now[0], K)))
        if vc.when(N < now[0]): vc.prove(f"{what}: the rows before", vc.eq(vc.item(vc.item(l, N), K), B(N, K)))
    vc.invariant("binomial", 0, ("lut", "nextRow", "prev", "i"), invariant)
    b = F.binomial(n, k)
    vc.known(vc.eq(B(zero, zero), 1))
    vc.prove("the coefficient", vc.eq(b, B(n, k)))
    l = F.binomialCoefficients
    if l is not lut: vc.hard("another table")
    if vc.when(N < vc.size(l)): vc.prove("of binomial coefficients", vc.eq(vc.item(vc.item(l, N), K), B(N, K)))


@contract("C26", ["basisMatrix", "binomial"], params=[(1,), (2,)], bound="sizes up to 16 in any order of up to two requests")
def basis(vc, history):
    F = vc.m("CurveFitting")
    sizes = range(1, 17) if history == 1 else (1, 2, 3, 4, 5, 7, 8, 9, 12)
    asked = [vc.choose(f"n{i}", sizes) for i in range(history)]
    for n in asked:
        m = F.basisMatrix(n)
        # the coefficient of t^r in the Bernstein polynomial C(k, c) t^c (1 - t)^(k - c)
        k = n - 1
        want = [[math.comb(k, c) * math.comb(k - c, r - c) * (-1) ** (r - c) if c <= r else 0 for c in range(n)] for r in range(n)]
        vc.prove("coefficients of the Bernstein polynomials", [list(r) for r in m] == want)
        vc.prove("rows are separate", len({id(r) for r in m}) == n)
        t, x = vc.param("t"), [vc.real(f"x{i}") for i in range(min(n, 5))]
        if n <= 5:
            y = 0
            for r in reversed(range(n)): y = y * t + sum((m[r][c] * x[c] for c in range(n)), 0)
            vc.prove("the curve in power form", vc.eq(y, vc.bernstein1(x, t)))
