"""C25: matrix inversion returns the inverse, or nothing."""
from fractions import Fraction

import z3

from pyvc.api import contract
from pyvc.sym import Sym

LARGE = (4, 5, 6, 7, 8)


def product(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(len(b))), 0) for j in range(len(b[0]))] for i in range(len(a))]


def det(m):
    if len(m) == 1: return m[0][0]
    return sum(((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))), 0)


def identity(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


@contract("C25", ["matrixInvert"], params=[(1,), (2,), (3,)], exact=True, budget=250)
def invert(vc, n):
    I = vc.m("MatrixInversion")
    m = [[vc.real(f"m{i}{j}") for j in range(n)] for i in range(n)]
    snap = vc.snapshot(m)
    d = det(m)
    r = I.matrixInvert(m)
    if r is None:
        vc.prove("nothing only if singular", vc.eq(d, 0))
    else:
        vc.prove("shape", isinstance(r, list) and len(r) == n and all(isinstance(x, list) and len(x) == n for x in r))
        vc.prove("inverse on the right", vc.eq(product(m, r), identity(n)))
        vc.prove("inverse on the left", vc.eq(product(r, m), identity(n)))
        vc.prove("the argument is not shared", r is not m and all(x is not y for x in r for y in m))
    vc.prove_unchanged("frame", (m, snap))


class Steps:
    """What one iteration does to the rows, as a matrix: E, read off what happened to the rows of J (which only enter linearly), and its inverse."""

    def __init__(self, vc, J, after):
        self.vc, self.n = vc, len(J)
        self.ctx = vc.ctx
        self.unit = {J[r][k].e.decl().name(): int(r == k) for r in range(self.n) for k in range(self.n)}
        self.E = [[self.walk(x) for x in row] for row in after]

    def walk(self, x):
        if not hasattr(x, "e"): return x
        return self.term(z3.simplify(x.e))

    def term(self, e):
        if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
        a = [self.term(x) for x in e.children()] if e.num_args() else []
        if z3.is_const(e):
            name = e.decl().name()
            if name in self.unit: return self.unit[name]
            if name in self.ctx.defs: return self.quotient(*[self.term(x) for x in self.ctx.defs[name]])
            return Sym(e)
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD: return sum(a[1:], a[0])
        if k == z3.Z3_OP_MUL:
            out = a[0]
            for x in a[1:]: out = 0 if zero(out) or zero(x) else out * x
            return out
        if k == z3.Z3_OP_UMINUS: return -a[0]
        if k == z3.Z3_OP_SUB: return a[0] - sum(a[1:], 0)
        self.vc.hard(f"an iteration whose effect on the rows is not a matrix ({e.decl()})")

    def quotient(self, a, b): return 0 if zero(a) else self.ctx.divide(a, b)

    def inverse(self):
        """Of a matrix all of whose columns but one are those of a permutation."""
        n, E = self.n, self.E
        at, odd = {}, []
        for c in range(n):
            ones = [r for r in range(n) if not zero(E[r][c])]
            if len(ones) == 1 and one(E[ones[0]][c]) and ones[0] not in at: at[ones[0]] = c
            else: odd.append(c)
        rows = [r for r in range(n) if r not in at]
        if len(odd) > 1: self.vc.hard("an iteration that does more than one elimination")
        F = [[0] * n for _ in range(n)]
        for r, c in at.items(): F[c][r] = 1
        for q in odd:
            p = rows[0]
            F[q][p] = self.quotient(1, E[p][q])
            for r, c in at.items():
                if not zero(E[r][q]): F[c][p] = -self.quotient(E[r][q], E[p][q])
        return F


def zero(x): return not hasattr(x, "e") and x == 0
def one(x): return not hasattr(x, "e") and x == 1


@contract("C25", [], params=[(n,) for n in LARGE], symbolic_only=True)
def algebra(vc, n):
    """What the invariant of invert_any_step concludes from one iteration, for arbitrary matrices (matrix products are associative)."""
    A, B, C = [[[vc.real(f"{x}{i}{j}") for j in range(n)] for i in range(n)] for x in "abc"]
    r, c = 0, n - 1          # rows and columns are arbitrary: those of A and C do not mix
    left = product([product([A[r]], B)[0]], [[x[c]] for x in C])
    right = product([A[r]], product(B, [[x[c]] for x in C]))
    vc.prove("associative", vc.eq(left, right))


@contract("C25", ["matrixInvert"], params=[(n,) for n in LARGE], symbolic_only=True, budget=60)
def invert_by_steps(vc, n):
    """The elimination loop by its invariant: the first # columns of C are those of the identity, and there are invertible J (the list I) and K, its
    inverse, with J M = C.  One iteration multiplies J and C by an invertible matrix E: J' = E J, C' = E C, K' = K E^-1 (contract algebra)."""
    m = [[vc.real(f"m{i}{j}") for j in range(n)] for i in range(n)]
    snap = vc.snapshot(m)
    now = {}
    same_terms = lambda a, b: all(len(x) == n and all(vc.decided(vc.exact(p, q)) for p, q in zip(x, y)) for x, y in zip(a, b))

    def invariant(vc, state, entry, what):
        k, C, J = state["#"], state.get("C"), state.get("I")
        if what == "established":
            if now or any(not isinstance(x, list) or len(x) != n for x in (C, J, state["items"])) or not same_terms(C, m) or not same_terms(J, identity(n)): vc.decline()
            if C is m or any(x is y for x in C for y in m): vc.hard("not a copy")
            return vc.prove("established: C is M, J is the identity", vc.and_(vc.eq(C, m), vc.eq(J, identity(n))))
        if what == "havoc":
            J = [[vc.fresh(f"J{r}{c}") for c in range(n)] for r in range(n)]
            C = [[int(r == c) if c < k else vc.fresh(f"C{r}{c}") for c in range(n)] for r in range(n)]
            now.update(k=k, J=[list(r) for r in J], C=[list(r) for r in C])
            return {"C": C, "I": J}
        if k != now["k"] + 1: vc.hard("another loop")
        S = Steps(vc, now["J"], J)
        F = S.inverse()
        vc.prove("preserved: the rows of I are combined", vc.eq(J, product(S.E, now["J"])))
        vc.prove("preserved: those of C in the same way", vc.eq(C, product(S.E, now["C"])))
        vc.prove("preserved: reversibly", vc.and_(vc.eq(product(S.E, F), identity(n)), vc.eq(product(F, S.E), identity(n))))
        vc.prove("preserved: one more column of the identity", vc.eq([[r[c] for r in C] for c in range(k)], identity(n)[:k]))
    vc.invariant("matrixInvert", "for", ("C", "I"), invariant)
    r = vc.m("MatrixInversion").matrixInvert(m)
    if not now: vc.hard("no elimination loop")
    k, C = now["k"], now["C"]
    if r is None:
        if k == n: vc.hard("nothing after the elimination")
        # v = (-C[0][k], ..., -C[k-1][k], 1, 0, ...) is not zero, and C v = 0 if the rest of column k is; then M v = K C v = 0
        v = [-C[c][k] for c in range(k)] + [1] + [0] * (n - k - 1)
        vc.prove("nothing only if singular", vc.eq([sum((C[i][j] * v[j] for j in range(n) if not zero(v[j])), 0) for i in range(n)], [0] * n))
    else:
        # J M = C and K J = 1: if C is the identity, J M = 1, K = K C = M, M J = 1
        vc.prove("inverse: all columns are those of the identity", k == n and vc.decided(vc.eq(C, identity(n))))
        vc.prove("inverse: J is returned", len(r) == n and vc.eq(r, now["J"]))
    vc.prove_unchanged("frame", (m, snap))


@contract("C25", ["matrixInvert"], params=[(4,), (5,), (6,)], exact=True, concrete_only=True, level="bounded", conc_secs=2,
          bound="4x4 to 6x6 matrices of drawn small integers (many of them singular or with zero pivots), exact rational arithmetic")
def invert_large(vc, n):
    lim = vc.choose("size", (1, 1, 2, 9))
    m = [[vc.int(f"m{i}{j}", -lim, lim) for j in range(n)] for i in range(n)]
    if vc.flag("sparse"): m = [[x if vc.choose(f"z{i}{j}", (0, 1)) else 0 for j, x in enumerate(r)] for i, r in enumerate(m)]
    if vc.flag("dependent"): m[-1] = [x + y for x, y in zip(m[0], m[1])]
    m = [[vc.ratio(x) for x in r] for r in m]
    snap = vc.snapshot(m)
    r = vc.m("MatrixInversion").matrixInvert(m)
    if r is None: vc.prove("nothing only if singular", det(m) == 0)
    else: vc.prove("inverse", product(m, r) == identity(n) and product(r, m) == identity(n))
    vc.prove_unchanged("frame", (m, snap))


@contract("C25", ["matrixInvert"], params=[(r, c) for r in range(1, 6) for c in range(1, 6) if r != c])
def not_square(vc, rows, cols):
    I = vc.m("MatrixInversion")
    m = [[vc.real(f"m{i}{j}") for j in range(cols)] for i in range(rows)]
    snap = vc.snapshot(m)
    vc.prove("nothing", I.matrixInvert(m) is None)
    vc.prove_unchanged("frame", (m, snap))
