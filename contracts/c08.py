"""C08: curve evaluation is the Bernstein polynomial of the control points."""
from pyvc.api import contract


def de_casteljau(vc, pts, t):
    """Every level of linear interpolations, control points first."""
    out, level = list(pts), list(pts)
    while len(level) > 1:
        level = [tuple((1 - t) * a + t * b for a, b in zip(p, q)) for p, q in zip(level, level[1:])]
        out += level
    return out


@contract("C08", ["Bezier.get", "Bezier._compute", "Bezier.order", "Bezier.controlPoints", "Bezier.start", "Bezier.end", "Bezier.startX", "Bezier.startY", "Bezier.endX", "Bezier.endY", "Bezier.midpoint"],
          params=[(n,) for n in range(1, 11)])
def evaluate(vc, n):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c = vc.curve(B, pts)
    t = vc.unit() if vc.flag("inside") else vc.real("t")
    q = c.get(t)
    vc.prove("the Bernstein polynomial", vc.pteq(q, vc.bernstein(pts, t)))
    vc.prove("at 0: the first control point", vc.exact(tuple(c.get(0)), pts[0]) and vc.exact(tuple(c.start), pts[0]))
    vc.prove("at 1: the last control point", vc.exact(tuple(c.get(1)), pts[-1]) and vc.exact(tuple(c.end), pts[-1]))
    vc.prove("their coordinates", vc.exact([c.startX, c.startY, c.endX, c.endY], [*pts[0], *pts[-1]]))
    vc.prove("midpoint", vc.pteq(c.midpoint, vc.bernstein(pts, vc.frac(1, 2))))
    vc.prove("order", vc.exact(c.order, n))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C08", ["Bezier.get", "Bezier._compute"], params=[(n,) for n in range(11, 16)], level="bounded", bound="drawn control points and parameters", concrete_only=True)
def evaluate_high(vc, n):
    evaluate(vc, n)


def any_curve(vc, n, *ws):
    """A curve of any order n; P_i are its control points."""
    P = lambda i: (vc.at("P.x", i), vc.at("P.y", i))
    return P, vc.modular()(vc.seq(n + 1, P, ws))


def levels(vc, t):
    """D(r, i): the i-th point of the r-th level of interpolations; next(r, i): what defines it."""
    D = lambda r, i: (vc.at("D.x", r, i), vc.at("D.y", r, i))
    return D, lambda r, i: vc.known(vc.eq(D(r + 1, i), tuple((1 - t) * a + t * b for a, b in zip(D(r, i), D(r, i + 1)))))


@contract("C08", ["Bezier.get", "Bezier._compute"], symbolic_only=True)
def evaluate_any(vc):
    """Any order from 4 on: the loop computes de Casteljau's levels."""
    n, w, r, t = vc.int("n", 4), vc.int("w", 0), vc.int("r", 0), vc.real("t")
    P, c = any_curve(vc, n, vc.integer(0), n)
    D, define = levels(vc, t)
    vc.ranges(w)
    now = []

    def invariant(vc, state, entry, what):
        l = state["dcPoints"]
        if what == "havoc":
            vc.assume(r <= n)
            for i in (w, w + 1, vc.integer(0)): vc.known(vc.eq(D(vc.integer(0), i), P(i)))
            define(r, w)
            now.append(r)
            return {"dcPoints": vc.seq(n + 1 - r, lambda i: D(r, i), [w, w + 1])}
        level = r + 1 if now else vc.integer(0)
        if not now: vc.known(vc.eq(D(level, w), P(w)))
        vc.prove(f"{what}: as many points as the level has", vc.and_(vc.eq(vc.size(l), n + 1 - level), level <= n))
        if vc.when(w <= n - level): vc.prove(f"{what}: the level's points", vc.pteq(vc.item(l, w), D(level, w)))
    vc.invariant("Bezier._compute", 0, ("dcPoints", "newPoints"), invariant)
    q = c.get(t)
    if vc.when(vc.exact(t, 0)): vc.prove("at 0: the first control point", vc.exact(tuple(q), P(vc.integer(0))))
    elif vc.when(vc.exact(t, 1)): vc.prove("at 1: the last control point", vc.exact(tuple(q), P(n)))
    else: vc.prove("the last level's point", vc.pteq(q, D(n, vc.integer(0))))


@contract("C08", [], symbolic_only=True)
def levels_are_bernstein(vc):
    """D(r, i) is the Bernstein polynomial of P_i .. P_(i+r), for all r: induction over the level and over its terms.
    b(k, r) = C(r, k) t^k (1-t)^(r-k), 0 outside 0..r; S(m, r, i): the first m terms b(k, r) P_(i+k) of its sum."""
    t, k, r = vc.real("t"), vc.int("k", 1), vc.int("r", 0)
    vc.assume(k <= r)
    C, p, q, b = (lambda r, k: vc.at("C", r, k)), (lambda k: vc.at("power of t", k)), (lambda k: vc.at("power of 1-t", k)), (lambda k, r: vc.at("b", k, r))
    vc.known(vc.eq(C(r + 1, k), C(r, k) + C(r, k - 1)))
    vc.known(vc.and_(vc.eq(p(k), t * p(k - 1)), vc.eq(q(r + 1 - k), (1 - t) * q(r - k))))
    vc.prove("Pascal", vc.eq(C(r + 1, k) * p(k) * q(r + 1 - k), (1 - t) * (C(r, k) * p(k) * q(r - k)) + t * (C(r, k - 1) * p(k - 1) * q(r + 1 - k))))
    m, i = vc.int("m", 0), vc.int("i", 0)
    P, S = (lambda i: vc.at("P", i)), (lambda m, r, i: vc.at("S", m, r, i))
    term = lambda m, r, i: vc.known(vc.eq(S(m + 1, r, i), S(m, r, i) + b(m, r) * P(i + m)))
    zero = vc.integer(0)
    # S(m+1, r+1, i) = (1-t) S(m+1, r, i) + t S(m, r, i+1), by induction over m
    for l in (r, r + 1): vc.known(vc.eq(S(zero, l, i), 0))
    vc.known(vc.eq(S(zero, r, i + 1), 0))
    for l in (r, r + 1): term(zero, l, i)
    vc.known(vc.eq(b(zero, r + 1), (1 - t) * b(zero, r)))
    whole = lambda m: vc.eq(S(m + 1, r + 1, i), (1 - t) * S(m + 1, r, i) + t * S(m, r, i + 1))
    vc.prove("the first term", whole(zero))
    for l in (r, r + 1): term(m + 1, l, i)
    term(m, r, i + 1)
    vc.known(vc.eq(b(m + 1, r + 1), (1 - t) * b(m + 1, r) + t * b(m, r)))
    vc.prove("one more term", vc.implies(whole(m), whole(m + 1)))
    # all of them: S(r+2, r, i) = S(r+1, r, i)
    vc.known(vc.eq(b(r + 1, r), 0))
    term(r + 1, r, i)
    vc.known(whole(r + 1))
    vc.prove("one more level", vc.eq(S(r + 2, r + 1, i), (1 - t) * S(r + 1, r, i) + t * S(r + 1, r, i + 1)))


@contract("C08", ["Bezier.getLUT"], symbolic_only=True)
def tables_any(vc):
    """Tables of any size, whatever table was asked for before (the only thing a table leaves behind is itself)."""
    n, m, w = vc.int("n", 2), vc.int("m", 2), vc.int("w", 0)
    c = any_curve(vc, vc.int("order", 1))[1]
    vc.ranges(w)
    G = lambda t: (vc.function("G.x", t), vc.function("G.y", t))
    vc.summary("Bezier", "Bezier.get", lambda real, self, t: G(t))
    for k, size in enumerate([n] if vc.flag("fresh") else [m, n]):
        lut = c.getLUT(size)
        vc.prove(f"request {k}: exactly n points", vc.eq(vc.size(lut), size))
        if vc.when(w < size): vc.prove(f"request {k}: equally spaced parameters", vc.pteq(vc.item(lut, w), G(vc.div(w, size - 1))))


@contract("C08", ["Bezier.hull", "BezierUtilities.lerp"], params=[(n,) for n in range(1, 6)])
def hull(vc, n):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    c = vc.curve(B, pts)
    t = vc.real("t")
    h = c.hull(t)
    want = de_casteljau(vc, pts, t)
    vc.prove("as many points as levels give", vc.exact(len(h), len(want)))
    vc.prove("control points first", vc.exact([tuple(p) for p in h[:n + 1]], pts))
    vc.prove("then every level", vc.and_(*[vc.pteq(a, b) for a, b in zip(h, want)]))
    vc.prove("last: the point at t", vc.pteq(h[-1], vc.bernstein(pts, t)))


@contract("C08", ["Bezier.hull", "BezierUtilities.lerp"], symbolic_only=True)
def hull_any(vc):
    """Any order: level R (of n + 1 - R points) begins at the hull's point off(R)."""
    n, R, I, r, t = vc.int("n", 1), vc.int("R", 0), vc.int("I", 0), vc.int("r", 0), vc.real("t")
    vc.assume(vc.and_(R <= n, I <= n - R))
    P, c = any_curve(vc, n, I, I + 1)
    D, define = levels(vc, t)
    off = lambda r: vc.intat("off", r)
    zero = vc.integer(0)
    vc.known(vc.and_(vc.eq(off(zero), 0), vc.eq(off(zero + 1), n + 1)))
    for l in (R, r, r + 1): vc.known(vc.eq(off(l + 1), off(l) + (n + 1 - l)))
    vc.known(vc.implies(R <= r, off(R + 1) <= off(r + 1)))      # by induction: every level up to n has points
    for i in (I, I + 1): vc.known(vc.eq(D(zero, i), P(i)))
    vc.ranges(I)
    now = []

    def invariant(vc, state, entry, what):
        if what == "havoc":
            vc.assume(r <= n)
            define(r, I)
            now.append(r)
            vc.known(vc.implies(R <= r, vc.eq((vc.at("q.x", off(R) + I), vc.at("q.y", off(R) + I)), D(R, I))))
            return {"p": vc.seq(n + 1 - r, lambda i: D(r, i), [I, I + 1]), "q": vc.list(vc.seq(off(r + 1), lambda i: (vc.at("q.x", i), vc.at("q.y", i)), [off(R) + I]))}
        level = r + 1 if now else zero
        p, q = state["p"], state["q"]
        vc.prove(f"{what}: the level's size", vc.and_(vc.eq(vc.size(p), n + 1 - level), level <= n))
        if vc.when(I <= n - level): vc.prove(f"{what}: the level's points", vc.pteq(vc.item(p, I), D(level, I)))
        vc.prove(f"{what}: the levels so far", vc.eq(vc.size(q), off(level + 1)))
        if vc.when(R <= level): vc.prove(f"{what}: the points so far", vc.pteq(vc.item(q, off(R) + I), D(R, I)))
    vc.invariant("Bezier.hull", 0, ("p", "q", "_p", "pt"), invariant)
    h = c.hull(t)
    vc.prove("as many points as the levels have", vc.eq(vc.size(h), off(n + 1)))
    vc.prove("every level, in order", vc.pteq(vc.item(h, off(R) + I), D(R, I)))


def table_ok(vc, label, lut, pts, n):
    vc.prove(f"{label}: exactly n points", vc.exact(len(lut), n))
    vc.prove(f"{label}: equally spaced parameters", vc.and_(*[vc.pteq(q, vc.bernstein(pts, vc.frac(i, n - 1))) for i, q in enumerate(lut)]))


@contract("C08", ["Bezier.getLUT"], params=[(1,), (2,), (3,), (4,)], bound="table sizes up to 7, three requests symbolically")
def tables(vc, order):
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", order + 1)
    c = vc.curve(B, pts)
    for k in range(vc.count("k", 1, 2, 4)):
        n = vc.count(f"n{k}", 2, 6, 40, (64, 99, 100, 101, 128, 200, 257, 500, 1001))
        if vc.symbolic or not vc.flag(f"other{k}"): lut = c.getLUT(n)
        else:
            n, lut = 100, c.getLUT()
        table_ok(vc, f"request {k}", lut, pts, n)


@contract("C08", ["BezierUtilities.map", "BezierUtilities.lerp"])
def helpers(vc):
    U = vc.m("BezierUtilities")
    v, ds, de, ts, te = [vc.real(x) for x in ("v", "ds", "de", "ts", "te")]
    vc.assume(vc.not_(vc.exact(ds, de)))
    vc.prove("map: linear", vc.eq((U.map(v, ds, de, ts, te) - ts) * (de - ds), (v - ds) * (te - ts)))
    a, b = vc.pt("a"), vc.pt("b")
    vc.prove("lerp", vc.pteq(U.lerp(v, a, b), tuple((1 - v) * x + v * y for x, y in zip(a, b))))
