"""C16: curve-curve intersection is sound and complete to its threshold."""
from pyvc.api import contract
from . import common  # noqa: F401


class Many:
    """A comparison of two pieces; where it is a result, the pairs it reports: some number of them, at least one."""

    def __init__(self, one, two): self.one, self.two = one, two


class World:
    """Two curves, known by the values of their coordinates at a few parameters, and pieces of them, known by split's and the boxes' contracts."""

    def __init__(self, vc):
        self.vc, self.span, self.keep, self.boxes, self.samples = vc, {}, [], {}, {1: [], 2: []}
        self.calls = []

    def piece(self, which, lo, hi):
        p = object.__new__(self.vc.m("Bezier").Bezier)
        p._t1, p._t2 = lo, hi
        self.span[id(p)] = (which, lo, hi)
        self.keep.append(p)
        return p

    def split(self, real, c, t1, t2=None):
        vc = self.vc
        which, lo, hi = self.span[id(c)]
        m = lo + (hi - lo) * t1
        if t2 is not None:
            vc.prove("split is asked for an interval", vc.and_(0 <= t1, t1 < t2, t2 <= 1))
            return self.piece(which, m, lo + (hi - lo) * t2)
        vc.prove("split inside", vc.and_(0 <= t1, t1 <= 1))
        return self.piece(which, lo, m), self.piece(which, m, hi), None

    def sample(self, which, t):
        """The point of a curve at the parameter t: inside the box of every piece that covers t."""
        p = self.vc.pt(f"c{which}at{len(self.samples[which])}")
        self.samples[which].append((t, p))
        for c in self.keep:
            if id(c) in self.boxes: self.inside(c, t, p)
        return p

    def inside(self, c, t, p):
        vc = self.vc
        which, lo, hi = self.span[id(c)]
        r = self.boxes[id(c)]
        vc.known(vc.implies(vc.and_(lo <= t, t <= hi), vc.and_(r.left <= p[0], p[0] <= r.right, r.bottom <= p[1], p[1] <= r.top)))

    def box(self, real, c):
        vc = self.vc
        if id(c) not in self.boxes:
            n = len(self.boxes)
            l, b, r, t = [vc.real(f"box{n}.{k}") for k in "lbrt"]
            vc.known(vc.and_(l <= r, b <= t))
            self.boxes[id(c)] = vc.m("PathUtilities").BoundsRectangle((l, b), (r, t))
            for u, p in self.samples[self.span[id(c)][0]]: self.inside(c, u, p)
        return self.boxes[id(c)]

    def apart(self, a, b):
        """Do the boxes have no point in common?"""
        vc = self.vc
        r, s = self.box(None, a), self.box(None, b)
        return vc.or_(r.right < s.left, s.right < r.left, r.top < s.bottom, s.top < r.bottom)

    def install(self):
        vc = self.vc
        vc.summary("Bezier", "Bezier.split", self.split)
        vc.summary("Bezier", "Bezier.boundsRectangle", self.box)

    def meeting(self, a, b):
        """A pair of parameters at which the two pieces meet."""
        vc = self.vc
        (_, lo, hi), (_, lo2, hi2) = self.span[id(a)], self.span[id(b)]
        s, t = vc.real("s"), vc.real("t")
        vc.assume(vc.and_(lo <= s, s <= hi, lo2 <= t, t <= hi2))
        return s, t

    def covers(self, m, s, t):
        vc = self.vc
        (_, lo, hi), (_, lo2, hi2) = self.span[id(m.one)], self.span[id(m.two)]
        return vc.and_(lo <= s, s <= hi, lo2 <= t, t <= hi2)


@contract("C16", ["Bezier.pairiteration", "Bezier.overlaps"], params=[("sound",), ("complete",), ("several",)], bound="comparisons of halves that report at most one pair each, or one that reports three", symbolic_only=True)
def pairs(vc, what):
    """pairiteration against its own contract.  Compared are two pieces whose boxes share a point (sound) or which meet (complete)."""
    w = World(vc)
    B = vc.modular()
    w.install()
    a, b, c, d = [vc.real(n, 0, 1) for n in ("a", "b", "c", "d")]
    vc.assume(vc.and_(a < b, c < d))
    one, two = w.piece(1, a, b), w.piece(2, c, d)
    threshold = vc.real("threshold")
    vc.assume(threshold > 0)
    if what == "complete":
        s, t = w.meeting(one, two)
        p = w.sample(1, s)
        q = w.sample(2, t)
        vc.assume(vc.pteq(p, q))
    else:
        vc.assume(vc.not_(w.apart(one, two)))
    depth = []
    if what == "several": which = vc.choose("which", range(4))

    def again(real, x, y, th=None):
        if not depth:
            depth.append(1)
            return real(x, y, th)
        (i, lo, hi), (j, lo2, hi2) = w.span[id(x)], w.span[id(y)]
        vc.prove("compares a piece of the first with a piece of the second, at the same threshold", (i, j) == (1, 2) and th is not None and vc.decided(vc.exact(th, threshold)))
        vc.prove("compared pieces lie within", vc.and_(a <= lo, lo < hi, hi <= b, c <= lo2, lo2 < hi2, hi2 <= d))
        vc.prove("compared pieces are smaller", vc.or_(2 * (hi - lo) <= b - a, 2 * (hi2 - lo2) <= d - c))
        vc.prove("compared pieces' boxes share a point", vc.not_(w.apart(x, y)))
        k = len(w.calls)
        if what == "several": n = 3 if k == which else 0
        else: n = vc.choose(f"reported{k}", range(2))
        found = [(vc.real(f"s{k}{i}"), vc.real(f"t{k}{i}")) for i in range(n)]
        for i in range(n):
            for j in range(i): vc.assume(vc.not_(vc.exact(found[i], found[j])))
        w.calls.append((Many(x, y), found))
        if what == "complete" and not found: vc.known(vc.not_(w.covers(w.calls[-1][0], s, t)))       # they don't meet there
        return list(found)
    vc.summary("Bezier", "Bezier.pairiteration", again)
    vc.summary("Bezier", "Bezier.overlaps", lambda real, x, y: not vc.when(w.apart(x, y)))          # contract overlaps, here and in C12
    got = B.pairiteration(one, two, threshold)
    if not w.calls and got:
        vc.prove("one pair", len(got) == 1)
        vc.prove("the middle of both", vc.eq(got[0], ((a + b) / 2, (c + d) / 2)))
        r, q = w.box(None, one), w.box(None, two)
        vc.prove("reported only if both pieces are smaller than the threshold", vc.and_(r.right - r.left + r.top - r.bottom < threshold, q.right - q.left + q.top - q.bottom < threshold))
        if what == "sound":
            u, v = w.sample(1, (a + b) / 2), w.sample(2, (c + d) / 2)
            vc.prove("closer than twice the threshold", vc.and_(*[vc.and_(x - y < 2 * threshold, y - x < 2 * threshold) for x, y in zip(u, v)]))
        return
    made = [(m, g) for m, found in w.calls for g in found]
    vc.prove("what the halves' comparisons reported", vc.and_(*[vc.or_(*[vc.exact(x, g) for _, g in made]) for x in got], *[vc.or_(*[vc.exact(x, g) for x in got]) for _, g in made]))
    vc.prove("without duplicates", vc.and_(*[vc.not_(vc.exact(x, y)) for i, x in enumerate(got) for y in got[:i]]))
    # some of the pairs a comparison reports covers any point at which its pieces meet
    if what == "complete": vc.prove("the meeting point is covered", vc.or_(*[w.covers(m, s, t) for m, found in w.calls if found]))


def use_pairs(vc, w, calls, threshold):
    """pairiteration through its contract."""
    def summary(real, x, y, th=None):
        vc.prove("compares pieces whose boxes share a point, at the given threshold", th is not None and vc.decided(vc.exact(th, threshold)))
        vc.prove("compared pieces' boxes share a point", vc.not_(w.apart(x, y)))
        some = not vc.flag(f"none{len(calls)}")
        m = Many(x, y)
        calls.append((m, some))
        return [m] if some else []
    vc.summary("Bezier", "Bezier.pairiteration", summary)


def report(vc, w, label, got, calls, compared):
    """Every two pieces that are to be compared, and whose boxes share a point, are compared once, and all that is found is reported."""
    vc.prove(f"{label}: all that is found", len(got) == sum(some for _, some in calls) and all(any(g is m for m, some in calls if some) for g in got))
    vc.prove(f"{label}: only pieces that are to be compared", all(any(m.one is x and m.two is y for x, y in compared) for m, _ in calls))
    for x, y in compared:
        n = sum(m.one is x and m.two is y for m, _ in calls)
        vc.prove(f"{label}: compared once", n <= 1)
        if n == 0: vc.prove(f"{label}: left out only if the boxes share no point", w.apart(x, y))


@contract("C16", ["Bezier.curveIntersects", "Bezier.overlaps"], params=[(i, j) for i in range(3) for j in range(3)], bound="lists of up to 2 pieces", symbolic_only=True)
def lists(vc, i, j):
    w, calls = World(vc), []
    B = vc.modular()
    w.install()
    threshold = vc.real("threshold")
    use_pairs(vc, w, calls, threshold)
    one, two = [w.piece(1, k, k + 1) for k in range(i)], [w.piece(2, k, k + 1) for k in range(j)]
    given = (list(one), list(two))
    got = B.curveIntersects(one, two, threshold)
    report(vc, w, "lists", got, calls, [(x, y) for x in one for y in two])
    vc.prove("frame", one == given[0] and two == given[1])


@contract("C16", ["Bezier.intersects", "Bezier.selfIntersects"], params=[(m,) for m in range(7)], bound="curves reduced to up to 6 pieces", symbolic_only=True)
def curves(vc, m):
    """All pieces of one with all of the other; of one curve, with all but themselves and their neighbours."""
    w, calls = World(vc), []
    B = vc.modular()
    w.install()
    threshold = vc.real("threshold")
    c, d = w.piece(1, 0, 1), w.piece(2, 0, 1)
    parts = {id(c): [w.piece(1, k, k + 1) for k in range(m)], id(d): [w.piece(2, k, k + 1) for k in range(2)]}
    vc.summary("Bezier", "Bezier.reduce", lambda real, s: list(parts[id(s)]))
    asked = []

    def summary(real, l, r, th=None):
        vc.prove("the given threshold", th is not None and vc.decided(vc.exact(th, threshold)))
        asked.append(([(x, y) for x in l for y in r], Many(l, r)))
        return [asked[-1][1]]
    vc.summary("Bezier", "Bezier.curveIntersects", summary)
    if vc.flag("itself"):
        got = c.intersects(None, threshold) if vc.flag("by intersects") else c.selfIntersects(threshold)
        want = [(x, y) for i, x in enumerate(parts[id(c)]) for y in parts[id(c)][i + 2:]]
    else:
        got = c.intersects(d, threshold)
        want = [(x, y) for x in parts[id(c)] for y in parts[id(d)]]
    done = [(id(x), id(y)) for l, _ in asked for x, y in l]
    either = {(id(x), id(y)) for x, y in want}
    vc.prove("the pieces compared", {tuple(sorted(p)) for p in done} == {tuple(sorted(p)) for p in either} and len(done) == len(set(done)))
    vc.prove("all that is found is reported", len(got) == len(asked) and all(any(g is r for g in got) for _, r in asked))


@contract(["C16"], ["BezierUtilities.removeDuplicates"], bound="lists of up to 4 pairs")
def distinct_pairs(vc):
    U = vc.m("BezierUtilities")
    l = [vc.pt(f"v{i}") for i in range(vc.count("n", 0, 4, 9))]
    snap = vc.snapshot(l)
    r = U.removeDuplicates(l)
    vc.prove("the same values", vc.and_(*[vc.or_(*[vc.exact(x, y) for y in r]) for x in l], *[vc.or_(*[vc.exact(x, y) for y in l]) for x in r]))
    vc.prove("no duplicates", vc.and_(*[vc.not_(vc.exact(a, b)) for i, a in enumerate(r) for b in r[:i]]))
    vc.prove_unchanged("frame", (l, snap))


@contract("C16", ["Bezier.intersects", "Bezier.selfIntersects", "Bezier.curveIntersects", "Bezier.pairiteration"], params=[(n, k) for n in (2, 3) for k in ("two", "itself")],
          level="bounded", bound="drawn curves", concrete_only=True, conc_secs=4)
def intersections(vc, n, kind):
    """The statement itself, on drawn curves."""
    B = vc.m("Bezier").Bezier
    k = vc.choose("scale", (1, 1, 1, 100, 20000))
    pts = [(k * vc.real(f"x{i}", conc=(0, 60)), k * vc.real(f"y{i}", conc=(0, 60))) for i in range(n + 1)]
    c = B(pts)
    th = vc.choose("threshold", (0.5, 2))
    smooth(vc, c)
    parts = c.reduce()
    if kind == "two":
        more = [(k * vc.real(f"u{i}", conc=(0, 60)), k * vc.real(f"v{i}", conc=(0, 60))) for i in range(n + 1)]
        d = B(more)
        smooth(vc, d)
        others = d.reduce()
        compared = [(p, q) for p in parts for q in others]
        got = c.intersects(d, th)
    else:
        d, others = c, parts
        compared = [(p, q) for i, p in enumerate(parts) for q in parts[i + 2:]]
        got = c.intersects(None, th)
    for s, t in got:
        p, q = vc.bernstein(c.controlPoints, s), vc.bernstein(d.controlPoints, t)
        vc.prove("closer than twice the threshold", all(abs(x - y) < 2 * th + 1e-6 * k for x, y in zip(p, q)))
    if c.boundsRectangle.intersection(d.boundsRectangle) is None: vc.prove("none for disjoint boxes", got == [])
    steps = 24
    for p, q in compared:
        pp = [vc.bernstein(p.controlPoints, i / steps) for i in range(steps + 1)]
        qq = [vc.bernstein(q.controlPoints, i / steps) for i in range(steps + 1)]
        for i in range(steps):
            for j in range(steps):
                x = meet(pp[i], pp[i + 1], qq[j], qq[j + 1])
                if x is None: continue
                lo, hi = [r._t1 + (r._t2 - r._t1) * k / steps for r, k in ((p, i), (q, j))], [r._t1 + (r._t2 - r._t1) * (k + 1) / steps for r, k in ((p, i), (q, j))]
                vc.prove("every clear crossing is covered", any(abs(vc.bernstein(c.controlPoints, s)[0] - x[0]) + abs(vc.bernstein(c.controlPoints, s)[1] - x[1]) < 2 * th + 3 * k for s, t in got))


def smooth(vc, c):
    hod = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(c.controlPoints, c.controlPoints[1:])]
    vc.assume(all(sum(x * x for x in vc.bernstein(hod, t)) > 1e-3 for t in [0, *c.extrema[2], 1]))


def meet(a, b, c, d):
    """Where two short chords clearly cross."""
    u, v = (b[0] - a[0], b[1] - a[1]), (d[0] - c[0], d[1] - c[1])
    k = u[0] * v[1] - u[1] * v[0]
    if abs(k) < 0.3 * ((u[0] ** 2 + u[1] ** 2) * (v[0] ** 2 + v[1] ** 2)) ** .5 or k == 0: return None
    s = ((c[0] - a[0]) * v[1] - (c[1] - a[1]) * v[0]) / k
    t = ((c[0] - a[0]) * u[1] - (c[1] - a[1]) * u[0]) / k
    if not (.3 < s < .7 and .3 < t < .7): return None
    return (a[0] + s * u[0], a[1] + s * u[1])


@contract("C16", ["Bezier.intersects", "Bezier.curveIntersects", "Bezier.overlaps"], params=[(1, 1), (2, 2)], bound="curves reduced to up to 2 pieces", symbolic_only=True)
def disjoint(vc, i, j):
    """Nothing is reported for curves whose boxes share no point (a piece's edges are points of the curve: its box lies in the curve's)."""
    w, calls = World(vc), []
    vc.modular()
    w.install()
    threshold = vc.real("threshold")
    use_pairs(vc, w, calls, threshold)
    c, d = w.piece(1, 0, 1), w.piece(2, 0, 1)
    parts = {id(c): [w.piece(1, k, k + 1) for k in range(i)], id(d): [w.piece(2, k, k + 1) for k in range(j)]}
    for whole in (c, d):
        o = w.box(None, whole)
        for p in parts[id(whole)]:
            r = w.box(None, p)
            vc.known(vc.and_(o.left <= r.left, r.right <= o.right, o.bottom <= r.bottom, r.top <= o.top))
    vc.assume(w.apart(c, d))
    vc.summary("Bezier", "Bezier.reduce", lambda real, s: list(parts[id(s)]))
    vc.prove("nothing", c.intersects(d, threshold) == [] and not calls)


@contract(["C12", "C16"], ["BezierUtilities.removeDuplicates"], params=[("values",), ("pairs",)], symbolic_only=True)
def distinct_any(vc, kind):
    """Lists of any length.  The result holds, in order, the elements at the indices S(0) < S(1) < …, each the first of its value; pos(u): where u's value is."""
    n, u, z = vc.int("n", 0), vc.int("u", 0), vc.int("z", 0)
    p, q = vc.int("p", 0), vc.int("q", 0)
    L = (lambda i: vc.at("l", i)) if kind == "values" else (lambda i: (vc.at("l.x", i), vc.at("l.y", i)))
    S, pos = lambda i: vc.intat("S", i), lambda i: vc.intat("pos", i)
    given = vc.seq(n, L, [u, z])
    now = []

    def first(i, z): return vc.implies(vc.and_(0 <= z, z < i), vc.not_(vc.exact(L(z), L(i))))

    def facts(k, c, *at):
        """What holds of the first c positions, at those looked at."""
        for i in at: vc.assume(vc.implies(vc.and_(0 <= i, i < c), vc.and_(0 <= S(i), S(i) < k, first(S(i), z))))

    def has(k, c, u): vc.assume(vc.implies(vc.and_(0 <= u, u < k), vc.and_(0 <= pos(u), pos(u) < c, vc.exact(L(S(pos(u))), L(u)))))

    def order(c, p, q): return vc.implies(vc.and_(0 <= p, p < q, q < c), S(p) < S(q))

    def invariant(vc, state, entry, what):
        k, parts = vc.integer(0) + state["#"], getattr(state["result"], "parts", None)
        if parts is None: vc.hard("the result is not a list")
        if what == "established": return vc.prove("established: nothing yet", not any(parts))
        if what == "havoc":
            c = vc.int("so far", 0)
            vc.assume(c <= k)
            facts(k, c, p, q)
            has(k, c, u)
            vc.assume(order(c, p, q))

            def element(i):
                facts(k, c, i)
                return L(S(i))
            now[:] = [vc.seq(c, element), k, c]
            return {"result": vc.list(now[0])}
        before, k, c = now
        if not parts or parts[0] is not before: vc.hard("the result is changed in place")
        new = [x for l in parts[1:] for x in l]
        if len(new) > 1: vc.hard("two at once")
        c2 = c + len(new)
        if new:
            vc.prove("preserved: an element is added when its index is passed", vc.exact(new[0], L(k)))
            vc.prove("preserved: the first of its value", first(k, z))
            vc.known(vc.eq(S(c), k))         # the definition of S here
            vc.prove("preserved: in order", order(c2, p, q))
        else:
            j = given.index(given.get(k))
            has(k, c, j)
            vc.prove("preserved: left out only if it is there", vc.and_(j < k, 0 <= pos(j), pos(j) < c, vc.exact(L(S(pos(j))), L(k))))
    vc.invariant("removeDuplicates", ("for", 0), ("result", "v", "i"), invariant)
    r = vc.m("BezierUtilities").removeDuplicates(given)
    if len(now) == 3:
        k, c = now[1:]
        vc.prove("every element passed", vc.eq(k, n))
        vc.prove("the result", vc.eq(vc.size(r), c))
    if vc.when(u < n): vc.prove("every value is there", vc.and_(0 <= pos(u), pos(u) < vc.size(r), vc.exact(vc.item(r, pos(u)), L(u))))
    if vc.when(vc.and_(p < q, q < vc.size(r))):
        x, y = vc.item(r, p), vc.item(r, q)
        vc.prove("nothing else", vc.and_(0 <= S(p), S(p) < n, vc.exact(x, L(S(p)))))
        vc.assume(first(S(q), S(p)))                 # z is arbitrary
        vc.prove("no duplicates", vc.not_(vc.exact(x, y)))
        if kind == "values":
            ascending = vc.implies(S(p) < S(q), L(S(p)) <= L(S(q)))
            vc.prove("of an ascending list: ascending", vc.implies(ascending, x < y))


class Numbered:
    """Pieces known by their number: the same object for the same term."""

    def __init__(self, vc): self.vc, self.B, self.made, self.known = vc, vc.m("Bezier").Bezier, {}, {}

    def of(self, name):
        def piece(i):
            i = self.vc.integer(0) + i
            key = (name, str(i.e))
            if key not in self.made:
                p = self.made[key] = object.__new__(self.B)
                self.known[id(p)] = (name, i)
            return self.made[key]
        return piece

    def number(self, p, name):
        """The number of a piece of the named curve (None: one of another's)."""
        got = self.known.get(id(p))
        if got is None: self.vc.hard("another piece")
        return got[1] if got[0] == name else None


@contract("C16", ["Bezier.selfIntersects", "Bezier.intersects"], symbolic_only=True)
def self_any(vc):
    """A curve of any number m of pieces: what is reported is what is reported for each piece k and the ones from k + 2 on, in order."""
    m, w, v = vc.int("m", 0), vc.int("w", 0), vc.int("v", 0)
    N = Numbered(vc)
    P = N.of("c")
    vc.modular()
    threshold = vc.real("threshold")
    F = lambda k, i: (vc.at("s", k, i), vc.at("t", k, i))
    size = lambda k: vc.intat("size", k)
    calls, now = [], []

    def compare(real, one, two, threshold2=0.5):
        vc.effect()
        vc.prove("with the threshold given", vc.exact(threshold2, threshold))
        if vc.size(one) != 1: vc.hard("several pieces compared at once")
        k = N.number(vc.item(one, 0), "c")
        vc.prove("with the pieces from the one after the next on", vc.eq(vc.size(two), m - k - 2))
        if vc.when(v < m - k - 2): vc.prove("the pieces compared", vc.eq(N.number(vc.item(two, v), "c"), k + 2 + v))
        vc.known(size(k) >= 0)
        r = vc.seq(size(k), lambda i: F(k, i), [w])
        calls.append((k, r))
        return vc.list(r)
    curve = P(vc.integer(-1))
    vc.summary("Bezier", "Bezier.curveIntersects", compare)
    vc.summary("Bezier", "Bezier.reduce", lambda real, c: vc.list(vc.seq(m, P, [v])) if c is curve else vc.hard("another curve is reduced"))

    def invariant(vc, state, entry, what):
        k, parts = vc.integer(0) + state["#"], getattr(state["results"], "parts", None)
        if parts is None: vc.hard("the results are not a list")
        if what == "established": return vc.prove("established: nothing yet", not any(parts))
        if what == "havoc":
            del calls[:]
            now[:] = [vc.seq(vc.int("so far", 0), lambda i: vc.hard("an earlier result")), k]
            return {"results": vc.list(now[0])}
        before, k = now
        if not parts or parts[0] is not before: vc.hard("the results are changed in place")
        new = [p for p in parts[1:] if not (isinstance(p, list) and not p)]
        vc.prove("preserved: the next piece is compared", len(calls) == 1 and vc.eq(calls[0][0], k))
        if len(new) > 1 or new and isinstance(new[0], list): vc.hard("results in another form")
        if new:
            vc.prove("preserved: all that is reported", vc.eq(vc.size(new[0]), size(k)))
            if vc.when(w < size(k)): vc.prove("preserved: what is reported", vc.exact(vc.item(new[0], w), F(k, w)))
        else: vc.prove("preserved: nothing is reported", vc.eq(size(k), 0))
    vc.invariant("Bezier.selfIntersects", ("for", 0), ("results",), invariant)
    r = curve.intersects(None, threshold)
    if not now: vc.hard("in another way")
    vc.prove("every piece is compared with those after the next", vc.and_(now[1] >= m - 2, not calls))
    vc.prove("the results", len([p for p in r.parts if not isinstance(p, list) or p]) == 1 and r.parts[0] is now[0])


@contract("C16", ["Bezier.curveIntersects"], symbolic_only=True)
def lists_any(vc):
    """Lists of any lengths n and m.  ov(i, j): do the boxes of these pieces overlap; cnt(i, j): how many pairs before (i, j) (piece by piece) do;
    (SI(p), SJ(p)): the p-th of them; off(p): how many parameter pairs are reported for the pairs before the p-th, size(i, j) of which for (i, j)."""
    n, m, u, v, x, p = [vc.int(k, 0) for k in ("n", "m", "u", "v", "x", "p")]
    vc.assume(vc.and_(u < n, v < m))
    N = Numbered(vc)
    one, two = N.of("one"), N.of("two")
    B = vc.m("Bezier").Bezier
    threshold = vc.real("threshold")
    ov = lambda i, j: vc.at("ov", i, j) > 0
    cnt, size, off = (lambda i, j: vc.intat("cnt", i, j)), (lambda i, j: vc.intat("size", i, j)), (lambda p: vc.intat("off", p))
    SI, SJ = (lambda p: vc.intat("SI", p)), (lambda p: vc.intat("SJ", p))
    F = lambda i, j, x: (vc.at("s", i, j, x), vc.at("t", i, j, x))
    zero = vc.integer(0)
    vc.known(vc.and_(vc.eq(cnt(zero, zero), 0), vc.eq(off(zero), 0)))
    vc.summary("Bezier", "Bezier.boundsRectangle", lambda real, c: vc.hard("boxes are compared in another way"))
    vc.summary("Bezier", "Bezier.overlaps", lambda real, a, b: overlaps(a, b))
    vc.summary("Bezier", "Bezier.pairiteration", lambda real, a, b, t=0.5: compare(a, b, t))

    def overlaps(a, b):
        i, j = N.number(a, "one"), N.number(b, "two")
        if i is None or j is None: vc.hard("pieces the other way around")
        return ov(i, j)

    def compare(a, b, t):
        i, j = N.number(a, "one"), N.number(b, "two")
        vc.prove("with the threshold given", vc.exact(t, threshold))
        vc.prove("a piece of the one with one of the other", i is not None and j is not None)
        vc.known(size(i, j) >= 0)
        return vc.list(vc.seq(size(i, j), lambda x: F(i, j, x), [x]))

    def step(i, j): vc.known(vc.implies(vc.and_(0 <= i, 0 <= j), vc.and_(cnt(i, j) >= 0, vc.implies(ov(i, j), vc.eq(cnt(i, j + 1), cnt(i, j) + 1)), vc.implies(vc.not_(ov(i, j)), vc.eq(cnt(i, j + 1), cnt(i, j))))))
    def row(i): vc.known(vc.implies(0 <= i, vc.eq(cnt(i + 1, zero), cnt(i, m))))
    def before(i, j, i2, j2): return vc.or_(i < i2, vc.and_(vc.eq(i, i2), j < j2))
    def among(p): vc.known(vc.implies(vc.and_(0 <= p, p < cnt(n, zero)), vc.and_(0 <= SI(p), SI(p) < n, 0 <= SJ(p), SJ(p) < m, ov(SI(p), SJ(p)))))
    step(u, v)
    seen = {}

    def contents(i, j):
        """The pairs before (i, j)."""
        vc.known(cnt(i, j) >= 0)
        step(i, j); row(i)
        vc.assume(vc.implies(vc.and_(before(u, v, i, j), ov(u, v)), vc.and_(0 <= cnt(u, v), cnt(u, v) < cnt(i, j), vc.eq(SI(cnt(u, v)), u), vc.eq(SJ(cnt(u, v)), v))))
        vc.assume(vc.implies(p < cnt(i, j), facts(p, i, j)))

        def element(q):
            vc.assume(vc.implies(vc.and_(0 <= q, q < cnt(i, j)), facts(q, i, j)))
            return (one(SI(q)), two(SJ(q)))
        return vc.list(vc.seq(cnt(i, j), element, [cnt(u, v), p]))

    def facts(q, i, j): return vc.and_(0 <= SI(q), SI(q) < n, 0 <= SJ(q), SJ(q) < m, ov(SI(q), SJ(q)), before(SI(q), SJ(q), i, j))

    def holds(what, l, i, j):
        vc.prove(f"{what}: as many pairs as overlap", vc.eq(vc.size(l), cnt(i, j)))
        if vc.when(vc.and_(before(u, v, i, j), ov(u, v))):
            vc.prove(f"{what}: the pair is there", vc.and_(0 <= cnt(u, v), cnt(u, v) < vc.size(l)))
            a, b = vc.item(l, cnt(u, v))
            vc.prove(f"{what}: at its place", vc.and_(vc.eq(N.number(a, "one"), u), vc.eq(N.number(b, "two"), v)))
        if vc.when(p < cnt(i, j)):
            a, b = vc.item(l, p)
            a, b = N.number(a, "one"), N.number(b, "two")
            if a is None or b is None: vc.prove(f"{what}: pairs of one of each", False)
            vc.prove(f"{what}: only those that overlap", vc.and_(0 <= a, a < n, 0 <= b, b < m, ov(a, b), before(a, b, i, j)))

    def outer(vc, state, entry, what):
        i = zero + state["#"]
        if what == "havoc":
            seen["i"] = i
            return {"pairs": contents(i, zero)}
        if what == "preserved":
            i = seen["i"] + 1
            row(seen["i"])
        holds(f"rows {what}", state["pairs"], i, zero)

    def inner(vc, state, entry, what):
        j, i = zero + state["#"], seen["i"]
        if what == "havoc":
            seen["j"] = j
            return {"pairs": contents(i, j)}
        if what == "preserved":
            j = seen["j"] + 1
            step(i, seen["j"])
        holds(f"pieces {what}", state["pairs"], i, j)

    def reports(vc, state, entry, what):
        k, l = zero + state["#"], state["intersections"]
        c = cnt(u, v)
        if what == "havoc":
            seen["k"] = k
            vc.known(off(k) >= 0)
            among(k)
            vc.known(vc.eq(off(k + 1), off(k) + size(SI(k), SJ(k))))
            vc.known(vc.implies(vc.and_(ov(u, v), c < k), off(c + 1) <= off(k)))         # by induction: no size is negative
            vc.known(vc.and_(vc.eq(off(c + 1), off(c) + size(SI(c), SJ(c))), off(c) >= 0, size(u, v) >= 0, vc.implies(c < k, size(SI(c), SJ(c)) >= 0)))
            for i, j in ((u, v), (SI(c), SJ(c))): F(i, j, x)
            return {"intersections": vc.list(vc.seq(off(k), lambda q: (vc.at("r.s", q), vc.at("r.t", q)), [off(c) + x]))}
        if what == "preserved": k = seen["k"] + 1
        vc.prove(f"reports {what}: all of them", vc.eq(vc.size(l), off(k)))
        if vc.when(vc.and_(ov(u, v), c < k, x < size(u, v))):
            if what == "preserved" and vc.when(c < seen["k"]): vc.known(vc.exact((vc.at("r.s", off(c) + x), vc.at("r.t", off(c) + x)), F(u, v, x)))    # the state this iteration began with
            vc.prove(f"reports {what}: those of the pair", vc.exact(tuple(vc.item(l, off(c) + x)), F(u, v, x)))
    vc.invariant("Bezier.curveIntersects", ("for", 0), ("pairs",), outer)
    vc.invariant("Bezier.curveIntersects", ("for", 1), ("pairs",), inner)
    vc.invariant("Bezier.curveIntersects", ("for", 2), ("intersections",), reports)
    r = B.curveIntersects(vc.list(vc.seq(n, one, [u])), vc.list(vc.seq(m, two, [v])), threshold)
    if "k" not in seen: vc.hard("in another way")
    vc.prove("what is reported for every pair that overlaps", vc.and_(vc.eq(seen["k"], cnt(n, zero)), vc.eq(vc.size(r), off(cnt(n, zero)))))
    if vc.when(vc.and_(ov(u, v), x < size(u, v))):
        c = cnt(u, v)
        vc.known(vc.implies(c < seen["k"], vc.exact((vc.at("r.s", off(c) + x), vc.at("r.t", off(c) + x)), F(u, v, x))))        # the invariant
        vc.prove("every pair's", vc.and_(0 <= off(c) + x, off(c) + x < vc.size(r)))
        vc.prove("at its place", vc.exact(tuple(vc.item(r, off(c) + x)), F(u, v, x)))


@contract("C16", ["Bezier.pairiteration"], symbolic_only=True)
def pairs_any(vc):
    """Halves that report any number of pairs each: exactly what they report goes, once, through removeDuplicates (by its contract, distinct_any)."""
    w = World(vc)
    B = vc.modular()
    w.install()
    a, b, c, d = [vc.real(n, 0, 1) for n in ("a", "b", "c", "d")]
    vc.assume(vc.and_(a < b, c < d))
    one, two = w.piece(1, a, b), w.piece(2, c, d)
    threshold = vc.real("threshold")
    vc.assume(vc.and_(threshold > 0, vc.not_(w.apart(one, two))))
    depth, found, cleaned = [], [], []
    vc.seq(vc.int("any", 0), lambda i: None)

    def again(real, x, y, th=None):
        if not depth:
            depth.append(1)
            return real(x, y, th)
        vc.effect()
        k = len(found)
        r = vc.seq(vc.int(f"size{k}", 0), lambda i: (vc.at(f"s{k}", i), vc.at(f"t{k}", i)))
        found.append(r)
        return vc.list(r)

    def clean(real, results):
        if not found: return real(results)
        vc.effect()
        cleaned.append(results)
        return vc.list(vc.seq(vc.int("kept", 0), lambda i: vc.hard("a result is looked at")))
    vc.summary("Bezier", "Bezier.pairiteration", again)
    vc.summary("Bezier", "Bezier.overlaps", lambda real, x, y: not vc.when(w.apart(x, y)))
    vc.summary("BezierUtilities", "removeDuplicates", clean)
    got = B.pairiteration(one, two, threshold)
    if not found: return vc.prove("at most the middle", vc.size(got) <= 1)
    if len(cleaned) != 1: vc.hard("duplicates are removed in another way")
    vc.prove("as many as the halves report", vc.eq(vc.size(cleaned[0]), sum((vc.size(q) for q in found), 0)))
    parts = [p for p in getattr(cleaned[0], "parts", [None]) if not (isinstance(p, list) and not p)]
    left = list(found)
    for p in parts:
        hit = [q for q in left if q is p]
        if not hit: vc.hard("results in another form")
        left = [q for q in left if q is not p]
    for q in left: vc.prove("all that the halves report", vc.eq(vc.size(q), 0))
    vc.prove("the distinct ones of them", vc.eq(vc.size(got), vc.int("kept", 0)))
