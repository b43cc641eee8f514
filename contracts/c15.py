"""C15: reduction partitions the curve into consecutive pieces."""
import z3

from pyvc.api import contract
from pyvc.sym import SBool, z
from . import common  # noqa: F401

NAMES = ("pass1", "pass2", "extrema", "t1", "i", "t2", "segment", "step", "p1")


class Run:
    """A run of several consecutive pieces of unknown number, from lo to hi (a part of the list of pieces, as a loop invariant knows it)."""

    def __init__(self, lo, hi): self.lo, self.hi = lo, hi


class Pieces:
    """What the run of reduce has done so far, by the contracts of split (C10), extrema (C12) and simple."""

    def __init__(self, vc, c, inner):
        self.vc, self.c, self.simple_calls, self.objects = vc, c, [], []
        self.span = {id(c): (0, 1, None, 0, 1)}       # piece -> its interval of the curve; the piece it was split from, and its interval of that
        self.given = {0: [], 1: [], 2: inner}
        self.given_snap = vc.snapshot(self.given)

    def of(self, piece):
        return self.span[id(piece)]

    def new(self, parent, t1, t2):
        vc = self.vc
        A, B, _, _, _ = self.of(parent)
        p = object.__new__(type(self.c))
        self.objects.append(p)
        self.span[id(p)] = (A + (B - A) * t1, A + (B - A) * t2, parent, t1, t2)
        p._t1, p._t2 = parent._t1 + (parent._t2 - parent._t1) * t1, parent._t1 + (parent._t2 - parent._t1) * t2
        return p

    def split(self, real, c, t1, t2=None):
        vc = self.vc
        if id(c) not in self.span: vc.hard("split of an unknown curve")
        if t2 is None: return self.new(c, 0, t1), self.new(c, t1, 1), None
        vc.prove("split is asked for an interval", vc.and_(0 <= t1, t1 < t2, t2 <= 1))
        return self.new(c, t1, t2)

    def judged(self, piece):
        """The (unknown) judgement of simple() on this piece."""
        _, _, parent, t1, t2 = self.of(piece)
        return self.judgement(parent, t1, t2)

    def judgement(self, parent, t1, t2):
        return SBool(z3.Function(f"simple.{list(self.span).index(id(parent))}", z3.RealSort(), z3.RealSort(), z3.BoolSort())(z(t1), z(t2)))

    def simple(self, real, piece):
        v = self.judged(piece)
        self.simple_calls.append((piece, v))
        return v

    def extrema(self, real, c):
        if c is not self.c: self.vc.hard("extrema of another curve")
        return self.given

    def install(self):
        vc = self.vc
        vc.summary("Bezier", "Bezier.split", self.split)
        vc.summary("Bezier", "Bezier.simple", self.simple)
        vc.summary("Bezier", "Bezier.extrema", self.extrema)


def chain(vc, label, run, pieces, lo, hi):
    """The pieces cover [lo, hi] consecutively, record the intervals they cover, and none is empty."""
    at = lo
    for p in pieces:
        if isinstance(p, Run):
            vc.prove(f"{label}: consecutive", vc.eq(p.lo, at))
            at = p.hi
            continue
        a, b = run.of(p)[:2]
        vc.prove(f"{label}: consecutive", vc.eq(a, at))
        vc.prove(f"{label}: not empty", vc.lt(a, b))
        vc.prove(f"{label}: records its interval", vc.eq((p._t1, p._t2), (a, b)))
        at = b
    vc.prove(f"{label}: reaches the end", vc.eq(at, hi))

def reaches(vc, run, pieces, ends):
    """These parameters are boundaries between pieces."""
    cuts = [p.hi if isinstance(p, Run) else run.of(p)[1] for p in pieces]
    for x in ends: vc.prove("every extremum is a boundary", vc.or_(*[vc.eq(x, y) for y in cuts]))


def in_section(vc, run, p):
    if not isinstance(p, Run): vc.prove("a piece that does not end its section is simple", vc.or_(run.judged(p), vc.eq(run.of(p)[4], 1)))


def use_invariants(vc, run):
    ghost = {}

    def sections(vc, s, entry, what):
        """Some pieces cover the section p1 from its start to t1."""
        a, b = run.of(s["p1"])[:2]
        before, after = entry["pass2"], s["pass2"]
        if what == "havoc":
            rest, t1 = [], 0
            if vc.flag(f"some{len(run.objects)}"):
                t1 = vc.real(f"t1.{len(run.objects)}", 0, 1)
                vc.assume(t1 > 0)
                rest = [Run(a, a + (b - a) * t1)]
            after[:] = before + rest
            return {"pass2": after, "t1": t1, "t2": vc.real(f"t2.{len(run.objects)}")}
        vc.prove("0 <= t1 <= 1", vc.and_(vc.le(0, s["t1"]), vc.le(s["t1"], 1)))
        vc.prove("earlier pieces are kept", len(after) >= len(before) and all(x is y for x, y in zip(before, after)))
        rest = after[len(before):]
        chain(vc, "section", run, rest, a, a + (b - a) * s["t1"])
        for p in rest: in_section(vc, run, p)

    def longer(vc, s, entry, what):
        """All shorter pieces from t1 tried so far are simple."""
        p1, t1 = s["p1"], entry["t1"]
        if what == "havoc":
            k = vc.int(f"k.{len(run.objects)}", 1)
            ghost["k"] = k
            step = s["step"]
            vc.assume(vc.or_(vc.eq(k, 1), run.judgement(p1, t1, t1 + step * (k - 1))))
            return {"t1": t1, "t2": t1 + step * k}
        k = 1 if what == "established" else ghost["k"] + 1
        vc.prove("a whole number of steps", vc.eq(s["t2"], t1 + s["step"] * k))
        vc.prove("t1 stays", vc.eq(s["t1"], t1))
        vc.prove("no pieces yet", len(s["pass2"]) == len(entry["pass2"]) and all(x is y for x, y in zip(s["pass2"], entry["pass2"])))
        if what == "preserved": vc.prove("the piece before is simple", run.judgement(p1, t1, t1 + s["step"] * (k - 1)))

    def finished(vc, s, entry, what):
        """The sections before the current one are covered."""
        n = s["#"]
        ends = [run.of(p)[:2] for p in s["items"]]
        if what == "havoc":
            s["pass2"][:] = [Run(*e) for e in ends[:n]]
            return {"pass2": s["pass2"]}
        lo, hi = (0, ends[n - 1][1]) if n else (0, 0)
        chain(vc, "sections", run, s["pass2"], lo, hi)
        if what == "established": chain(vc, "the sections", run, s["items"], 0, 1)
        reaches(vc, run, s["pass2"], [b for _, b in ends[:n]])
        for p in s["pass2"]: in_section(vc, run, p)

    vc.invariant("Bezier.reduce", ("for", 1), NAMES, finished)
    vc.invariant("Bezier.reduce", 0, NAMES, sections)
    vc.invariant("Bezier.reduce", 1, NAMES, longer)


STEP = (1, 100)


@contract("C15", ["Bezier.reduce"], params=[(k, e) for k in range(7) for e in range(4)], max_paths=20000, symbolic_only=True)
def partition(vc, k, ends):
    """Any number of pieces per section, by the invariants of the two loops of the second pass.  k: extrema inside (0, 1)."""
    B = vc.modular()
    c = B(vc.pts("p", 4))
    snap = vc.snapshot(c.controlPoints)
    inner = [vc.real(f"e{i}", 0, 1) for i in range(k)]
    vc.assume(vc.and_(*[a < b for a, b in zip([0, *inner], [*inner, 1])]))
    run = Pieces(vc, c, [*([0] if ends & 1 else []), *inner, *([1] if ends & 2 else [])])
    run.install()
    use_invariants(vc, run)
    got = c.reduce()
    if not got:
        vc.prove("failure only if a hundredth of a section is not simple",
                 vc.or_(*[vc.and_(vc.not_(v), vc.eq(run.of(p)[4] - run.of(p)[3], vc.frac(*STEP))) for p, v in run.simple_calls]))
    else:
        chain(vc, "pieces", run, got, 0, 1)
        reaches(vc, run, got, inner)
        for p in got: in_section(vc, run, p)
    vc.prove_unchanged("frame", (c.controlPoints, snap), (run.given, run.given_snap))
    vc.prove("the curve itself keeps its interval", vc.exact((c._t1, c._t2), (0, 1)))


@contract("C15", ["Bezier.reduce"], params=[(0,), (1,)], bound="the first two pieces of a section end at listed parameters, the third takes the rest; up to 1 extremum inside", symbolic_only=True)
def unrolled(vc, k):
    """The loops run as they are (whatever they look like): simple() judges pieces of a section by how long they are."""
    B = vc.modular()
    c = B(vc.pts("p", 4))
    snap = vc.snapshot(c.controlPoints)
    inner = [vc.real(f"e{i}", 0, 1) for i in range(k)]
    vc.assume(vc.and_(*[a < b for a, b in zip([0, *inner], [*inner, 1])]))
    run = Pieces(vc, c, [0, *inner, 1] if vc.flag("ends") else inner)
    first, second = vc.choose("first", (0, 1, 37, 99, 100)), vc.choose("second", (0, 1, 30, 100))
    known, looks = [], []

    def simple(real, piece):
        t1, t2 = run.of(piece)[3:]
        if vc.isterm(t1) or vc.isterm(t2): vc.hard("a judgement at an unknown parameter")
        n = round((t2 - t1) * 100)
        v = n <= (first if t1 == 0 else second if t1 * 100 == first else 100)
        known.append((piece, v))
        return v
    run.simple = simple
    run.judged = lambda p: any(v and run.of(q)[2:] == run.of(p)[2:] for q, v in known)
    run.install()
    got = c.reduce()
    if not got:
        vc.prove("failure only if a hundredth of a section is not simple", first == 0 or (first < 100 and second == 0))
    else:
        vc.prove("failure whenever a hundredth that is needed is not simple", first > 0 and (first >= 100 or second > 0))
        chain(vc, "pieces", run, got, 0, 1)
        reaches(vc, run, got, inner)
        for p in got: in_section(vc, run, p)
    vc.prove_unchanged("frame", (c.controlPoints, snap), (run.given, run.given_snap))


def cross(a, b): return a[0] * b[1] - a[1] * b[0]
def dot(a, b): return a[0] * b[0] + a[1] * b[1]
def minus(a, b): return (a[0] - b[0], a[1] - b[1])


@contract("C15", ["Bezier.simple", "Bezier.normal", "Bezier._derivative", "BezierUtilities.angle"], params=[(2,), (3,)])
def simple(vc, n):
    B = vc.modular()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    v = [tuple(n * x for x in minus(*k)) for k in ((pts[1], pts[0]), (pts[-1], pts[-2]))]
    L = [vc.hypot(x, (0, 0)) for x in v]
    for x, l in zip(v, L): vc.assume(vc.not_(vc.and_(vc.exact(x[0], 0), vc.exact(x[1], 0))) if vc.symbolic else l > 1e-3)
    one_side = True
    if n == 3:
        chord = minus(pts[3], pts[0])
        arms = [minus(p, pts[0]) for p in pts[1:3]]
        k, d = [cross(chord, a) for a in arms], [dot(chord, a) for a in arms]
        left = [vc.or_(x > 0, vc.and_(vc.exact(x, 0), y < 0)) for x, y in zip(k, d)]
        right = [x < 0 for x in k]
        one_side = vc.not_(vc.or_(vc.and_(left[0], right[1]), vc.and_(right[0], left[1])))
        if not vc.symbolic: vc.assume(all(abs(x) > 1e-6 for x in k))
    along = dot(*v)
    if not vc.symbolic: vc.assume(abs(2 * along - L[0] * L[1]) > 1e-6 * L[0] * L[1])
    if vc.symbolic:
        m = [(vc.div(-x[1], l), vc.div(x[0], l)) for x, l in zip(v, L)]
        cos, P = dot(*m), L[0] * L[1]
        for l in L: vc.lemma("length", l > 0)
        positive = vc.theorem("positive product", 2, lambda a, b: vc.implies(vc.and_(a > 0, b > 0), a * b > 0))
        positive(*L)
        vc.lemma("the normals' cosine", vc.eq(cos * P, along))
        vc.lemma("Cauchy and Schwarz", vc.eq(P * P, along * along + cross(*v) * cross(*v)))
        square = vc.theorem("square", 1, lambda a: a * a >= 0)
        square(cross(*v))
        bound = vc.theorem("bounded", 3, lambda s, p, a: vc.implies(vc.and_(p > 0, vc.eq(s * p, a), p * p >= a * a), vc.and_(s <= 1, s >= -1, vc.iff(2 * s > 1, 2 * a > p))))
        bound(cos, P, along)
        vc.lemma("cosine", vc.and_(cos <= 1, cos >= -1, vc.iff(2 * cos > 1, 2 * along > P)))
        if n == 3:
            # whether the angles' signs are compared, or that of their product
            opposite = vc.theorem("opposite signs", 2, lambda a, b: vc.iff(a * b < 0, vc.or_(vc.and_(a > 0, b < 0), vc.and_(a < 0, b > 0))))
            angle = vc.m("BezierUtilities").angle
            opposite(*[angle(pts[0], pts[3], p) for p in pts[1:3]])
    r = vc.curve(B, pts).simple()
    vc.prove("simple: on one side, and the end normals differ by less than 60 degrees", vc.iff(r, vc.and_(one_side, 2 * along > L[0] * L[1])))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C15", ["Bezier.extrema"], params=[()], symbolic_only=True)
def monotone(vc):
    """A quadratic (the derivative of a cubic) of both signs inside an interval has a root in it: pieces without an extremum inside are monotonic."""
    a, b, c, s, t, w = [vc.real(n) for n in "abcstw"]
    q = lambda u: (a * u + b) * u + c
    vc.assume(vc.and_(s < t, q(s) * q(t) < 0))
    vc.lemma("it has real roots", vc.or_(b * b - 4 * a * c > 0))
    vc.assume(vc.and_(w >= 0, vc.eq(w * w, b * b - 4 * a * c)))
    inside = lambda u, label: vc.prove(label, vc.and_(vc.eq(q(u), 0), s < u, u < t))
    if vc.when(vc.eq(a, 0)):
        inside(vc.div(-c, b), "the root of a linear derivative lies between")
    else:
        r = [vc.div(-b - w, 2 * a), vc.div(-b + w, 2 * a)]
        for x in r: vc.lemma("a root", vc.eq(q(x), 0))
        vc.prove("a root lies between", vc.or_(*[vc.and_(s < x, x < t) for x in r]))


@contract("C15", ["Bezier.reduce", "Bezier.extrema", "Bezier.split"], params=[(2,), (3,)], level="bounded", bound="drawn curves", concrete_only=True, conc_secs=3, tol=1e-6)
def reduced(vc, n):
    """The statement itself, on drawn curves."""
    B = vc.m("Bezier").Bezier
    pts = vc.pts("p", n + 1)
    c = B(pts)
    hod = [(b[0] - a[0], b[1] - a[1]) for a, b in zip(pts, pts[1:])]
    ends = [0, *c.extrema[2], 1]
    vc.assume(all(sum(x * x for x in vc.bernstein(hod, t)) > 1e-6 * vc.scale ** 2 for t in ends))
    got = c.reduce()
    if not got: return
    spans = [(p._t1, p._t2) for p in got]
    vc.prove("starts at 0, ends at 1", spans[0][0] == 0 and spans[-1][1] == 1)
    vc.prove("consecutive", all(vc.eq(a[1], b[0]) for a, b in zip(spans, spans[1:])) and all(a < b for a, b in spans))
    for t in c.extrema[2]: vc.prove("every extremum is a boundary", any(vc.eq(t, x) for s in spans for x in s))
    for p, (a, b) in zip(got, spans):
        vc.prove("a piece has its curve's degree", len(p.controlPoints) == n + 1)
        if b - a < 1e-4: continue
        for s in (0, .2, .5, .9, 1): vc.prove("a piece is the curve on its interval", vc.pteq(vc.bernstein(p.controlPoints, s), vc.bernstein(pts, a + (b - a) * s)))
        for d in (0, 1):
            v = [vc.bernstein(hod, a + (b - a) * s)[d] for s in (.1, .3, .5, .7, .9)]
            vc.prove("monotonic", min(v) >= -1e-7 * vc.scale or max(v) <= 1e-7 * vc.scale)
    vc.prove("the curve keeps its points", [tuple(p) for p in c.controlPoints] == pts)
