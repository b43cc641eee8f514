"""C24: the segment pen yields closed, connected contours."""
from pyvc.api import contract
from . import common  # noqa: F401


class Log:
    def debug(self, *a, **k): pass
    info = warning = error = debug


class Glyph:
    def __init__(self, draw): self.draw = draw


def script(vc, name, kinds):
    """The drawing calls of one contour: move, segments, close."""
    out = [("moveTo", [vc.pt(f"{name}m")])]
    for i, kind in enumerate(kinds):
        if kind == "line": out.append(("lineTo", [vc.pt(f"{name}l{i}")]))
        elif kind == "cubic": out.append(("curveTo", vc.pts(f"{name}c{i}_", 3)))
        else: out.append(("qCurveTo", vc.pts(f"{name}q{i}_", kind + 1)))
    return out


def perform(pen, calls):
    for name, args in calls: getattr(pen, name)(*args)
    pen.closePath()


def reference(vc, calls):
    """What the calls draw: the contour's segments, the closing line included, zero-length lines left out."""
    (_, (pen,)), *rest = calls
    first, segs = pen, []
    half = vc.frac(1, 2)
    for name, args in rest:
        if name == "lineTo":
            if not vc.when(vc.pteq(pen, args[0])): segs.append([pen, args[0]])
        elif name == "curveTo" or len(args) <= 2: segs.append([pen, *args])
        else:
            off, start = args[:-1], pen
            for a, b in zip(off, off[1:]):
                mid = (half * (a[0] + b[0]), half * (a[1] + b[1]))
                segs.append([start, a, mid])
                start = mid
            segs.append([start, off[-1], args[-1]])
        pen = args[-1]
    if segs and not vc.when(vc.pteq(pen, first)): segs.append([pen, first])
    return segs


def same(vc, got, want):
    return vc.eq([[[tuple(p) for p in s] for s in c] for c in got], [[[tuple(p) for p in s] for s in c] for c in want])


def chains(vc, contours):
    for c in contours:
        vc.prove("every segment starts where the one before it ended", vc.and_(*[vc.pteq(a[-1], b[0]) for a, b in zip(c, c[1:])]))
        vc.prove("the last segment ends where the first begins", vc.pteq(c[-1][-1], c[0][0]))
        vc.prove("no zero-length lines", vc.and_(*[vc.not_(vc.pteq(s[0], s[1])) for s in c if len(s) == 2]))


def pen(vc, glyphs=None):
    return vc.m("SegmentPen").SegmentPen(glyphs if glyphs is not None else {}, Log())


FUNCS = ["SegmentPen.__init__", "SegmentPen.moveTo", "SegmentPen.lineTo", "SegmentPen.curveTo", "SegmentPen.qCurveTo", "SegmentPen.closePath", "SegmentPen.contours"]
KINDS = ("line", "cubic", 1, 2, 3)


@contract("C24", FUNCS, params=[(0,), (1,), (2,), (3,)], bound="one contour of up to 3 segments, splines of up to 3 off-curve points", conc_secs=1)
def one_contour(vc, n):
    p = pen(vc)
    calls = script(vc, "a", [vc.choose(f"kind{i}", KINDS) for i in range(n)])
    snap = vc.snapshot(calls)
    perform(p, calls)
    want = reference(vc, calls)
    vc.prove("exactly the segments drawn, closed", same(vc, p.contours, [want] if want else []))
    chains(vc, p.contours)
    vc.prove_unchanged("frame", (calls, snap))


@contract("C24", FUNCS, params=[(k,) for k in range(2, 9)], bound="splines of 2 to 8 off-curve points")
def spline(vc, n):
    p = pen(vc)
    calls = script(vc, "a", [n])
    start, pts = calls[0][1][0], calls[1][1]
    perform(p, calls)
    c = p.contours[0]
    vc.prove("as many quadratics as off-curve points", len(c) in (n, n + 1) and all(len(s) == 3 for s in c[:n]))
    half = vc.frac(1, 2)
    vc.prove("from the pen's position to the last point", vc.and_(vc.pteq(c[0][0], start), vc.pteq(c[n - 1][-1], pts[-1])))
    vc.prove("each with one off-curve point", vc.and_(*[vc.pteq(c[i][1], pts[i]) for i in range(n)]))
    vc.prove("joined at the midpoints", vc.and_(*[vc.and_(vc.pteq(c[i][2], m), vc.pteq(c[i + 1][0], m)) for i in range(n - 1)
                                                for m in [(half * (pts[i][0] + pts[i + 1][0]), half * (pts[i][1] + pts[i + 1][1]))]]))
    chains(vc, p.contours)


@contract("C24", ["SegmentPen.qCurveTo", "SegmentPen.moveTo", "SegmentPen.closePath"], symbolic_only=True)
def spline_any(vc):
    """Any number of off-curve points, from two on.  w: any of the quadratics."""
    n, w = vc.int("n", 2), vc.int("w", 0)
    vc.assume(w < n)
    P, m = (lambda i: (vc.at("P.x", i), vc.at("P.y", i))), vc.pt("m")
    zero = vc.integer(0)
    half = vc.frac(1, 2)

    def on(i):
        """Where quadratic i begins and quadratic i - 1 ends."""
        if vc.when(vc.le(i, 0)): return m
        if vc.when(vc.ge(i, n)): return P(n)
        return tuple(half * (a + b) for a, b in zip(P(i - 1), P(i)))
    quadratic = lambda i: [on(i), P(i), on(i + 1)]

    first, o = m, 0         # where the contour begins; how many segments it has already
    before = []
    if vc.flag("after a curve"):
        first, o = vc.pt("first"), 1
        before = [[first, vc.pt("a"), vc.pt("b"), m]]

    def invariant(vc, state, entry, what):
        k, c = zero + state["#"], state["self._contour"]
        if what == "havoc": return {"startPoint": on(k), "self._contour": vc.list(before, vc.seq(k, quadratic, [w, zero]))}
        vc.prove(f"{what}: one for each point so far", vc.eq(vc.size(c), o + k))
        vc.prove(f"{what}: the next begins where the last ended", vc.pteq(state["startPoint"], on(k)))
        if o: vc.prove(f"{what}: the segment before", same(vc, [[vc.item(c, zero)]], [before]))
        if vc.when(w < k): vc.prove(f"{what}: the quadratics so far", same(vc, [[vc.item(c, o + w)]], [[quadratic(w)]]))
    vc.invariant("SegmentPen.qCurveTo", ("for", 0), ("segment", "startPoint", "i", "p1x", "p1y", "p2x", "p2y", "impliedPoint", "self._contour"), invariant)
    p = pen(vc)
    points = vc.seq(n + 1, P, [w, w - 1, w + 1, n - 1, n])
    p.moveTo(first)
    if o: p.curveTo(*before[0][1:])
    p.qCurveTo(*points._vc_starargs())
    if fields(): vc.prove("the pen moves", vc.pteq(p._lastOnCurve, P(n)))
    p.closePath()
    vc.prove("one contour", vc.eq(vc.size(p.contours), 1))
    c = vc.item(p.contours, 0)
    k = vc.size(c)
    closed = vc.when(vc.pteq(P(n), first))
    vc.prove("as many quadratics as off-curve points", vc.eq(k, o + n if closed else o + n + 1))
    vc.prove("each with its off-curve point, joined at the midpoints", same(vc, [[vc.item(c, o + w)]], [[quadratic(w)]]))
    if o: vc.prove("the segment before", same(vc, [[vc.item(c, zero)]], [before]))
    if not closed: vc.prove("closed", same(vc, [[vc.item(c, o + n)]], [[[P(n), first]]]))


def fields():
    """Does a pen consist of what any_history sets (and of nothing that those calls would have to keep in step)?"""
    from pyvc.api import attributes, concrete_module
    p = concrete_module("SegmentPen").SegmentPen({}, Log())
    p.moveTo((0, 1))
    p.lineTo((2, 3))
    at = attributes(p)
    if set(at) - {"_segment"} != {"_contours", "_contour", "_lastOnCurve", "_glyphSet", "logger"}: return False
    return at["_contours"] == [] and at["_contour"] == [[(0, 1), (2, 3)]] and at["_lastOnCurve"] == (2, 3) and at.get("_segment", []) == []


def any_history(vc):
    """A pen after any calls: a finished contours, k segments of the current one, of any number of points each, the last of
    which is the pen's position; w, v: any of the contours and of the segments."""
    a, k, w, v = [vc.int(x, 0) for x in ("a", "k", "w", "v")]
    zero = vc.integer(0)
    e = vc.pt("e")
    P = lambda i, j: (vc.at("P.x", i, j), vc.at("P.y", i, j))

    def segment(i):
        n = vc.intat("n", i)
        vc.known(n >= 2)
        return vc.seq(n, lambda j: P(i, j), [zero, n - 1])
    segments = vc.seq(k, segment, [v, zero, k - 1])
    contours = vc.seq(a, lambda i: vc.seq(vc.intat("contour", i), lambda j: Opaque(i, j)), [w])
    p = pen(vc)
    p.moveTo(e)
    if not fields(): return None
    if vc.when(k > 0): vc.assume(vc.pteq(P(k - 1, vc.intat("n", k - 1) - 1), e))
    p._contours, p._contour = vc.list(contours), vc.list(segments)
    return p, e, (a, w, contours), (k, v, segments)


class Opaque:
    """A segment of a finished contour."""

    def __init__(self, i, j): self.i, self.j = i, j


def kept(vc, label, now, old, more):
    """Are the old elements there, in their places, and as many after them?"""
    n, w, seq = old
    vc.prove(f"{label}: as many", vc.eq(vc.size(now), n + more))
    if vc.when(w < n): vc.prove(f"{label}: those before", vc.item(now, w) is vc.item(seq, w))


CALLS = ("moveTo", "lineTo", "curveTo", "qCurveTo", "closePath", "addComponent")


@contract("C24", ["SegmentPen.moveTo", "SegmentPen.lineTo", "SegmentPen.curveTo", "SegmentPen.qCurveTo", "SegmentPen.closePath", "SegmentPen.addComponent"], params=[(c,) for c in CALLS], symbolic_only=True)
def any_call(vc, call):
    """One call after any history: what it adds, and that it keeps what was there (splines of more points: spline_any)."""
    state = any_history(vc)
    if state is None: return vc.prove("no such fields", True)
    p, e, contours, segments = state
    k = segments[0]
    if call == "moveTo":
        q = vc.pt("q")
        p.moveTo(q)
        kept(vc, "contours", p.contours, contours, 0)
        vc.prove("a new contour", vc.and_(vc.eq(vc.size(p._contour), 0), vc.pteq(p._lastOnCurve, q)))
    elif call == "closePath":
        p.closePath()
        vc.prove("nothing left", vc.eq(vc.size(p._contour), 0))
        if not vc.when(k > 0): return kept(vc, "contours", p.contours, contours, 0)
        kept(vc, "contours", p.contours, contours, 1)
        c = vc.item(p.contours, contours[0])
        first = vc.item(vc.item(segments[2], vc.integer(0)), vc.integer(0))
        vc.prove("not the next one", c is not p._contour)
        if vc.when(vc.pteq(first, e)): return kept(vc, "segments", c, segments, 0)
        kept(vc, "segments", c, segments, 1)
        vc.prove("closed", vc.eq([tuple(q) for q in vc.item(c, k)], [e, first]))
    elif call == "addComponent":
        m, v = vc.int("m", 0), vc.int("u", 0)
        glyph = vc.seq(m, lambda i: Opaque("glyph", i), [v])
        def draw(cpen):
            vc.prove("drawn by a pen of its own", cpen is not p and vc.eq(vc.size(cpen.contours), 0))
            cpen.contours.extend(glyph)
        p._glyphSet = {"g": Glyph(draw)}
        p.addComponent("g", (1, 0, 0, 1, 0, 0))
        kept(vc, "contours", p.contours, contours, m)
        kept(vc, "segments", p._contour, segments, 0)
        if vc.when(v < m): vc.prove("the glyph's contours", vc.item(p.contours, contours[0] + v) is vc.item(glyph, v))
        vc.prove("the pen stays", vc.pteq(p._lastOnCurve, e))
    else:
        pts = vc.pts("q", {"lineTo": 1, "curveTo": 3}.get(call) or vc.choose("points", (1, 2)))
        getattr(p, call)(*pts)
        kept(vc, "contours", p.contours, contours, 0)
        if call == "lineTo" and vc.when(vc.pteq(pts[0], e)): kept(vc, "segments", p._contour, segments, 0)
        else:
            kept(vc, "segments", p._contour, segments, 1)
            vc.prove("the segment drawn", vc.eq([tuple(q) for q in vc.item(p._contour, k)], [e, *pts]))
        vc.prove("the pen moves", vc.pteq(p._lastOnCurve, pts[-1]))


@contract("C24", FUNCS, params=[(0, 1), (0, 2), (1, 1), (2, 0)], bound="histories of contours of up to 2 segments (more when evaluated)", conc_secs=1)
def several_contours(vc, k, n):
    p = pen(vc)
    want = []
    sizes = [k, n, 1] if vc.symbolic else [vc.choose(f"n{i}", range(5)) for i in range(vc.choose("contours", range(1, 6)))]
    kinds = ("line", 2) if vc.symbolic else KINDS
    for j, m in enumerate(sizes):
        calls = script(vc, f"c{j}", [vc.choose(f"kind{j}_{i}", kinds) for i in range(m)])
        perform(p, calls)
        segs = reference(vc, calls)
        if segs: want.append(segs)
    vc.prove("every contour, in drawing order", same(vc, p.contours, want))
    chains(vc, p.contours)


def closed(vc, name):
    """A contour that needs no closing line."""
    m = vc.pt(f"{name}m")
    return [("moveTo", [m]), ("curveTo", [vc.pt(f"{name}a"), vc.pt(f"{name}b"), m])]


def affine(vc, name):
    if vc.flag(f"{name} identity"): return (1, 0, 0, 1, 0, 0)
    return tuple(vc.real(f"{name}{k}") for k in ("xx", "xy", "yx", "yy", "dx", "dy"))


def mapped(t, contours):
    xx, xy, yx, yy, dx, dy = t
    return [[[(xx * x + yx * y + dx, xy * x + yy * y + dy) for x, y in s] for s in c] for c in contours]


@contract("C24", FUNCS + ["SegmentPen.addComponent", "Transform.applyToContours"], params=[(d,) for d in (0, 1, 2)], bound="a component beside a contour, or inside one or two others; contours of one segment", conc_secs=1)
def component(vc, depth):
    glyphs = {}
    calls = script(vc, "a", [vc.choose("kind", ("cubic", 2) if vc.symbolic else KINDS)])
    glyphs["g0"] = Glyph(lambda p: perform(p, calls))
    own = reference(vc, calls)
    want = [own] if own else []
    snap = vc.snapshot(calls)
    t = [affine(vc, f"t{i}") for i in range(depth + 1)]
    for i in range(depth):
        glyphs[f"g{i + 1}"] = Glyph(lambda p, i=i: p.addComponent(f"g{i}", t[i]))
        want = mapped(t[i], want)
    want = mapped(t[depth], want)
    p = pen(vc, glyphs)
    before = closed(vc, "b")
    perform(p, before)
    p.addComponent(f"g{depth}", t[depth])
    after = closed(vc, "d")
    perform(p, after)
    vc.prove("the glyph's contours mapped by the transformation, in drawing order", same(vc, p.contours, [reference(vc, before)] + want + [reference(vc, after)]))
    q = pen(vc, glyphs)
    q.addComponent("g0", t[0])
    vc.prove("another pen: the glyph as it was", same(vc, q.contours, mapped(t[0], [own] if own else [])))
    vc.prove_unchanged("frame", (calls, snap))
