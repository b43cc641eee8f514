"""C21: contours and outlines always describe their current segments."""
from pyvc.api import contract
from . import common  # noqa: F401


def use_boxes(vc):
    """boundsRectangle through its contract (C12, C13): some rectangle that depends on the control points alone."""
    R = vc.m("PathUtilities").BoundsRectangle

    def summary(real, curve):
        coords = [v for p in curve.controlPoints for v in p]
        edge = {k: vc.function(f"{k}{len(coords)}", *coords) for k in ("left", "bottom", "right", "top")}
        vc.known(vc.and_(edge["left"] <= edge["right"], edge["bottom"] <= edge["top"]))
        return R((edge["left"], edge["bottom"]), (edge["right"], edge["top"]))
    if vc.symbolic:
        vc.modular()
        vc.summary("Bezier", "Bezier.boundsRectangle", summary)


def edges(r):
    return (r.left, r.bottom, r.right, r.top)


def joined(vc, segs, steps):
    """The segments' own tables, shared end points listed once."""
    B = vc.m("Bezier").Bezier
    out = []
    for i, s in enumerate(segs): out.extend(B(s).getLUT(steps)[0 if i == 0 else 1:])
    return out


def describes(vc, label, bc, segs, luts):
    """The contour is what a contour of these segments is."""
    B = vc.m("Bezier").Bezier
    vc.prove(f"{label}: segments", vc.eq([[tuple(p) for p in b.controlPoints] for b in bc], [[tuple(p) for p in s] for s in segs]))
    vc.prove(f"{label}: segments by list", len(bc.beziers) == len(segs) and all(x is y for x, y in zip(bc.beziers, bc)))
    vc.prove(f"{label}: segments by index", all(bc[i] is b for i, b in enumerate(bc)) and bc[-1] is bc[len(segs) - 1])
    vc.prove(f"{label}: start and end", vc.and_(vc.pteq(bc.start, segs[0][0]), vc.pteq(bc.end, segs[-1][-1])))
    boxes = [edges(B(s).boundsRectangle) for s in segs]
    want = (vc.min(*[b[0] for b in boxes], boxes[0][0]), vc.min(*[b[1] for b in boxes], boxes[0][1]), vc.max(*[b[2] for b in boxes], boxes[0][2]), vc.max(*[b[3] for b in boxes], boxes[0][3]))
    vc.prove(f"{label}: bounds are the union of the segments' boxes", vc.eq(edges(bc.boundsRectangle), want))
    for n in luts:
        got = bc.getLUT(n)
        vc.prove(f"{label}: table of {n} samples per segment", vc.eq([tuple(p) for p in got], [tuple(p) for p in joined(vc, segs, n)]))


def step(vc, bc, segs, i, sizes):
    """One operation of the history, on the contour and on the list of segments it stands for."""
    op = vc.choose(f"op{i}", ("set", "del", "table", "look") if len(segs) > 1 else ("set", "table", "look"))
    if op == "set":
        k = vc.choose(f"at{i}", range(-1, len(segs)))
        new = vc.pts(f"n{i}_", vc.choose(f"size{i}", sizes))
        bc[k] = new
        segs[k] = new
    elif op == "del":
        k = vc.choose(f"at{i}", range(-1, len(segs)))
        del bc[k]
        del segs[k]
    elif op == "table":
        n = vc.choose(f"steps{i}", (2, 3))
        vc.prove("table", vc.eq([tuple(p) for p in bc.getLUT(n)], [tuple(p) for p in joined(vc, segs, n)]))
    else:
        n = vc.choose(f"look{i}", (2, 3))
        bc[0].getLUT(n)
        bc[-1].getLUT(n)


FUNCS = ["BContour.__init__", "BContour._update", "BContour.__setitem__", "BContour.__delitem__", "BContour.__getitem__", "BContour.__iter__", "BContour.getLUT",
         "BContour.start", "BContour.end", "BContour.boundsRectangle", "BContour.beziers", "BoundsRectangle.union"]


@contract("C21", FUNCS, params=[(1, 3), (2, 2), (3, 1)], bound="histories of up to 3 operations on contours of up to 3 lines", budget=200, conc_secs=1.5)
def history(vc, start, ops):
    use_boxes(vc)
    segs = [vc.pts(f"s{i}_", 2) for i in range(start)]
    snap = vc.snapshot(segs)
    bc = vc.m("Bezier").BContour(segs)
    vc.prove_unchanged("constructing: frame", (segs, snap))
    now = list(segs)
    for i in range(ops if vc.symbolic else vc.choose("ops", range(ops + 4))): step(vc, bc, now, i, (2,))
    describes(vc, "after any history", bc, now, (vc.choose("first", (2, 3)),))
    describes(vc, "asked again", bc, now, (vc.choose("again", (3, 4)),))
    vc.prove_unchanged("frame", (segs, snap))


@contract("C21", FUNCS, params=[(2,), (3,), (4,)], bound="two segments, one operation", conc_secs=1.5)
def kinds(vc, size):
    """Segments of every kind."""
    use_boxes(vc)
    segs = [vc.pts("s0_", size), vc.pts("s1_", vc.choose("other", (2, 3, 4)))]
    bc = vc.m("Bezier").BContour(segs)
    now = list(segs)
    if not vc.symbolic:
        for i in range(2): step(vc, bc, now, i, (2, 3, 4))
    describes(vc, "new", bc, now, (2,))
    step(vc, bc, now, 9, (2, 3, 4))
    describes(vc, "after", bc, now, (3,))


# -- any number of segments -------------------------------------------------------------------------------------------

EDGES = ("left", "bottom", "right", "top")



class Union:
    """The invariant of a loop that forms the union of the boxes of what it passes: as C04's, with boxes instead of points."""

    def __init__(self, vc, box, w):
        self.vc, self.box, self.w = vc, box, w
        self.R = vc.m("PathUtilities").BoundsRectangle
        self.touch = []

    def within(self, limit, i): return self.vc.and_(0 <= i, i < limit)

    def havoc(self, k):
        vc, self.touch, r = self.vc, [], self.R()
        if vc.when(vc.eq(k, 0)): return r
        for d, e in enumerate(EDGES):
            v, i = vc.fresh(e), vc.fresh_int("touch")
            b = self.box(self.w)[d]
            vc.assume(vc.and_(self.within(k, i), vc.eq(v, self.box(i)[d]), vc.implies(self.within(k, self.w), v <= b if d < 2 else v >= b)))
            self.touch.append(i)
            setattr(r, e, v)
        return r

    def check(self, what, r, k, more=None):
        vc, es = self.vc, edges(r)
        if any(vc.isnum(e) and not vc.isterm(e) for e in es):
            vc.prove(f"{what}: the empty rectangle", vc.exact(tuple(es), (float("inf"), float("inf"), -float("inf"), -float("inf"))))
            vc.prove(f"{what}: only if there is nothing", vc.eq(k, 0))
            return
        for d, v in enumerate(es):
            b = self.box(self.w)[d]
            vc.prove(f"{what}: bounds enclose every box", vc.implies(self.within(k, self.w), v <= b if d < 2 else v >= b))
            at = [*self.touch[d:d + 1], *([] if more is None else [more])]
            vc.prove(f"{what}: each edge is a box's", vc.or_(*[vc.and_(self.within(k, i), vc.eq(v, self.box(i)[d])) for i in at]))


@contract("C21", FUNCS, params=[(op, at, table) for op, at in (("new", None), ("set", "any"), ("set", -1), ("del", "any"), ("del", -1)) for table in (False, True)], symbolic_only=True, budget=200)
def any_edit(vc, op, at, table):
    """Any number of segments of any order; one edit of a contour that was asked for any table (or for none): what holds before an edit holds after it.
    table: look at the tables instead of the segments and the bounds."""
    vc.modular()
    n, w, j = vc.int("n", 2 if op == "del" else 1), vc.int("w", 0), vc.int("j", 0)
    zero = vc.integer(0)
    P = lambda i, q: (vc.at("P.x", i, q), vc.at("P.y", i, q))

    def segment(i):
        """The segment number i of those given (number n: the new one)."""
        m = vc.intat("points", i)
        vc.known(m >= 2)
        return vc.seq(m, lambda q: P(i, q))
    # now: the segments that the contour stands for, as (their number, the number of the segment at an index); version: how many edits there were
    now, version = (n, lambda i: i), 0

    def number(curve):
        i = vc.arguments(curve.controlPoints[0][0], "P.x")
        if i is None: vc.hard("a segment that is not one of those given")
        return i[0]

    def box(i):
        b = tuple(vc.at("box." + e, i) for e in EDGES)
        vc.known(vc.and_(b[0] <= b[2], b[1] <= b[3]))
        return b

    def bounds(real, curve):
        b = box(number(curve))
        return vc.m("PathUtilities").BoundsRectangle(b[:2], b[2:])

    def lut(i, steps): return lambda q: (vc.at("lut.x", i, steps, q), vc.at("lut.y", i, steps, q))
    vc.summary("Bezier", "Bezier.boundsRectangle", bounds)
    vc.summary("Bezier", "Bezier.getLUT", lambda real, curve, steps=100: vc.list(vc.seq(vc.integer(0) + steps, lut(number(curve), vc.integer(0) + steps), [])))
    union = {}

    def updating(vc, state, entry, what):
        if table: return {"bounds": vc.m("PathUtilities").BoundsRectangle(vc.pt("corner"), vc.pt("corner2"))} if what == "havoc" else None
        u = union[version] = union.get(version) or Union(vc, lambda i: box(now[1](i)), w)
        k = vc.integer(0) + state["#"]
        if what == "havoc": return {"bounds": u.havoc(k)}
        u.check(what, state["bounds"], k, k - 1 if what == "preserved" else None)
    vc.invariant("BContour._update", ("for", 0), ("bounds", "bezier"), updating)

    # the joined table is what results from appending, for each segment, its table (its first point only if it is the first)
    asked = []
    joined = lambda q: (vc.at("joined.x", vc.integer(version), asked[-1], q), vc.at("joined.y", vc.integer(version), asked[-1], q))
    before = []

    def joining(vc, state, entry, what):
        k, steps = vc.integer(0) + state["#"], asked[-1]
        parts = getattr(state["self._lut"], "parts", None)
        if parts is None: vc.hard("the table is not a list")
        if what == "established":
            vc.prove("established: an empty table", not any(parts))
            vc.prove("established: the first point is taken", vc.eq(state["startPoint"], 0))
        elif what == "havoc":
            first = vc.when(vc.eq(k, 0))
            before[:] = [] if first else [vc.seq(k * (steps - 1) + 1, joined, [j])]
            return {"self._lut": vc.list(*before), "startPoint": 0 if first else 1}
        else:
            if before and (not parts or parts[0] is not before[0]): vc.hard("the table is changed in place")
            got, skip = vc.list(*parts[len(before):]), 1 if before else 0
            vc.prove("preserved: the points of one segment", vc.eq(vc.size(got), steps - skip))
            t = lut(now[1](k - 1), steps)
            if vc.when(j < steps - skip): vc.prove("preserved: exactly the segment's table", vc.eq(tuple(vc.item(got, j)), t(j + skip)))
            vc.prove("preserved: the first point is not taken again", vc.eq(state["startPoint"], 1))
    vc.invariant("BContour.getLUT", ("for", 0), ("self._lut", "startPoint", "curve"), joining)

    def ask(label):
        steps = vc.int(f"steps {label}", 2)
        asked.append(steps)
        got = bc.getLUT(steps)
        size = now[0] * (steps - 1) + 1
        for s in asked[:-1]: vc.prove(f"{label}: tables of one size have as many samples per segment", vc.implies(vc.eq(now[0] * (s - 1) + 1, size), vc.eq(s, steps)))
        vc.prove(f"{label}: length of the table", vc.eq(vc.size(got), size))
        if vc.when(j < size): vc.prove(f"{label}: the joined table", vc.eq(tuple(vc.item(got, j)), joined(j)))

    def describe(label):
        m, which = now
        vc.prove(f"{label}: as many segments", vc.eq(vc.size(bc.beziers), m))
        if vc.when(w < m):
            for b in (bc[w], vc.item(bc.beziers, w), vc.item(vc.walk(bc), w), *([bc[w - m]] if label == "after" else [])):
                got, want = b.controlPoints, segment(which(w))
                vc.prove(f"{label}: the segment", vc.eq(vc.size(got), want.n))
                if vc.when(j < want.n): vc.prove(f"{label}: the segment's points", vc.eq(tuple(vc.item(got, j)), tuple(want.get(j))))
        first, last = which(zero), which(m - 1)
        vc.prove(f"{label}: start", vc.pteq(bc.start, P(first, zero)))
        vc.prove(f"{label}: end", vc.pteq(bc.end, P(last, vc.intat("points", last) - 1)))
        if version not in union: vc.hard("the bounds are not formed by the loop")
        union[version].check(label, bc.boundsRectangle, m)
    bc = vc.m("Bezier").BContour(vc.seq(n, segment, [] if table else [zero, n - 1, w]))
    if table and vc.flag("a table before"): ask("before")
    if op != "new":
        k = vc.index("k", n) if at == "any" else at
        place = k if at == "any" else n - 1
        version += 1
        if op == "set":
            now = (n, lambda i: n if vc.when(vc.eq(i, place)) else i)
            bc[k] = segment(n)
        else:
            now = (n - 1, lambda i: i if vc.when(i < place) else i + 1)
            del bc[k]
    if table:
        ask("after")
        ask("again")
    else: describe("after")


@contract("C21", ["BOutline.__init__", "BOutline.boundsRectangle", "BOutline.contours", "BOutline.bContours", "BOutline.__iter__", "BoundsRectangle.union"],
          params=[(0,), (1,), (2,), (3,)], bound="up to 3 contours of up to 2 segments")
def outline(vc, n):
    use_boxes(vc)
    B = vc.m("Bezier")
    contours = [vc.segs(f"c{i}_", vc.choose(f"n{i}", (1, 2)), (2, 3) if i == 0 else (2,)) for i in range(n)]
    snap = vc.snapshot(contours)
    o = B.BOutline(contours)
    vc.prove("one contour per input contour", len(o.contours) == len(o.bContours) == len(list(o)) == n and all(a is b is c for a, b, c in zip(o.contours, o.bContours, o)))
    for bc, c in zip(o, contours): describes(vc, "contour", bc, c, (2,))
    if n == 0:
        vc.prove("no contours: empty bounds", o.boundsRectangle.left > o.boundsRectangle.right and o.boundsRectangle.bottom > o.boundsRectangle.top)
        return
    boxes = [edges(bc.boundsRectangle) for bc in o]
    want = tuple(f(*[b[i] for b in boxes], boxes[0][i]) for i, f in enumerate((vc.min, vc.min, vc.max, vc.max)))
    vc.prove("bounds are the union of the contours'", vc.eq(edges(o.boundsRectangle), want))
    vc.prove_unchanged("frame", (contours, snap))


@contract("C21", ["BOutline.__init__", "BOutline.boundsRectangle", "BOutline.contours", "BOutline.bContours", "BOutline.__iter__", "BoundsRectangle.union"], symbolic_only=True, budget=200)
def any_outline(vc):
    """Any number of contours; a contour's object and its bounds through their contract (any_edit)."""
    m, w = vc.int("contours", 0), vc.int("w", 0)
    M = vc.m("Bezier")

    class Given:
        """The contour number i."""
        def __init__(self, i): self.i = i

    def box(i):
        b = tuple(vc.at("box." + e, i) for e in EDGES)
        vc.known(vc.and_(b[0] <= b[2], b[1] <= b[3]))
        return b

    def made(real, bc, contour):
        if not isinstance(contour, Given): vc.hard("a contour that is not one of those given")
        bc.given = contour.i

    def bounds(real, bc):
        b = box(bc.given)
        return vc.m("PathUtilities").BoundsRectangle(b[:2], b[2:])
    vc.summary("Bezier", "BContour.__init__", made)
    vc.summary("Bezier", "BContour.boundsRectangle", bounds)
    union, now = Union(vc, box, w), []

    def earlier(i): return M.BContour(Given(i))

    def invariant(vc, state, entry, what):
        k, parts = vc.integer(0) + state["#"], getattr(state["bContours"], "parts", None)
        if parts is None: vc.hard("the contours are not a list")
        if what == "havoc":
            now[:] = [vc.seq(k, earlier)]
            return {"bounds": union.havoc(k), "bContours": vc.list(*now)}
        if what == "established": vc.prove("established: no contours", not any(parts))
        else:
            if not parts or parts[0] is not now[0]: vc.hard("contours made earlier are changed")
            got = vc.list(*parts[1:])
            vc.prove("preserved: one contour", vc.eq(vc.size(got), 1))
            b = vc.item(got, 0)
            vc.prove("preserved: this contour", isinstance(b, M.BContour) and vc.eq(b.given, k - 1))
        union.check(what, state["bounds"], k, k - 1 if what == "preserved" else None)
    vc.invariant("BOutline.__init__", ("for", 0), ("bounds", "bContours", "bc", "contour"), invariant)
    o = M.BOutline(vc.seq(m, Given, [w]))
    for l in (o.contours, o.bContours, vc.walk(o)):
        vc.prove("one contour per input contour", vc.eq(vc.size(l), m))
        if vc.when(w < m): vc.prove("in order", vc.eq(vc.item(l, w).given, w))
    union.check("outline", o.boundsRectangle, m)


@contract("C21", ["BOutline.unzipPoints", "BOutline.pathFromSegments", "BOutline.segmentFromPoints", "BOutline.pointXY", "BOutline.xyPoint", "BContour.pointXY", "BContour.xyPoint", "Bezier.pointXY", "Bezier.xyPoint"],
          params=[(2,), (3,), (4,)], bound="up to 3 segments; lists of up to 4 points")
def conversions(vc, size):
    use_boxes(vc)
    M = vc.m("Bezier")
    O, B = M.BOutline, M.Bezier
    pts = vc.pts("p", size)
    snap = vc.snapshot(pts)
    s = O.segmentFromPoints(pts)
    vc.prove("points to segment and back", isinstance(s, B) and vc.eq([tuple(p) for p in s.controlPoints], pts))
    xs, ys = O.unzipPoints(pts)
    vc.prove("unzipped", vc.eq(list(zip(xs, ys)), pts) and len(xs) == len(ys) == size)
    segs = [s] + [O.segmentFromPoints(vc.pts(f"s{i}_", vc.choose(f"k{i}", (2, 3, 4)))) for i in range(vc.choose("more", (0, 1, 2)))]
    path = O.pathFromSegments(*segs)
    vc.prove("segments to path and back", isinstance(path, M.BContour))
    describes(vc, "path", path, [x.controlPoints for x in segs], (2,))
    for C in (O, M.BContour, B):
        x, y = C.pointXY(pts[0])
        vc.prove("point to coordinates and back", vc.and_(vc.pteq(pts[0], (x, y)), vc.pteq(C.xyPoint(x, y), pts[0])))
    vc.prove_unchanged("frame", (pts, snap))


@contract("C21", ["BOutline.unzipPoints", "BOutline.pathFromSegments"], symbolic_only=True)
def any_conversions(vc):
    """Lists of any number of points, paths of any number of segments."""
    n, w = vc.int("n", 0), vc.int("w", 0)
    M, P = vc.m("Bezier"), lambda i: (vc.at("P.x", i), vc.at("P.y", i))
    for l, d in zip(M.BOutline.unzipPoints(vc.seq(n, P, [w])), (0, 1)):
        vc.prove("unzipped: as many", vc.eq(vc.size(l), n))
        if vc.when(w < n): vc.prove("unzipped: in order", vc.eq(vc.item(l, w), P(w)[d]))
    vc.modular()
    given = []
    vc.summary("Bezier", "BContour.__init__", lambda real, bc, contour: given.append((bc, contour)))
    m = vc.int("m", 1)
    Q = lambda i, j: (vc.at("Q.x", i, j), vc.at("Q.y", i, j))
    path = M.BOutline.pathFromSegments(*vc.star(vc.seq(m, lambda i: M.Bezier([Q(i, vc.integer(j)) for j in range(3)]), [w])))
    vc.prove("one path", any(bc is path for bc, _ in given))
    for l in [l for bc, l in given if bc is path]:
        vc.prove("path: as many segments", vc.eq(vc.size(l), m))
        if vc.when(w < m): vc.prove("path: the segments in order", vc.eq([tuple(p) for p in vc.item(l, w)], [Q(w, vc.integer(j)) for j in range(3)]))
