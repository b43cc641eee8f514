"""C04: bounds rectangles are the tightest enclosing rectangles."""
from pyvc.api import contract

INF = float("inf")


def tight(vc, label, b, pts):
    """b is the tightest rectangle around pts (any number of them)."""
    if not pts:
        vc.prove(f"{label}: empty rectangle", vc.and_(vc.exact(b.left, INF), vc.exact(b.right, -INF), vc.exact(b.bottom, INF), vc.exact(b.top, -INF)))
        q = vc.pt("q")
        vc.prove(f"{label}: the empty rectangle encloses no point", vc.not_(b.enclosesPoint(q)))
        return
    vc.prove(f"{label}: encloses every point", vc.and_(*[c for x, y in pts for c in (b.left <= x, x <= b.right, b.bottom <= y, y <= b.top)]))
    vc.prove(f"{label}: each edge is touched", vc.and_(
        vc.or_(*[vc.exact(b.left, x) for x, _ in pts]), vc.or_(*[vc.exact(b.right, x) for x, _ in pts]),
        vc.or_(*[vc.exact(b.bottom, y) for _, y in pts]), vc.or_(*[vc.exact(b.top, y) for _, y in pts])))


@contract("C04", ["BoundsRectangle.__init__", "BoundsRectangle.enclosesPoint"], bound="up to 5 points symbolically")
def of_points(vc):
    B = vc.m("PathUtilities").BoundsRectangle
    pts = vc.pts("p", vc.count("n", 0, 5, 30, (60, 130, 260, 520, 1030)))
    s = vc.snapshot(pts)
    tight(vc, "points", B(*pts), pts)
    vc.prove_unchanged("frame", (pts, s))


@contract("C04", ["BoundsRectangle.fromContour", "BoundsRectangle.fromCoutours", "BoundsRectangle.union"], params=[("contour",), ("contours",)])
def of_contours(vc, what):
    B = vc.m("PathUtilities").BoundsRectangle
    if what == "contour":
        arg = [vc.pts(f"s{i}_", vc.count(f"s{i}n", 0, 2, 4, (6, 11))) for i in range(vc.count("n", 0, 3, 6, (20, 50, 130, 260, 520)))]
        pts = [p for s in arg for p in s]
        f = B.fromContour
    else:
        arg = [[vc.pts(f"c{j}s{i}_", vc.count(f"c{j}s{i}n", 0, 1, 4)) for i in range(vc.count(f"c{j}n", 0, 2, 4, (20,)))] for j in range(vc.count("n", 0, 2, 4, (9, 20, 50, 110)))]
        pts = [p for c in arg for s in c for p in s]
        f = B.fromCoutours
    s = vc.snapshot(arg)
    tight(vc, what, f(arg), pts)
    vc.prove_unchanged("frame", (arg, s))


# -- any number of points, segments and contours -----------------------------------------------------------------------
# A nested sequence of points is given by the point at indices and by the sizes of its parts.  ws: the indices of an arbitrary
# point.  That an edge is touched by some point is carried along as the indices of such a point.

EDGES = (("left", 0, "<="), ("bottom", 1, "<="), ("right", 0, ">="), ("top", 1, ">="))


class Points:
    """A sequence of points (depth 0), segments (1) or contours (2), the part at the indices outer of the whole."""

    def __init__(self, vc, depth, outer, ws):
        self.vc, self.depth, self.outer, self.ws = vc, depth, tuple(outer), ws
        self.n = self.size(self.outer)
        vc.known(self.n >= 0)

    def size(self, i): return self.vc.intat(f"size{len(i)}", *i)
    def point(self, i): return (self.vc.at("x", *i), self.vc.at("y", *i))

    def build(self):
        vc, k = self.vc, len(self.outer)
        element = (lambda i: self.point((*self.outer, i))) if self.depth == 0 else (lambda i: Points(vc, self.depth - 1, (*self.outer, i), self.ws).build())
        out = vc.seq(self.n, element, [self.ws[k]])
        out.points = self
        return out

    def inside(self, limit, i):
        """Do the indices name a point of the first parts (as many as the limit)?"""
        k = len(self.outer)
        out = [self.vc.exact(a, b) for a, b in zip(self.outer, i)] + [0 <= i[k], i[k] < limit]
        for j in range(k + 1, len(i)): out += [0 <= i[j], i[j] < self.size(i[:j])]
        return self.vc.and_(*out)

    def tightest(self, limit, empty):
        """The edges of the tightest rectangle around the first parts, known only as such, and points that touch them."""
        vc = self.vc
        if empty:
            vc.assume(vc.not_(self.inside(limit, self.ws)))
            return (INF, INF, -INF, -INF), None
        edges, touch = [vc.fresh(e) for e, _, _ in EDGES], []
        for v, (_, k, op) in zip(edges, EDGES):
            i = (*self.outer, *[vc.fresh_int("touch") for _ in range(self.depth + 1)])
            p = self.point(self.ws)[k]
            vc.assume(vc.and_(self.inside(limit, i), vc.eq(v, self.point(i)[k])))
            vc.assume(vc.implies(self.inside(limit, self.ws), v <= p if op == "<=" else v >= p))
            touch.append(i)
        return edges, touch

    def check(self, label, edges, limit, candidates):
        """Are these the edges of the tightest rectangle?  candidates: for each edge, points that may touch it."""
        vc = self.vc
        if any(vc.isnum(e) and not vc.isterm(e) for e in edges):
            vc.prove(f"{label}: the empty rectangle", vc.exact(tuple(edges), (INF, INF, -INF, -INF)))
            vc.prove(f"{label}: only if there is no point", vc.not_(self.inside(limit, self.ws)))
            return
        for v, (_, k, op), cs in zip(edges, EDGES, zip(*candidates)):
            p = self.point(self.ws)[k]
            vc.prove(f"{label}: encloses every point", vc.implies(self.inside(limit, self.ws), v <= p if op == "<=" else v >= p))
            vc.prove(f"{label}: each edge is touched", vc.or_(*[vc.and_(self.inside(limit, i), vc.eq(v, self.point(i)[k])) for i in cs]))


def edges_of(b): return (b.left, b.bottom, b.right, b.top)


def set_edges(b, edges): b.left, b.bottom, b.right, b.top = edges


@contract("C04", ["BoundsRectangle.__init__", "BoundsRectangle.fromContour", "BoundsRectangle.fromCoutours", "BoundsRectangle.union"], params=[(0,), (1,), (2,)], symbolic_only=True)
def of_any_points(vc, depth):
    """Any number of points, of segments of any size, of contours of any size.  A caller relies on the contract of the parts' rectangles."""
    B = vc.m("PathUtilities").BoundsRectangle
    ws = tuple(vc.int(f"w{k}", 0) for k in range(depth + 1))
    whole = Points(vc, depth, (), ws)
    names = [("right", "top", "left", "bottom", "point", "px", "py"), ("bounds", "segment"), ("bounds", "contour")][depth]
    parts, seen = [], {}

    def part(real, *a):
        s = getattr(vc.unstar(a[-1]), "points", None) if a else None
        if s is None or s.depth != depth - 1: return real(*a)
        edges, touch = s.tightest(s.n, bool(vc.choose(f"part {len(parts)} is empty", (True, False))))
        parts.append(touch)
        b = a[0] if depth == 1 else B()
        set_edges(b, edges)
        return None if depth == 1 else b
    if depth: vc.summary("PathUtilities", ("BoundsRectangle.__init__", "BoundsRectangle.fromContour")[depth - 1], part)

    def invariant(vc, state, entry, what):
        k = state["#"]
        if what == "havoc":
            edges, seen["touch"] = whole.tightest(k, vc.choose("nothing so far", (True, False)))
            parts.clear()
            if depth == 0: return dict(zip(("left", "bottom", "right", "top"), edges))
            b = B()
            set_edges(b, edges)
            return {"bounds": b}
        touch = [t for t in [seen.get("touch"), *parts] if t]
        if depth == 0 and what == "preserved": touch.append([(k - 1,)] * 4)
        whole.check(what, [state[e] for e in ("left", "bottom", "right", "top")] if depth == 0 else edges_of(state["bounds"]), k, touch)
    vc.invariant(("BoundsRectangle.__init__", "BoundsRectangle.fromContour", "BoundsRectangle.fromCoutours")[depth], ("for", 0), names, invariant)
    arg = whole.build()
    b = (lambda l: B(*l._vc_starargs()), B.fromContour, B.fromCoutours)[depth](arg)
    whole.check("result", edges_of(b), whole.n, [seen["touch"]] if seen.get("touch") else [])
