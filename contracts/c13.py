"""C13: curve queries are pure: order and repetition never matter."""
import types

from pyvc.api import attributes, contract
from pyvc.runtime import present
from . import common  # noqa: F401

FILLERS = {
    "dcPoints": lambda vc, c, a: c.dcPoints, "extrema": lambda vc, c, a: c.extrema, "bbox": lambda vc, c, a: c.bbox,
    "boundsRectangle": lambda vc, c, a: c.boundsRectangle, "getLUT(2)": lambda vc, c, a: c.getLUT(2), "getLUT(3)": lambda vc, c, a: c.getLUT(3),
    "length": lambda vc, c, a: c.length}

OTHERS = {
    "attributes": lambda vc, c, a: [c.controlPoints, c.order, c.start, c.end, c.startX, c.startY, c.endX, c.endY, c.direction],
    "get": lambda vc, c, a: c.get(a["t"]), "midpoint": lambda vc, c, a: c.midpoint, "hull": lambda vc, c, a: c.hull(a["t"]),
    "normal": lambda vc, c, a: c.normal(a["t"]), "derivative": lambda vc, c, a: c._derivative(a["t"]),
    "skeletonBounds": lambda vc, c, a: c.skeletonBounds,
    "split": lambda vc, c, a: c.split(a["t"]), "split between": lambda vc, c, a: c.split(a["t"], a["u"]),
    "align": lambda vc, c, a: c.align(), "raiseOrder": lambda vc, c, a: c.raiseOrder(),
    "overlaps": lambda vc, c, a: [c.overlaps(a["other"]), a["other"].overlaps(c)],
    "roots": lambda vc, c, a: c.roots(a["line"]), "own roots": lambda vc, c, a: c.roots(), "lineIntersects": lambda vc, c, a: c.lineIntersects(a["line"]),
    "intersectWithLine": lambda vc, c, a: c.intersectWithLine(a["curve line"]),
    "simple": lambda vc, c, a: c.simple(), "reduce": lambda vc, c, a: c.reduce(),
    "offset point": lambda vc, c, a: c.offset(a["t"], a["d"]), "offset": lambda vc, c, a: c.offset(a["d"]), "scale": lambda vc, c, a: c.scale(a["d"]),
    "tightbbox": lambda vc, c, a: c.tightbbox, "getABC": lambda vc, c, a: c.getABC(a["t"]),
    "self-intersection": lambda vc, c, a: c.selfIntersects(), "intersects": lambda vc, c, a: c.intersects(a["other"], 40)}
TABLES = {f"getLUT({n})": lambda vc, c, a, n=n: c.getLUT(n) for n in (4, 5, 7, 10, 21, 50, 99, 100, 101, 200, 201, 500)}
TABLES["getLUT()"] = lambda vc, c, a: c.getLUT()
QUERIES = {**FILLERS, **OTHERS, **TABLES}
COMMON = [*FILLERS, *OTHERS, "getLUT()"]


def value(vc, x, new=None):
    """What a caller can see of a result: numbers, lists, rectangles, curves, all the way down."""
    if isinstance(x, (list, tuple)) or isinstance(x, (map, filter, zip)): return [value(vc, y, new) for y in x]
    if isinstance(x, dict): return [[k, value(vc, v, new)] for k, v in sorted(x.items(), key=str)]
    if hasattr(x, "controlPoints"):
        if new is not None: new.append(x)
        return ["curve", value(vc, x.controlPoints), x._t1, x._t2]
    if all(hasattr(x, k) for k in ("left", "bottom", "right", "top")): return ["box", x.left, x.bottom, x.right, x.top]
    if hasattr(x, "_vc_value"): return x._vc_value
    return x


def identical(a, b):
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, list) or isinstance(b, list): return False
    if hasattr(a, "e") and hasattr(b, "e"): return a.e.eq(b.e)
    if hasattr(a, "e") or hasattr(b, "e"): return False
    return a is b or (type(a) is type(b) and a == b) or (a == b) is True or (a != a and b != b)


def same(vc, label, a, b):
    vc.prove(label, True if identical(a, b) else (lambda: vc.eq(a, b)) if vc.symbolic else False)


def state(vc, c):
    """All that a curve remembers."""
    return [[k, value(vc, v)] for k, v in present(c)]


def world_state(vc):
    """All that is not part of a curve: module-level and class-level data, the decimal context."""
    out = [vc.prec()]
    for name in ("Bezier", "BezierUtilities", "PathUtilities", "Transform"):
        m = vc.m(name)
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"): continue
            if isinstance(v, (list, dict, tuple, int, float)): out.append([name, k, value(vc, v)])
            if isinstance(v, type) and v.__module__.startswith("PathLib"):
                out.extend([name, k, n, value(vc, w)] for n, w in sorted(vars(v).items()) if isinstance(w, (list, dict, tuple, int, float)) and not n.startswith("__"))
    return out


def abstract(vc, pattern, simple):
    """droots, removeDuplicates, lli8, _arcfun and simple as functions of their arguments: a fixed number of roots, in ascending order and inside (0, 1)."""
    if not vc.symbolic: return
    known, order = {}, []

    def droots(real, p):
        key = tuple(vc.ctx.termkey(x.e) if vc.isterm(x) else x for x in p)
        if key not in known:
            n = min(pattern[len(known)] if len(known) < len(pattern) else 1, len(p) - 1)
            known[key] = [vc.real(f"root{len(known)}.{i}") for i in range(n)]
            for r in known[key]:
                vc.known(vc.and_((order[-1] if order else 0) < r, r < 1))
                order.append(r)
        return list(known[key])
    vc.summary("BezierUtilities", "droots", droots)
    vc.summary("BezierUtilities", "removeDuplicates", lambda real, l: list(l))
    vc.summary("Bezier", "Bezier._arcfun", lambda real, c, t: vc.Decimal(vc.function("speed", *[v for p in c.controlPoints for v in p], vc.value(t))))
    points = {}

    def lli8(real, *a):
        key = tuple(x.e.get_id() if vc.isterm(x) else x for x in a)
        if key not in points: points[key] = (vc.pt(f"meet{len(points)}"), a)
        return points[key][0]
    vc.summary("BezierUtilities", "lli8", lli8)
    if simple is not None: vc.summary("Bezier", "Bezier.simple", lambda real, c: simple)


def arguments(vc, n):
    other = vc.pts("o", n + 1)
    line = [(0, 0), (vc.real("lx"), 7)]
    t, u = vc.real("t", 0, 1), vc.real("u", 0, 1)
    vc.assume(vc.and_(0 < t, t < u, u < 1) if vc.symbolic else .01 < t < u < .99)
    return {"t": t, "u": u, "d": vc.real("d"), "line": line, "curve line": vc.m("Bezier").Bezier(list(line)), "other": vc.m("Bezier").Bezier(other)}


class Histories:
    def __init__(self, vc, n, args):
        self.vc, self.n, self.args = vc, n, args
        self.pts = vc.pts("p", n + 1)
        self.snap = vc.snapshot(self.pts)
        self.B = vc.m("Bezier").Bezier
        self.fresh = {}

    def ask(self, name, c, new=None):
        """The answer of a query, or the exception it raises."""
        try:
            r = QUERIES[name](self.vc, c, self.args)
            if isinstance(r, (map, filter, zip, types.GeneratorType)): r = list(r)
            return r, value(self.vc, r, new)
        except (ZeroDivisionError, ValueError, TypeError, IndexError) as e:
            return None, ["raises", type(e).__name__]

    def alone(self, name):
        """The answer of a new curve with the same points."""
        if name not in self.fresh: self.fresh[name] = self.ask(name, self.B(list(self.pts)))[1]
        return self.fresh[name]

    def run(self, path):
        """A curve that has been asked these queries; every answer is that of a new curve, and stays what it was."""
        c, given, new = self.B(self.pts), [], []
        for name in path:
            r, v = self.ask(name, c, new)
            same(self.vc, f"{name} depends on the points alone", v, self.alone(name))
            given.append((name, r, v))
        for name, r, v in given:
            if r is not None: same(self.vc, f"the answer of {name} is not changed afterwards", value(self.vc, r), v)
        self.vc.prove_unchanged("the given points", (self.pts, self.snap))
        return c, new


def reachable(h, limit=80):
    """One history for every state a curve's memory can get into by the caching queries: a fixpoint."""
    vc = h.vc
    states, agenda = [(state(vc, h.B(h.pts)), [])], [[]]
    while agenda:
        path = agenda.pop(0)
        for q in FILLERS:
            c, _ = h.run(path + [q])
            s = state(vc, c)
            if not any(identical(s, x) for x, _ in states):
                states.append((s, path + [q]))
                agenda.append(path + [q])
        if len(states) > limit: vc.hard("too many different states")
    return states


FOUND: dict = {}          # the histories of a unit's first path (they don't depend on the data)


PATTERNS = [(2, 1, 2, 1), (0, 0, 0, 0), (1, 0, 2, 1), (0, 1, 1, 0), (2, 2, 0, 1)]


@contract("C13", ["Bezier.dcPoints", "Bezier.extrema", "Bezier.bbox", "Bezier._getminmax", "Bezier.boundsRectangle", "Bezier.getLUT", "Bezier.length"],
          params=[(n, p) for n in (1, 2, 3) for p in range(len(PATTERNS))], symbolic_only=True, weight=2, max_ticks=10**8)
def caching(vc, n, p):
    """All histories of the caching queries, of any length: the states of a curve's memory are finitely many, found as a fixpoint, and in each of
    them every query answers what a new curve answers and leads to one of them."""
    vc.modular()
    args = arguments(vc, n)
    abstract(vc, PATTERNS[p], None)
    h = Histories(vc, n, args)
    before, observer = world_state(vc), h.B(vc.pts("w", n + 1))
    for q in FILLERS: h.ask(q, observer)
    seen = state(vc, observer)
    states = reachable(h)
    vc.prove("finitely many states of its memory, the same whatever the data", [p for _, p in states] == FOUND.setdefault((n, p), [p for _, p in states]))
    same(vc, "other curves are not influenced", state(vc, observer), seen)
    same(vc, "nothing else is", world_state(vc), before)


SLOW = ("roots", "own roots", "lineIntersects", "intersectWithLine", "reduce", "offset", "scale", "simple", "tightbbox", "getABC", "self-intersection", "intersects", "align", "normal", "offset point")


@contract("C13", ["Bezier." + k for k in ("get", "hull", "normal", "_derivative", "split", "align", "raiseOrder", "overlaps", "roots", "lineIntersects", "intersectWithLine", "simple",
                                         "reduce", "offset", "scale", "tightbbox", "getABC", "midpoint", "direction", "controlPoints", "order")],
          params=[(n, q) for n in (1, 2, 3) for q in OTHERS if not (n == 1 and q in ("getABC", "reduce", "self-intersection", "intersects", "roots", "own roots", "lineIntersects", "scale", "simple"))],
          symbolic_only=True, max_ticks=10**8)
def others(vc, n, q):
    """In every state of its memory a query answers what a new curve answers, and leaves the memory in one of those states."""
    vc.modular()
    args = arguments(vc, n)
    abstract(vc, PATTERNS[0], False if q in ("reduce", "offset", "self-intersection", "intersects") else None)
    h = Histories(vc, n, args)
    before, observer = world_state(vc), args["other"]
    for k in FILLERS: h.ask(k, observer)
    seen = state(vc, observer)
    if n not in FOUND: FOUND[n] = [p for _, p in reachable(h)]
    paths = FOUND[n]
    if q in SLOW: paths = [p for i, p in enumerate(paths) if i % 5 == 0 or i == len(paths) - 1]
    for path in paths:
        s = state(vc, h.run(path)[0])
        c, new = h.run(path + [q])
        for k in new:
            for f in ("extrema", "boundsRectangle", "getLUT(2)"): h.ask(f, k)
        if identical(state(vc, c), s): vc.prove("the memory stays what it was", True)
        else: same(vc, "then the caching queries answer what they did", state(vc, h.run(path + [q] + list(FILLERS))[0]), state(vc, h.run(path + [q] + list(FILLERS) + [q])[0]))
    same(vc, "other curves are not influenced", state(vc, observer), seen)
    same(vc, "nothing else is", world_state(vc), before)


@contract("C13", ["Bezier." + k for k in ("extrema", "bbox", "getLUT", "length", "reduce", "roots", "split", "offset", "scale", "intersects")], params=[(1,), (2,), (3,)],
          level="bounded", bound="drawn histories of up to 9 queries on two curves", concrete_only=True, conc_secs=3)
def histories(vc, n):
    B = vc.m("Bezier").Bezier
    args = arguments(vc, n)
    hs = [Histories(vc, n, args)]
    hs.append(Histories(vc, n, args))
    hs[1].pts = [(y, x) for x, y in hs[0].pts]
    hs[1].snap = vc.snapshot(hs[1].pts)
    curves = [B(h.pts) for h in hs]
    before = world_state(vc)
    given = []
    for i in range(9):
        k = vc.choose(f"curve{i}", (0, 1))
        q = vc.choose(f"query{i}", COMMON) if vc.flag(f"common{i}") or vc.flag(f"usual{i}") else vc.choose(f"table{i}", list(TABLES))
        if q in ("self-intersection", "intersects"): continue
        h, c = hs[k], curves[k]
        r, v = h.ask(q, c)
        same(vc, f"{q} depends on the points alone", v, h.alone(q))
        given.append((q, r, v))
    for q, r, v in given:
        if r is not None: same(vc, f"the answer of {q} is not changed afterwards", value(vc, r), v)
    same(vc, "nothing else changes", world_state(vc), before)
    for h in hs: vc.prove_unchanged("the given points", (h.pts, h.snap))
