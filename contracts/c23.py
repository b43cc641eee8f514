"""C23: SVG path data draws exactly the given path."""
from pyvc.api import contract
from . import common  # noqa: F401
from .c21 import use_boxes


class Malformed(Exception):
    pass


ARGS = {"M": 2, "L": 2, "H": 1, "V": 1, "Q": 4, "C": 6, "Z": 0}


class Drawn:
    """Stands for path data after which a reader is at the point pen, its last command being command."""

    def __init__(self, command, pen): self.command, self.pen = command, pen


def path_data(vc, text, end=None):
    """Reads a string by the SVG path grammar: [(start, segments, closed)].  end: what of it a reader remembers at the end of it."""
    toks = vc.tokens(text)
    out, pen, start, segs, closed, i = [], None, None, None, False, 0
    command, sep = None, None            # sep: what separates the next number from the last one

    def wsp():
        nonlocal i
        n = 0
        while i < len(toks) and isinstance(toks[i], str) and toks[i] in " \t\r\n": i, n = i + 1, n + 1
        return n

    def number(first):
        nonlocal i
        n = wsp()
        if not first:
            if i < len(toks) and toks[i] == ",":
                i += 1
                n += 1
                wsp()
            if not n: raise Malformed("no separator between numbers")
        if i >= len(toks) or isinstance(toks[i], str): raise Malformed("number expected")
        i += 1
        return toks[i - 1]

    def flush():
        nonlocal segs
        if segs is not None: out.append((start, segs, closed))
        segs = None

    while True:
        wsp()
        if i >= len(toks): break
        if isinstance(toks[i], Drawn):
            command, pen = toks[i].command, toks[i].pen
            segs, closed, start = [], False, pen
            i += 1
            continue
        explicit = isinstance(toks[i], str) and toks[i] != ","
        if explicit:
            command = toks[i]
            i += 1
            if command.upper() not in ARGS: raise Malformed(f"command {command}")
        elif command is None or command in "Zz": raise Malformed("no command")
        elif command in "Mm": command = "L" if command == "M" else "l"
        op, rel = command.upper(), command.islower()
        if not explicit:
            i -= 1                       # look at the separator before the first number, too
            if not isinstance(toks[i], str): raise Malformed("no separator between numbers")
            if toks[i] not in " \t\r\n,": raise Malformed("no separator between numbers")
        v = [number(explicit and k == 0) for k in range(ARGS[op])]
        if op == "M":
            flush()
            pen = start = (v[0], v[1]) if not rel or pen is None else (pen[0] + v[0], pen[1] + v[1])
            segs, closed = [], False
            continue
        if pen is None: raise Malformed("no move first")
        if segs is None: segs, closed, start = [], False, pen
        if op == "Z":
            closed = True
            flush()
            pen = start
            continue
        if op == "H": p = [(v[0] + (pen[0] if rel else 0), pen[1])]
        elif op == "V": p = [(pen[0], v[0] + (pen[1] if rel else 0))]
        else: p = [(a + pen[0], b + pen[1]) if rel else (a, b) for a, b in zip(v[::2], v[1::2])]
        segs.append([pen, *p])
        pen = p[-1]
    flush()
    if end is not None: end.append(Drawn(command, pen))
    return out


def read(vc, label, text, end=None):
    try:
        return path_data(vc, text, end)
    except Malformed as e:
        vc.prove(f"{label}: well-formed path data ({e})", False)


def drawn(vc, segs):
    return [s for s in segs if len(s) != 2 or not vc.when(vc.pteq(s[0], s[1]))]


def draws(vc, label, text, contours, closed=None):
    """The path data draws exactly these contours."""
    got = read(vc, label, text)
    if got is None: return
    vc.prove(f"{label}: one sub-path per contour", len(got) == len(contours))
    for (start, segs, z), c in zip(got, contours):
        want = drawn(vc, c)
        vc.prove(f"{label}: from the contour's start", vc.pteq(start, c[0][0]))
        vc.prove(f"{label}: the contour's segments", vc.eq([[tuple(p) for p in s] for s in segs], [[tuple(p) for p in s] for s in want]))
        if closed is not None: vc.prove(f"{label}: closed as asked", z == closed)


def connected(vc, name, sizes):
    """A connected contour of segments with that many points."""
    out, pen = [], vc.pt(f"{name}s")
    for i, n in enumerate(sizes):
        s = [pen, *vc.pts(f"{name}{i}_", n - 1)]
        out.append(s)
        pen = s[-1]
    return out


def some(vc, name, n, most=5):
    if not vc.symbolic: n = vc.choose(f"{name}n", range(1, most + 1))
    return connected(vc, name, [vc.choose(f"{name}k{i}", (2, 3, 4)) for i in range(n)])


@contract("C23", ["BContour.d", "BContour.pointToString"], params=[(1,), (2,), (3,)], bound="contours of up to 3 segments (two consecutive segments determine every command and its context)", conc_secs=1)
def path_string(vc, n):
    use_boxes(vc)
    c = some(vc, "c", n, 7)
    snap = vc.snapshot(c)
    b = vc.m("Bezier").BContour(c)
    text = b.d()
    draws(vc, "d", text, [c])
    vc.prove("asked again: the same", b.d() == text)
    vc.prove_unchanged("frame", (c, snap))


# -- any number of segments -----------------------------------------------------------------------------------
# What a reader of path data does next depends on the point it is at and on its last command alone.  So the invariant of a
# loop over a contour's segments is: what was written so far draws the segments so far, and leaves a reader at the point the
# code takes for the pen's, with the command the code takes for the last one (if it takes any) as its last command.

def any_contour(vc, name="", outer=(), more=()):
    """A connected contour of any number of lines, quadratics and cubics."""
    n = vc.intat(f"{name}segments", *outer) if outer else vc.int(f"{name}segments", 1)
    vc.known(n >= 1)
    P = lambda i, j: (vc.at(f"{name}P.x", *outer, i, j), vc.at(f"{name}P.y", *outer, i, j))

    def segment(i):
        k = vc.intat(f"{name}kind", *outer, i)
        m = 2 if vc.when(vc.eq(k, 2)) else 3 if vc.when(vc.eq(k, 3)) else 4
        zero = vc.integer(0)
        return [P(i, zero), *[P(i, zero + j) for j in range(1, m - 1)], P(i + 1, zero)]
    return n, lambda i: P(i, vc.integer(0)), vc.seq(n, segment, [vc.integer(0), n - 1, *more])


REMEMBERED = ("", "V", "H", "L", "Q", "C")


def writing(vc, at, commands="commands", last="lastCommand", pen="pen", repeats=True):
    """The invariant above.  at(): the contour's ends E and segments.  repeats: does the code leave out repeated commands?"""
    now, before = [], []

    def check(what, text, state, k, E):
        end = []
        got = read(vc, what, text, end)
        if got is None: return
        reader, code = end[0], state[last]
        if reader.pen is None: return vc.prove(f"{what}: begins with a move", False)
        if code and not repeats: vc.hard("the last command is remembered without need")
        vc.prove(f"{what}: the reader is where the segments so far end", vc.pteq(reader.pen, E(k)))
        vc.prove(f"{what}: so is the code's pen", vc.pteq(state[pen], E(k)))
        vc.prove(f"{what}: the code's last command is the reader's", not code or code == reader.command)
        return got

    def invariant(vc, state, entry, what):
        k = vc.integer(0) + state["#"]
        E, contour = at()
        parts = getattr(state[commands], "parts", None)
        if parts is None: vc.hard("the path data is not a list of texts")
        if what == "established":
            before[:] = [p for p in parts if not isinstance(p, list)]
            if before and (len(before) > 1 or parts[0] is not before[0]): vc.hard("path data of other contours")
            got = check(what, "".join("".join(p) if isinstance(p, list) else p.text for p in parts), state, vc.integer(0), E)
            if got is None: return
            vc.prove(f"{what}: nothing but the move to the start", len(got) == 1 + len(before) and not any(s for _, s, _ in got) and not any(z for _, _, z in got) and vc.pteq(got[-1][0], E(vc.integer(0))))
        elif what == "havoc":
            c = vc.choose("reader", ("M", "V", "H", "L", "Q", "C"))
            text = vc.texts(vc.int("texts", 1), Drawn(c, E(k)))
            now[:] = [(text, k)]
            return {commands: vc.list(text), pen: E(k), last: vc.choose("known", ("", c)) if c != "M" and repeats else ""}
        else:
            (text, i), = now
            if not parts or parts[0] is not text or any(not isinstance(p, list) for p in parts[1:]): vc.hard("path data changed in place")
            got = check(what, text.text + "".join(x for p in parts[1:] for x in p), state, i + 1, E)
            if got is not None: vc.prove(f"{what}: exactly the segment", len(got) == 1 and not got[0][2] and vc.eq([[tuple(p) for p in s] for s in got[0][1]], [[tuple(p) for p in s] for s in drawn(vc, [contour.get(i)])]))
    return invariant


@contract("C23", ["BContour.d", "BContour.pointToString"], symbolic_only=True, budget=200)
def path_string_any(vc):
    """Contours of any number of segments."""
    n, E, contour = any_contour(vc)
    use_boxes(vc)
    any_bounds(vc)
    bc = vc.m("Bezier").BContour(contour)
    names = ("commands", "lastCommand", "pen", "firstPoint", "bezier", "segment", "penX", "penY", "x", "y", "command", "point", "p1", "p2", "p3")
    vc.invariant("BContour.d", ("for", 0), names, writing(vc, lambda: (E, contour)))
    text = bc.d()
    end = []
    got = read(vc, "d", text, end)
    vc.prove("d: all segments, and nothing after them", len(got) == 1 and not got[0][1] and not got[0][2] and vc.pteq(end[0].pen, E(n)))


def any_bounds(vc):
    """The bounds of a contour of any number of segments (see C21) are not looked at."""
    R = vc.m("PathUtilities").BoundsRectangle

    def invariant(vc, state, entry, what):
        if what == "havoc": return {"bounds": R(vc.pt("corner"), vc.pt("corner2"))}
    vc.invariant("BContour._update", ("for", 0), ("bounds", "bezier"), invariant)


# -- the plotter -----------------------------------------------------------------------------------------------

def settings(p):
    return {k: v for k, v in vars(p).items() if k.startswith(("_fill", "_stroke"))}


def new_plotter(vc, poly=None):
    p = vc.m("ContourPlotter").ContourPlotter((0, 0, 1000, 1000), vc.flag("poly") if poly is None else poly)
    p.setFillColor("fillColor1")
    p.setStrokeColor("strokeColor1")
    p.setStrokeWidth(7)
    p.setStrokeDash("dash1")
    p.setFillOpacity("opacity1")
    return p


def history(vc, p, n=5):
    """Something is drawn first."""
    B = vc.m("Bezier")
    x = [(0, 0), (10, 0), (10, 20), (30, 50), (40, 40), (50, 90)]
    last = {"V": [[x[1], x[2]]], "H": [[x[0], x[1]]], "L": [[x[2], x[3]]], "Q": [x[:3]], "C": [x[:4]]}
    what = vc.choose("before", ("nothing", "V", "H", "L", "Q", "C", "path", "points")[:n])
    if what in last: p.drawContours([last[what]], close=vc.flag("before closed"))
    elif what == "path": p.drawPaths([B.BContour([[x[2], x[3]]])], color="colour0")
    elif what == "points": p.drawPointsAsSegments(x, color="colour0")
    del p._content[:]


def pieces(vc, p, n, color, fill, content=None):
    """The d strings of the n <path> elements drawn."""
    content = p._content if content is None else content
    vc.prove("as many elements as drawings", len(content) == n)
    out = []
    for e in content:
        vc.prove("a path element", isinstance(e, str) and e.startswith("<path d='") and e.endswith("/>") and e.count("'") in (2, 4))
        d, rest = e[len("<path d='"):].split("'", 1)
        out.append(d)
        want = f"FILL[{color or 'fillColor1'}|opacity1]" if fill else f"fill='none' STROKE[7|{color or 'strokeColor1'}|strokeOpacity0|dash1]"
        vc.prove("filled or stroked as asked", rest.strip() == want + "/>")
    return out


def options(vc):
    return vc.choose("color", (None, "colour1")), vc.flag("fill"), vc.flag("close")


PLOT = ["ContourPlotter.__init__", "ContourPlotter.getCommand", "ContourPlotter.pointToString", "ContourPlotter.pushFillAttributes", "ContourPlotter.popFillAttributes",
        "ContourPlotter.pushStrokeAttributes", "ContourPlotter.popStrokeAtributes"]


@contract("C23", PLOT + ["ContourPlotter.drawContours"], params=[("styles", 1), ("after", 1), ("contours", 1), ("contours", 2), ("segments", 2), ("segments", 3)],
          bound="up to 3 segments in one contour, up to 2 contours", conc_secs=1, budget=200)
def contours(vc, what, n):
    p = new_plotter(vc, True if n == 3 and vc.symbolic else None)
    if what == "after" or not vc.symbolic: history(vc, p, 8)
    elif what != "styles" and n < 3: history(vc, p, 2)
    color, fill, close = options(vc) if what == "styles" or not vc.symbolic else (None, False, n == 3 or vc.flag("close"))
    if what == "contours" and vc.symbolic: cs = [some(vc, f"c{i}", 1) for i in range(n)]
    elif vc.symbolic: cs = [some(vc, "c", n)]
    else: cs = [some(vc, f"c{i}", 1, 4) for i in range(vc.choose("contours", range(1, 4)))]
    snap, set0 = vc.snapshot(cs), settings(p)
    p.drawContours(cs, color=color, fill=fill, close=close)
    for d in pieces(vc, p, 1, color, fill): draws(vc, "contours", d, cs, close)
    vc.prove("fill and stroke settings as they were", settings(p) == set0)
    vc.prove_unchanged("frame", (cs, snap))


ANYHOW = [(False, None, False, True), (False, "colour1", False, False), (False, "colour1", True, True), (True, None, False, False)]       # compact, colour, filled, closed
PENS = ("self._pen", "self._startPoint", "self._lastCommand")


def used(vc, p, last=None):
    """A plotter that has drawn anything: the point it is at and the command it remembers."""
    return {"self._pen": vc.pt("any pen"), "self._startPoint": vc.pt("any start"), "self._lastCommand": last if last is not None else vc.choose("remembered", REMEMBERED) if p._poly else ""}


@contract("C23", PLOT + ["ContourPlotter.drawContours"], params=ANYHOW,
          symbolic_only=True, budget=200)
def contours_any(vc, poly, color, fill, close):
    """Any number of contours of any number of segments."""
    p = new_plotter(vc, poly)
    if not all(hasattr(p, x.split(".")[1]) for x in PENS): return vc.prove("no such fields", True)
    where = []
    m = vc.int("contours", 0)
    every = {}

    def contour(i):
        every[id(i)] = e = any_contour(vc, "c", (i,))
        return e[2]
    cs = vc.seq(m, contour)

    def current():
        k = where[-1]
        n, E, _ = any_contour(vc, "c", (k,))
        return E, cs.get(k)

    def outer(vc, state, entry, what):
        k, commands = state["#"], state["commands"]
        parts = getattr(commands, "parts", None)
        if parts is None: vc.hard("the path data is not a list of texts")
        if what == "established": vc.prove("established: nothing drawn yet", not any(parts))
        elif what == "havoc":
            where[:] = [k]
            first = vc.when(vc.eq(k, 0))
            return {"commands": vc.list([] if first else vc.texts(vc.int("texts before", 1), Drawn("L", vc.pt("reader's pen")))), **used(vc, p)}
        else:
            if p._lastCommand and not poly: vc.hard("the last command is remembered without need")
            # the inner loop's invariant says that everything but the last texts draws the contours up to this one
            E, c = current()
            got = read(vc, what, "".join(x.text if not isinstance(x, list) else "".join(x) for x in parts))
            if not parts or isinstance(parts[0], list) or any(not isinstance(x, list) for x in parts[1:]): vc.hard("path data changed in place")
            if got is not None: vc.prove("preserved: closed as asked, nothing else", len(got) == 1 and not got[0][1] and got[0][2] == close)
    names = ("path", "commands", "contour", "firstPoint", "segment", "penX", "penY", "x", "y", "command", "point", "p1", "p2", "p3", *PENS)
    vc.invariant("ContourPlotter.drawContours", ("for", 0), names, outer)
    vc.invariant("ContourPlotter.drawContours", ("for", 1), names, carrying(writing(vc, current, last="self._lastCommand", pen="self._pen", repeats=poly)))
    set0 = settings(p)
    p.drawContours(cs, color=color, fill=fill, close=close)
    for d in pieces(vc, p, 1, color, fill):
        got = read(vc, "contours", d)
        vc.prove("every contour, and nothing after them", len(got) <= 1 and not any(s or z for _, s, z in got))
    vc.prove("fill and stroke settings as they were", settings(p) == set0)


def carrying(f):
    """An invariant that says nothing about where the contour began."""
    def invariant(vc, state, entry, what):
        out = f(vc, state, entry, what)
        if what == "havoc": out.setdefault("self._startPoint", vc.pt("contour's start"))
        return out
    return invariant


@contract("C23", PLOT + ["ContourPlotter.drawPaths"], params=[("styles", 1), ("after", 1), ("contours", 0), ("contours", 2), ("segments", 2), ("segments", 3)],
          bound="up to 3 segments in one path, up to 2 paths", conc_secs=1, budget=200)
def paths(vc, what, n):
    use_boxes(vc)
    p = new_plotter(vc, True if n == 3 and vc.symbolic else None)
    if what == "after" or not vc.symbolic: history(vc, p, 8)
    elif what != "styles" and n < 3: history(vc, p, 2)
    color, fill, close = options(vc) if what == "styles" or not vc.symbolic else (None, False, True)
    if what == "contours" and vc.symbolic: cs = [some(vc, f"c{i}", 1) for i in range(n)]
    elif vc.symbolic: cs = [some(vc, "c", n)]
    else: cs = [some(vc, f"c{i}", 1, 4) for i in range(vc.choose("contours", range(4)))]
    snap, set0 = vc.snapshot(cs), settings(p)
    B = vc.m("Bezier")
    p.drawPaths(B.BOutline(cs) if n < 3 and vc.flag("outline") else [B.BContour(c) for c in cs], color=color, fill=fill, close=close)
    for d, c in zip(pieces(vc, p, len(cs), color, fill), cs): draws(vc, "path", d, [c])
    vc.prove("fill and stroke settings as they were", settings(p) == set0)
    vc.prove_unchanged("frame", (cs, snap))


@contract("C23", PLOT + ["ContourPlotter.drawPaths"], params=ANYHOW[:3] + [ANYHOW[3] + (x,) for x in REMEMBERED], symbolic_only=True, budget=200)
def paths_any(vc, poly, color, fill, close, last=None):
    """Any number of paths of any number of segments.  last: the command remembered before a path."""
    use_boxes(vc)
    any_bounds(vc)
    where, earlier = [], []
    m = vc.int("paths", 0)
    B = vc.m("Bezier")
    every = {}

    def path(i):
        n, E, c = any_contour(vc, "c", (i,))
        every[i] = (E, c)
        return B.BContour(c)
    cs = vc.seq(m, path)
    p = new_plotter(vc, poly)
    if not all(hasattr(p, x.split(".")[1]) for x in (*PENS, "self._content")): return vc.prove("no such fields", True)
    p._content = vc.list()

    def element(vc, label, e, k):
        for d in pieces(vc, p, 1, color, fill, [e]):
            end = []
            got = read(vc, label, d, end)
            vc.prove(f"{label}: the path", len(got) == 1 and not got[0][1] and not got[0][2] and vc.pteq(end[0].pen, every[k][0](vc.integer(0) + vc.size(every[k][1]))))

    def outer(vc, state, entry, what):
        k, parts = state["#"], state["self._content"].parts
        if what == "established": vc.prove("established: nothing drawn yet", not any(parts))
        elif what == "havoc":
            where[:] = [k]
            earlier[:] = [vc.seq(k, lambda i: vc.hard("an element drawn earlier"))]
            return {"self._content": vc.list(*earlier), **used(vc, p, last)}
        else:
            if p._lastCommand and not poly: vc.hard("the last command is remembered without need")
            if not parts or parts[0] is not earlier[0] or len(parts) > 2 or not all(isinstance(x, list) for x in parts[1:]): vc.hard("elements drawn earlier are changed")
            vc.prove("preserved: one element per path", len(parts) == 2 and len(parts[1]) == 1)
            element(vc, "preserved", parts[1][0], where[0])
    vc.invariant("ContourPlotter.drawPaths", ("for", 0), ("self._content", *PENS), outer)
    vc.invariant("ContourPlotter.drawPaths", ("for", 1), ("commands", *PENS), carrying(writing(vc, lambda: every[where[0]], last="self._lastCommand", pen="self._pen", repeats=poly)))
    set0 = settings(p)
    p.drawPaths(cs, color=color, fill=fill, close=close)
    vc.prove("as many elements as paths", vc.eq(vc.size(p._content), m))
    vc.prove("fill and stroke settings as they were", settings(p) == set0)


@contract("C23", PLOT + ["ContourPlotter.drawPointsAsSegments"], params=[("after", 2), ("points", 1), ("points", 3), ("points", 4)], bound="up to 4 points", conc_secs=1)
def points(vc, what, n):
    p = new_plotter(vc)
    if what == "after" or not vc.symbolic: history(vc, p, 8)
    color = vc.choose("color", (None, "colour1"))
    pts = vc.pts("p", n if vc.symbolic else vc.choose("n", range(1, 8)))
    snap, set0 = vc.snapshot(pts), settings(p)
    p.drawPointsAsSegments(pts, color=color)
    for d in pieces(vc, p, 1, color, False): draws(vc, "points", d, [[[a, b] for a, b in zip(pts, pts[1:])] or [[pts[0], pts[0]]]], False)
    vc.prove("fill and stroke settings as they were", settings(p) == set0)
    vc.prove_unchanged("frame", (pts, snap))


@contract("C23", PLOT + ["ContourPlotter.drawPointsAsSegments"], params=[(None,), ("colour1",)], symbolic_only=True)
def points_any(vc, color):
    """Any number of points."""
    p = new_plotter(vc, False)
    if not all(hasattr(p, x.split(".")[1]) for x in PENS): return vc.prove("no such fields", True)
    n = vc.int("points", 1)
    P = lambda i: (vc.at("p.x", i), vc.at("p.y", i))
    now = []

    def check(what, text, state, k):
        end = []
        got = read(vc, what, text, end)
        if got is None: return
        if end[0].pen is None: return vc.prove(f"{what}: begins with a move", False)
        if p._lastCommand: vc.hard("a command is remembered without need")
        vc.prove(f"{what}: the reader is at the last point", vc.pteq(end[0].pen, P(k)))
        vc.prove(f"{what}: so is the plotter's pen", vc.pteq(state["self._pen"], P(k)))
        vc.prove(f"{what}: a line is next", state["command"] == "L" or state["command"] == " " and end[0].command in ("M", "L"))
        return got

    def invariant(vc, state, entry, what):
        k = vc.integer(0) + state["#"]
        parts = getattr(state["commands"], "parts", None)
        if parts is None: vc.hard("the path data is not a list of texts")
        if what == "established":
            got = check(what, "".join("".join(x) for x in parts), state, vc.integer(0))
            if got is not None: vc.prove("established: nothing but the move", len(got) == 1 and not got[0][1] and not got[0][2])
        elif what == "havoc":
            c = vc.choose("reader", ("M", "L"))
            now[:] = [(vc.texts(vc.int("texts", 1), Drawn(c, P(k))), k)]
            return {"commands": vc.list(now[0][0]), "self._pen": P(k), "command": vc.choose("next", ("L", " ")), "self._startPoint": vc.pt("start"), "self._lastCommand": ""}
        else:
            (text, i), = now
            if not parts or parts[0] is not text or any(not isinstance(x, list) for x in parts[1:]): vc.hard("path data changed in place")
            got = check(what, text.text + "".join(x for q in parts[1:] for x in q), state, i + 1)
            if got is not None: vc.prove("preserved: exactly the line to the next point", len(got) == 1 and not got[0][2] and vc.eq([[tuple(q) for q in s] for s in got[0][1]], [[tuple(q) for q in s] for s in drawn(vc, [[P(i), P(i + 1)]])]))
    vc.invariant("ContourPlotter.drawPointsAsSegments", ("for", 0), ("commands", "command", "point", "x", "y", "penX", "penY", *PENS), invariant)
    set0 = settings(p)
    p.drawPointsAsSegments(vc.seq(n, P), color=color)
    for d in pieces(vc, p, 1, color, False):
        end = []
        got = read(vc, "points", d, end)
        vc.prove("every point, and nothing after them", len(got) == 1 and not got[0][1] and not got[0][2] and vc.pteq(end[0].pen, P(n - 1)))
    vc.prove("fill and stroke settings as they were", settings(p) == set0)


@contract("C23", PLOT + ["ContourPlotter.drawCurve"], params=[(2,), (3,), (4,)])
def one_curve(vc, n):
    p = new_plotter(vc)
    color = vc.choose("color", (None, "colour1"))
    s = vc.pts("p", n)
    set0 = settings(p)
    p.drawCurve(s, color=color)
    for d in pieces(vc, p, 1, color, False): draws(vc, "curve", d, [[s]], False)
    vc.prove("fill and stroke settings as they were", settings(p) == set0)


@contract("C23", ["ContourPlotter.drawPointsAsCircles", "ContourPlotter.drawComplexPointsAsCircles", "ContourPlotter.pushFillAttributes", "ContourPlotter.popFillAttributes",
                  "ContourPlotter.pushStrokeAttributes", "ContourPlotter.popStrokeAtributes"], params=[(1,), (2,), (3,)], bound="up to 3 points")
def circles(vc, n):
    p = new_plotter(vc)
    colors, fill, r = vc.choose("colors", (None, ["c0"], ["c0", "c1"])), vc.flag("fill"), vc.real("r")
    if vc.symbolic or vc.flag("pairs"):
        pts = vc.pts("p", n)
        given = list(pts)
        draw = p.drawPointsAsCircles
    else:
        pts = vc.pts("p", n)
        given = [complex(x, y) for x, y in pts]
        draw = vc.choose("entry", (p.drawPointsAsCircles, p.drawComplexPointsAsCircles))
    set0 = settings(p)
    draw(given, r, colors, fill)
    vc.prove("fill and stroke settings as they were", settings(p) == set0)
    vc.prove("one circle per point", len(p._content) == n)
    for i, (e, q) in enumerate(zip(p._content, pts)):
        _, _, x, y, radius, mode, f, s = e
        vc.prove("a circle at the point", vc.and_(vc.pteq((x, y), q), vc.eq(radius, r)))
        vc.prove("in its colour", (f if fill else s) == (colors[i % len(colors)] if colors else set0["_fillColor" if fill else "_strokeColor"]))


@contract("C23", ["ContourPlotter.drawPointsAsCircles", "ContourPlotter.pushFillAttributes", "ContourPlotter.popFillAttributes", "ContourPlotter.pushStrokeAttributes",
                  "ContourPlotter.popStrokeAtributes"], params=[(c, f) for c in (None, ("c0",), ("c0", "c1")) for f in (True, False)], symbolic_only=True)
def circles_any(vc, colors, fill):
    """Any number of points."""
    p = new_plotter(vc, False)
    paint = "self._fillColor" if fill else "self._strokeColor"
    if not hasattr(p, paint[5:]): return vc.prove("no such fields", True)
    p._content = vc.list()
    n, r, set0 = vc.int("points", 1), vc.real("r"), settings(p)
    P = lambda i: (vc.at("p.x", i), vc.at("p.y", i))
    now = []

    def invariant(vc, state, entry, what):
        k, parts = state["#"], state["self._content"].parts
        if what != "havoc": vc.prove(f"{what}: circles counted", vc.eq(state["i"], k))
        if what == "established": vc.prove("established: nothing drawn yet", not any(parts))
        elif what == "havoc":
            now[:] = [(vc.seq(k, lambda i: vc.hard("a circle drawn earlier")), k)]
            return {"self._content": vc.list(now[0][0]), "i": k, paint: vc.choose("colour now", colors) if colors else set0[paint[5:]]}
        else:
            (before, i), = now
            if not parts or parts[0] is not before or any(not isinstance(x, list) for x in parts[1:]): vc.hard("circles drawn earlier are changed")
            new = [x for q in parts[1:] for x in q]
            vc.prove("preserved: one circle per point", len(new) == 1)
            for _, _, x, y, radius, mode, f, s in new:
                vc.prove("a circle at the point", vc.and_(vc.pteq((x, y), P(i)), vc.eq(radius, r)))
                want = set0[paint[5:]] if not colors else colors[0] if len(colors) == 1 or vc.when(vc.eq(i % 2, 0)) else colors[1]
                vc.prove("in its colour", (f if fill else s) == want)
            if not colors: vc.prove("preserved: the colour", state[paint] == set0[paint[5:]])
    vc.invariant("ContourPlotter.drawPointsAsCircles", ("for", 0), ("self._content", "i", "x", "y", "color", "point", paint), invariant)
    p.drawPointsAsCircles(vc.seq(n, P), r, list(colors) if colors else None, fill)
    vc.prove("fill and stroke settings as they were", settings(p) == set0)
    vc.prove("one circle per point", vc.eq(vc.size(p._content), n))


@contract("C23", ["ContourPlotter.pushFillAttributes", "ContourPlotter.popFillAttributes", "ContourPlotter.pushStrokeAttributes", "ContourPlotter.popStrokeAtributes"],
          params=[(a, b, c) for a in ("fill", "stroke") for b in ("fill", "stroke") for c in (False, True)])
def attributes(vc, outer, inner, between):
    """A pop restores the settings before its push: nested, with settings changed in between."""
    p = new_plotter(vc)
    if vc.flag("nothing set"):
        p.setFillColor(None); p.setFillOpacity(0); p.setStrokeColor(None); p.setStrokeWidth(0); p.setStrokeOpacity(0); p.setStrokeDash(None)
    used = {}

    def given(label, names):
        out = {k: f"{k} {label}" for k in names if vc.flag(f"{k} {label}")}
        used.update(out)
        return out

    def push(kind, label):
        if kind == "fill": p.pushFillAttributes(**given(label, ("color", "opacity")))
        else: p.pushStrokeAttributes(**given(label, ("width", "color", "opacity", "dash")))

    def pop(kind): (p.popFillAttributes if kind == "fill" else p.popStrokeAtributes)()

    def change(label):
        if not between: return
        p.setFillColor("f" + label); p.setFillOpacity("g" + label); p.setStrokeColor("h" + label)
        p.setStrokeWidth("i" + label); p.setStrokeOpacity("j" + label); p.setStrokeDash("k" + label)
    mine = lambda kind, s: {k: v for k, v in s.items() if k in (("_fillColor", "_fillOpacity") if kind == "fill" else ("_strokeWidth", "_strokeColor", "_strokeOpacity", "_strokeDash"))}
    set0 = settings(p)
    push(outer, "outer")
    for k, v in used.items(): vc.prove("set as given", vars(p)["_" + outer + k.capitalize()] == v)
    change("1")
    set1 = settings(p)
    push(inner, "inner")
    change("2")
    pop(inner)
    vc.prove("the inner settings restored", mine(inner, settings(p)) == mine(inner, set1))
    pop(outer)
    vc.prove("the outer settings restored", mine(outer, settings(p)) == mine(outer, set0))


def polygon(pts):
    return [[a, b] for a, b in zip(pts, pts[1:])] or [[pts[0], pts[0]]]


@contract("C23", PLOT + ["ContourPlotter.drawSkeleton", "ContourPlotter.drawHull", "ContourPlotter.drawText", "ContourPlotter.drawPointsAsSegments", "ContourPlotter.drawPointsAsCircles"],
          params=[(w, n) for w in ("skeleton", "hull") for n in (1, 2, 3)], conc_secs=1, budget=200)
def skeleton(vc, what, n):
    """A curve's control polygon with a circle at each control point; the hull drawing adds every level of interpolations but the last, the point."""
    p = new_plotter(vc, None if n == 1 else False)
    curve = vc.m("Bezier").Bezier(vc.pts("p", n + 1))
    styles = ((), ("c0", ["c1"]), ("c0", ["c1", "c2"]))
    lines, dots = vc.choose("colors", styles[2:] if vc.symbolic and (what, n) == ("hull", 3) else styles) or (None, None)
    pts, set0 = list(curve.controlPoints), settings(p)
    levels = [pts]
    if what == "skeleton":
        if lines: p.drawSkeleton(curve, lines, dots)
        else: p.drawSkeleton(curve)
    else:
        t = vc.unit("t")
        hull = curve.hull(t)
        at = n + 1
        for k in range(n, 1, -1):
            levels.append(hull[at:at + k])
            at += k
        if dots: dots = dots[:1]
        if lines: p.drawHull(curve, t, lines, dots[0])
        else: p.drawHull(curve, t)
    vc.prove("fill and stroke settings as they were", settings(p) == set0)
    drawn_paths, circles = [e for e in p._content if isinstance(e, str)], [e for e in p._content if e[0] == "circle"]
    vc.prove("as many polygons as levels", len(drawn_paths) == len(levels))
    for k, (e, level) in enumerate(zip(drawn_paths, levels)):
        vc.prove("a path element", e.startswith("<path d='") and e.endswith("/>"))
        d, rest = e[len("<path d='"):].split("'", 1)
        if lines: vc.prove("in its colour", f"|{lines}|" in rest)
        draws(vc, f"level {k}", d, [polygon(level)], False)
    vc.prove("one circle per control point", len(circles) == n + 1)
    for i, ((_, _, x, y, _, _, f, _), q) in enumerate(zip(circles, pts)):
        vc.prove("a circle at the point", vc.pteq((x, y), q))
        if dots: vc.prove("in its colour", f == dots[i % len(dots)])


def hull_drawing(vc, p):
    """The plotter's polygons and skeleton are recorded (their own contracts say what they draw)."""
    calls = []

    def record(*what):
        vc.effect()
        calls.append(what)
    vc.summary("ContourPlotter", "ContourPlotter.drawSkeleton", lambda real, self, curve, *colors: record("skeleton", curve, colors))
    vc.summary("ContourPlotter", "ContourPlotter.drawPointsAsSegments", lambda real, self, points, color=None: record(points, color, settings(self)))
    return calls


@contract("C23", ["ContourPlotter.drawHull"], params=[(n,) for n in range(1, 10)], symbolic_only=True)
def hull_levels(vc, n):
    """What drawHull asks for."""
    p = new_plotter(vc, False)
    curve = vc.m("Bezier").Bezier(vc.pts("p", n + 1))
    H = [(vc.real(f"h{i}.x"), vc.real(f"h{i}.y")) for i in range((n + 1) * (n + 2) // 2)]
    vc.summary("Bezier", "Bezier.hull", lambda real, self, t: list(H))
    calls = hull_drawing(vc, p)
    colors = (None, "c1") if vc.flag("no line color") else ("c0", "c1")
    set0 = settings(p)
    p.drawHull(curve, vc.unit("t"), *colors)
    if len(calls) != n: vc.hard("drawn in another way")
    (what, c, (lines, dots)), at = calls[0], n + 1
    vc.prove("the skeleton", what == "skeleton" and c is curve and lines == colors[0] and dots == [colors[1]])
    for k, (points, color, s) in zip(range(n, 1, -1), calls[1:]):
        vc.prove("every level but the last, in order", len(points) == k and vc.eq([tuple(q) for q in points], H[at:at + k]))
        if color is not None or s["_strokeColor"] != colors[0]: vc.prove("in its colour", color == colors[0])
        at += k
    vc.prove("fill and stroke settings as they were", settings(p) == set0)


@contract("C23", ["ContourPlotter.drawHull"], symbolic_only=True)
def hull_any(vc):
    """Curves of any order n: the level of r points begins at the hull's point off(r)."""
    n, r, w = vc.int("n", 1), vc.int("r", 1), vc.int("w", 0)
    vc.assume(r <= n)
    off = lambda r: vc.intat("off", r)
    for k in (r, r + 1, vc.integer(1)): vc.known(vc.eq(off(k - 1), off(k) + k))
    vc.known(vc.and_(vc.eq(off(n), n + 1), off(r - 1) <= off(vc.integer(0)), n + 1 <= off(r)))       # by induction
    p = new_plotter(vc, False)
    curve = vc.modular()(vc.seq(n + 1, lambda i: (vc.at("P.x", i), vc.at("P.y", i)), [w]))
    H = lambda i: (vc.at("H.x", i), vc.at("H.y", i))
    vc.summary("Bezier", "Bezier.hull", lambda real, self, t: vc.list(vc.seq(off(vc.integer(0)), H, [off(r) + w])))
    calls = hull_drawing(vc, p)
    set0 = settings(p)
    now = []

    def invariant(vc, state, entry, what):
        order, start = state["order"], state["start"]
        if what == "havoc":
            del calls[:]
            now.append(r)
            return {"order": r, "start": off(r)}
        if what == "established":
            vc.prove("established: the first level", vc.and_(vc.eq(order, n), vc.eq(start, off(n))))
            return
        vc.prove("preserved: the next level", vc.and_(r > 1, vc.eq(order, r - 1), vc.eq(start, off(r - 1))))
        vc.prove("preserved: one polygon", len(calls) == 1)
        points, color, _ = calls[0]
        vc.prove("preserved: in its colour", color == "c0")
        vc.prove("preserved: as many points as the level has", vc.eq(vc.size(points), r))
        if vc.when(w < r): vc.prove("preserved: the level's points", vc.eq(tuple(vc.item(points, w)), H(off(r) + w)))
    vc.invariant("ContourPlotter.drawHull", 0, ("order", "hull", "start", "stop"), invariant)
    p.drawHull(curve, vc.unit("t"), "c0", "c1")
    if not now: vc.hard("the levels are drawn in another way")
    vc.prove("ends at the last level", vc.and_(vc.eq(r, 1), not calls))
    vc.prove("fill and stroke settings as they were", settings(p) == set0)


@contract("C23", PLOT + ["ContourPlotter.drawSkeleton", "ContourPlotter.drawHull"], params=[(w, n) for w in ("skeleton", "hull") for n in (4, 5, 6, 9)],
          level="bounded", bound="drawn control points, orders 4, 5, 6 and 9 (every order: hull_any, points_any, circles_any)", concrete_only=True)
def skeleton_high(vc, what, n):
    skeleton(vc, what, n)
