"""The contract of the curve constructor, on which modular callers rely."""
from pyvc.api import attributes, constructor_facts, contract


@contract(["C10", "C12", "C13", "C14", "C15", "C16", "C17", "C19", "C21", "C22"], ["Bezier.__init__"], params=[(n,) for n in (1, 2, 3, 4)])
def constructor(vc, n):
    C = vc.m("Bezier").Bezier
    const, lazy, points = constructor_facts()
    pts = vc.pts("p", n + 1)
    snap = vc.snapshot(pts)
    c, d = C(pts), C(list(pts))
    at, bt = attributes(c), attributes(d)
    vc.prove("refers to the given points", at[points] is pts)
    vc.prove("constant attributes", set(at) == set(const) | set(lazy) | {points} and
             all(type(at[k]) is type(v) and at[k] == v for k, v in const.items()))
    vc.prove("caches are not shared", all(at[k] is not bt[k] for k, v in const.items() if isinstance(v, (list, dict))))
    vc.prove("everything else depends on the points alone", vc.and_(*[vc.eq(at[k], bt[k]) for k in lazy]))
    vc.prove_unchanged("frame", (pts, snap))


def any_points(vc, name, n, w, *outer):
    """A sequence of n points, any number of them."""
    return vc.seq(n, lambda i: (vc.at(name + ".x", *outer, i), vc.at(name + ".y", *outer, i)), [w])


def any_container(vc, depth, ws):
    """Points (depth 0), lists of points, lists of lists of points: any number of each, looked at at the indices ws."""
    sizes = [vc.int("n", 0), lambda *i: vc.intat("n1", *i), lambda *i: vc.intat("n2", *i)]

    def build(k, outer):
        n = sizes[0] if k == 0 else sizes[k](*outer)
        vc.known(n >= 0)
        if k == depth: return any_points(vc, "p", n, ws[k], *outer)
        return vc.seq(n, lambda i: build(k + 1, (*outer, i)), [ws[k]])
    return build(0, ())


def nonempty(vc, seq, ws):
    """Are there elements at the indices ws, level by level?  If so, ws are arbitrary ones."""
    for w in ws:
        n = vc.size(seq)
        if vc.when(vc.eq(n, 0)): return False
        vc.assume(w < n)
        seq = vc.item(seq, w)
    return True


def pointwise(vc, depth, f, spec):
    """Does f map every point of a container of any size by spec, keeping number, order and nesting?"""
    ws = [vc.int(f"w{k}", 0) for k in range(depth + 1)]
    arg = a = any_container(vc, depth, ws)
    some = nonempty(vc, arg, ws)
    want = spec((vc.at("p.x", *ws), vc.at("p.y", *ws))) if some else None
    b = f(arg)
    for w in ws:
        vc.prove("as many elements", vc.eq(vc.size(b), vc.size(a)))
        if not vc.when(vc.size(a) > 0): return
        a, b = vc.item(a, w), vc.item(b, w)
    vc.prove("every point, in its place", vc.eq(tuple(b), want))
