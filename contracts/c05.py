"""C05: bounds rectangle algebra."""
from pyvc.api import contract

INF = float("inf")


def rect(vc, name, allow_empty=False):
    """An arbitrary rectangle (a bounds rectangle of its two corners), or the empty one."""
    B = vc.m("PathUtilities").BoundsRectangle
    if allow_empty and vc.choose(name + ".empty", [False, True]): return B()
    l, b, r, t = vc.real(name + ".l"), vc.real(name + ".b"), vc.real(name + ".r"), vc.real(name + ".t")
    if vc.symbolic:
        vc.assume(vc.and_(l <= r, b <= t))
    else:
        l, r, b, t = min(l, r), max(l, r), min(b, t), max(b, t)
    return B((l, b), (r, t))


def edges(b): return (b.left, b.bottom, b.right, b.top)


def inside(vc, b, p):
    return vc.and_(b.left <= p[0], p[0] <= b.right, b.bottom <= p[1], p[1] <= b.top)



@contract("C05", ["BoundsRectangle.union"])
def union(vc):
    a, b = rect(vc, "a", True), rect(vc, "b", True)
    sa, sb = edges(a), edges(b)
    u = a.union(b)
    p = vc.pt("p")
    vc.prove("encloses both", vc.implies(vc.or_(inside(vc, a, p), inside(vc, b, p)), inside(vc, u, p)))
    vc.prove("smallest", vc.and_(*[vc.or_(vc.exact(x, y), vc.exact(x, w)) for x, y, w in zip(edges(u), sa, sb)]))
    vc.prove("commutes", vc.exact(edges(b.union(a)), edges(u)))
    e = vc.m("PathUtilities").BoundsRectangle()
    vc.prove("the empty rectangle is the identity", vc.and_(vc.exact(edges(a.union(e)), sa), vc.exact(edges(e.union(a)), sa)))
    vc.prove("frame: operands unchanged", vc.and_(vc.exact(edges(a), sa), vc.exact(edges(b), sb)))
    if not vc.when(u.left <= u.right):
        vc.prove("the union of empty rectangles is empty", vc.exact(edges(u), edges(e)))


@contract("C05", ["BoundsRectangle.intersection"])
def intersection(vc):
    a, b = rect(vc, "a"), rect(vc, "b")
    sa, sb = edges(a), edges(b)
    i = a.intersection(b)
    p = vc.pt("p")
    both = vc.and_(inside(vc, a, p), inside(vc, b, p))
    if i is None:
        vc.prove("absent only if no point is shared", vc.not_(both))
    else:
        vc.prove("exactly the shared points", vc.iff(inside(vc, i, p), both))
        vc.prove("present only if a point is shared", vc.and_(inside(vc, a, (i.left, i.bottom)), inside(vc, b, (i.left, i.bottom))))
    vc.prove("frame: operands unchanged", vc.and_(vc.exact(edges(a), sa), vc.exact(edges(b), sb)))


@contract("C05", ["BoundsRectangle.enclosesPoint", "BoundsRectangle.encloses", "BoundsRectangle.crossesX", "BoundsRectangle.crossesY", "BoundsRectangle.relationTo"])
def membership(vc):
    a, b = rect(vc, "a"), rect(vc, "b")
    sa, sb = edges(a), edges(b)
    p = vc.pt("p")
    vc.prove("enclosesPoint: edges included", vc.iff(a.enclosesPoint(p), inside(vc, a, p)))
    vc.prove("crossesX", vc.iff(a.crossesX(p[0]), vc.and_(sa[0] <= p[0], p[0] <= sa[2])))
    vc.prove("crossesY", vc.iff(a.crossesY(p[1]), vc.and_(sa[1] <= p[1], p[1] <= sa[3])))
    corners = lambda r, s: vc.and_(inside(vc, r, (s[0], s[1])), inside(vc, r, (s[2], s[3])))
    enc, encd = corners(a, sb), corners(b, sa)
    vc.prove("encloses: every point of the other", vc.iff(a.encloses(b), enc))
    meet = vc.and_(sa[0] <= sb[2], sb[0] <= sa[2], sa[1] <= sb[3], sb[1] <= sa[3])
    r = a.relationTo(b)
    K = vc.m("PathUtilities").BoundsRectangle
    vc.prove("relation: encloses first", vc.iff(vc.eq(r, K.relationEncloses), enc))
    vc.prove("relation: enclosed next", vc.iff(vc.eq(r, K.relationEnclosed), vc.and_(vc.not_(enc), encd)))
    vc.prove("relation: intersects next", vc.iff(vc.eq(r, K.relationIntersects), vc.and_(vc.not_(enc), vc.not_(encd), meet)))
    vc.prove("relation: separate otherwise", vc.iff(vc.eq(r, K.relationSeparate), vc.not_(meet)))
    vc.prove("the relations differ", len({K.relationEncloses, K.relationEnclosed, K.relationIntersects, K.relationSeparate}) == 4)
    vc.prove("frame: operands unchanged", vc.and_(vc.exact(edges(a), sa), vc.exact(edges(b), sb)))


@contract("C05", ["BoundsRectangle.width", "BoundsRectangle.height", "BoundsRectangle.area", "BoundsRectangle.centerPoint", "BoundsRectangle.diagonal",
                  "BoundsRectangle.contour", "BoundsRectangle.points", "BoundsRectangle.xFromLeft", "BoundsRectangle.yFromBottom"])
def measures(vc):
    a = rect(vc, "a")
    l, b, r, t = s = edges(a)
    k = vc.real("k")
    vc.prove("width", vc.eq(a.width, r - l))
    vc.prove("height", vc.eq(a.height, t - b))
    vc.prove("area", vc.eq(a.area, (r - l) * (t - b)))
    vc.prove("centre", vc.eq(a.centerPoint, (vc.div(l + r, 2), vc.div(b + t, 2))))
    vc.prove("diagonal", vc.exact(list(a.diagonal), [(l, b), (r, t)]))
    vc.prove("points", vc.exact(tuple(a.points), s))
    vc.prove("xFromLeft", vc.eq(a.xFromLeft(k), l + k * (r - l)))
    vc.prove("yFromBottom", vc.eq(a.yFromBottom(k), b + k * (t - b)))
    c = a.contour
    vc.prove("contour: four edges", len(c) == 4 and all(len(e) == 2 for e in c))
    vc.prove("contour: closed chain", vc.exact([tuple(e[1]) for e in c], [tuple(c[(i + 1) % 4][0]) for i in range(4)]))
    vc.prove("contour: the corners", vc.exact([tuple(e[0]) for e in c], [(l, b), (l, t), (r, t), (r, b)]))
    vc.prove("frame", vc.exact(edges(a), s))
