"""C03: rotations."""
from pyvc.api import contract

from .common import pointwise


def turned(vc, p, c, deg, ccw):
    """c + R(deg) (p - c)."""
    s, k = vc.sind(deg), vc.cosd(deg)
    if not ccw: s = -s
    dx, dy = p[0] - c[0], p[1] - c[1]
    return (c[0] + dx * k - dy * s, c[1] + dx * s + dy * k)


@contract("C03", ["Transform.sin", "Transform.cos"])
def sin_cos(vc):
    T = vc.m("Transform").Transform
    d = vc.real("d")
    s, k = T.sin(d), T.cos(d)
    vc.prove("sine and cosine of the angle in degrees", vc.and_(vc.eq(s, vc.sind(d)), vc.eq(k, vc.cosd(d))))
    vc.prove("unit", vc.eq(s * s + k * k, 1))


@contract("C03", ["Transform.rotation", "Transform._rotationMatrix", "Transform.rotationAbout", "PathUtilities.rotatePointAbout"])
def rotate_point(vc):
    T, P = vc.m("Transform").Transform, vc.m("PathUtilities")
    p, q, c = vc.pt("p"), vc.pt("q"), vc.pt("c")
    d = vc.real("d")
    how = vc.choose("args", ["ccw", "cw", "default direction", "default angle"])
    ccw = how != "cw"
    o = (0, 0)
    if how == "default angle":
        d = 90
        t, ta, r = T.rotation(), T.rotationAbout(c), P.rotatePointAbout(p, c)
    elif how == "default direction":
        t, ta, r = T.rotation(d), T.rotationAbout(c, d), P.rotatePointAbout(p, c, d)
    else:
        t, ta, r = T.rotation(d, ccw), T.rotationAbout(c, d, ccw), P.rotatePointAbout(p, c, d, ccw)
    vc.prove("rotation about the origin", vc.eq(t.applyToPoint(p), turned(vc, p, o, d, ccw)))
    want = turned(vc, p, c, d, ccw)
    rp = ta.applyToPoint(p)
    vc.prove("rotation about the centre", vc.eq(rp, want))
    vc.prove("rotatePointAbout", vc.eq(r, want))
    vc.prove("the centre is fixed", vc.eq(ta.applyToPoint(c), c))
    rq = ta.applyToPoint(q)
    vc.prove("distances are preserved", vc.eq(vc.dist2(rp, rq), vc.dist2(p, q)))
    cross = lambda a, b: (a[0] - c[0]) * (b[1] - c[1]) - (a[1] - c[1]) * (b[0] - c[0])
    vc.prove("orientation is preserved", vc.eq(cross(rp, rq), cross(p, q)))
    vc.prove("the other direction undoes it", vc.eq(P.rotatePointAbout(rp, c, d, not ccw), p))


@contract("C03", ["Transform.rotation", "Transform.rotationAbout"], params=[(k,) for k in (-450, -360, -270, -180, -90, 0, 90, 180, 270, 360, 450, 720)])
def quarter_turns(vc, deg):
    T, P = vc.m("Transform").Transform, vc.m("PathUtilities")
    p, c = vc.pt("p"), vc.pt("c")
    if not vc.symbolic: vc.tol = 0
    k = (deg // 90) % 4
    dx, dy = p[0] - c[0], p[1] - c[1]
    ex, ey = [(dx, dy), (-dy, dx), (-dx, -dy), (dy, -dx)][k]
    ccw = vc.flag("ccw")
    if not ccw: ex, ey = [(dx, dy), (dy, -dx), (-dx, -dy), (-dy, dx)][k]
    m = T._rotationMatrix(deg, ccw)
    flat = [v for row in m for v in row]
    vc.prove("multiples of 90 degrees are exact", all(v in (-1, 0, 1) for v in flat))
    vc.prove("quarter turns", vc.eq(P.rotatePointAbout(p, c, deg, ccw), (c[0] + ex, c[1] + ey)))


@contract("C03", ["PathUtilities.rotateSegmentAbout", "PathUtilities.rotateContourAbout", "PathUtilities.rotateContoursAbout"],
          params=[("segment",), ("contour",), ("contours",)])
def rotate_many(vc, what):
    P = vc.m("PathUtilities")
    c, d = vc.pt("c"), vc.real("d")
    depth = {"segment": 0, "contour": 1, "contours": 2}[what]

    def build(name, depth):
        n = vc.count(name + "n", 0, 1 if what == "contours" and depth == 0 else 2, 5, (9, 17, 40))
        if depth == 0: return vc.pts(name, n)
        return [build(f"{name}{i}_", depth - 1) for i in range(n)]

    arg = build("x", depth)
    s = vc.snapshot(arg)
    fn = {"segment": P.rotateSegmentAbout, "contour": P.rotateContourAbout, "contours": P.rotateContoursAbout}[what]
    how = vc.choose("args", ["ccw", "cw", "default direction", "default angle"])
    ccw = how != "cw"
    if how == "default angle":
        d = 90
        out = fn(arg, c)
    elif how == "default direction": out = fn(arg, c, d)
    else: out = fn(arg, c, d, ccw)

    def spec(x, depth):
        if depth < 0: return turned(vc, x, c, d, ccw)
        return [spec(y, depth - 1) for y in x]
    vc.prove("every point is turned about the centre", vc.eq(out, spec(arg, depth)))
    vc.prove_unchanged("frame: argument unchanged", (arg, s))


@contract("C03", ["PathUtilities.rotateSegmentAbout", "PathUtilities.rotateContourAbout", "PathUtilities.rotateContoursAbout"], params=[(0,), (1,), (2,)], symbolic_only=True)
def rotate_any(vc, depth):
    """Segments, contours and lists of contours of any size."""
    P = vc.m("PathUtilities")
    c, d = vc.pt("c"), vc.real("d")
    fn = (P.rotateSegmentAbout, P.rotateContourAbout, P.rotateContoursAbout)[depth]
    how = vc.choose("args", ["given", "default direction", "default angle"])
    ccw = True if how != "given" else vc.flag("ccw")
    if how == "default angle": d, args = 90, ()
    elif how == "default direction": args = (d,)
    else: args = (d, ccw)
    pointwise(vc, depth, lambda arg: fn(arg, c, *args), lambda p: turned(vc, p, c, d, ccw))


@contract("C03", ["Transform.moveAndRotate", "Transform.rotateAndMove"])
def move_and_rotate(vc):
    T = vc.m("Transform").Transform
    p, f, g, d = vc.pt("p"), vc.pt("f"), vc.pt("g"), vc.real("d")
    moved = (p[0] + g[0] - f[0], p[1] + g[1] - f[1])
    q = T.moveAndRotate(f, g, d).applyToPoint(p)
    vc.prove("move, then rotate about the origin", vc.eq(q, turned(vc, moved, (0, 0), d, True)))
    r = T.rotateAndMove(f, g, d).applyToPoint(p)
    t = turned(vc, p, (0, 0), d, True)
    vc.prove("rotate about the origin, then move", vc.eq(r, (t[0] + g[0] - f[0], t[1] + g[1] - f[1])))
    vc.prove("rotating back and moving back", vc.eq(T.rotateAndMove(g, f, -d).applyToPoint(q), p))
