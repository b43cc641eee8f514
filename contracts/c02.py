"""C02: named transforms."""
from pyvc.api import contract


@contract("C02", ["Transform.translate", "Transform.scale", "Transform.shear", "Transform.perspective", "Transform._matrix"],
          params=[("translate",), ("scale",), ("shear",), ("perspective",)])
def simple_transforms(vc, what):
    T = vc.m("Transform").Transform
    x, y = p = vc.pt("p")
    a, b, s = vc.real("a"), vc.real("b"), vc.real("s")
    how = vc.choose("args", ["positional", "keyword", "first", "second", "none"])
    if what == "translate":
        f, g = vc.pt("f"), vc.pt("g")
        t = T.translate(f, g)
        want = (x + g[0] - f[0], y + g[1] - f[1])
    else:
        neutral = {"scale": (1, 1), "shear": (0, 0), "perspective": (0, 0)}[what]
        names = {"scale": ("sx", "sy"), "shear": ("sx", "sy"), "perspective": ("p", "q")}[what]
        fn = getattr(T, what)
        if how == "positional": t = fn(a, b)
        elif how == "keyword": t = fn(**{names[0]: a, names[1]: b})
        elif how == "first": t, b = fn(**{names[0]: a}), neutral[1]
        elif how == "second": t, a = fn(**{names[1]: b}), neutral[0]
        else: t, (a, b) = fn(), neutral
        if what == "scale": want = (a * x, b * y)
        elif what == "shear": want = (x + a * y, y + b * x)
        else:
            if how == "positional":
                t = fn(a, b, s)
            else: s = 1
            w = a * x + b * y + s
            vc.assume(vc.not_(w == 0))
            want = (vc.div(x, w), vc.div(y, w))
    vc.prove(f"{what} maps the point as named", vc.eq(t.applyToPoint(p), want))


@contract("C02", ["Transform._identityMatrix"])
def identity(vc):
    T = vc.m("Transform").Transform
    p = vc.pt("p")
    vc.prove("identity", vc.eq(T(T._identityMatrix()).applyToPoint(p), p))
    a, b, c, d, m, n = [vc.real(k) for k in "abcdmn"]
    vc.prove("affine matrix", vc.eq(T(T._matrix(a=a, b=b, c=c, d=d, m=m, n=n)).applyToPoint(p),
                                     (a * p[0] + c * p[1] + m, b * p[0] + d * p[1] + n)))


@contract("C02", ["Transform.mirror", "Transform._mirrorMatrix", "Transform.mirrorAround"])
def mirrors(vc):
    T = vc.m("Transform").Transform
    x, y = p = vc.pt("p")
    c = vc.pt("c")
    xa, ya = vc.flag("xAxis"), vc.flag("yAxis")
    kw = vc.choose("kw", [0, 1])
    t = T.mirror(xAxis=xa, yAxis=ya) if kw else T.mirror(xa, ya)
    vc.prove("reflection in the named axes", vc.eq(t.applyToPoint(p), (-x if ya else x, -y if xa else y)))
    m = T.mirrorAround(c, xAxis=xa, yAxis=ya) if kw else T.mirrorAround(c, xa, ya)
    q = m.applyToPoint(p)
    vc.prove("reflection in the lines through the centre", vc.eq(q, (2 * c[0] - x if ya else x, 2 * c[1] - y if xa else y)))
    vc.prove("fixes the centre", vc.eq(m.applyToPoint(c), c))
    vc.prove("own inverse", vc.eq(m.applyToPoint(q), p))
    vc.prove("omitted: identity", vc.and_(vc.eq(T.mirror().applyToPoint(p), p), vc.eq(T.mirrorAround(c).applyToPoint(p), p)))


@contract("C02", ["Transform.perspectiveFrom"])
def perspective_from(vc):
    T = vc.m("Transform").Transform
    x, y = pt = vc.pt("p")
    c = vc.pt("c")
    p, q = vc.real("pp"), vc.real("qq")
    how = vc.choose("args", [0, 1, 2, 3])
    if how == 0: t = T.perspectiveFrom(c, p, q)
    elif how == 1: t, q = T.perspectiveFrom(c, p), 0
    elif how == 2: t, p = T.perspectiveFrom(c, q=q), 0
    else: t, p, q = T.perspectiveFrom(c), 0, 0
    dx, dy = x - c[0], y - c[1]
    w = p * dx + q * dy + 1
    vc.assume(vc.not_(w == 0))
    vc.prove("perspective relative to the centre", vc.eq(t.applyToPoint(pt), (c[0] + vc.div(dx, w), c[1] + vc.div(dy, w))))
