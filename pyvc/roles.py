"""Private names of Bezier that the properties speak about (the interval a piece records, whether it was judged straight or
clockwise, its derivative, tangent and normal) found by what they hold on a few curves, should they have been renamed."""
from __future__ import annotations

import math

_FOUND = None


def close(a, b):
    try:
        return len(a) == 2 and all(abs(float(x) - y) < 1e-9 for x, y in zip(a, b))
    except Exception:
        return False


def discover(B):
    from .api import attributes
    bent, right, line = B([(0, 0), (1, 2), (3, 1), (5, 7)]), B([(0, 0), (1, -5), (3, 1), (5, -1)]), B([(0, 0), (1, 1), (2, 2), (3, 3)])
    have = set(attributes(bent))
    out = {}

    def attr(name, test):
        if name in have: return
        hits = [k for k in sorted(have) if test(k)]
        if len(hits) == 1: out[name] = hits[0]
    halves = [attributes(p) for p in bent.split(0.25)[:2]]
    same = lambda v, w: type(v) in (int, float) and v == w
    attr("_t1", lambda k: same(attributes(bent)[k], 0) and same(halves[0].get(k), 0) and same(halves[1].get(k), 0.25))
    attr("_t2", lambda k: same(attributes(bent)[k], 1) and same(halves[0].get(k), 0.25) and same(halves[1].get(k), 1))
    judged = lambda k: tuple(attributes(c).get(k) for c in (bent, right, line))
    attr("_linear", lambda k: judged(k) == (False, False, True) and type(judged(k)[0]) is bool)
    attr("_clockwise", lambda k: judged(k) == (bent_turns(bent), bent_turns(right), False) and type(judged(k)[0]) is bool)
    t, (x, y), (dx, dy) = .3, bent.get(.3), slope(bent.controlPoints, .3)
    n = math.hypot(dx, dy)
    for name, want in (("_derivative", (dx, dy)), ("_tangent", (dx / n, dy / n)), ("_normal", (-dy / n, dx / n)), ("_compute", (x, y))):
        if name in B.__dict__: continue
        hits = []
        for k, f in B.__dict__.items():
            if k.startswith("__") or not callable(f) or type(f).__name__ != "function": continue
            try: r = f(bent, t)
            except Exception: continue
            if close(r, want): hits.append(k)
        hits.sort(key=lambda k: not k.startswith("_"))
        if hits: out[name] = hits[0]
    return out


def bent_turns(c):
    p = c.controlPoints
    (x0, y0), (x1, y1), (x2, y2) = p[0], p[1], p[-1]
    return (x2 - x0) * (y1 - y0) - (y2 - y0) * (x1 - x0) > 0


def slope(p, t):
    d = [(3 * (b[0] - a[0]), 3 * (b[1] - a[1])) for a, b in zip(p, p[1:])]
    w = ((1 - t) ** 2, 2 * t * (1 - t), t * t)
    return tuple(sum(k * q[i] for k, q in zip(w, d)) for i in range(2))


def found():
    global _FOUND
    if _FOUND is None:
        from .api import concrete_module
        _FOUND = {}
        try: _FOUND = discover(concrete_module("Bezier").Bezier)
        except Exception: pass
    return _FOUND


def alias(module):
    """Lets the curves of a loaded module answer to the usual names as well."""
    B = getattr(module, "Bezier", None)
    if not isinstance(B, type): return
    for old, new in found().items():
        if old in B.__dict__: continue
        setattr(B, old, property(lambda self, k=new: getattr(self, k), lambda self, v, k=new: setattr(self, k, v)))


def real(name):
    """The name the code has for it."""
    *path, leaf = name.split(".")
    return ".".join([*path, found().get(leaf, leaf)]) if path[:1] == ["Bezier"] else name
