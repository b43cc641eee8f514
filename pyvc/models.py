"""Models (assumed contracts) of math and decimal."""
from __future__ import annotations

import math
import os
import types
from fractions import Fraction

import z3

from .solve import Blowup, ONE, p_add, p_const, p_mul
from .sym import PathEnd, SBool, STATE, Sym, TooHard, ctx, frac, is_num, is_special, num, wrap, z, zb, zi

PI = z3.Real("PI")
PI_LO, PI_HI = Fraction("3.14159265358979"), Fraction("3.1415926535898")
PI_FACTS = [PI > num(PI_LO), PI < num(PI_HI)]


def _domain():
    raise ValueError("math domain error")


def _sqrt_rat(f: Fraction):
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    return Fraction(a, b) if a * a == f.numerator and b * b == f.denominator else None


def split_ite(e):
    """(condition, e if it holds, e if not) for a conditional in the arithmetic of e, or None."""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            sub = lambda y, b: z3.simplify(z3.substitute(y, (c, z3.BoolVal(b))))
            return c, sub(e, True), sub(e, False)
        if z3.is_app(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED: todo.extend(x.children())
    return None


def settled(x):
    """x without a choice (abs, min, max, a conditional expression) at its top: the path decides."""
    while isinstance(x, Sym) and not ctx().opaque_roots:
        s = split_ite(z3.simplify(x.e))
        if s is None: break
        x = Sym(s[1] if ctx().branch(s[0]) else s[2])
    return x


def root(c, x, n, nonneg_known=False):
    """The non-negative n-th root of x >= 0 (n = 2 or 3)."""
    if c.opaque_roots and isinstance(x, Sym):
        s = split_ite(x.e)
        if s is not None: return Sym(z3.If(s[0], z(root(c, Sym(s[1]), n)), z(root(c, Sym(s[2]), n))))
    if not isinstance(x, Sym):
        f = frac(x)
        if n == 2:
            r = _sqrt_rat(f)
            if r is not None: return r
        e = num(f)
    else:
        e = z3.simplify(z(x))
    key = (f"root{n}", c.termkey(e))
    hit = c.memo_get(key)
    if hit is not None: return hit
    r = c.named("rt", key)
    name = r.decl().name()
    facts = [r >= 0] if c.opaque_roots else [r >= 0, (r * r == e) if n == 2 else (r * r * r == e)]
    c.rewrites[name] = (n, e)
    return c.memo_put(key, Sym(r), facts, [e])


class Math(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.inf, self.nan, self.e = math.inf, math.nan, None
        self.pi = Sym(PI)
        self.tau = Sym(2 * PI)

    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if hasattr(math, n):
            real = getattr(math, n)
            if callable(real):
                def f(*a):
                    if all(isinstance(x, int) for x in a): return real(*a)
                    raise TooHard(f"math.{n}")
                return f
        raise AttributeError(f"module 'math' has no attribute '{n}'")

    # -- roots --------------------------------------------------------------
    def sqrt(self, x):
        if hasattr(x, "_vc_value"): x = x._vc_value
        if is_special(x): return math.sqrt(x)
        if not isinstance(x, Sym):
            if not is_num(x): return math.sqrt(x)
            if frac(x) < 0: _domain()
        elif ctx().branch(z(x) < 0):
            _domain()
        return root(ctx(), x, 2)

    def hypot(self, *a):
        if any(is_special(v) for v in a): return math.hypot(*[0.0 if isinstance(v, Sym) else float(v) for v in a])
        a = [v._vc_value if hasattr(v, "_vc_value") else v for v in a]
        a = [v for v in a if isinstance(v, Sym) or frac(v) != 0]
        if not a: return 0
        if len(a) == 1: return abs(a[0])
        s = 0
        for v in a: s = s + v * v
        c = ctx()
        r = root(c, s, 2)
        if isinstance(r, Sym) and not c.opaque_roots:
            # consequences of r*r == s that the provers need often
            for v in a: c.add(z3.And(r.e >= z(v), r.e >= -z(v)))
        return r

    def dist(self, p, q):
        return self.hypot(*[a - b for a, b in zip(p, q)])

    def pow(self, x, y):
        if isinstance(y, Sym):
            if not y.is_int: raise TooHard("symbolic exponent")
            return ctx().power(x, y)
        f = frac(y)
        if f.denominator == 1 and 0 <= f: return ctx().power(x, int(f))
        if f.denominator == 1:
            if isinstance(x, Sym) and ctx().branch(z(x) == 0) or not isinstance(x, Sym) and x == 0: _domain()
            return ctx().power(x, int(f))
        x = settled(x)
        if isinstance(x, Sym):
            if ctx().branch(z(x) < 0): _domain()
        elif frac(x) < 0: _domain()
        if f == Fraction(1, 2): return root(ctx(), x, 2)
        if f == Fraction(1, 3) or abs(f - Fraction(1, 3)) < Fraction(1, 10**14): return root(ctx(), x, 3)
        raise TooHard("power")

    def cbrt(self, x):
        if isinstance(x, Sym):
            return -root(ctx(), -x, 3) if ctx().branch(z(x) < 0) else root(ctx(), x, 3)
        return -root(ctx(), -frac(x), 3) if frac(x) < 0 else root(ctx(), x, 3)

    # -- simple functions ------------------------------------------------------
    def fabs(self, x): return abs(x)
    def floor(self, x): return x.__floor__() if isinstance(x, Sym) else math.floor(x)
    def ceil(self, x): return x.__ceil__() if isinstance(x, Sym) else math.ceil(x)
    def trunc(self, x): return x.__trunc__() if isinstance(x, Sym) else math.trunc(x)
    def isfinite(self, x): return True if isinstance(x, Sym) else math.isfinite(x)
    def isinf(self, x): return False if isinstance(x, Sym) else math.isinf(x)
    def isnan(self, x): return False if isinstance(x, Sym) else math.isnan(x)

    def copysign(self, x, y):
        if is_special(x) or is_special(y): raise TooHard("copysign of inf")
        return abs(x) if (y >= 0) else -abs(x)

    def fmod(self, x, y): raise TooHard("fmod")

    def fsum(self, it):
        s = 0
        for v in it: s = s + v
        return s

    def prod(self, it, start=1):
        for v in it: start = start * v
        return start

    def sumprod(self, a, b):
        return self.fsum([x * y for x, y in zip(a, b, strict=True)])

    def isclose(self, a, b, rel_tol=Fraction(1, 10**9), abs_tol=0):
        d = abs(a - b)
        m = self._max(abs(a), abs(b)) * rel_tol
        m = self._max(m, abs_tol)
        return d <= m

    @staticmethod
    def _max(a, b):
        if not isinstance(a, Sym) and not isinstance(b, Sym): return max(a, b)
        return Sym(z3.If(z(a) >= z(b), z(a), z(b)))

    # -- angles ------------------------------------------------------------------
    def radians(self, x):
        if is_special(x): return x
        return x * Sym(PI) * Fraction(1, 180)

    def degrees(self, x):
        if is_special(x): return x
        if not isinstance(x, Sym) and x == 0: return 0
        return ctx().divide(x * 180, Sym(PI))

    def sin(self, x): return self.sincos(x)[0]
    def cos(self, x): return self.sincos(x)[1]

    def tan(self, x):
        s, c = self.sincos(x)
        return ctx().divide(s, c)

    def sincos(self, x):
        if is_special(x): _domain()
        c = ctx()
        if not isinstance(x, Sym):
            if x == 0: return 0, 1
        base, sign, k = c.angle(x)
        s0, c0 = self._base(c, base)
        s0 = s0 * sign
        if k == 0: return s0, c0
        sk, ck = self._const(c, k)
        return s0 * ck + c0 * sk, c0 * ck - s0 * sk

    def _const(self, c, k):
        k = k % 2
        table = {Fraction(0): (0, 1), Fraction(1, 2): (1, 0), Fraction(1): (0, -1), Fraction(3, 2): (-1, 0)}
        if k in table: return table[k]
        h = Fraction(1, 2)
        q = k % Fraction(1, 2)
        if q == Fraction(1, 4): s0, c0 = root(c, h, 2), root(c, h, 2)
        elif q == Fraction(1, 6): s0, c0 = h, root(c, 3, 2) * h
        else: s0, c0 = root(c, 3, 2) * h, h
        sr, cr = table[k - q]
        return s0 * cr + c0 * sr, c0 * cr - s0 * sr

    def _base(self, c, base):
        """sin and cos of a canonical angle without rational multiples of pi/4 and pi/6."""
        if not base[0]: return 0, 1
        key = ("trig", base)
        hit = c.memo_get(key)
        if hit is not None: return hit
        s, k = c.named("sin", key), c.named("cos", key)
        facts = [s * s + k * k == 1, s <= 1, s >= -1, k <= 1, k >= -1]
        c.rewrites[s.decl().name()] = (2, 1 - k * k)
        c.trig_keys.append(base)
        out = c.memo_put(key, (Sym(s), Sym(k)), facts, [])
        # triple angles
        for other in list(c.trig_keys):
            if other[1] != base[1] or other == base: continue
            for small, big in ((base, other), (other, base)):
                if tuple((m, 3 * q) for m, q in small[0]) == big[0]:
                    (_, ks), (sb, kb) = c.memo[("trig", small)][0], c.memo[("trig", big)][0]
                    c.add(z(4 * ks * ks * ks - 3 * ks) == z(kb))
        return out

    def atan2(self, y, x):
        if is_special(y) or is_special(x): raise TooHard("atan2 of inf")
        c = ctx()
        if not isinstance(y, Sym) and not isinstance(x, Sym):
            y, x = frac(y), frac(x)
            if y == 0: return 0 if x >= 0 else Sym(PI)
            if x == 0: return Sym(PI / 2) if y > 0 else Sym(-PI / 2)
        zx, zy = z(x), z(y)
        if c.branch(z3.And(zx == 0, zy == 0)): return 0
        key = ("atan2", c.termkey(zy), c.termkey(zx))
        hit = c.memo_get(key)
        if hit is not None: return hit
        a = c.named("ang", key)
        h = self.hypot(x, y)
        zh = z(h)
        facts = [a > -PI, a <= PI, z3.Implies(zy > 0, z3.And(a > 0, a < PI)), z3.Implies(zy < 0, a < 0),
                 z3.Implies(z3.And(zy == 0, zx > 0), a == 0), z3.Implies(z3.And(zy == 0, zx < 0), a == PI),
                 z3.Implies(zx > 0, z3.And(2 * a < PI, 2 * a > -PI)),
                 z3.Implies(zx < 0, z3.Or(2 * a > PI, 2 * a < -PI)),
                 z3.Implies(z3.And(zx == 0, zy > 0), 2 * a == PI), z3.Implies(z3.And(zx == 0, zy < 0), 2 * a == -PI),
                 zh > 0]
        out = c.memo_put(key, Sym(a), facts, [zx, zy])
        s, k = c.divide(y, h), c.divide(x, h)
        base, sign, kk = c.angle(out)
        c.memo_put(("trig", base), (s if sign > 0 else -s, k), [z(s) * z(s) + z(k) * z(k) == 1], [])
        c.trig_keys.append(base)
        return out

    def atan(self, x):
        return self.atan2(x, 1)

    def acos(self, x):
        c = ctx()
        if is_special(x): _domain() if math.isinf(x) else None
        if not isinstance(x, Sym):
            f = frac(x)
            if abs(f) > 1: _domain()
            t = {Fraction(1): 0, Fraction(-1): Sym(PI), Fraction(0): Sym(PI / 2), Fraction(1, 2): Sym(PI / 3), Fraction(-1, 2): Sym(2 * PI / 3)}
            if f in t: return t[f]
        elif c.branch(z(x) > 1) or c.branch(z(x) < -1):
            _domain()
        zx = z(x)
        key = ("acos", c.termkey(zx))
        hit = c.memo_get(key)
        if hit is not None: return hit
        a = c.named("ang", key)
        facts = [a >= 0, a <= PI]
        for q, v in ((Fraction(1, 3), Fraction(1, 2)), (Fraction(1, 2), 0), (Fraction(2, 3), Fraction(-1, 2)), (0, 1), (1, -1)):
            b = num(q) * PI
            facts += [(a < b) == (zx > num(v)), (a == b) == (zx == num(v))]
        for b, zb_ in c.acos_terms:
            facts += [(a < b) == (zx > zb_), (a == b) == (zx == zb_)]
        c.acos_terms.append((a, zx))
        out = c.memo_put(key, Sym(a), facts, [zx])
        base, sign, kk = c.angle(out)
        s = root(c, 1 - wrap(zx) * wrap(zx), 2)
        c.memo_put(("trig", base), (s, wrap(zx)), [], [])
        c.trig_keys.append(base)
        # a may already be in use as a third or a triple
        for other in list(c.trig_keys):
            if other[1] == base[1] and tuple((m, 3 * q) for m, q in other[0]) == base[0]:
                ks = c.memo[("trig", other)][0][1]
                c.add(z(4 * ks * ks * ks - 3 * ks) == zx)
        return out

    def asin(self, x):
        return Sym(PI / 2) - self.acos(x)

    def comb(self, n, k): return math.comb(n, k)


# ---------------------------------------------------------------------------------------------------------

def _dv(v, what="arithmetic"):
    if isinstance(v, DecimalVal): return v._vc_value
    if isinstance(v, bool) or isinstance(v, int): return v
    if isinstance(v, Sym) and v.is_int: return v
    return None


def _may_fail():
    """An operation on decimals can fail (a trapped signal): the n-th one does, for any n."""
    c = STATE.ctx
    n = c.fault
    if n is None: return
    c.fault = n - 1
    if n == 0: raise DecimalModule.InvalidOperation("trapped")


class DecimalVal:
    """decimal.Decimal, computing exactly (rounding to the context's precision is idealised away)."""
    __slots__ = ("_vc_value",)

    def __init__(self, value=0, context=None):
        if isinstance(value, DecimalVal): value = value._vc_value
        elif isinstance(value, str):
            tok = STATE.ctx.untoken(value) if STATE.ctx else None
            value = tok if tok is not None else Fraction(value)
        elif isinstance(value, (int, Fraction, Sym)): pass
        elif isinstance(value, float) and math.isfinite(value): value = Fraction(value)
        else:
            raise TypeError(f"conversion from {type(value)} to Decimal is not supported")
        object.__setattr__(self, "_vc_value", value)

    def _bin(self, o, f, swap=False):
        _may_fail()
        v = _dv(o)
        if v is None: return NotImplemented
        return DecimalVal(f(v, self._vc_value) if swap else f(self._vc_value, v))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._bin(o, lambda a, b: ctx().divide(a, b))
    def __rtruediv__(self, o): return self._bin(o, lambda a, b: ctx().divide(a, b), True)

    def __pow__(self, n, mod=None):
        if isinstance(n, DecimalVal): n = n._vc_value
        if n == Fraction(1, 2): return self.sqrt()
        if isinstance(n, Fraction) and n.denominator != 1: raise TypeError("unsupported operand type(s) for **")
        return DecimalVal(ctx().power(self._vc_value, int(n)))

    def __neg__(self): return DecimalVal(-self._vc_value)
    def __pos__(self): return DecimalVal(self._vc_value)
    def __abs__(self): return DecimalVal(abs(self._vc_value))
    def fma(self, a, b, context=None): return self * a + b
    def sqrt(self, context=None):
        _may_fail()
        v = self._vc_value
        if isinstance(v, Sym):
            if ctx().branch(z(v) < 0): raise DecimalModule.InvalidOperation("sqrt")
        elif v < 0: raise DecimalModule.InvalidOperation("sqrt")
        return DecimalVal(root(ctx(), v, 2))

    def copy_abs(self): return abs(self)
    def is_finite(self): return True
    def is_nan(self): return False
    def is_zero(self): return self._vc_value == 0

    def _cmp(self, o):
        return o._vc_value if isinstance(o, DecimalVal) else o

    def __eq__(self, o): return self._vc_value == self._cmp(o)
    def __ne__(self, o): return self._vc_value != self._cmp(o)
    def __lt__(self, o): return self._vc_value < self._cmp(o)
    def __le__(self, o): return self._vc_value <= self._cmp(o)
    def __gt__(self, o): return self._vc_value > self._cmp(o)
    def __ge__(self, o): return self._vc_value >= self._cmp(o)
    def __bool__(self): return bool(self._vc_value != 0)
    def __hash__(self): return hash(self._vc_value)
    def __str__(self): return str(self._vc_value)
    def __repr__(self): return f"Decimal('{self._vc_value}')"
    def __float__(self): raise TooHard("float of Decimal")


class _Context:
    """The decimal context; its precision lives in the verifier's state."""

    @property
    def prec(self): return STATE.ctx.prec
    @prec.setter
    def prec(self, v): STATE.ctx.prec = v
    def copy(self): return _Saved(STATE.ctx.prec)


class _Saved:
    def __init__(self, prec): self.prec = prec


class _Local:
    def __init__(self, c=None, **kw):
        self.init, self.kw = c, kw

    def __enter__(self):
        self.saved = STATE.ctx.prec
        if self.init is not None and isinstance(self.init, _Saved): STATE.ctx.prec = self.init.prec
        for k, v in self.kw.items(): setattr(DecimalModule.CONTEXT, k, v)
        return DecimalModule.CONTEXT

    def __exit__(self, *a):
        STATE.ctx.prec = self.saved
        return False


class DecimalModule(types.ModuleType):
    class DecimalException(ArithmeticError): pass
    class InvalidOperation(DecimalException): pass
    CONTEXT = _Context()

    def __init__(self):
        super().__init__("decimal")
        self.Decimal = DecimalVal

    @staticmethod
    def getcontext(): return DecimalModule.CONTEXT
    @staticmethod
    def setcontext(c): STATE.ctx.prec = c.prec
    localcontext = _Local
    Context = _Saved


STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


def stub_modules():
    """FontDocTools is not installed: its assumed contracts."""
    out = {}
    pkg = types.ModuleType("FontDocTools")
    pkg.__path__ = []
    out["FontDocTools"] = pkg
    for leaf in ("Color", "GlyphPlotterEngine"):
        m = types.ModuleType(f"FontDocTools.{leaf}")
        with open(os.path.join(STUBS, "FontDocTools", leaf + ".py")) as f:
            exec(compile(f.read(), leaf + ".py", "exec"), m.__dict__)
        setattr(pkg, leaf, m)
        out[f"FontDocTools.{leaf}"] = m
    return out


def make_models():
    m = {"math": Math(), "decimal": DecimalModule()}
    m.update(stub_modules())
    m["random"] = Random()
    return m


class Random(types.ModuleType):
    """random: any number in the range."""

    def __init__(self): super().__init__("random")

    @staticmethod
    def randint(a, b):
        v = STATE.ctx.fresh("random", "int")
        STATE.ctx.inputs[str(v)] = v
        STATE.ctx.add(z3.And(v >= a, v <= b))
        return Sym(v)

    @staticmethod
    def randrange(a, b=None):
        return Random.randint(0 if b is None else a, (a if b is None else b) - 1)

    @staticmethod
    def uniform(a, b):
        v = STATE.ctx.fresh("random")
        STATE.ctx.inputs[str(v)] = v
        STATE.ctx.add(z3.And(v >= num(a), v <= num(b)))
        return Sym(v)

    @staticmethod
    def random():
        v = STATE.ctx.fresh("random")
        STATE.ctx.inputs[str(v)] = v
        STATE.ctx.add(z3.And(v >= 0, v < 1))
        return Sym(v)
