"""The contract language.

A contract is a Python function `scenario(vc)`: it introduces arbitrary inputs, states the precondition with
`vc.assume`, calls the real code, and states the postcondition with `vc.prove`.  The same text is used
 * symbolically: inputs are terms, every path of the real code is explored and every `prove` is an obligation that
   a solver must discharge, for all inputs;
 * concretely: inputs are numbers (from a counter-model or drawn), the code is the unmodified code of /repo.
"""
from __future__ import annotations

import contextlib
import copy
import importlib
import math
import os
import random
import sys
import types
from fractions import Fraction

import z3

from . import instrument, roles, runtime, solve
from .models import root
from .seq import Seq, Texts, VList, Walk
from .sym import PathEnd, SBool, STATE, Sym, TooHard, frac, is_num, is_special, num, wrap, z, zb, zi


class Skip(BaseException):
    """A drawn input violates a precondition."""


class Violation(Exception):
    pass


REGISTRY: dict = {}


class Contract:
    def __init__(self, prop, fn, funcs, params, level, opts):
        self.prop, self.fn, self.funcs, self.params, self.level, self.opts = prop, fn, funcs, params, level, opts
        self.name = fn.__name__


def contract(prop, funcs, params=((),), level="proof", **opts):
    """Registers a contract of a property.  funcs: the functions put under contract.  params: instances (tuples).
    level: 'proof' (all inputs) or 'bounded' (a bound, stated in opts['bound'])."""
    def deco(fn):
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            REGISTRY.setdefault(p, []).append(Contract(p, fn, funcs, list(params), level, opts))
        return fn
    return deco


def _isnum(v):
    return isinstance(v, (Sym, int, float, Fraction)) and not isinstance(v, bool)


class Base:
    """What both modes share."""

    def pt(self, name): return (self.real(name + ".x"), self.real(name + ".y"))
    def pts(self, name, n): return [self.pt(f"{name}{i}") for i in range(n)]
    def m(self, name): return self.module(name)

    def cpt(self, name):
        """A point given as a complex number."""
        x, y = self.pt(name)
        return Complex(x, y) if self.symbolic else complex(x, y)

    def curve(self, cls, pts):
        """A curve with these control points, new or recording that it covers any interval of another curve."""
        c = cls(pts)
        if hasattr(c, "_t1") and (self.symbolic or self.flag("piece")):
            a, b = self.real("interval from", 0, 1), self.real("interval to", 0, 1)
            self.assume(a < b)
            c._t1, c._t2 = a, b
        return c

    def unit(self, name="t"):
        return self.real(name, 0, 1)

    def param(self, name="t"):
        """Any parameter value; drawn near [0, 1]."""
        return self.real(name, conc=(-1, 2))

    def count(self, name, lo, hi, conc=None, big=()):
        """A number of things: every lo..hi symbolically (a stated bound), up to conc concretely, now and then one of big."""
        if self.symbolic: return self.choose(name, range(lo, hi + 1))
        return self.choose(name, [*range(lo, (conc or hi) + 1), *big], rare=len(big))

    def segs(self, name, n, sizes):
        return [self.pts(f"{name}{i}_", self.choose(f"{name}{i}n", sizes)) for i in range(n)]

    def flag(self, name):
        return self.choose(name, (False, True))

    def pteq(self, a, b):
        return self.eq(tuple(a), tuple(b))

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def bernstein(self, pts, t):
        """The specification of a curve: sum of C(n,i) t^i (1-t)^(n-i) P_i."""
        n = len(pts) - 1
        x = y = 0
        for i, (px, py) in enumerate(pts):
            b = math.comb(n, i)
            for _ in range(i): b = b * t
            for _ in range(n - i): b = b * (1 - t)
            x, y = x + b * px, y + b * py
        return (x, y)

    def bernstein1(self, vals, t):
        return self.bernstein([(v, 0) for v in vals], t)[0]

    def dist2(self, a, b):
        return (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])


class Complex:
    """A complex number of two terms: all that the code may look at is its type, its real and its imaginary part."""

    def __init__(self, real, imag): self.real, self.imag = real, imag
    def _vc_isinstance(self, t): return any(x in (complex, object) for x in (t if isinstance(t, tuple) else (t,)))
    _vc_type = complex


class SymVC(Base):
    symbolic = True

    def __init__(self, ctx):
        self.ctx = ctx

    def module(self, name): return self.ctx.world.module(name)

    def modular(self):
        """Callers are checked against the constructor's contract instead of its body (contract 'constructor', which is
        itself proved against the body): a new curve refers to the given points, has the constructor's constant attributes,
        and everything else it sets is computed from the points alone, on demand."""
        C = self.module("Bezier").Bezier
        if getattr(C, "_vc_lazy", False): return C
        const, lazy, points = constructor_facts()
        real, origin = C.__init__, {}

        def init(obj, pts):
            origin[id(obj)] = (obj, pts if isinstance(pts, (Seq, VList)) else list(pts))
            setattr(obj, points, pts)
            for k, v in const.items(): setattr(obj, k, copy.copy(v))

        def missing(obj, name):
            if name not in lazy or id(obj) not in origin: raise AttributeError(name)
            twin = object.__new__(C)
            real(twin, origin[id(obj)][1])
            for k in lazy: setattr(obj, k, object.__getattribute__(twin, k))
            return object.__getattribute__(obj, name)

        C.__init__, C.__getattr__, C._vc_lazy = init, missing, True
        C._vc_real_init = staticmethod(real)
        self.ctx.notes.add("Bezier(...) is used through its contract (proved as contract 'constructor' of C19)")
        return C

    def summary(self, module, qualname, fn):
        """Callers are checked against a contract: fn(real, *args) stands for the function named."""
        owner = self.module(module)
        qualname = roles.real(qualname)
        *path, leaf = qualname.split(".")
        for p in path: owner = getattr(owner, p)
        raw = owner.__dict__.get(leaf)
        if raw is None: return
        if isinstance(raw, property):
            setattr(owner, leaf, property(lambda self: fn(raw.fget, self)))
        elif isinstance(raw, staticmethod):
            setattr(owner, leaf, staticmethod(lambda *a, **k: fn(raw.__func__, *a, **k)))
        elif isinstance(raw, classmethod):
            setattr(owner, leaf, classmethod(lambda cls, *a, **k: fn(lambda *x: raw.__func__(cls, *x), *a, **k)))
        else:
            setattr(owner, leaf, lambda *a, **k: fn(raw, *a, **k))

    def effect(self):
        """A summary has an effect that its caller must not have speculatively."""
        if self.ctx.nofork or self.ctx.subs: raise runtime.NoFork()

    def invariant(self, function, number, names, fn):
        """The invariant of a while loop of a function (see runtime.Invariant)."""
        function = roles.real(function)
        self.ctx.invariants[(function, number)] = runtime.Invariant(self, f"loop {number} of {function}", names, fn)

    def theorem(self, label, n, f):
        """Proves f for n arbitrary reals and returns the rule that adds an instance."""
        vs = [Sym(z3.Real(f"{label}.{i}")) for i in range(n)]
        ok = self.ctx.prove(f"theorem: {label}", zb(f(*vs)), using=[])

        def use(*args):
            if ok: self.ctx.add(zb(f(*args)))
        return use

    def known(self, c):
        """A fact guaranteed by a contract proved elsewhere."""
        self.ctx.add(zb(c))

    def power(self, a, n): return self.ctx.power(a, n)

    def function(self, name, *args):
        """The value of a mathematical function at the arguments."""
        f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
        return Sym(f(*[z(a) for a in args]))

    def opaque_roots(self):
        """Of square roots (and hypot), only what they are roots of and that they are not negative is used."""
        self.ctx.opaque_roots = True
        solve.LINEAR[0] = True

    def decided(self, c):
        """Is the condition true by what is known on this path?"""
        if isinstance(c, bool): return c
        return self.ctx.known_value(zb(c)) is True

    def hard(self, why): raise TooHard(why)
    def decline(self): raise runtime.Decline()

    def defer(self, real, *args):
        """The value of a pure function, computed when it is first looked at."""
        return Deferred(real, tuple(list(a) if isinstance(a, list) else a for a in args))

    # -- inputs -----------------------------------------------------------------
    def real(self, name, lo=None, hi=None, conc=None):
        c = z3.Real(name)
        self.ctx.inputs[name] = c
        if lo is not None: self.ctx.assume(c >= num(lo))
        if hi is not None: self.ctx.assume(c <= num(hi))
        return Sym(c)

    def int(self, name, lo=None, hi=None):
        c = z3.Int(name)
        self.ctx.inputs[name] = c
        if lo is not None: self.ctx.assume(c >= lo)
        if hi is not None: self.ctx.assume(c <= hi)
        return Sym(c)

    def seq(self, n, at, witnesses=()):
        """A sequence of n elements (n a term): at(i) is the element at an index in range.  witnesses: the indices the contract looks at."""
        self.ctx.any_length = True
        return Seq(n, at, [zi(w) for w in witnesses])

    def ranges(self, *witnesses):
        """The numbers at which loops over ranges of any length are looked at."""
        self.ctx.any_length = True
        self.ctx.range_witnesses = [zi(w) for w in witnesses]

    def at(self, name, *i):
        """The real number with the indices i of a family."""
        f = z3.Function(name, *([z3.IntSort()] * len(i)), z3.RealSort())
        return Sym(f(*[z3.simplify(zi(x)) for x in i]))

    def intat(self, name, *i):
        f = z3.Function(name, *([z3.IntSort()] * len(i)), z3.IntSort())
        return Sym(f(*[z3.simplify(zi(x)) for x in i]))

    def arguments(self, x, name):
        """The indices of a number of the named family (see at), or None."""
        e = z3.simplify(x.e) if isinstance(x, Sym) else None
        if e is None or not z3.is_app(e) or e.decl().name() != name: return None
        return [Sym(a) for a in e.children()]

    def walk(self, l):
        """What iterating over l visits, as a sequence."""
        i = iter(l)
        return i.seq if isinstance(i, Walk) else list(i)

    def index(self, name, n):
        """An arbitrary index of a sequence of n elements (which is therefore not empty)."""
        i = self.int(name, 0)
        self.assume(i < n)
        return i

    def some(self, name, n, lo=0):
        """An index in lo..n-1 that is known to exist."""
        j = Sym(self.ctx.fresh(name, "int"))
        self.ctx.add(z3.And(zi(j) >= zi(lo), zi(j) < zi(n)))
        return j

    def integer(self, k): return Sym(z3.IntVal(k))
    def fresh(self, name): return Sym(self.ctx.fresh(name))
    def star(self, l): return l._vc_starargs()
    def unstar(self, a): return a.seq if isinstance(a, runtime.StarMark) else a
    def fresh_int(self, name): return Sym(self.ctx.fresh(name, "int"))
    def list(self, *parts): return VList(parts)
    def texts(self, n, value):
        """n texts (n a term) that together say value, an object that tokens() gives back."""
        return Texts(n, self.ctx.token(value))
    def size(self, l): return l._vc_len() if hasattr(l, "_vc_len") else len(l)
    def item(self, l, i): return l.get(i) if isinstance(l, (Seq, VList)) else l[i]

    def choose(self, name, options, rare=0):
        options = list(options)
        i = self.ctx.choose(len(options))
        self.ctx.choices[name] = i
        return options[i]

    # -- logic --------------------------------------------------------------------
    def assume(self, c): self.ctx.assume(c)

    def prove(self, label, c, using=None, learn=False):
        if callable(c) and not isinstance(c, (SBool, bool)): c = c()
        return self.ctx.prove(label, c, using=None if using is None else [zb(u) for u in using], then_assume=learn)

    def lemma(self, label, c, using=None):
        """A proved intermediate fact, available to later obligations."""
        return self.prove(label, c, using=using, learn=True)

    def reach(self, label): self.ctx.ex.reached.add(label)
    def fact(self, c): return zb(c)

    def eq(self, a, b):
        a, b = flat(a), flat(b)
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b): return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a, b)])
        if a is None or b is None: return a is b
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
            if isinstance(a, SBool) or isinstance(b, SBool): return SBool(zb(a) == zb(b))
            return a == b and isinstance(a, str) == isinstance(b, str)
        if isinstance(a, SBool) or isinstance(b, SBool): return SBool(zb(a) == zb(b))
        if hasattr(a, "_vc_value"): a = a._vc_value
        if hasattr(b, "_vc_value"): b = b._vc_value
        if not _isnum(a) or not _isnum(b): return a is b or (a == b) is True
        if is_special(a) or is_special(b):
            if is_special(a) and is_special(b): return a == b
            return False
        return SBool(z(a) == z(b))

    exact = eq

    def le(self, a, b): return self._b(a <= b)
    def lt(self, a, b): return self._b(a < b)
    def ge(self, a, b): return self._b(a >= b)
    def gt(self, a, b): return self._b(a > b)
    @staticmethod
    def _b(v): return v if isinstance(v, (SBool, bool)) else bool(v)

    def and_(self, *a):
        if len(a) == 1 and not isinstance(a[0], (SBool, bool, z3.BoolRef)): a = list(a[0])
        return SBool(z3.And(*[zb(x) for x in a])) if a else True

    def or_(self, *a):
        if len(a) == 1 and not isinstance(a[0], (SBool, bool, z3.BoolRef)): a = list(a[0])
        return SBool(z3.Or(*[zb(x) for x in a])) if a else False

    def not_(self, a): return SBool(z3.Not(zb(a))) if isinstance(a, SBool) else not a
    def implies(self, a, b): return SBool(z3.Implies(zb(a), zb(b)))
    def iff(self, a, b): return SBool(zb(a) == zb(b))
    def ite(self, c, a, b):
        if not isinstance(c, SBool): return a if c else b
        return Sym(z3.If(zb(c), z(a), z(b)))

    def when(self, c):
        """Case split: the truth value of c on this path."""
        return bool(c) if isinstance(c, (SBool, Sym)) else bool(c)

    def exists(self, names, f):
        """There are reals (a few) with f.  As a goal: give a witness instead whenever there is one."""
        vs = [z3.Real(f"{n}?{self.ctx.counter}") for n in names]
        self.ctx.counter += 1
        return SBool(z3.Exists(vs, zb(f(*[Sym(v) for v in vs]))))

    # -- specification functions ----------------------------------------------------
    def sind(self, deg): return self.ctx.world.math.sin(self.ctx.world.math.radians(deg))
    def cosd(self, deg): return self.ctx.world.math.cos(self.ctx.world.math.radians(deg))
    def sqrt(self, x): return root(self.ctx, x, 2)
    def hypot(self, a, b): return self.ctx.world.math.hypot(a[0] - b[0], a[1] - b[1])
    def cbrt(self, x): return self.ctx.world.math.cbrt(x)
    def acos(self, x): return self.ctx.world.math.acos(x)
    def sincos(self, x): return self.ctx.world.math.sincos(x)
    def div(self, a, b): return self.ctx.divide(a, b)
    def frac(self, a, b): return Fraction(a, b)
    def ratio(self, v): return v
    def abs(self, x): return abs(x)
    def min(self, *a): return self.ctx.world.hooks.builtins["min"](*a)
    def max(self, *a): return self.ctx.world.hooks.builtins["max"](*a)
    def value(self, d): return d._vc_value if hasattr(d, "_vc_value") else d
    def isnum(self, v): return _isnum(v)
    def isterm(self, v): return isinstance(v, Sym)
    def isint(self, v): return isinstance(v, int) or (isinstance(v, Sym) and v.is_int)
    def whole(self, v): return SBool(z3.IsInt(z(v)))
    @contextlib.contextmanager
    def decimal_fault(self, most=40):
        """One of the first decimal operations fails, or none."""
        self.ctx.fault = self.choose("fault", [None, *range(most)])
        try:
            yield
        finally:
            self.ctx.fault = None

    def prec(self): return self.ctx.prec
    def setprec(self, p): self.ctx.prec = p
    def Decimal(self, v): return self.ctx.world.models["decimal"].Decimal(v)

    def raises(self, f, *exc):
        """Does f() raise (one of exc)?"""
        try:
            f()
        except exc or (Exception,):
            return True
        return False

    def snapshot(self, v): return snapshot(v)
    def unchanged(self, v, s): return unchanged(v, s)
    def prove_unchanged(self, label, *pairs):
        self.prove(label, all(unchanged(v, s) for v, s in pairs))

    def tokens(self, text):
        """Splits text into literal characters and the numbers it prints."""
        out, i = [], 0
        while i < len(text):
            if text[i] == "\ue000":
                j = text.index("\ue001", i)
                out.append(self.ctx.tokens[int(text[i + 1:j])])
                i = j + 1
            else:
                out.append(text[i])
                i += 1
        return out


def flat(v):
    """A list of the code as a plain list."""
    if not isinstance(v, VList): return v
    l = v.plain()
    if l is None: raise TooHard("a list of any length as a whole")
    return l


def snapshot(v):
    """A structural copy in which scalars and foreign objects are kept by identity."""
    if isinstance(v, VList): return ("list", id(v), [snapshot(x) for x in flat(v)])
    if isinstance(v, list): return ("list", id(v), [snapshot(x) for x in v])
    if isinstance(v, tuple): return ("tuple", None, [snapshot(x) for x in v])
    if isinstance(v, dict): return ("dict", id(v), [(k, snapshot(x)) for k, x in v.items()])
    if isinstance(v, (int, float, Fraction, str, bool, type(None))): return ("const", None, (type(v), v))
    if isinstance(v, Sym): return ("sym", None, v)
    return ("obj", id(v), None)


def unchanged(v, s):
    kind, ident, data = s
    if isinstance(v, VList): return kind == "list" and id(v) == ident and len(flat(v)) == len(data) and all(unchanged(a, b) for a, b in zip(flat(v), data))
    if kind == "list":
        return isinstance(v, list) and id(v) == ident and len(v) == len(data) and all(unchanged(a, b) for a, b in zip(v, data))
    if kind == "tuple":
        return isinstance(v, tuple) and len(v) == len(data) and all(unchanged(a, b) for a, b in zip(v, data))
    if kind == "dict":
        return isinstance(v, dict) and id(v) == ident and list(v) == [k for k, _ in data] and all(unchanged(v[k], b) for k, b in data)
    if kind == "const": return type(v) is data[0] and (v == data[1] or v != v)
    if kind == "sym": return isinstance(v, Sym) and v.e.eq(data.e)
    return id(v) == ident


class Deferred(list):
    """A list that is computed when it is first looked at."""

    def __init__(self, real, args):
        super().__init__()
        self.real, self.args, self.done = real, args, None

    def _get(self):
        if self.done is None: self.done = self.real(*self.args)
        return self.done

    def __iter__(self): return iter(self._get())
    def __len__(self): return len(self._get())
    def __bool__(self): return bool(self._get())
    def __getitem__(self, i): return self._get()[i]
    def __setitem__(self, i, v): self._get()[i] = v
    def __delitem__(self, i): del self._get()[i]
    def __contains__(self, x): return x in self._get()
    def __eq__(self, o): return self._get() == o
    def __add__(self, o): return self._get() + o
    def __radd__(self, o): return o + self._get()
    def __repr__(self): return repr(self._get())
    __hash__ = None
    def copy(self): return self._get().copy()
    def index(self, *a): return self._get().index(*a)
    def count(self, x): return self._get().count(x)
    def append(self, x): self._get().append(x)
    def extend(self, x): self._get().extend(x)
    def insert(self, i, x): self._get().insert(i, x)
    def pop(self, *a): return self._get().pop(*a)
    def remove(self, x): self._get().remove(x)
    def sort(self, **k): self._get().sort(**k)
    def reverse(self): self._get().reverse()
    def clear(self): self._get().clear()


_FACTS = None


def attributes(obj):
    names = [n for k in type(obj).__mro__ for n in ((k.__dict__.get("__slots__") or ()) if not isinstance(k.__dict__.get("__slots__"), str) else (k.__dict__["__slots__"],))]
    out = {n: getattr(obj, n) for n in names if n not in ("__dict__", "__weakref__") and hasattr(obj, n)}
    out.update(getattr(obj, "__dict__", {}))
    return out


def constructor_facts():
    """Which attributes a new curve gets whatever its points (learnt from the real code, proved by contract 'constructor')."""
    global _FACTS
    if _FACTS is None:
        C = concrete_module("Bezier").Bezier
        seen, points = [], None
        for pts in ([(0, 0), (1, 1)], [(3, 2), (1, 0)], [(0, 0), (1, 2), (3, 1)], [(0, 5), (1, -2), (3, -9), (4, -11)], [(0, 0), (5, 9), (9, -3), (2, 2)],
                    [(0, 0), (1, 0)], [(0, 0), (0, 1), (0, 2), (0, 3)], [(0, 0), (1, 5), (2, 3), (4, 4), (9, 9)]):
            at = attributes(C(pts))
            points = [k for k, v in at.items() if v is pts][0]
            seen.append(at)
        const = {}
        for k, v in seen[0].items():
            simple = v is None or isinstance(v, (int, float, bool, str)) or (isinstance(v, (list, dict, tuple)) and not v)
            if k != points and simple and all(k in a and type(a[k]) is type(v) and a[k] == v for a in seen): const[k] = v
        _FACTS = const, [k for k in seen[0] if k != points and k not in const], points
    return _FACTS


class ConcVC(Base):
    """Concrete mode: the unmodified code on concrete inputs."""
    symbolic = False

    def __init__(self, rng=None, fixed=None, tol=1e-7, style=None, exact=False):
        self.rational = exact
        self.rng, self.fixed, self.tol = rng, fixed, tol
        self.values: dict = {}
        self.choices: dict = {}
        self.drawn: list = []
        self.scale = 1.0
        self.style = style if style is not None else (rng.randrange(6) if rng else 0)
        self.proved = 0
        self.failed = None

    def module(self, name):
        return concrete_module(name)

    def modular(self): return self.module("Bezier").Bezier
    def summary(self, module, qualname, fn): pass
    def invariant(self, function, number, names, fn): pass
    def effect(self): pass
    def known(self, c): pass
    def opaque_roots(self): pass

    def theorem(self, label, n, f):
        return lambda *args: None

    def _draw(self, lo, hi):
        r = self.rng
        if lo is not None and hi is not None:
            lo, hi = Fraction(lo), Fraction(hi)
            k = r.randrange(6)
            if k == 0: v = r.choice([lo, hi])
            elif k < 4: v = lo + (hi - lo) * Fraction(r.randrange(0, 17), 16)
            else: v = lo + (hi - lo) * Fraction(r.randrange(0, 1025), 1024)
            return float(v) if v.denominator != 1 else int(v)
        if self.drawn and r.random() < 0.2:
            v = r.choice(self.drawn)
        elif self.style == 0: v = r.randrange(-3, 4)
        elif self.style == 1: v = r.randrange(-12, 13)
        elif self.style == 2: v = r.randrange(-1000, 1001)
        elif self.style == 3: v = r.randrange(-64, 65) / 4
        elif self.style == 4: v = r.choice([0, 1, -1, 2, 100, 0.5, 40000, -40000, 10])
        else: v = r.randrange(0, 20)
        if lo is not None and v < lo: v = lo + abs(v - lo)
        if hi is not None and v > hi: v = hi - abs(v - hi)
        self.drawn.append(v)
        return v

    def real(self, name, lo=None, hi=None, conc=None):
        """conc: where to draw from (unbounded inputs, e.g. curve parameters)."""
        if conc: lo, hi = conc
        if self.fixed is not None and name in self.fixed["values"]:
            f = Fraction(self.fixed["values"][name])
            v = int(f) if f.denominator == 1 else float(f)
        elif self.rng is not None:
            v = self._draw(lo, hi)
        else:
            v = lo if lo is not None else 0
        self.values[name] = str(Fraction(v))
        self.scale = max(self.scale, abs(v))
        if self.rational: return Fraction(self.values[name]) if self.fixed is None or name not in self.fixed["values"] else Fraction(self.fixed["values"][name])
        return v

    def int(self, name, lo=None, hi=None):
        if self.fixed is not None and name in self.fixed["values"]:
            v = int(Fraction(self.fixed["values"][name]))
        elif self.rng is not None:
            v = self.rng.randrange(lo if lo is not None else -20, (hi if hi is not None else 20) + 1)
        else:
            v = lo if lo is not None else 0
        self.values[name] = str(v)
        return v

    def choose(self, name, options, rare=0):
        """rare: this many of the options, the last ones, are drawn seldom."""
        options = list(options)
        if self.fixed is not None and name in self.fixed["choices"]:
            i = self.fixed["choices"][name]
            if i >= len(options): raise Skip()
        elif self.rng is not None:
            common = len(options) - rare
            i = self.rng.randrange(common) if not rare or self.rng.random() > .06 else self.rng.randrange(common, len(options))
        else: i = 0
        self.choices[name] = i
        return options[i]

    def assume(self, c):
        if not c: raise Skip()

    def prove(self, label, c, using=None, learn=False):
        if callable(c) and not isinstance(c, bool): c = c()
        self.proved += 1
        if not c:
            raise Violation(label)
        return True

    lemma = prove

    def reach(self, label): pass
    def fact(self, c): return c

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b): return False
            return all(self.eq(x, y) for x, y in zip(a, b))
        if a is None or b is None: return a is b
        if isinstance(a, (str, bool)) or isinstance(b, (str, bool)): return a == b
        try:
            if a == b: return True
            a, b = float(a), float(b)
        except (TypeError, ValueError, OverflowError):
            return False
        if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b): return a == b
        return abs(a - b) <= self.tol * (self.scale + abs(a) + abs(b))

    def exact(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.exact(x, y) for x, y in zip(a, b))
        return bool(a == b)

    def _slack(self, a, b):
        if not math.isfinite(a) or not math.isfinite(b): return 0
        return self.tol * (self.scale + abs(float(a)) + abs(float(b)))

    def le(self, a, b): return a <= b or float(a) <= float(b) + self._slack(a, b)
    def ge(self, a, b): return self.le(b, a)
    def lt(self, a, b): return self.le(a, b)
    def gt(self, a, b): return self.le(b, a)

    def and_(self, *a):
        if len(a) == 1 and not isinstance(a[0], bool): a = list(a[0])
        return all(a)

    def or_(self, *a):
        if len(a) == 1 and not isinstance(a[0], bool): a = list(a[0])
        return any(a)

    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def iff(self, a, b): return bool(a) == bool(b)
    def ite(self, c, a, b): return a if c else b
    def when(self, c): return bool(c)
    def exists(self, names, f): return True

    def sind(self, deg):
        d = deg % 360
        if d in (0, 90, 180, 270): return (0, 1, 0, -1)[int(d // 90)]
        return math.sin(math.radians(deg))

    def cosd(self, deg):
        d = deg % 360
        if d in (0, 90, 180, 270): return (1, 0, -1, 0)[int(d // 90)]
        return math.cos(math.radians(deg))

    def sqrt(self, x): return math.sqrt(max(0, x))
    def hypot(self, a, b): return math.hypot(a[0] - b[0], a[1] - b[1])
    def div(self, a, b): return a / b
    def frac(self, a, b): return a / b
    def ratio(self, v): return Fraction(v)
    def abs(self, x): return abs(x)
    def min(self, *a): return min(*a)
    def max(self, *a): return max(*a)
    def value(self, d): return float(d)
    def isterm(self, v): return False
    def isint(self, v): return isinstance(v, int)
    def whole(self, v): return v == int(v)
    def isnum(self, v): return isinstance(v, (int, float, Fraction)) and not isinstance(v, bool)

    @contextlib.contextmanager
    def decimal_fault(self, most=40):
        import decimal
        k = self.choose("fault", [None, *range(most)])
        c = decimal.getcontext()
        saved = c.traps.copy()
        signals = (decimal.Inexact, decimal.Rounded, decimal.FloatOperation)
        if k is not None:
            for i, s in enumerate(signals): c.traps[s] = i == k % 3
        try:
            yield
        finally:
            for s, v in saved.items(): decimal.getcontext().traps[s] = v

    def prec(self):
        import decimal
        return decimal.getcontext().prec

    def setprec(self, p):
        import decimal
        decimal.getcontext().prec = p

    def Decimal(self, v):
        import decimal
        return decimal.Decimal(v)

    def raises(self, f, *exc):
        try:
            f()
        except exc or (Exception,):
            return True
        return False

    def snapshot(self, v): return snapshot(v)
    def unchanged(self, v, s): return unchanged(v, s)

    def prove_unchanged(self, label, *pairs):
        self.prove(label, all(unchanged(v, s) for v, s in pairs))

    def tokens(self, text):
        import re
        out, i = [], 0
        pat = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)")
        while i < len(text):
            m = pat.match(text, i)
            if m:
                s = m.group()
                f = Fraction(s)
                out.append(int(f) if f.denominator == 1 else float(s))
                i = m.end()
            else:
                out.append(text[i])
                i += 1
        return out


_READY = False


def prepare_concrete():
    global _READY
    if _READY: return
    sys.dont_write_bytecode = True
    from .models import stub_modules
    try:
        import FontDocTools  # noqa: F401
    except ImportError:
        for n, m in stub_modules().items(): sys.modules[n] = m
    if instrument.REPO not in sys.path: sys.path.insert(0, instrument.REPO)
    _READY = True


def concrete_module(name):
    prepare_concrete()
    m = importlib.import_module(f"PathLib.{name}")
    f = os.path.realpath(m.__file__)
    assert f.startswith(os.path.realpath(instrument.REPO) + os.sep), f
    roles.alias(m)
    return m
