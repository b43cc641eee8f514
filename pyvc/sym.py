"""Symbolic scalars and the path context.

`Sym` is a real (or integer) valued term, `SBool` a truth valued term.  Both overload Python's operators, so
the code under verification runs on CPython unchanged; deciding the truth value of an `SBool` asks the current
path context, which explores both outcomes when both are feasible.
"""
from __future__ import annotations

import math
import time
from fractions import Fraction

import z3

from . import solve


class Control(BaseException):
    """Engine control flow; never to be swallowed by the code under verification."""


class PathEnd(Control):
    """This path needs no further exploration (infeasible, or cut by an assumption)."""


class TooHard(Control):
    """The construct is outside what the verifier can handle."""


class _State:
    ctx: "Ctx" = None  # type: ignore


STATE = _State()


def ctx() -> "Ctx":
    return STATE.ctx


def frac(v) -> Fraction:
    """The rational a concrete Python number stands for (floats are read as their decimal notation)."""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, (int, Fraction)):
        return Fraction(v)
    if isinstance(v, float):
        return Fraction(repr(v))
    raise TypeError(type(v))


def is_num(v) -> bool:
    return isinstance(v, (int, float, Fraction)) and not (isinstance(v, float) and not math.isfinite(v))


def is_special(v) -> bool:
    return isinstance(v, float) and not math.isfinite(v)


def rv(v: Fraction):
    return z3.RealVal(v.numerator) / z3.RealVal(v.denominator) if v.denominator != 1 else z3.RealVal(v.numerator)


_RVC: dict = {}


def num(v):
    f = frac(v)
    r = _RVC.get(f)
    if r is None:
        r = z3.simplify(rv(f))
        _RVC[f] = r
    return r


def z(v):
    """Lift to a z3 Real term."""
    if isinstance(v, Sym):
        e = v.e
        return z3.ToReal(e) if e.is_int() else e
    if hasattr(v, "_vc_value"):
        return z(v._vc_value)
    return num(v)


def zi(v):
    """Lift to a z3 Int term, if it is one, else None."""
    if isinstance(v, Sym):
        return v.e if v.e.is_int() else None
    if isinstance(v, int):
        return z3.IntVal(int(v))
    return None


def zb(v):
    """Lift to a z3 Bool term."""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, Sym):
        return v.e != 0
    return z3.BoolVal(bool(v))


def wrap(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return int(f) if f.denominator == 1 else f
    return Sym(e)


def _nonnum(v):
    return not (isinstance(v, (int, float, Fraction, Sym)))


def _special_arith(op, a, b):
    """Arithmetic in which one operand is inf or nan and the other a (finite) symbolic number."""
    sp = a if is_special(a) else b
    if math.isnan(sp):
        return math.nan
    other = b if sp is a else a
    if op == "+":
        return sp
    if op == "-":
        return sp if sp is a else -sp
    if op == "*":
        if ctx().branch(z(other) > 0):
            return sp
        if ctx().branch(z(other) < 0):
            return -sp
        return math.nan
    if op == "/":
        if sp is b:
            return 0
        return sp if ctx().branch(z(other) > 0) else -sp
    raise TooHard("arithmetic with inf")


class Sym:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def is_int(self):
        return self.e.is_int()

    # -- arithmetic -------------------------------------------------------
    def _bin(self, other, op, swap=False):
        a, b = (other, self) if swap else (self, other)
        if isinstance(other, bool):
            other = int(other)
        if _nonnum(other):
            return NotImplemented
        if is_special(other):
            return _special_arith(op, a, b)
        if not isinstance(other, Sym):
            c = frac(other)
            if op == "*":
                if c == 0:
                    return 0
                if c == 1:
                    return self
            elif op == "+" and c == 0:
                return self
            elif op == "-" and c == 0 and not swap:
                return self
        ia, ib = zi(a), zi(b)
        if ia is not None and ib is not None:
            x, y = ia, ib
        else:
            x, y = z(a), z(b)
        if op == "+":
            return Sym(x + y)
        if op == "-":
            return Sym(x - y)
        return Sym(x * y)

    def __add__(self, o): return self._bin(o, "+")
    def __radd__(self, o): return self._bin(o, "+", True)
    def __sub__(self, o): return self._bin(o, "-")
    def __rsub__(self, o): return self._bin(o, "-", True)
    def __mul__(self, o): return self._bin(o, "*")
    def __rmul__(self, o): return self._bin(o, "*", True)

    def __truediv__(self, o):
        if _nonnum(o): return NotImplemented
        return ctx().divide(self, o)

    def __rtruediv__(self, o):
        if _nonnum(o): return NotImplemented
        return ctx().divide(o, self)

    def __floordiv__(self, o):
        if _nonnum(o): return NotImplemented
        return ctx().floordiv(self, o)

    def __rfloordiv__(self, o):
        if _nonnum(o): return NotImplemented
        return ctx().floordiv(o, self)

    def __mod__(self, o):
        if _nonnum(o): return NotImplemented
        return self - ctx().floordiv(self, o) * o

    def __rmod__(self, o):
        if _nonnum(o): return NotImplemented
        return o - ctx().floordiv(o, self) * self

    def __divmod__(self, o):
        q = ctx().floordiv(self, o)
        return q, self - q * o

    def __neg__(self): return Sym(-self.e)
    def __pos__(self): return self

    def __abs__(self):
        e = z3.simplify(self.e)
        c = ctx()
        r = c.canon(e)
        if r is None:
            return Sym(z3.If(e >= 0, e, -e))
        n, d = r
        if n and n[min(n)] < 0:
            n, e = {m: -q for m, q in n.items()}, -e
        key = ("abs", tuple(sorted(n.items())), tuple(sorted(d.items())))
        hit = c.memo_get(key)
        if hit is not None: return hit
        return c.memo_put(key, Sym(z3.If(e >= 0, e, -e)), [], [e])

    def __pow__(self, n, mod=None):
        return ctx().power(self, n)

    def __rpow__(self, b):
        raise TooHard("symbolic exponent")

    def __round__(self, nd=None):
        return ctx().rounded(self, nd)

    def __floor__(self): return ctx().floor(self)
    def __ceil__(self): return -ctx().floor(-self)
    def __trunc__(self):
        if ctx().branch(self.e >= 0): return ctx().floor(self)
        return -ctx().floor(-self)

    @property
    def real(self): return self
    @property
    def imag(self): return 0
    def conjugate(self): return self

    # -- comparison -------------------------------------------------------
    def _cmp(self, other, op):
        if _nonnum(other):
            if hasattr(other, "_vc_value"):
                other = other._vc_value
            else:
                return NotImplemented
        if is_special(other):
            if math.isnan(other): return op == "!="
            return {"<": other > 0, "<=": other > 0, ">": other < 0, ">=": other < 0, "==": False, "!=": True}[op]
        if other is self:
            return op in ("<=", ">=", "==")
        ia, ib = zi(self), zi(other)
        x, y = (ia, ib) if ia is not None and ib is not None else (z(self), z(other))
        e = {"<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y,
             "==": lambda: x == y, "!=": lambda: x != y}[op]()
        return SBool(e)

    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")
    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")

    def __hash__(self):
        # one hash for all, so that dictionary look-ups really compare (and fork)
        return 0x5EED

    def __bool__(self):
        return ctx().branch(self.e != 0)

    def __index__(self):
        return ctx().concrete_int(self)

    def __int__(self):
        return ctx().concrete_int(self.__trunc__())

    def __float__(self):
        raise TooHard("float() of a symbolic number")

    def is_integer(self):
        return SBool(z3.IsInt(z(self)))

    def as_integer_ratio(self):
        raise TooHard("as_integer_ratio")

    # -- text -------------------------------------------------------------
    def __str__(self): return ctx().token(self)
    def __format__(self, spec): return ctx().token(self)
    def __repr__(self): return ctx().token(self) if STATE.ctx is not None else f"Sym({self.e})"


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().branch(self.e)

    def __and__(self, o): return SBool(z3.And(self.e, zb(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(z3.Or(self.e, zb(o)))
    __ror__ = __or__
    def __invert__(self): return SBool(z3.Not(self.e))
    def __eq__(self, o): return SBool(self.e == zb(o))
    def __ne__(self, o): return SBool(self.e != zb(o))
    def __hash__(self): return 0x5EEE
    def __int__(self): return 1 if bool(self) else 0
    __index__ = __int__
    def __add__(self, o): return int(self) + o
    __radd__ = __add__
    def __repr__(self): return f"SBool({self.e})"


class Obligation:
    __slots__ = ("label", "path", "status", "backend", "secs", "detail", "model")

    def __init__(self, label, path, status, backend, secs, detail="", model=None):
        self.label, self.path, self.status, self.backend = label, path, status, backend
        self.secs, self.detail, self.model = secs, detail, model


class Sub:
    """A local exploration (see Ctx.merge)."""
    __slots__ = ("prefix", "decisions", "pending", "conds")

    def __init__(self, prefix):
        self.prefix, self.decisions, self.pending, self.conds = prefix, [], [], []


class Ctx:
    """One path: its decisions, its path condition, its proof obligations."""

    def __init__(self, prefix, explorer):
        self.prefix = prefix            # decisions to replay: list of bool/int
        self.decisions = []             # decisions taken on this path
        self.ex = explorer
        self.pc: list = []              # path condition (z3 Bools), including definitions
        self.pc_ids: dict = {}
        self.defs: dict = {}            # division results: name -> (num z3, den z3)
        self.rewrites: dict = {}        # name -> (power, z3 term it equals): name**power == term
        self.ring = solve.Ring(self.defs, self.rewrites, explorer.keep)
        self.counter = 0
        self.known: dict = {}           # condition id -> bool on this path
        self.keep: list = explorer.keep  # keeps z3 asts alive so that ids stay unique
        self.memo: dict = {}
        self.tokens: list = []
        self.inputs: dict = {}          # input name -> z3 const
        self.choices: dict = {}         # choice name -> index
        self.world = None
        self.obligations: list = []
        self.prec = 28                  # model of the decimal context precision
        self.opaque_roots = False       # of roots, only that they are not negative
        self.invariants: dict = {}      # (function, number of the while loop) -> Invariant
        self.any_length = False         # sequences of any length are around: list displays make lists that can be appended to by a loop over one
        self.recorders: list = []       # the loops over sequences of any length that are being run
        self.range_witnesses: list = []  # the numbers a range() of any length is looked at
        self.fault = None               # the decimal operation that fails
        self.ticks = 0
        self.looped: set = set()        # functions whose loops were run
        self.cuts: set = set()          # functions with a loop at which an invariant was used
        self.trig_keys: list = []
        self.acos_terms: list = []
        self.nofork = 0
        self.subs: list = []
        self.notes: set = set()
        self.quiet = False
        from .models import PI_FACTS
        for f in PI_FACTS: self.add(f)

    # -- fresh values, facts ------------------------------------------------
    def fresh(self, base, sort="real"):
        self.counter += 1
        name = f"{base}!{self.counter}"
        return z3.Int(name) if sort == "int" else z3.Bool(name) if sort == "bool" else z3.Real(name)

    def named(self, base, key, sort="real"):
        """A value determined by the key: the same name on every path (so that answers of the solvers can be shared)."""
        n = self.ex.names.setdefault((base, key), len(self.ex.names))
        name = f"{base}!k{n}"
        return z3.Int(name) if sort == "int" else z3.Bool(name) if sort == "bool" else z3.Real(name)

    def add(self, cond):
        if z3.is_true(cond):
            return
        i = cond.get_id()
        if i not in self.pc_ids:
            self.pc_ids[i] = len(self.pc)
            self.pc.append(cond)

    def mark(self):
        return len(self.pc),

    def rollback(self, mark):
        for c in self.pc[mark[0]:]:
            self.keep.append(c)
            self.pc_ids.pop(c.get_id(), None)
        del self.pc[mark[0]:]

    def memo_get(self, key):
        hit = self.memo.get(key)
        if hit is None: return None
        for f in hit[1]: self.add(f)
        return hit[0]

    def memo_put(self, key, value, facts, keep):
        self.keep.extend(keep)
        self.keep.extend(facts)
        self.memo[key] = (value, facts)
        for f in facts: self.add(f)
        return value

    def assume(self, cond):
        cond = zb(cond)
        s = z3.simplify(cond)
        if z3.is_true(s):
            return
        if z3.is_false(s):
            raise PathEnd()
        self.keep.append(s)
        self.known[s.get_id()] = True
        self.learn(s)
        self.add(cond)

    # -- canonical terms ------------------------------------------------------
    def canon(self, e):
        """(numerator, denominator) as polynomials in normal form, or None."""
        try:
            n, d = self.ring.conv(e)
            n, d = self.ring.red(n), self.ring.red(d)
        except (solve.Blowup, RecursionError):
            return None
        if not n: return {}, solve.ONE
        # cancel the common monomial
        def content(p):
            it = iter(p)
            g = dict(next(it))
            for m in it:
                dm = dict(m)
                g = {v: min(x, dm[v]) for v, x in g.items() if v in dm}
                if not g: break
            return g
        gn, gd = content(n), content(d)
        g = {v: min(x, gd[v]) for v, x in gn.items() if v in gd}
        if g:
            def cut(p):
                out = {}
                for m, c in p.items():
                    dm = dict(m)
                    for v, x in g.items():
                        dm[v] -= x
                        if not dm[v]: del dm[v]
                    out[tuple(sorted(dm.items()))] = c
                return out
            n, d = cut(n), cut(d)
        lead = d[min(d)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        return n, d

    def termkey(self, e):
        r = self.canon(e)
        if r is None:
            s = z3.simplify(e)
            self.keep.append(s)
            return ("id", s.get_id())
        return (tuple(sorted(r[0].items())), tuple(sorted(r[1].items())))

    def angle(self, x):
        """Decompose an angle: (canonical base, sign, k) with angle == sign*base + k*PI."""
        r = self.canon(z(x))
        if r is None:
            s = z3.simplify(z(x))
            self.keep.append(s)
            return ((((("#" + str(s.get_id()), 1),), Fraction(1)),), ()), 1, Fraction(0)
        n, d = r
        k = Fraction(0)
        if d == solve.ONE:
            m = (("PI", 1),)
            q = n.get(m, Fraction(0))
            if (q * 12).denominator == 1 and ((q * 4).denominator == 1 or (q * 6).denominator == 1):
                k = q
                n = {a: b for a, b in n.items() if a != m}
        sign = 1
        if n and n[min(n)] < 0:
            sign = -1
            n = {a: -b for a, b in n.items()}
        return (tuple(sorted(n.items())), tuple(sorted(d.items())) if d != solve.ONE else ()), sign, k

    # -- branching ----------------------------------------------------------
    def decide(self, s):
        """True/False if the simplified condition is decided by normalisation or by the path, else None."""
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        k = self.known.get(s.get_id())
        if k is not None: return k
        e, pos = s, True
        while z3.is_not(e): e, pos = e.arg(0), not pos
        kind = e.decl().kind()
        if kind in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(e.arg(0)):
            r = self.canon(e.arg(0) - e.arg(1))
            if r is not None and (not r[0] or (set(r[0]) == {()} and r[1] == solve.ONE)):
                c = r[0].get((), Fraction(0))
                v = {z3.Z3_OP_EQ: c == 0, z3.Z3_OP_LE: c <= 0, z3.Z3_OP_GE: c >= 0, z3.Z3_OP_LT: c < 0, z3.Z3_OP_GT: c > 0}[kind]
                return v == pos
            for key, mask in self._sign_facts(r, e, kind, pos):
                have = self.known.get(key, 7)
                if have != 7:
                    if have & ~mask == 0: return True
                    if have & mask == 0: return False
        return None

    def _sign_facts(self, r, e, kind, pos):
        out = []
        if r is not None: out.append(self._sign_fact(r, kind, pos))
        if r is None or r[1] != solve.ONE:          # quotients as names
            try:
                n, d = solve._RING0.conv(e.arg(0) - e.arg(1))
                if n and d == solve.ONE: out.append(self._sign_fact((n, d), kind, pos))
            except (solve.Blowup, RecursionError):
                pass
        return [(k, m) for k, m in out if k is not None]

    # what is known about the sign of a polynomial: a set of -, 0, + as bits 1, 2, 4
    _MASKS = {z3.Z3_OP_EQ: 2, z3.Z3_OP_LE: 3, z3.Z3_OP_GE: 6, z3.Z3_OP_LT: 1, z3.Z3_OP_GT: 4}

    def _sign_fact(self, r, kind, pos):
        n, d = r
        if d != solve.ONE: return None, 7
        mask = self._MASKS[kind] if pos else 7 & ~self._MASKS[kind]
        lead = n[min(n)]
        if lead < 0: mask = (mask & 2) | (mask & 1) << 2 | (mask & 4) >> 2
        return ("sgn", tuple(sorted((m, c / abs(lead) if lead > 0 else -c / abs(lead)) for m, c in n.items()))), mask

    def learn(self, s):
        """Records what a condition known to hold says about signs."""
        if z3.is_and(s):
            for x in s.children(): self.learn(x)
            return
        e, pos = s, True
        while z3.is_not(e): e, pos = e.arg(0), not pos
        if z3.is_app(e) and e.decl().kind() in self._MASKS and z3.is_arith(e.arg(0)):
            r = self.canon(e.arg(0) - e.arg(1))
            if r is not None and not r[0]: return
            for key, mask in self._sign_facts(r, e, e.decl().kind(), pos): self.known[key] = self.known.get(key, 7) & mask

    def hold(self, s):
        """s is known to be true."""
        if z3.is_and(s):
            for x in s.children(): self.hold(x)
            return
        neg = z3.simplify(z3.Not(s))
        self.keep += [s, neg]
        self.known[s.get_id()] = True
        self.known[neg.get_id()] = False
        self.learn(s)

    def known_value(self, cond):
        s = z3.simplify(cond)
        self.keep.append(s)
        return self.decide(s)

    def branch(self, cond) -> bool:
        s = z3.simplify(cond)
        k = self.decide(s)
        if k is not None: return k
        if z3.is_and(s) and all(self.decide(x) is True for x in s.children()): return True
        if self.quiet: raise TooHard("branch on a term outside verification")
        self.keep.append(s)
        neg = z3.simplify(z3.Not(s))
        self.keep.append(neg)
        if self.nofork:
            # speculative: only if the path decides it
            if not self.ex.feasible(self, neg): d = True
            elif not self.ex.feasible(self, s): d = False
            else:
                from .runtime import NoFork
                raise NoFork()
            return d
        if self.subs:
            sub = self.subs[-1]
            j = len(sub.decisions)
            if j < len(sub.prefix):
                d = sub.prefix[j]
                forced = d in (2, 3)
            else:
                t, f = self.ex.feasible(self, s), self.ex.feasible(self, neg)
                if not t and not f: raise PathEnd()
                forced = not (t and f)
                d = (3 if t else 2) if forced else 1
                if not forced:
                    sub.pending.append(sub.decisions + [0])
            sub.decisions.append(d)
            v = d in (1, 3)
            if not forced: sub.conds.append(s if v else neg)
            self.add(s if v else neg)
            self.known[s.get_id()] = v
            self.known[neg.get_id()] = not v
            self.learn(s if v else neg)
            return v
        j = len(self.decisions)
        if j < len(self.prefix):
            d = self.prefix[j]
        else:
            t = self.ex.feasible(self, s)
            f = self.ex.feasible(self, neg)
            if not t and not f:
                raise PathEnd()
            d = t
            if t and f:
                self.ex.push(self.decisions + [False])
        self.decisions.append(d)
        self.ex.count_decision()
        self.add(s if d else neg)
        self.known[s.get_id()] = d
        self.known[neg.get_id()] = not d
        self.learn(s if d else neg)
        return d

    def choose(self, n, what="") -> int:
        """Nondeterministic choice among n alternatives, all explored."""
        if self.subs or self.nofork:
            from .runtime import NoFork
            raise NoFork()
        j = len(self.decisions)
        if j < len(self.prefix):
            d = self.prefix[j]
        else:
            for i in range(n - 1, 0, -1):
                self.ex.push(self.decisions + [i])
            d = 0
        self.decisions.append(d)
        return d

    MERGE_LIMIT = 40

    def merge(self, thunk):
        """Evaluate a side-effect free computation, exploring its paths locally and merging the results."""
        from .runtime import NoFork, decisionlike, merge_values
        if self.nofork and not self.subs:
            pass
        mark, loops = self.mark(), len(self.recorders)
        nofork, self.nofork = self.nofork, 0
        known0 = dict(self.known)
        agenda, results, ok = [[]], [], True
        try:
            while agenda:
                sub = Sub(agenda.pop())
                self.subs.append(sub)
                local = self.mark()
                try:
                    v = thunk()
                except PathEnd:
                    v = PathEnd
                except NoFork:
                    ok = False
                except Exception:
                    if not sub.conds and not sub.pending and not results:
                        # no branching at all: the exception is the outcome
                        self.known = known0
                        raise
                    ok = False
                finally:
                    self.subs.pop()
                    del self.recorders[loops:]
                if not ok: break
                agenda.extend(sub.pending)
                if v is not PathEnd:
                    if not sub.conds and not agenda and not results:
                        return v                     # never branched: keep its facts
                    if not decisionlike(v) or len(results) + len(agenda) > self.MERGE_LIMIT:
                        ok = False
                        break
                    cond = z3.And(*sub.conds) if len(sub.conds) != 1 else sub.conds[0]
                    facts = [f for f in self.pc[local[0]:] if not any(f.eq(c) for c in sub.conds)]
                    results.append((cond, v, facts))
                self.rollback(local)
                self.known = dict(known0)
            if ok and results:
                m = merge_values([(c, v) for c, v, _ in results])
                if m is not None or all(v is None for _, v, _ in results):
                    for c, _, facts in results:
                        for f in facts: self.add(z3.Implies(c, f))
                    return m
                ok = False
            if ok:
                raise PathEnd()
            self.rollback(mark)
            self.known = known0
        finally:
            self.nofork = nofork
        return thunk()

    def concrete_int(self, s: Sym) -> int:
        """A concrete value for an integer term: explores every feasible value (must be few)."""
        if not isinstance(s, Sym):
            return int(s)
        e = s.e if s.e.is_int() else z3.ToInt(s.e)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for k in range(-2, 40):
            if self.branch(e == k):
                return k
        raise TooHard("unbounded symbolic integer used as a concrete one")

    # -- arithmetic helpers ---------------------------------------------------
    def divide(self, a, b):
        if hasattr(a, "_vc_value"): a = a._vc_value
        if hasattr(b, "_vc_value"): b = b._vc_value
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            if is_special(a) or is_special(b):
                return a / b
            fb = frac(b)
            if fb == 0:
                raise ZeroDivisionError("division by zero")
            r = frac(a) / fb
            return r
        if is_special(a) or is_special(b):
            return _special_arith("/", a, b)
        if not isinstance(b, Sym):
            fb = frac(b)
            if fb == 0:
                raise ZeroDivisionError("division by zero")
            return a * (1 / fb)
        if self.branch(z(b) == 0):
            raise ZeroDivisionError("division by zero")
        if not isinstance(a, Sym) and frac(a) == 0:
            return 0
        za, zbb = z3.simplify(z(a), som=False), z3.simplify(z(b), som=False)
        key = ("div", *self._ratio_key(za, zbb))
        r = self.memo_get(key)
        if r is None:
            q = self.named("q", key)
            self.defs[q.decl().name()] = (za, zbb)
            r = self.memo_put(key, Sym(q), [q * zbb == za], [za, zbb])
        return r

    def _ratio_key(self, a, b):
        """The same for a / b and k a / k b."""
        r = self.canon(b)
        if r is None or not r[0]: return self.termkey(a), self.termkey(b)
        lead = r[0][min(r[0])]
        if lead != 1: a, b = a * num(1 / lead), b * num(1 / lead)
        return self.termkey(a), self.termkey(b)

    def floor(self, a):
        if not isinstance(a, Sym):
            return math.floor(frac(a))
        if a.is_int:
            return a
        return Sym(z3.ToInt(a.e))

    def floordiv(self, a, b):
        ia, ib = zi(a), zi(b)
        if ia is not None and ib is not None:
            if self.branch(ib == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            key = ("fdiv", ia.get_id(), ib.get_id())
            hit = self.memo_get(key)
            if hit is not None: return hit
            self.keep.extend([ia, ib])
            q, r = self.named("fq", key, "int"), self.named("fr", key, "int")
            rng = z3.And(r >= 0, r < ib) if self.branch(ib > 0) else z3.And(r <= 0, r > ib)
            return self.memo_put(key, Sym(q), [ia == q * ib + r, rng], [ia, ib])
        return self.floor(self.divide(a, b))

    def power(self, a, n):
        if isinstance(n, Fraction) and n.denominator == 1: n = int(n)
        if isinstance(n, int) and not isinstance(n, bool):
            if not isinstance(a, Sym):
                return frac(a) ** n
            if n == 0: return 1
            if n < 0: return self.divide(1, self.power(a, -n))
            if n > 12: raise TooHard("large power")
            r = a
            for _ in range(n - 1): r = r * a
            return r
        if isinstance(n, (float, Fraction)) and frac(n) == Fraction(1, 2):
            return self.world.math.sqrt(a)
        if isinstance(n, Sym) and n.is_int:
            if not isinstance(a, Sym) and a == -1: return Sym(z3.If(n.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
            if not self.branch(n.e >= 0):
                if self.branch(z(a) == 0): raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return self.divide(1, self.power(a, -n))
            f = z3.Function("power", z3.RealSort(), z3.IntSort(), z3.RealSort())
            x, k = z(a), z3.simplify(n.e)
            self.add(z3.And(z3.Implies(k == 0, f(x, k) == 1), z3.Implies(k == 1, f(x, k) == x)))
            self.add(z3.Implies(k >= 1, f(x, k) == x * f(x, z3.simplify(k - 1))))
            return Sym(f(x, k))
        raise TooHard("power")

    def rounded(self, x, nd=None):
        if not isinstance(x, Sym):
            if nd is None:
                return round(frac(x))
            if is_special(x): return x
            return Fraction(round(frac(x), nd))
        if nd is None:
            r = self.fresh("rnd", "int")
            d = z3.ToReal(r) - z(x)
            self.add(z3.And(d <= num(0.5), d >= num(-0.5)))
            return Sym(r)
        nd = int(nd)
        if nd >= 12:
            self.notes.add("rounding to 12 or more decimals is treated as exact")
            return x       # idealised: rounding to 12 or more decimals is treated as exact (listed assumption)
        self.keep.append(x.e)
        key = ("round", x.e.get_id(), nd)
        hit = self.memo_get(key)
        if hit is not None: return hit
        r, k = self.named("rnd", key), self.named("rndk", key, "int")
        h = num(Fraction(1, 2 * 10 ** nd))
        return self.memo_put(key, Sym(r), [z3.And(r - z(x) <= h, z(x) - r <= h), r * num(10 ** nd) == z3.ToReal(k)], [x.e])

    # -- text tokens ------------------------------------------------------------
    def token(self, s):
        for i, t in enumerate(self.tokens):
            if t is s or (isinstance(t, Sym) and isinstance(s, Sym) and t.e.eq(s.e)):
                return f"\ue000{i}\ue001"
        self.tokens.append(s)
        return f"\ue000{len(self.tokens) - 1}\ue001"

    def untoken(self, text):
        """The term a token stands for, if the text is exactly one token."""
        t = text.strip()
        if t.startswith("\ue000") and t.endswith("\ue001") and t.count("\ue000") == 1:
            return self.tokens[int(t[1:-1])]
        return None

    # -- loops ---------------------------------------------------------------------
    def tick(self, where=None):
        self.ticks += 1
        self.looped.add(where)
        if self.ticks > self.ex.max_ticks:
            raise TooHard("loop bound exceeded")

    def astray(self):
        """The functions whose loops are others than the one that the contract has an invariant for."""
        return sorted({f for f, _ in self.invariants} & self.looped - self.cuts)

    # -- proving ----------------------------------------------------------------
    def prove(self, label, cond, using=None, then_assume=False):
        goal = zb(cond)
        t0 = time.time()
        hyps = self.pc if using is None else list(using)
        res = self.ex.discharge(self, label, hyps, goal)
        ob = Obligation(label, len(self.ex.paths), res.status, res.backend, time.time() - t0, res.detail)
        if res.status != "proved":
            ob.model = self.ex.input_model(self, res.model)
        self.obligations.append(ob)
        if then_assume and res.status == "proved":
            self.add(goal)
            self.hold(z3.simplify(goal))
        return res.status == "proved"
