"""What the instrumented code calls: exact arithmetic, logical terms, merging, and models of the library."""
from __future__ import annotations

import builtins
import functools
import math
import operator
import types
from fractions import Fraction

import z3

from . import sym
from .sym import Control, PathEnd, SBool, STATE, Sym, TooHard, ctx, frac, is_num, is_special, num, wrap, z, zb, zi
from .solve import Ring, Blowup, ONE


class NoFork(Control):
    """A speculative evaluation would have to branch or to have an effect."""


_LITS: dict = {}


def scalar(v):
    return isinstance(v, (Sym, SBool, int, float, Fraction, bool))


def merge_values(pairs):
    """pairs: (z3 condition, value), exhaustive.  The value as one term, or None if there is no such term."""
    vals = [v for _, v in pairs]
    first = vals[0]
    if all(v is first for v in vals): return first
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        out = []
        for j in range(len(first)):
            m = merge_values([(c, v[j]) for c, v in pairs])
            if m is None: return None
            out.append(m)
        return tuple(out)
    if all(isinstance(v, (bool, SBool)) for v in vals):
        e = zb(vals[-1])
        for c, v in reversed(pairs[:-1]): e = z3.If(c, zb(v), e)
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        return SBool(e)
    if all(isinstance(v, (Sym, int, Fraction, float)) and not isinstance(v, bool) and not is_special(v) for v in vals):
        ints = [zi(v) for v in vals]
        zs = ints if all(i is not None for i in ints) else [z(v) for v in vals]
        e = zs[-1]
        for (c, _), v in reversed(list(zip(pairs, zs))[:-1]): e = z3.If(c, v, e)
        return wrap(z3.simplify(e)) if z3.is_rational_value(z3.simplify(e)) else Sym(e)
    return None


def decisionlike(v):
    """Worth merging: truth values and concrete numbers (terms would hide algebraic structure from the provers)."""
    if isinstance(v, tuple): return all(decisionlike(x) for x in v)
    return isinstance(v, (bool, SBool, int)) or (isinstance(v, Fraction))


class Hooks:
    def __init__(self):
        self.builtins = make_builtins(self)

    # -- numbers ---------------------------------------------------------------------
    def lit(self, s):
        v = _LITS.get(s)
        if v is None:
            v = _LITS[s] = float(s) if s in ("inf", "nan", "-inf") else Fraction(s)
        return v

    def div(self, a, b):
        if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
            if b == 0: raise ZeroDivisionError("division by zero")
            return Fraction(a) / Fraction(b)
        if isinstance(a, (Sym, int, float, Fraction)) and isinstance(b, (Sym, int, float, Fraction)):
            return ctx().divide(a, b)
        return operator.truediv(a, b)

    def pow(self, a, b):
        if isinstance(b, Sym) and b.is_int:
            if isinstance(a, Sym) or isinstance(a, (int, Fraction)) and a == -1: return ctx().power(a, b)
            b = ctx().concrete_int(b)
        if isinstance(a, (Sym, int, float, Fraction)) and isinstance(b, (int, float, Fraction)) and not is_special(a):
            return ctx().power(a, b)
        return operator.pow(a, b)

    def getitem(self, seq, i):
        """seq[i]; for an integer term i one term, if the elements have one, instead of a fork per index."""
        if type(i) is not Sym or type(seq) not in (list, tuple) or not i.is_int or not seq: return seq[i]
        c = STATE.ctx
        e = z3.simplify(i.e)
        if z3.is_int_value(e): return seq[e.as_long()]
        n = len(seq)
        out = merge_values([(e == k, v) for k, v in enumerate(seq)])
        if out is None or c.known_value(z3.And(e >= 0, e < n)) is not True and not c.branch(z3.And(e >= 0, e < n)): return seq[i]
        return out

    def cut(self, where, k, order, it=None):
        """The cut point of a contract's invariant for the k-th while (or for) loop of the function, if it has one."""
        c = STATE.ctx
        inv = c.invariants.get((where, k)) if c is not None else None
        if inv is None and c is not None and isinstance(k, tuple): inv = c.invariants.get((where, k[0]))
        if inv is not None:
            c.cuts.add(where)
            return inv.enter(order)
        if not isinstance(it, Seq): return None
        if it.has_exit: raise TooHard("a loop over a sequence of any length may be left early, and has no invariant")
        return WitnessLoop()

    def tick(self, where):
        STATE.ctx.tick(where)

    # -- truth ---------------------------------------------------------------------------
    def not_(self, v):
        if isinstance(v, SBool): return SBool(z3.Not(v.e))
        return not v

    def cmp(self, op, a, b):
        if op == "==": return eq_values(a, b, lambda: a == b)
        r = eq_values(a, b, lambda: NotImplemented)
        if r is NotImplemented: return a != b
        return self.not_(r)

    def contains(self, x, seq):
        h = getattr(seq, "_vc_contains", None)
        if h is not None: return h(x)
        if isinstance(seq, (list, tuple)):
            r = False
            ok = all(scalar(i) and not is_special(i) for i in seq) and scalar(x)
            if not ok: return x in seq
            for i in seq:
                r = self._or2(r, x == i)
                if r is True: return True
            return r
        return x in seq

    @staticmethod
    def _or2(a, b):
        if a is True or b is True: return True
        if a is False: return b
        if b is False: return a
        return SBool(z3.Or(zb(a), zb(b)))

    def _speculate(self, thunk):
        """The value of thunk if it can be had without branching and without effects, else NoFork."""
        c = STATE.ctx
        c.nofork += 1
        mark, loops = c.mark(), len(c.recorders)
        try:
            return thunk()
        except NoFork:
            c.rollback(mark)
            raise
        except Exception:
            c.rollback(mark)
            raise NoFork()
        finally:
            c.nofork -= 1
            del c.recorders[loops:]

    def and_(self, *thunks):
        v = thunks[0]()
        for i in range(1, len(thunks)):
            if isinstance(v, SBool):
                k = STATE.ctx.known_value(v.e)
                if k is False: return v
                if k is None:
                    try:
                        w = self._speculate(thunks[i])
                        if not isinstance(w, (SBool, bool)): raise NoFork()
                        v = SBool(z3.And(v.e, zb(w))) if w is not True else v
                        if w is False: v = False
                        continue
                    except NoFork:
                        if STATE.ctx.nofork: raise
                        if not v: return v
                v = thunks[i]()
            else:
                if not v: return v
                v = thunks[i]()
        return v

    def or_(self, *thunks):
        v = thunks[0]()
        for i in range(1, len(thunks)):
            if isinstance(v, SBool):
                k = STATE.ctx.known_value(v.e)
                if k is True: return v
                if k is None:
                    try:
                        w = self._speculate(thunks[i])
                        if not isinstance(w, (SBool, bool)): raise NoFork()
                        v = SBool(z3.Or(v.e, zb(w))) if w is not False else v
                        if w is True: v = True
                        continue
                    except NoFork:
                        if STATE.ctx.nofork: raise
                        if v: return v
                v = thunks[i]()
            else:
                if v: return v
                v = thunks[i]()
        return v

    _OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}

    def _op(self, op, a, b):
        return self.cmp(op, a, b) if op in ("==", "!=") else self._OPS[op](a, b)

    def chain(self, a, *rest):
        cur = a
        out = True
        for i in range(0, len(rest), 2):
            op, th = rest[i], rest[i + 1]
            if isinstance(out, SBool):
                try:
                    b = self._speculate(th)
                    r = self._op(op, cur, b)
                    if not isinstance(r, (SBool, bool)): raise NoFork()
                    out = self._and2(out, r)
                    cur = b
                    continue
                except NoFork:
                    if STATE.ctx.nofork: raise
                    if not out: return False
                    out = True
            elif not out:
                return out
            b = th()
            out = self._op(op, cur, b)
            cur = b
        return out

    @staticmethod
    def _and2(a, b):
        if a is False or b is False: return False
        if a is True: return b
        if b is True: return a
        return SBool(z3.And(zb(a), zb(b)))

    def ifexp(self, c, a, b):
        if isinstance(c, SBool) and STATE.ctx.known_value(c.e) is None:
            r = self._try_merge(c, a, b)
            if r is not None: return r
        return a() if c else b()

    @staticmethod
    def field(obj, name):
        """The value of a plain attribute, for a conditional assignment to it."""
        d = getattr(obj, "__dict__", None)
        if not isinstance(d, dict) or name not in d or hasattr(type(obj), "__setattr__") and type(obj).__setattr__ is not object.__setattr__ \
                or hasattr(getattr(type(obj), name, None), "__set__"):
            raise NoFork()
        return d[name]

    def try_ite(self, c, a, b):
        if not isinstance(c, SBool) or STATE.ctx.known_value(c.e) is not None: return None
        return self._try_merge(c, a, b)

    def _try_merge(self, c, a, b):
        st = STATE.ctx
        mark = st.mark()
        try:
            x, y = self._speculate(a), self._speculate(b)
        except NoFork:
            return None
        if len(st.pc) != mark[0]:
            st.rollback(mark)
            return None
        if x is None or y is None: return None
        return merge_values([(c.e, x), (z3.Not(c.e), y)])

    # -- merging ----------------------------------------------------------------------------
    def merge(self, thunk):
        return STATE.ctx.merge(thunk)

    def pure(self, fn):
        @functools.wraps(fn)
        def merged(*a, **k):
            c = STATE.ctx
            if c is None or any(isinstance(x, (Seq, VList)) for x in a): return fn(*a, **k)
            return c.merge(lambda: fn(*a, **k))
        return merged

    def impure(self, fn):
        @functools.wraps(fn)
        def checked(*a, **k):
            c = STATE.ctx
            if c is not None and (c.nofork or c.subs): raise NoFork()
            return fn(*a, **k)
        return checked

    # -- sequences (plain unless a symbolic length is involved) --------------------------------
    def loop(self, it, names, has_break):
        h = getattr(it, "_vc_loop", None)
        if h is not None: return h(names, has_break)
        return PlainLoop(it)

    def mklist(self, l):
        c = STATE.ctx
        return VList([l]) if c is not None and c.any_length else l

    def star(self, v):
        return v if hasattr(v, "_vc_loop") else list(v)

    def join(self, *parts):
        out = None
        if any(isinstance(p, (Seq, VList)) for p in parts): return VList([q for p in parts for q in (p._copy() if isinstance(p, VList) else [p])])
        for p in parts:
            out = p if out is None else out + p
        return self.mklist(out if out is not None else [])

    def strjoin(self, sep, v):
        """sep.join(v)"""
        if type(sep) is str and isinstance(v, (VList, Seq)):
            parts = v._copy() if isinstance(v, VList) else [v]
            if any(isinstance(p, Texts) for p in parts):
                if sep: raise TooHard("a separator between texts of any number")
                return "".join(p.text if isinstance(p, Texts) else "".join(p) for p in parts)
        return sep.join(v)

    def starargs(self, v):
        h = getattr(v, "_vc_starargs", None)
        return h() if h is not None else v

    def varargs(self, t):
        if len(t) and isinstance(t[-1], StarMark):
            if len(t) == 1: return t[0].seq
            return t[-1].seq._vc_prepend(t[:-1])
        if any(isinstance(x, StarMark) for x in t): raise TooHard("symbolic starred arguments")
        return t

    def it(self, v):
        if isinstance(v, VList) and v.plain() is not None: return v.plain()
        if hasattr(v, "_vc_loop"): raise TooHard("nested comprehension over a symbolic sequence")
        return v

    def listcomp(self, it, fn, *conds):
        h = getattr(it, "_vc_comp", None)
        if h is not None:
            out = h(fn, conds)
            return out if isinstance(out, VList) else VList([out])
        return self.mklist(list(self._gen(it, fn, conds)))

    def countcomp(self, it, fn, *conds):
        return self.sumcomp(it, lambda x: (fn(x), 1)[1], *conds) if not hasattr(it, "_vc_comp") else self.world_len(self.listcomp(it, fn, *conds))

    @staticmethod
    def world_len(l):
        return l._vc_len() if hasattr(l, "_vc_len") else len(l)

    def sumcomp(self, it, fn, *conds):
        if hasattr(it, "_vc_comp"): return it._vc_comp(fn, conds)._vc_fold("sum", 0)
        total = 0
        for x in it:
            c = True
            for cond in conds:
                c = self._and2(c, self._truth(cond(x)) if c is not True else self._truth(cond(x)))
                if c is False: break
            if c is False: continue
            if c is True:
                total = total + fn(x)
                continue
            k = STATE.ctx.known_value(c.e)
            if k is False: continue
            v = fn(x)
            if k is True or not scalar(v) or is_special(v):
                total = total + v if (k is True or c) else total
                continue
            iv = zi(v)
            total = total + (Sym(z3.If(c.e, iv, z3.IntVal(0))) if iv is not None else Sym(z3.If(c.e, z(v), num(0))))
        return total

    @staticmethod
    def _truth(v):
        return v if isinstance(v, (SBool, bool)) else bool(v)

    def genexp(self, it, fn, *conds):
        h = getattr(it, "_vc_comp", None)
        if h is not None: return h(fn, conds)
        return self._gen(it, fn, conds)

    @staticmethod
    def _gen(it, fn, conds):
        for x in it:
            ok = True
            for c in conds:
                if not c(x):
                    ok = False
                    break
            if ok: yield fn(x)


class Invariant:
    """A contract's invariant for a while loop.  names: the function's local names in order of appearance, as the contract calls them.
    fn(vc, state, entry, what): what = "established" or "preserved": prove the invariant of the state (a dict of values);
    "havoc": return values, arbitrary ones that satisfy the invariant, for what the loop changes.  entry: the state at the first arrival."""

    def __init__(self, vc, label, names, fn):
        self.vc, self.label, self.names, self.fn = vc, label, tuple(names), fn

    def enter(self, order):
        return LoopCut(self, order)


class Decline(Exception):
    """Raised by an invariant for any loop of a function ("for"): this is not the loop it is about, which runs as it is."""


class LoopCut:
    passive = False

    def __init__(self, inv, order):
        self.inv, self.entry = inv, None
        # by name; the names the function does not have, by order of appearance
        names = [n for n in inv.names if "." not in n]
        new, left = [n for n in order if n not in names], [n for n in names if n not in order]
        self.real = {n: n for n in names if n in order}
        if len(order) == len(names): self.real.update(zip(left, new))
        if len(self.real) != len(names): raise TooHard(f"the invariant of {inv.label} does not fit the changed loop")

    items = None

    def attributes(self, values):
        """What the contract calls object.attribute: lists that the loop changes in place, and other values."""
        out = {}
        for n in self.inv.names:
            if "." in n:
                o, a = n.split(".")
                at = dict(present(values.get(o)))
                if a not in at: raise TooHard(f"no {n}")
                out[n] = at[a]
        return out

    def over(self, it):
        """A for loop over a list."""
        if not isinstance(it, (Seq, list, tuple)): it = iter(it)
        self.items, self.at = it if isinstance(it, Seq) else it.seq if isinstance(it, Walk) else list(it), 0

    @property
    def ended(self):
        if isinstance(self.items, Seq): return bool(self.items.n <= self.at)
        return self.at == len(self.items)

    def next(self):
        self.at = self.at + 1
        return self.items.get(self.at - 1) if isinstance(self.items, Seq) else self.items[self.at - 1]

    def head(self, values, assigned):
        if self.passive: return {}
        inv, first = self.inv, self.entry is None
        lists = self.attributes(values)
        state = {**{n: values[r] for n, r in self.real.items() if r in values}, **lists}
        if self.items is not None: state["#"], state["items"] = self.at, self.items
        if first: self.entry = {k: list(v) if isinstance(v, list) else v for k, v in state.items()}
        try:
            inv.fn(inv.vc, dict(state), self.entry, "established" if first else "preserved")
        except Decline:
            self.passive = True
            return {}
        except (AttributeError, KeyError, TypeError) as e:
            raise TooHard(f"the invariant of {inv.label} does not fit the changed loop ({type(e).__name__}: {e})")
        if not first:
            # what the invariant's arbitrary state took over unchanged must be unchanged
            for r, s in self.frame.items():
                if not same_shape(values.get(r), s): raise TooHard(f"the loop changes {r}, which {inv.label}'s invariant does not know")
            raise PathEnd()
        if isinstance(self.items, Seq):
            if ctx().choose(2):
                self.at = self.items.n            # the end
            else:
                e = ctx().fresh("iteration", "int")
                ctx().assume(z3.And(e >= 0, e < zi(self.items.n)))
                self.at = Sym(e)
            state["#"] = self.at
        elif self.items is not None: self.at = state["#"] = ctx().choose(len(self.items) + 1)
        havoc = inv.fn(inv.vc, dict(state), self.entry, "havoc")
        skip = set()
        for n, l in lists.items():
            o, a = n.split(".")
            v = havoc.pop(n)
            if isinstance(l, VList) and isinstance(v, VList):
                l.parts = v.parts
                skip.add(id(l))
            else:
                setattr(values[o], a, v)
                skip.add((id(values[o]), a))
        new = {self.real[n]: v for n, v in havoc.items()}
        for r in list(new):
            if r not in assigned and isinstance(values.get(r), VList) and isinstance(new[r], VList):
                values[r].parts, new[r] = new[r].parts, values[r]       # a list the loop changes in place
            elif r not in assigned and type(values.get(r)) is list and type(new[r]) is list:
                values[r][:], new[r] = new[r], values[r]
        for r in assigned:
            if r not in new: new[r] = Poison(r)
        self.frame = {r: shape(v, skip=skip) for r, v in values.items() if r not in new and not r.startswith("__vc_")}
        return new


def shape(v, deep=2, skip=()):
    """Enough of a value to notice that it was changed in place."""
    if id(v) in skip: return (id(v), None, v)
    if isinstance(v, VList): return (id(v), [(id(p), p) if isinstance(p, Seq) else [shape(x, deep, skip) for x in p] for p in v.parts], v)
    if isinstance(v, (list, tuple)): return (id(v), [shape(x, deep, skip) for x in v], v)
    if isinstance(v, dict): return (id(v), [(k, shape(x, deep, skip)) for k, x in v.items()], v)
    if deep and type(v).__module__.startswith("PathLib"):
        return (id(v), [(k, ANY if (id(v), k) in skip else shape(x, deep - 1, skip)) for k, x in present(v)], v)
    return (id(v), None, v)


ANY = ("any",)


def same_shape(v, s):
    if s is ANY: return True
    if id(v) != s[0]: return False
    if s[1] is None: return True
    if isinstance(v, VList):
        return len(v.parts) == len(s[1]) and all(p is t[1] if isinstance(p, Seq) else isinstance(t, list) and len(p) == len(t) and all(same_shape(x, y) for x, y in zip(p, t))
                                                 for p, t in zip(v.parts, s[1]))
    if isinstance(v, (list, tuple)): return len(v) == len(s[1]) and all(same_shape(x, y) for x, y in zip(v, s[1]))
    if isinstance(v, dict): return list(v) == [k for k, _ in s[1]] and all(same_shape(v[k], y) for k, y in s[1])
    now = dict(present(v))
    return sorted(now) == [k for k, _ in s[1]] and all(same_shape(now[k], y) for k, y in s[1])


def present(obj):
    """The attributes an object has right now (without computing any)."""
    out = dict(getattr(obj, "__dict__", {}))
    for k in type(obj).__mro__:
        slots = k.__dict__.get("__slots__", ())
        for n in (slots,) if isinstance(slots, str) else slots:
            try: out[n] = k.__dict__[n].__get__(obj)
            except (AttributeError, KeyError): pass
    return sorted(out.items())


class Poison:
    """A variable the loop assigns and the invariant says nothing about: it must be assigned before it is used."""

    def __init__(self, name): object.__setattr__(self, "_name", name)
    def _use(self, *a, **k): raise TooHard(f"{object.__getattribute__(self, '_name')} is used across iterations, which the invariant does not know")
    __getattr__ = __setattr__ = __call__ = __iter__ = __len__ = __bool__ = __getitem__ = __setitem__ = __contains__ = _use
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __neg__ = __abs__ = _use
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __float__ = __int__ = __index__ = __str__ = __repr__ = __format__ = _use
    __hash__ = None


from .seq import Seq, Texts, VList, Walk, WitnessLoop  # noqa: E402


class PlainLoop:
    symbolic = False
    __slots__ = ("it",)

    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)


class StarMark:
    def __init__(self, seq): self.seq = seq


def eq_values(a, b, default):
    """a == b as one term for tuples/lists of scalars (Python would branch on the first component)."""
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        if len(a) != len(b): return False
        if not all(scalar(x) or isinstance(x, (tuple, list)) for x in a) or not all(scalar(x) or isinstance(x, (tuple, list)) for x in b):
            return default()
        out = True
        for x, y in zip(a, b):
            r = eq_values(x, y, lambda: x == y)
            out = Hooks._and2(out, r)
            if out is False: return False
        return out
    if scalar(a) and scalar(b): return a == b
    return default()


# -------------------------------------------------------------------------------------------------------------
# builtins

class _TypeShim:
    """A stand-in for a builtin type that still works in annotations and isinstance()."""

    def __init__(self, real, call):
        self._real, self._call = real, call

    def __call__(self, *a, **k): return self._call(*a, **k)
    def __getitem__(self, i): return self._real[i]
    def __or__(self, o): return self._real | (o._real if isinstance(o, _TypeShim) else o)
    def __ror__(self, o): return o | self._real
    def __getattr__(self, n): return getattr(self._real, n)
    def __instancecheck__(self, v): return isinstance(v, self._real)
    def __eq__(self, o): return (o._real if isinstance(o, _TypeShim) else o) is self._real
    def __hash__(self): return hash(self._real)
    def __repr__(self): return repr(self._real)


def real_type(t):
    if isinstance(t, _TypeShim): return t._real
    if isinstance(t, tuple): return tuple(real_type(x) for x in t)
    return t


def sort_terms(l):
    """sorted() of numbers: known comparisons are used; otherwise its contract, an ordered permutation, without forking."""
    c = STATE.ctx
    if c is None or len(l) < 2 or not any(isinstance(x, Sym) for x in l): return None
    if not all(isinstance(x, (Sym, int, float, Fraction)) and not isinstance(x, bool) and not is_special(x) for x in l): return None
    out = []
    for x in l:
        at = None
        for i, y in enumerate(out):
            k = c.known_value(z(x) < z(y))
            if k is None: break
            if k:
                at = i
                break
        else:
            at = len(out)
        if at is None: break
        out.insert(at, x)
    else:
        return out
    if len(l) == 2:
        a, b = z(l[0]), z(l[1])
        return [Sym(z3.If(a <= b, a, b)), Sym(z3.If(a <= b, b, a))]
    key = ("sorted", tuple(c.termkey(z(x)) for x in l))
    hit = c.memo_get(key)
    if hit is not None: return list(hit)
    n = len(l)
    o = [c.named("srt", key + (i,)) for i in range(n)]
    zs = [z(x) for x in l]
    facts = [o[i] <= o[i + 1] for i in range(n - 1)]
    for v in o: facts.append(z3.Or([v == x for x in zs]))
    for x in zs: facts.append(z3.Or([v == x for v in o]))
    for x in zs:
        facts.append(z3.Sum([z3.If(v == x, 1, 0) for v in o]) == z3.Sum([z3.If(y == x, 1, 0) for y in zs]))
    return list(c.memo_put(key, [Sym(v) for v in o], facts, zs))


def make_builtins(hooks):
    import numbers

    def b_abs(x):
        return abs(x)

    def pick(name, op, args, kw):
        if kw or not args or (len(args) == 1 and hasattr(args[0], "_vc_fold")):
            if len(args) == 1 and hasattr(args[0], "_vc_fold"): return args[0]._vc_fold(name)
            if "key" not in kw: args = list(args[0]) if len(args) == 1 else list(args)
            real = builtins.min if name == "min" else builtins.max
            if "key" in kw or not args: return real(*([args] if isinstance(args, list) else args), **kw)
            kw.pop("default", None)
            return pick(name, op, args, kw)
        if len(args) == 1: args = list(args[0])
        if not args: raise ValueError(f"{name}() arg is an empty sequence")
        if not any(isinstance(a, Sym) for a in args):
            return (builtins.min if name == "min" else builtins.max)(args)
        best = args[0]
        for a in args[1:]:
            if is_special(a) or is_special(best):
                best = a if bool(a < best if name == "min" else a > best) else best
                continue
            c = (a < best) if name == "min" else (a > best)
            if not isinstance(c, SBool):
                best = a if c else best
                continue
            k = STATE.ctx.known_value(c.e)
            if k is None and STATE.ctx.known_value(z(a) <= z(best) if name == "min" else z(a) >= z(best)) is True: k = True
            if k is not None:
                best = a if k else best
            else:
                ia, ib = zi(a), zi(best)
                x, y = (ia, ib) if ia is not None and ib is not None else (z(a), z(best))
                best = Sym(z3.If(c.e, x, y))
        return best

    def b_min(*a, **k): return pick("min", None, a, k)
    def b_max(*a, **k): return pick("max", None, a, k)

    def b_len(x):
        h = getattr(x, "_vc_len", None)
        return h() if h is not None else builtins.len(x)

    def b_range(*a):
        a = [x._vc_len() if isinstance(x, Seq) else x for x in a]
        if any(isinstance(x, Sym) for x in a):
            if STATE.ctx.any_length and len(a) <= 2:
                lo, hi = (0, a[0]) if len(a) == 1 else a
                n = hi - lo
                return Seq(n if STATE.ctx.branch(zi(n) >= 0) else 0, lambda i: lo + i, [z3.simplify(w - zi(lo)) for w in STATE.ctx.range_witnesses])
            a = [STATE.ctx.concrete_int(x) if isinstance(x, Sym) else x for x in a]
        a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
        return builtins.range(*a)

    def b_sum(it, start=0):
        h = getattr(it, "_vc_fold", None)
        if h is not None: return h("sum", start)
        return builtins.sum(it, start)

    def b_any(it):
        out = False
        if isinstance(it, VList) and it.plain() is None: it = it.seq()
        if isinstance(it, Seq): return it._quantified(False)
        for v in it:
            if not isinstance(v, (SBool, bool)): v = bool(v)
            out = Hooks._or2(out, v)
            if out is True: return True
        return out

    def b_all(it):
        out = True
        if isinstance(it, VList) and it.plain() is None: it = it.seq()
        if isinstance(it, Seq): return it._quantified(True)
        for v in it:
            if not isinstance(v, (SBool, bool)): v = bool(v)
            out = Hooks._and2(out, v)
            if out is False: return False
        return out

    def b_float(x=0):
        if isinstance(x, Sym): return x if not x.is_int else Sym(z(x))
        if hasattr(x, "_vc_value"): return b_float(x._vc_value)
        if isinstance(x, (int, Fraction)): return Fraction(x)
        if isinstance(x, str):
            tok = STATE.ctx.untoken(x)
            if tok is not None: return tok
        return builtins.float(x)

    def b_int(*a, **k):
        x = a[0] if a else 0
        if isinstance(x, Sym):
            return x.__trunc__() if not x.is_int else x
        return builtins.int(*a, **k)

    def b_round(x, nd=None):
        if hasattr(x, "_vc_value"): raise TooHard("round of Decimal")
        return ctx().rounded(x, nd) if isinstance(x, (Sym, Fraction)) else builtins.round(x, nd)

    def b_isinstance(x, t):
        t = real_type(t)
        if isinstance(x, Sym):
            ts = t if isinstance(t, tuple) else (t,)
            want = (int, object, numbers.Number, numbers.Real, numbers.Complex, numbers.Integral, numbers.Rational) if x.is_int else \
                (float, object, numbers.Number, numbers.Real, numbers.Complex)
            return builtins.any(y in want for y in ts)
        if isinstance(x, SBool):
            ts = t if isinstance(t, tuple) else (t,)
            return builtins.any(y in (bool, int, object) for y in ts)
        if isinstance(x, Fraction):
            ts = t if isinstance(t, tuple) else (t,)
            return builtins.any(y in (float, object, numbers.Number, numbers.Real, numbers.Complex) for y in ts)
        h = getattr(x, "_vc_isinstance", None)
        if h is not None: return h(t)
        return builtins.isinstance(x, t)

    def b_type(*a):
        if len(a) == 1:
            if isinstance(a[0], Sym): return int if a[0].is_int else float
            if isinstance(a[0], Fraction): return float
            h = getattr(a[0], "_vc_type", None)
            if h is not None: return h
        return builtins.type(*a)

    def seqop(name, real):
        def f(*a, **k):
            for x in a:
                h = getattr(x, "_vc_" + name, None)
                if h is not None: return h() if name in ("list", "tuple", "reversed", "iter") else h(*a, **k)
            return real(*a, **k)
        return f

    def b_sorted(it, **k):
        h = getattr(it, "_vc_sorted", None)
        if h is not None: return h(**k)
        l = builtins.list(it)
        r = sort_terms(l) if not k else None
        return r if r is not None else builtins.sorted(l, **k)

    def b_divmod(a, b):
        return (a // b, a % b)

    out = dict(abs=b_abs, min=b_min, max=b_max, len=b_len, range=b_range, sum=b_sum, any=b_any, all=b_all,
               round=b_round, isinstance=b_isinstance, sorted=b_sorted, divmod=b_divmod,
               float=_TypeShim(float, b_float), int=_TypeShim(int, b_int),
               list=_TypeShim(list, seqop("list", list)), tuple=_TypeShim(tuple, seqop("tuple", tuple)),
               map=seqop("map", map), filter=seqop("filter", filter), zip=seqop("zip", zip),
               enumerate=seqop("enumerate", enumerate), reversed=seqop("reversed", reversed), iter=seqop("iter", iter),
               pow=lambda a, b, *m: hooks.pow(a, b) if not m else builtins.pow(a, b, *m))
    return out
