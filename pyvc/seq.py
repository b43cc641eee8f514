"""Sequences of any length.

`Seq` is a sequence of n elements (n a term) whose element at an index is a term, a tuple of terms or another sequence.
The rule for a for loop over one, unless a contract gives an invariant: the body is run for the indices the contract looks at
(its witnesses: arbitrary, so that what holds there holds everywhere) or, where there is none, for an arbitrary index; the
iterations in between are left out, which is sound because an iteration may depend on nothing that another one does (what the
loop assigns is unreadable at the head and after the loop) and may have no effect beyond appending the same number of
elements to lists (`VList`), whose elements appended by the other iterations stay unknown.
"""
from __future__ import annotations

import z3

from .sym import STATE, PathEnd, SBool, Sym, TooHard, wrap, z, zb, zi


def ctx(): return STATE.ctx


def index(i):
    """An index as a simplified integer term."""
    e = i if isinstance(i, z3.ExprRef) else zi(i)
    if e is None: raise TooHard("an index that is not an integer term")
    e = z3.simplify(e)
    ctx().keep.append(e)
    return e


def value_of(e):
    return e.as_long() if z3.is_int_value(e) else Sym(e)


def concrete(n):
    """A length as a number, or None."""
    if isinstance(n, int): return n
    e = z3.simplify(n.e)
    return e.as_long() if z3.is_int_value(e) else None


def holds(c):
    """The truth value of a condition on this path (both are explored)."""
    return c if isinstance(c, bool) else ctx().branch(zb(c))


class Walk:
    """An iterator over a sequence of any length: only a loop with an invariant can use it."""
    def __init__(self, seq): self.seq = seq
    def __iter__(self): return self
    def __next__(self): raise TooHard("iterating over a sequence of any length")


class Seq:
    symbolic = True

    def __init__(self, n, at, witnesses=(), kind=list):
        self.n, self.at, self.kind, self.cache = n, at, kind, {}
        self.witnesses = [index(w) for w in witnesses]

    # -- elements ------------------------------------------------------------------
    def get(self, i):
        """The element at an index that is in range."""
        e = index(i)
        hit = self.cache.get(e.get_id())
        if hit is None: hit = self.cache[e.get_id()] = (self.at(value_of(e)), e)
        if isinstance(hit[0], VList): hit[0].element = True
        return hit[0]

    def __getitem__(self, i):
        if isinstance(i, slice): return self.slice(i)
        if isinstance(i, Sym) and not i.is_int: raise TypeError("list indices must be integers")
        if holds(i < 0): i = self.n + i
        if holds(i < 0 if isinstance(i, int) else SBool(zi(i) < 0)) or not holds(i < self.n): raise IndexError("list index out of range")
        return self.get(i)

    def bound(self, v, default):
        if v is None: return default
        if holds(v < 0):
            v = self.n + v
            return v if holds(v >= 0) else 0
        return v if holds(v <= self.n) else self.n

    def slice(self, s):
        if s.step is not None and s.step == -1 and s.start is None and s.stop is None: return self._vc_reversed()
        if s.step not in (None, 1): raise TooHard("a slice with a step of a sequence of any length")
        lo, hi = self.bound(s.start, 0), self.bound(s.stop, self.n)
        n = hi - lo if holds(hi >= lo) else 0
        return Seq(n, lambda i: self.get(lo + i), [w - zi(lo) for w in self.witnesses], self.kind)

    # -- what the rewritten code asks --------------------------------------------------
    def _vc_len(self):
        k = concrete(self.n)
        return self.n if k is None else k

    has_exit = False

    def _vc_loop(self, names, has_break):
        if not has_break: return self
        out = Seq(self.n, self.get, self.witnesses, self.kind)
        out.has_exit = True
        return out

    def _vc_isinstance(self, t): return any(x in (self.kind, object) for x in (t if isinstance(t, tuple) else (t,)))
    @property
    def _vc_type(self): return self.kind
    def _vc_starargs(self):
        from .runtime import StarMark
        return [StarMark(self)]
    def _vc_prepend(self, items): return Seq(len(items), lambda i: items[ctx().concrete_int(i) if isinstance(i, Sym) else i], kind=tuple) + self
    def _vc_list(self): return VList([self])
    def _vc_tuple(self): return Seq(self.n, self.get, self.witnesses, tuple)
    def _vc_iter(self): return self
    def copy(self): return VList([self])

    def _vc_reversed(self):
        return Seq(self.n, lambda i: self.get(self.n - 1 - i), [zi(self.n - 1) - w for w in self.witnesses], self.kind)

    def _vc_enumerate(self, *a, start=0):
        start = a[1] if len(a) > 1 else start
        return Seq(self.n, lambda i: (start + i, self.get(i)), self.witnesses)

    def _vc_zip(self, *seqs, **k):
        if k: raise TooHard("zip")
        ws = [w for s in seqs for w in (s.witnesses if isinstance(s, Seq) else [])]
        seqs = [s if isinstance(s, Seq) else s.seq() if isinstance(s, VList) else Seq(len(s), lambda i, s=s: s[i]) for s in seqs]
        n = seqs[0].n
        for s in seqs[1:]: n = n if holds(n <= s.n) else s.n
        return Seq(n, lambda i: tuple(s.get(i) for s in seqs), ws)

    def _vc_map(self, f, *seqs):
        if len(seqs) != 1: return self._vc_zip(*seqs)._vc_comp(lambda t: f(*t), ())
        return self._vc_comp(f, ())

    def _vc_comp(self, fn, conds):
        if conds: raise TooHard("a filter of a sequence of any length")
        out = Seq(self.n, lambda i: fn(self.get(i)), self.witnesses)
        for w in self.visit(): out.get(w)
        return out

    def visit(self):
        """The indices at which the iterations are run: ascending, in range; an arbitrary one if there is none but the sequence is not empty."""
        c = ctx()
        n = zi(self.n)
        k = concrete(self.n)
        if k is not None and k <= 3: return list(range(k))
        if not holds(SBool(n > 0)): return []
        ws = []
        for w in self.witnesses:
            if any(w.eq(v) for v in ws) or not holds(SBool(z3.And(w >= 0, w < n))): continue
            pos, skip = len(ws), False
            for j, v in enumerate(ws):
                if holds(SBool(w < v)):
                    pos = j
                    break
                if holds(SBool(w == v)):
                    skip = True
                    break
            if not skip: ws.insert(pos, w)
        if not ws:
            g = c.fresh("any", "int")
            c.add(z3.And(g >= 0, g < n))
            ws = [g]
        return [Sym(w) for w in ws]

    def some(self, name="at"):
        """An index about which nothing is known but that it is in range."""
        j = ctx().fresh(name, "int")
        ctx().add(z3.And(j >= 0, j < zi(self.n)))
        return Sym(j)

    def _vc_fold(self, what, start=0):
        c = ctx()
        if not holds(SBool(zi(self.n) > 0)):
            if what == "sum": return start
            raise ValueError(f"{what}() arg is an empty sequence")
        if what == "sum": raise TooHard("the sum of a sequence of any length")
        m = Sym(c.fresh(what))
        for w in self.visit(): c.add(z(m) <= z(self.get(w)) if what == "min" else z(m) >= z(self.get(w)))
        c.add(z(m) == z(self.get(self.some())))
        return m

    def _vc_contains(self, x):
        from .runtime import eq_values
        c = ctx()
        if not holds(SBool(zi(self.n) > 0)): return False
        b = c.fresh("in", "bool")
        same = lambda j: zb(eq_values(self.get(j), x, lambda: self.get(j) is x))
        c.add(z3.Implies(b, same(self.some())))
        for w in self.visit(): c.add(z3.Implies(same(w), b))
        return SBool(b)

    def index(self, x, *a):
        """The first index of an element: what precedes it is another (at the indices looked at)."""
        from .runtime import eq_values
        if a: raise TooHard("index with a range")
        c = ctx()
        there = [e for v, e in self.cache.values() if v is x]
        there = [e for e in there if c.known_value(z3.And(e >= 0, e < zi(self.n))) is True]
        if not there and (not holds(SBool(zi(self.n) > 0)) or not holds(self._vc_contains(x))): raise ValueError("not in list")
        for e in there:
            hit = c.memo_get(("first", id(self), e.get_id()))
            if hit is not None: return hit
        same = lambda i: zb(eq_values(self.get(i), x, lambda: self.get(i) is x))
        j = self.some("first")
        for e in there: c.memo_put(("first", id(self), e.get_id()), j, [zi(j) <= e], [e])
        c.keep.append(self)
        c.add(same(j))
        for w in self.visit(): c.add(z3.Implies(zi(w) < zi(j), z3.Not(same(w))))
        return j

    def _quantified(self, every):
        c = ctx()
        if not holds(SBool(zi(self.n) > 0)): return every
        b = c.fresh("all" if every else "any", "bool")
        t = (lambda j: z3.Not(zb(self.get(j)))) if every else (lambda j: zb(self.get(j)))
        nb = z3.Not(b) if every else b
        c.add(z3.Implies(nb, t(self.some())))
        for w in self.visit(): c.add(z3.Implies(t(w), nb))
        return SBool(b)

    def __add__(self, o): return VList([self]) + o
    def __radd__(self, o): return VList([list(o)] if isinstance(o, (list, tuple)) else [o]) + self

    def __bool__(self): return holds(SBool(zi(self.n) > 0)) if not isinstance(self.n, int) else self.n > 0
    def __len__(self):
        k = concrete(self.n)
        if k is None: raise TooHard("the length of a sequence of any length as a number")
        return k

    def __iter__(self):
        k = concrete(self.n)
        if k is None: return Walk(self)
        return iter([self.get(i) for i in range(k)])

    def __eq__(self, o):
        if o is self: return True
        if isinstance(o, (list, tuple)) and not o: return not bool(self)
        raise TooHard("comparing sequences of any length")
    __hash__ = None

    def _vc_sorted(self, **k): raise TooHard("sorting a sequence of any length")
    def _vc_filter(self, *a): raise TooHard("a filter of a sequence of any length")
    def __getattr__(self, name):
        if name.startswith("_vc_") or name.startswith("__"): raise AttributeError(name)
        raise TooHard(f"{name} of a sequence of any length")


class Texts(Seq):
    """Any number of texts, of which only what they say together is known: value, for which the token text stands."""

    def __init__(self, n, text):
        def at(i): raise TooHard("one of the texts of any number")
        super().__init__(n, at)
        self.text = text


class Block(Seq):
    """What a loop's iterations appended to one list: m elements each, known for the iterations that were run."""

    def __init__(self, n, m, known):
        self.m, self.known = m, known
        ws = [z3.simplify(zi(w) * m + j) for w, _ in known for j in range(m)]
        super().__init__(n * m, self.find, ws)

    def find(self, i):
        e = index(i)
        for k in range(2):
            for w, vals in self.known:
                for j, v in enumerate(vals):
                    c = e == zi(w) * self.m + j
                    s = z3.simplify(c)
                    if z3.is_true(s) or (k and ctx().known_value(s) is True): return v
        for w, vals in self.known:
            for j, v in enumerate(vals):
                if holds(SBool(e == zi(w) * self.m + j)): return v
        raise TooHard("an element that a loop appended at another index")


_BIRTH = [0]


class VList:
    """A list display of the code where sequences of any length are around: a list of parts, each a list or a Seq."""
    element = False         # of a Seq, which may make another object for the same element

    def __init__(self, parts):
        _BIRTH[0] += 1
        self.birth = _BIRTH[0]
        self.parts = [p if isinstance(p, Seq) else list(p) for p in parts]

    # -- views -----------------------------------------------------------------------
    def check(self):
        for r in ctx().recorders:
            if r.birth > self.birth and r.touched(self): raise TooHard("a list is read in the loop that appends to it")

    def plain(self):
        """The elements, if there is no part of any length."""
        self.check()
        out = []
        for p in self.parts:
            if isinstance(p, Seq):
                k = concrete(p.n)
                if k is None or k > 64: return None
                out += [p.get(i) for i in range(k)]
            else: out += p
        return out

    def seq(self):
        l = self.plain()
        if l is not None: return Seq(len(l), lambda i: pick(l, i), range(len(l)) if len(l) <= 3 else [])
        if len(self.parts) == 1: return self.parts[0]
        parts = [p if isinstance(p, Seq) else Seq(len(p), lambda i, p=p: pick(p, i), range(len(p))) for p in self.parts if isinstance(p, Seq) or p]
        starts, n = [], 0
        for p in parts:
            starts.append(n)
            n = n + p.n

        def at(i):
            for s, p in list(zip(starts, parts))[:-1]:
                if holds(i < s + p.n): return p.get(i - s)
            return parts[-1].get(i - starts[-1])
        return Seq(n, at, [z3.simplify(zi(s) + w) for s, p in zip(starts, parts) for w in p.witnesses])

    @property
    def n(self): return self._vc_len()
    @property
    def witnesses(self): return self.seq().witnesses
    def get(self, i): return self.seq().get(i)

    def either(self, f, g):
        l = self.plain()
        return f(l) if l is not None else g(self.seq())

    def __getitem__(self, i):
        if isinstance(i, slice): return self.either(lambda l: VList([l[i]]), lambda s: s[i])
        def at(l):
            return ctx().world.hooks.getitem(l, i)
        return self.either(at, lambda s: s[i])

    def _vc_len(self): return self.either(len, lambda s: s._vc_len())
    def _vc_loop(self, names, has_break):
        from .runtime import PlainLoop
        return self.either(PlainLoop, lambda s: s._vc_loop(names, has_break))
    def _vc_isinstance(self, t): return any(x in (list, object) for x in (t if isinstance(t, tuple) else (t,)))
    _vc_type = list
    def _vc_starargs(self): return self.either(lambda l: l, lambda s: s._vc_starargs())
    def _vc_list(self): return VList([self.seq()] if self.plain() is None else [self.plain()])
    copy = _vc_list
    def _vc_tuple(self): return self.either(tuple, lambda s: s._vc_tuple())
    def _vc_iter(self): return self.either(iter, lambda s: s)
    def _vc_reversed(self): return self.either(reversed, lambda s: s._vc_reversed())
    def _vc_enumerate(self, *a, **k): return self.either(lambda l: enumerate(l, *a[1:], **k), lambda s: s._vc_enumerate(s, *a[1:], **k))
    def _vc_zip(self, *seqs, **k):
        l = [s.plain() if isinstance(s, VList) else s for s in seqs]
        if all(x is not None and not isinstance(x, Seq) for x in l): return zip(*l, **k)
        return Seq(0, None)._vc_zip(*seqs, **k)
    def _vc_map(self, f, *seqs):
        if len(seqs) == 1: return self.either(lambda l: map(f, l), lambda s: s._vc_map(f, s))
        z_ = self._vc_zip(*seqs)
        return map(lambda t: f(*t), z_) if isinstance(z_, zip) else z_._vc_comp(lambda t: f(*t), ())
    def _vc_comp(self, fn, conds): return self.either(lambda l: VList([list(ctx().world.hooks._gen(l, fn, conds))]), lambda s: s._vc_comp(fn, conds))
    def _vc_fold(self, what, start=0):
        b = ctx().world.hooks.builtins
        return self.either(lambda l: b[what](l) if what != "sum" else b[what](l, start), lambda s: s._vc_fold(what, start))
    def _vc_contains(self, x): return self.either(lambda l: ctx().world.hooks.contains(x, l), lambda s: s._vc_contains(x))
    def _vc_sorted(self, **k): return self.either(lambda l: ctx().world.hooks.builtins["sorted"](l, **k), lambda s: s._vc_sorted(**k))
    def _vc_filter(self, f, *a): return self.either(lambda l: filter(f, l), lambda s: s._vc_filter(f))
    def _vc_prepend(self, items): return VList([list(items), *self.parts]).seq()
    def __bool__(self): return self.either(bool, bool)
    def __len__(self): return self.either(len, len)
    def __iter__(self): return self.either(iter, iter)
    def __contains__(self, x): return bool(self._vc_contains(x))

    def __eq__(self, o):
        if o is self: return True
        o2 = o.plain() if isinstance(o, VList) else o
        return self.either(lambda l: l == list(o2) if isinstance(o2, (list, VList)) else o2.__eq__(l) if isinstance(o2, Seq) else False, lambda s: s == o2)
    __hash__ = None
    def index(self, x, *a): return self.either(lambda l: l.index(x, *a), lambda s: s.index(x, *a))
    def count(self, x): return self.either(lambda l: l.count(x), lambda s: s.count)

    def __add__(self, o):
        if isinstance(o, Seq): return VList([*self._copy(), o])
        if isinstance(o, VList): return VList([*self._copy(), *o._copy()])
        if isinstance(o, list): return VList([*self._copy(), o])
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, list): return VList([o, *self._copy()])
        return NotImplemented

    def __mul__(self, k): return self.either(lambda l: VList([l * k]), lambda s: s.repeated)
    def __repr__(self): return f"VList({self.parts})"

    def _copy(self):
        self.check()
        return [p if isinstance(p, Seq) else list(p) for p in self.parts]

    # -- changes --------------------------------------------------------------------------
    def _older(self): return [r for r in ctx().recorders if r.birth > self.birth]

    def _own(self):
        if self.element: raise TooHard("changing a list that is an element of a sequence of any length")
        if self._older(): raise TooHard("a loop over a sequence of any length changes a list other than by appending to it")

    def append(self, x):
        if self.element: self._own()
        older = self._older()
        if len(older) > 1: raise TooHard("nested loops append to one list")
        if older: return older[0].appended(self, x)
        if not self.parts or isinstance(self.parts[-1], Seq): self.parts.append([])
        self.parts[-1].append(x)

    def extend(self, o):
        if not self.element and self._older() and isinstance(o, (list, tuple, VList)):
            for x in (o.plain() if isinstance(o, VList) else o) or self._own(): self.append(x)
            return
        self._own()
        self.parts += o._copy() if isinstance(o, VList) else [o] if isinstance(o, Seq) else [list(o)]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __setitem__(self, i, v):
        self._own()
        l = self.plain()
        if l is None:
            old, e = self.place(i)
            self.parts = [Seq(old.n, lambda j: v if holds(SBool(index(j) == e)) else old.get(j), [*old.witnesses, e])]
            return
        l[i] = list(v) if isinstance(i, slice) else v
        self.parts = [l]

    def place(self, i):
        """The sequence so far and the index of one of its elements as a term."""
        old = self.seq()
        if isinstance(i, slice) or isinstance(i, Sym) and not i.is_int: raise TooHard("assigning to a slice of a list of any length")
        if holds(i < 0): i = old.n + i
        if holds(i < 0 if isinstance(i, int) else SBool(zi(i) < 0)) or not holds(i < old.n): raise IndexError("list assignment index out of range")
        return old, index(i)

    def _change(self, f):
        self._own()
        l = self.plain()
        if l is None: raise TooHard("changing a list of any length")
        r = f(l)
        self.parts = [l]
        return r

    def __delitem__(self, i):
        self._own()
        if self.plain() is not None: return self._change(lambda l: l.__delitem__(i))
        old, e = self.place(i)
        self.parts = [Seq(old.n - 1, lambda j: old.get(j) if holds(SBool(index(j) < e)) else old.get(j + 1), [x for w in old.witnesses for x in (w, z3.simplify(w - 1))])]
    def insert(self, i, x): self._change(lambda l: l.insert(i, x))
    def pop(self, *a): return self._change(lambda l: l.pop(*a))
    def remove(self, x): self._change(lambda l: l.remove(x))
    def reverse(self): self._change(lambda l: l.reverse())
    def sort(self, **k): self._change(lambda l: l.sort(**k))
    def clear(self):
        self._own()
        self.parts = []


def runtime():
    from . import runtime as r
    return r


def pick(l, i):
    """The element of a list at an index term."""
    if isinstance(i, int): return l[i]
    return ctx().world.hooks.getitem(l, i)


class WitnessLoop:
    """A for loop over a sequence of any length, without an invariant."""

    def __init__(self):
        _BIRTH[0] += 1
        self.birth, self.order, self.known, self.lists, self.now = _BIRTH[0], None, [], {}, {}

    def over(self, seq):
        self.seq, self.order, self.pos = seq, seq.visit(), -1

    def touched(self, l): return id(l) in self.lists or id(l) in self.now

    def appended(self, l, x):
        self.now.setdefault(id(l), (l, []))[1].append(x)

    def head(self, values, assigned):
        r, c = runtime(), ctx()
        if self.pos >= 0:
            self.frame_ok(values)
            if self.pos and set(self.now) != set(self.lists): raise TooHard("the iterations append to different lists")
            for k, (l, vals) in self.now.items():
                rec = self.lists.setdefault(k, (l, len(vals), []))
                if rec[1] != len(vals): raise TooHard("the iterations append different numbers of elements")
                rec[2].append((self.order[self.pos], vals))
            self.now = {}
        else:
            self.frame = {n: r.shape(v) for n, v in values.items() if n not in assigned and not n.startswith("__vc_")}
            c.recorders.append(self)
        self.pos += 1
        if self.pos >= len(self.order):
            assert c.recorders.pop() is self
            for l, m, known in self.lists.values():
                l.parts.append(Block(self.seq.n, m, known))
            if not self.order: return {}
        return {n: r.Poison(n) for n in assigned}

    def frame_ok(self, values):
        r = runtime()
        for n, s in self.frame.items():
            if not r.same_shape(values.get(n), s): raise TooHard(f"an iteration changes {n}")

    @property
    def ended(self): return self.pos >= len(self.order)

    def next(self): return self.seq.get(self.order[self.pos])
