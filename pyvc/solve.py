"""Back ends that discharge proof obligations: exact polynomial normalisation, z3, z3's nlsat, cvc5."""
from __future__ import annotations

import os
import time
from fractions import Fraction

import z3


class Result:
    __slots__ = ("status", "backend", "detail", "model")

    def __init__(self, status, backend, detail="", model=None):
        self.status, self.backend, self.detail, self.model = status, backend, detail, model


# ---------------------------------------------------------------------------------------------------------
# Exact rational-function normal form.  Polynomials: dict mapping monomials to Fractions; a monomial is a
# tuple of (variable name, exponent) pairs sorted by name.

class Blowup(Exception):
    pass


LIMIT = 60000


def p_const(c):
    return {(): c} if c else {}


def p_var(v):
    return {((v, 1),): Fraction(1)}


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r


def m_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for v, e in b:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if not a or not b: return {}
    if len(a) * len(b) > LIMIT * 8: raise Blowup()
    r: dict = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            x = r.get(m, 0) + ca * cb
            if x: r[m] = x
            else: r.pop(m, None)
        if len(r) > LIMIT: raise Blowup()
    return r


def p_pow(a, n):
    r = p_const(Fraction(1))
    for _ in range(n): r = p_mul(r, a)
    return r


ONE = {(): Fraction(1)}


class Ring:
    """Converts z3 real terms into rational functions over their atoms."""

    def __init__(self, defs, rewrites, keep):
        self.defs, self.rewrites = defs, rewrites
        self.cache: dict = {}
        self.keep = keep

    def conv(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is None:
            self.keep.append(e)
            r = self.cache[i] = self._conv(e)
        return r

    def _conv(self, e):
        if z3.is_rational_value(e):
            return p_const(Fraction(e.numerator_as_long(), e.denominator_as_long())), ONE
        if z3.is_int_value(e):
            return p_const(Fraction(e.as_long())), ONE
        if z3.is_to_real(e):
            return self.conv(e.arg(0))
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            name = e.decl().name() if e.num_args() == 0 else f"#{e.get_id()}"
            if name in self.defs:
                n, d = self.defs[name]
                nn, nd = self.conv(n)
                dn, dd = self.conv(d)
                return self.red(p_mul(nn, dd)), self.red(p_mul(nd, dn))
            return p_var(name), ONE
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            n, d = self.conv(e.arg(0))
            for j in range(1, e.num_args()):
                m, f = self.conv(e.arg(j))
                s = 1 if k == z3.Z3_OP_ADD else -1
                if d == f:
                    n = p_add(n, m, s)
                else:
                    n = p_add(p_mul(n, f), p_mul(m, d), s)
                    d = p_mul(d, f)
            return n, d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for j in range(e.num_args()):
                m, f = self.conv(e.arg(j))
                n, d = self.red(p_mul(n, m)), (p_mul(d, f) if f is not ONE else d)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(e.arg(0))
            return p_mul(p_const(Fraction(-1)), n), d
        if k == z3.Z3_OP_DIV:
            n, d = self.conv(e.arg(0))
            m, f = self.conv(e.arg(1))
            return p_mul(n, f), p_mul(d, m)
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            n, d = self.conv(e.arg(0))
            x = e.arg(1).numerator_as_long()
            return p_pow(n, x), p_pow(d, x)
        name = f"#{e.get_id()}"          # opaque atom (the term is kept alive by self.keep)
        return p_var(name), ONE

    def red(self, p, depth=0):
        """Apply the rewrites name**power -> term."""
        if not self.rewrites: return p
        for _ in range(40):
            hit = None
            for m in p:
                for v, ex in m:
                    rw = self.rewrites.get(v)
                    if rw and ex >= rw[0]:
                        hit = v
                        break
                if hit: break
            if not hit: return p
            power, term = self.rewrites[hit]
            tn, td = self.conv(term)
            if td != ONE: return p
            out: dict = {}
            for m, c in p.items():
                d = dict(m)
                ex = d.get(hit, 0)
                if ex >= power:
                    d[hit] = ex % power
                    if not d[hit]: del d[hit]
                    q = p_mul({tuple(sorted(d.items())): c}, p_pow(tn, ex // power))
                    out = p_add(out, q)
                else:
                    out = p_add(out, {m: c})
            p = out
        return p

    def is_zero(self, e):
        n, _d = self.conv(e)
        return not self.red(n)


def ring_proves(goal, ring):
    """Is the (conjunction of) equation(s) an identity of rational functions?"""
    try:
        if z3.is_and(goal):
            return all(ring_proves(c, ring) for c in goal.children())
        if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
            return ring.is_zero(goal.arg(0) - goal.arg(1))
    except (Blowup, RecursionError):
        pass
    return False


# ---------------------------------------------------------------------------------------------------------

def variables(e, cache={}):
    i = e.get_id()
    got = cache.get(i)
    if got is not None and got[0].eq(e):
        return got[1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.children())
    if len(cache) > 200000: cache.clear()
    r = frozenset(out)
    cache[i] = (e, r)
    return r


def cone(hyps, goal):
    """The hypotheses connected to the goal through shared symbols."""
    vs = [variables(h) for h in hyps]
    reach = set(variables(goal))
    used = [False] * len(hyps)
    changed = True
    while changed:
        changed = False
        for i, v in enumerate(vs):
            if not used[i] and (v & reach or not v):
                used[i] = True
                if not v <= reach:
                    reach |= v
                changed = True
    return [h for i, h in enumerate(hyps) if used[i]]


def has_quant(e, cache={}):
    i = e.get_id()
    got = cache.get(i)
    if got is not None and got[0].eq(e): return got[1]
    if len(cache) > 200000: cache.clear()
    r = False
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    cache[i] = (e, r)
    return r


LINEAR = [False]         # the current contract has no nonlinear facts: the linear solver goes first


def sat_z3(assertions, ms, seed=0):
    if LINEAR[0]:
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", int(ms))
        try:
            for a in assertions: s.add(a)
            r = s.check()
            if r != z3.unknown: return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            pass
    s = z3.Solver()
    s.set("timeout", int(ms))
    if seed: s.set("random_seed", seed)
    for a in assertions: s.add(a)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


_NL = None


def sat_nlsat(assertions, ms):
    global _NL
    if _NL is None:
        _NL = z3.Then(z3.Tactic("simplify"), z3.Tactic("propagate-values"), z3.Tactic("solve-eqs"),
                      z3.Tactic("elim-uncnstr"), z3.Tactic("simplify"), z3.Tactic("tseitin-cnf"), z3.Tactic("qfnra-nlsat"))
    s = _NL.solver()
    s.set("timeout", int(ms))
    for a in assertions: s.add(a)
    try:
        r = s.check()
        return r, (s.model() if r == z3.sat else None)
    except z3.Z3Exception:
        return z3.unknown, None


def sat_cvc5(assertions, ms):
    """Returns 'unsat', 'sat' or 'unknown'.  Runs in a child process: its time limits are not always honoured."""
    s = z3.Solver()
    for a in assertions: s.add(a)
    text = s.sexpr()
    import subprocess
    smt = "(set-logic ALL)\n" + text + "\n(check-sat)\n"
    try:
        p = subprocess.run(["/usr/bin/cvc5", "--lang=smt2", f"--tlimit={int(ms)}", "--nl-cov", "--nl-ext-tplanes"], input=smt,
                           capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
        return out if out in ("sat", "unsat") else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"


# Linear abstraction: every atom's polynomial in normal form, its monomials as independent reals.  Weaker than the original
# hypotheses, so what it proves is proved; and fast.

_MONO: dict = {}
_LIN: dict = {}
_RING0 = Ring({}, {}, [])


def _mono(m):
    if not m: return z3.RealVal(1)
    v = _MONO.get(m)
    if v is None: v = _MONO[m] = z3.Real(f"m.{len(_MONO)}")
    return v


def first_ite(e):
    """A conditional in the arithmetic of an atom, or None."""
    todo, seen = [e], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE): return x
        if z3.is_app(x) and x.decl().kind() != z3.Z3_OP_UNINTERPRETED: todo.extend(x.children())
    return None


def linear(e):
    """The abstraction of a formula; an atom that is not polynomial becomes a fresh truth value."""
    i = e.get_id()
    hit = _LIN.get(i)
    if hit is not None and hit[0].eq(e): return hit[1]
    r = _linear(e)
    _LIN[i] = (e, r)
    return r


def _linear(e, depth=0):
    if z3.is_true(e) or z3.is_false(e): return e
    k = e.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k in (z3.Z3_OP_EQ, z3.Z3_OP_ITE) and z3.is_bool(e.arg(1))):
        return e.decl()(*[linear(c) for c in e.children()])
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_arith(e.arg(0)):
        i = first_ite(e) if depth < 6 else None
        if i is not None:
            c, a, b = i.children()
            return z3.If(_linear(c, depth + 1), _linear(z3.substitute(e, (i, a)), depth + 1), _linear(z3.substitute(e, (i, b)), depth + 1))
        try:
            n, d = _RING0.conv(e.arg(0) - e.arg(1))
        except (Blowup, RecursionError):
            n, d = None, None
        if d == ONE and len(n) <= 6000:
            lead = abs(n[min(n)]) if n else 1
            t = z3.Sum([z3.RealVal(str(c / lead)) * _mono(m) for m, c in n.items()]) if n else z3.RealVal(0)
            return {z3.Z3_OP_EQ: lambda: t == 0, z3.Z3_OP_LE: lambda: t <= 0, z3.Z3_OP_GE: lambda: t >= 0,
                    z3.Z3_OP_LT: lambda: t < 0, z3.Z3_OP_GT: lambda: t > 0}[k]()
    return z3.Bool(f"b.{e.get_id()}")


def linear_proves(hyps, neg, ms):
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", int(ms))
    try:
        for h in hyps:
            if not z3.is_quantifier(h): s.add(linear(h))
        s.add(linear(neg))
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def discharge(hyps, goal, ring, scale=1.0):
    """Prove hyps |= goal."""
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result("proved", "simplify")
    if ring_proves(goal, ring):
        return Result("proved", "ring")
    if z3.is_and(goal):
        # split conjunctions
        last = None
        for c in goal.children():
            r = discharge(hyps, c, ring, scale)
            if r.status != "proved":
                return r
            last = r
        return last or Result("proved", "simplify")
    neg = z3.Not(goal)
    near = cone(hyps, goal)
    quant = any(has_quant(h) for h in near) or has_quant(goal)
    if not quant and not LINEAR[0] and linear_proves(near, neg, 500 * scale): return Result("proved", "z3-lra")
    r, m = sat_z3(near + [neg], (12000 if LINEAR[0] else 1500) * scale)
    if r == z3.unsat: return Result("proved", "z3")
    if r == z3.sat and not quant:
        return Result("refuted", "z3", "counter-model", m)
    if not quant and not LINEAR[0]:
        r, m = sat_nlsat(near + [neg], 4000 * scale)
        if r == z3.unsat: return Result("proved", "nlsat")
        if r == z3.sat: return Result("refuted", "nlsat", "counter-model", m)
    r2 = sat_cvc5(near + [neg], 6000 * scale)
    if r2 == "unsat": return Result("proved", "cvc5")
    r, m = sat_z3(near + [neg], 12000 * scale, seed=7)
    if r == z3.unsat: return Result("proved", "z3")
    if r == z3.sat and not quant: return Result("refuted", "z3", "counter-model", m)
    if quant and (r == z3.sat or r2 == "sat"):
        return Result("refuted", "z3", "counter-model with quantifiers", m)
    return Result("unknown", "all", "every back end gave up or timed out")


def model_values(model, consts):
    """Concrete values for the given z3 constants: name -> Fraction, int, bool (algebraic numbers approximated)."""
    out = {}
    for name, c in consts.items():
        try:
            v = model.eval(c, model_completion=True)
            if z3.is_algebraic_value(v): v = v.approx(30)
            if z3.is_int_value(v): out[name] = v.as_long()
            elif z3.is_rational_value(v): out[name] = str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            elif z3.is_true(v) or z3.is_false(v): out[name] = z3.is_true(v)
        except z3.Z3Exception:
            pass
    return out
