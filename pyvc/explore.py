"""Symbolic exploration of one contract scenario: every path, every obligation."""
from __future__ import annotations

import os
import re
import time
import traceback
from fractions import Fraction

import z3

from . import models, roles, runtime, solve, sym
from .instrument import Loader
from .sym import Control, Ctx, Obligation, PathEnd, SBool, STATE, Sym, TooHard, num, z, zb


class World:
    """The instrumented modules of one path."""

    def __init__(self):
        self.models = models.make_models()
        self.math = self.models["math"]
        self.hooks = runtime.Hooks()
        self.loader = Loader(self.hooks, self.models)

    def module(self, name):
        m = self.loader.load(f"PathLib.{name}")
        roles.alias(m)
        return m


def misfit(e, tb):
    """Does a contract use a private name (or signature) that the code does not have (any more)?"""
    if not tb or f"{os.sep}contracts{os.sep}" not in tb[-1].filename: return False
    return isinstance(e, AttributeError) and (e.name or "").startswith("_") or isinstance(e, TypeError) and re.search(r"\b_\w+\(\)", str(e)) is not None


class Timeout(Control):
    pass


class Explorer:
    def __init__(self, budget=60.0, max_paths=4000, max_ticks=3000, scale=1.0):
        self.budget, self.max_paths, self.max_ticks, self.scale = budget, max_paths, max_ticks, scale
        self.keep: list = []
        self.paths: list = []
        self.agenda: list = []
        self.feas: dict = {}
        self.decisions = 0
        self.obligations: list = []
        self.hard: list = []            # reasons for which something was not decided
        self.exceptions: list = []      # (text, model)
        self.stats = {"feasibility": 0, "feas_secs": 0.0}
        self.reached: set = set()
        self.notes: set = set()
        self.funcs: set = set()
        self.cache: dict = {}
        self.names: dict = {}
        self.deadline = 0.0
        self.retries = 3

    # -- called by Ctx ---------------------------------------------------------
    def push(self, prefix): self.agenda.append(prefix)
    def count_decision(self): self.decisions += 1

    def feasible(self, ctx, cond):
        if time.time() > self.deadline: raise Timeout()
        near = solve.cone(ctx.pc, cond)
        key = (frozenset(c.get_id() for c in near), cond.get_id())
        hit = self.feas.get(key)
        if hit is not None: return hit
        self.keep.extend(near)
        self.keep.append(cond)
        t0 = time.time()
        r, _ = solve.sat_z3(near + [cond], 250)
        if r == z3.unknown and not solve.LINEAR[0]:
            r, _ = solve.sat_nlsat(near + [cond], 400)
        self.stats["feasibility"] += 1
        self.stats["feas_secs"] += time.time() - t0
        out = r != z3.unsat
        self.feas[key] = out
        return out

    def discharge(self, ctx, label, hyps, goal):
        if time.time() > self.deadline: raise Timeout()
        near = solve.cone(hyps, goal)
        key = (frozenset(h.get_id() for h in near), goal.get_id())
        hit = self.cache.get(key)
        if hit is not None: return hit
        self.keep.extend(near)
        self.keep.append(goal)
        r = solve.discharge(near, goal, ctx.ring, self.scale)
        if r.status == "unknown" and self.retries > 0 and time.time() + 60 < self.deadline:
            self.retries -= 1
            r = solve.discharge(near, goal, ctx.ring, self.scale * 3)
        if r.status == "refuted" and len(near) < len(hyps):
            # the rest of the path condition may contradict this path, or refine the counter-model
            full = list(hyps) + [z3.Not(goal)]
            k, m = solve.sat_z3(full, 3000)
            if k == z3.unknown: k, m = solve.sat_nlsat(full, 3000)
            if k == z3.unsat: return solve.Result("proved", "z3")
            if k == z3.sat: r.model = m
            return r
        self.cache[key] = r
        return r

    def input_model(self, ctx, model):
        if model is None:
            vals = {}
        else:
            vals = solve.model_values(model, ctx.inputs)
        return {"values": vals, "choices": dict(ctx.choices)}

    # -- driving -----------------------------------------------------------------
    def run(self, scenario, make_vc):
        self.deadline = time.time() + self.budget
        self.agenda = [[]]
        while self.agenda:
            if len(self.paths) >= self.max_paths:
                self.hard.append("too many paths")
                break
            prefix = self.agenda.pop()
            ctx = Ctx(prefix, self)
            ctx.world = World()
            STATE.ctx = ctx
            solve.LINEAR[0] = False
            outcome = "done"
            try:
                scenario(make_vc(ctx))
            except PathEnd:
                outcome = "cut"
            except Timeout:
                self.hard.append("time budget exhausted")
                outcome = "timeout"
            except TooHard as e:
                outcome = "hard"
                self.hard.append(str(e) or "too hard")
            except runtime.NoFork:
                outcome = "hard"
                self.hard.append("effect in a speculative evaluation")
            except z3.Z3Exception as e:
                outcome = "hard"
                self.hard.append(f"z3: {e}")
            except RecursionError:
                outcome = "hard"
                self.hard.append("recursion too deep")
            except Exception as e:
                outcome = "exception"
                tb = traceback.extract_tb(e.__traceback__)
                if misfit(e, tb):
                    outcome = "hard"
                    self.hard.append(f"the contract does not fit the changed code: {e}")
                    continue
                if ctx.astray():
                    outcome = "hard"
                    self.hard.append(f"the contract's invariant does not fit the changed loop: {e}")
                    continue
                where = "; ".join(f"{f.filename.rsplit('/', 1)[-1]}:{f.lineno} {f.name}" for f in tb[-3:])
                r, m = solve.sat_z3(ctx.pc, 3000)
                if r == z3.unknown: r, m = solve.sat_nlsat(ctx.pc, 3000)
                if r != z3.unsat:
                    self.exceptions.append((f"{type(e).__name__}: {e} [{where}]", self.input_model(ctx, m), r == z3.sat and isinstance(e, (ArithmeticError, ValueError, AssertionError, LookupError))))
            finally:
                STATE.ctx = None
                self.paths.append(outcome)
                astray = ctx.astray()
                if astray and any(o.status != "proved" for o in ctx.obligations):
                    self.hard.append(f"the invariant for {', '.join(astray)} does not fit the changed loop")
                    ctx.obligations = [o for o in ctx.obligations if o.status == "proved"]
                self.obligations.extend(ctx.obligations)
                self.notes |= ctx.notes
            if outcome == "timeout": break
            if sum(o.status != "proved" for o in self.obligations) >= 6: 
                break
        return self
