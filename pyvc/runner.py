"""Runs the contracts of one property: proves them, replays what fails, writes the evidence."""
from __future__ import annotations

import collections
import glob
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

from . import api, explore

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")

TRUSTED = [
    "pyvc itself (this verifier: instrumentation, path exploration, path merging, the rational-function normaliser), CPython's parser, compiler and interpreter",
    "z3 (python bindings), its nlsat procedure, cvc5",
    "numbers are the mathematical reals: float and Decimal rounding, overflow and NaN propagation are not modelled; float literals mean their decimal notation",
    "assumed contracts of the standard library: math (sqrt, hypot, pow, sin/cos/atan2/acos as functions satisfying the listed trigonometric facts, pi within 1e-13), decimal (exact arithmetic, context precision tracked), random (any number in the range)",
    "rounding to 12 or more decimals (Transform.sin/cos) is treated as exact",
    "callers pass values of the documented types; no other thread mutates them during a call",
]


class Alarm(BaseException):
    pass


def _alarm(_s, _f):
    raise Alarm()


def load_contracts(prop):
    importlib.import_module(f"contracts.{prop.lower()}")
    return api.REGISTRY.get(prop, [])


def run_concrete(c, params, seed, secs, minimum=20, maximum=4000, extra=None):
    """Runs the contract on drawn inputs against the unmodified code.  Returns (evaluated, proved, failure)."""
    t0 = time.time()
    done = checks = tried = 0
    if c.opts.get("symbolic_only"): return 0, 0, None, 0
    failure = None
    distinct = set()
    while tried < maximum and (time.time() - t0 < secs or (tried < minimum and time.time() - t0 < 4 * secs + 5)):
        rng = random.Random(f"{seed}/{c.name}/{params}/{tried}")
        tried += 1
        vc = api.ConcVC(rng, tol=c.opts.get("tol", 1e-7), exact=c.opts.get("exact", False), style=c.opts.get("style"))
        f = attempt(c, params, vc)
        if f == "skip": continue
        done += 1
        checks += vc.proved
        distinct.add((tuple(vc.values.values()), tuple(vc.choices.values())))
        if f:
            failure = {"label": f, "values": dict(vc.values), "choices": dict(vc.choices)}
            break
    return done, checks, failure, len(distinct)


def attempt(c, params, vc):
    """None if the contract held, 'skip', or a description of the failure."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 20)
    try:
        c.fn(vc, *params)
        return None
    except api.Skip:
        return "skip"
    except api.Violation as e:
        return str(e)
    except Alarm:
        return "skip"
    except RecursionError:
        return "raised RecursionError"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if explore.misfit(e, tb): return "skip"
        where = "; ".join(f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb[-3:])
        return f"raised {type(e).__name__}: {e} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def replay_model(c, params, model):
    """Does the contract fail on the real code for this counter-model?"""
    if model is None or c.opts.get("symbolic_only"): return None
    for fixed in (model, {"values": {k: str(round(float(_fr(v)), 3)) for k, v in model["values"].items()}, "choices": model["choices"]}):
        vc = api.ConcVC(None, fixed=fixed, tol=c.opts.get("tol", 1e-7), exact=c.opts.get("exact", False))
        f = attempt(c, params, vc)
        if f and f != "skip":
            return {"label": f, "values": dict(vc.values), "choices": dict(vc.choices)}
    return None


def _fr(v):
    from fractions import Fraction
    return Fraction(v)


# A check has 900 s. Units that start late get less time, and what runs past HARD is ended: the contract is then evaluated on
# the real code only, and reported as undecided.
STARTED = time.time()
SOFT, HARD, UNIT = 330, 560, 420


def run_unit(job):
    prop, idx, pidx, tier, seed = job
    c = api.REGISTRY[prop][idx]
    params = c.params[pidx]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    out = {"contract": c.name, "params": list(params), "idx": idx, "pidx": pidx, "funcs": c.funcs, "level": c.level,
           "violation": None, "undecided": [], "obligations": [], "notes": []}
    mul = 3 if tier == "thorough" else 1
    ex, hurried = None, False
    if not c.opts.get("concrete_only"):
        budget = c.opts.get("budget", 150) * mul
        left = max(15, STARTED + SOFT - t0)
        if tier != "thorough" and left < budget: budget, hurried = left, True
        ex = explore.Explorer(budget=budget, scale=c.opts.get("scale", 1.0) * mul, max_paths=c.opts.get("max_paths", 4000), max_ticks=c.opts.get("max_ticks", 6000))
        try:
            ex.run(lambda vc: c.fn(vc, *params), api.SymVC)
        except MemoryError:
            ex.hard.append("out of memory")
        except Exception as e:
            ex.hard.append(f"verifier error {type(e).__name__}: {e}")
        counts = collections.Counter((o.label, o.status, o.backend) for o in ex.obligations)
        secs = collections.Counter()
        for o in ex.obligations: secs[(o.label, o.status, o.backend)] += o.secs
        out["obligations"] = [[*k, n, round(secs[k], 3)] for k, n in counts.items()]
        out["paths"] = dict(collections.Counter(ex.paths))
        out["decisions"] = ex.decisions
        out["feasibility_queries"] = ex.stats["feasibility"]
        out["feasibility_secs"] = round(ex.stats["feas_secs"], 3)
        out["notes"] = sorted(ex.notes)
        out["hard"] = dict(collections.Counter(ex.hard))
    # every contract also runs on the real code with drawn inputs
    secs = c.opts.get("conc_secs", 0.6) * (10 if tier == "thorough" else 1)
    done, checks, failure, distinct = run_concrete(c, params, seed, secs)
    out["concrete"] = [done, checks, distinct]
    if failure: out["violation"] = {**failure, "obligation": failure["label"], "how": "contract evaluated on the real code"}
    if ex is None:
        out["secs"] = round(time.time() - t0, 3)
        return out
    bad = [o for o in ex.obligations if o.status != "proved"]
    if not out["violation"] and (bad or ex.exceptions):
        for label, model in [(o.label, o.model) for o in bad] + [(f"raised {t}", m) for t, m, _ in ex.exceptions]:
            r = replay_model(c, params, model)
            if r:
                out["violation"] = {**r, "obligation": label, "how": "counter-model replayed on the real code"}
                break
    if not out["violation"] and (bad or ex.exceptions or ex.hard):
        d2, c2, failure, k2 = run_concrete(c, params, f"{seed}/search", 8 * mul, maximum=40000)
        out["concrete"] = [done + d2, checks + c2, distinct + k2]
        if failure:
            out["violation"] = {**failure, "obligation": bad[0].label if bad else failure["label"], "how": "failing input found by search on the real code"}
    refuted = [o for o in bad if o.status == "refuted"]
    if not out["violation"] and refuted:
        o = refuted[0]
        out["violation"] = {"label": o.label, "obligation": o.label, "values": (o.model or {}).get("values", {}), "choices": (o.model or {}).get("choices", {}),
                            "how": f"obligation refuted by {o.backend}: {o.detail}", "noinput": True}
    unknown = [o for o in bad if o.status == "unknown"]
    real = [(t, m) for t, m, certain in ex.exceptions if certain]
    if not out["violation"] and unknown and not hurried:        # without its full time, no answer is only undecided
        o = unknown[0]
        out["violation"] = {"label": o.label, "obligation": o.label, "values": {}, "choices": dict((o.model or {}).get("choices", {})),
                            "how": f"obligation not discharged: {o.detail}", "noinput": True}
    if not out["violation"] and real:
        t, m = real[0]
        out["violation"] = {"label": f"raised {t}", "obligation": "no exception is raised", **m, "how": "path condition is satisfiable", "noinput": True}
    out["undecided"] = sorted({f"{o.label}: {o.detail}" for o in bad if o.status == "unknown"}) + [f"{h}" for h in sorted(set(ex.hard))] + \
        [f"exception not reproduced: {t}" for t, _, _c in ex.exceptions]
    out["vacuous"] = not any(p == "done" for p in ex.paths) or not ex.obligations
    out["secs"] = round(time.time() - t0, 3)
    return out


def canary():
    """The verifier must refute a false contract and must not prove an unreachable one silently."""
    def false_contract(vc):
        x = vc.real("x")
        vc.prove("x < x + x*x", vc.lt(x, x + x * x))
    ex = explore.Explorer(budget=20)
    ex.run(false_contract, api.SymVC)
    return len(ex.obligations) == 1 and ex.obligations[0].status == "refuted"


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith(f"finding: property={prop} "): out.append(line[len(f"finding: property={prop} "):])
    return out


def main(argv):
    if argv and argv[0] == "--replay":
        return do_replay(argv[1])
    if argv and argv[0] == "--setup":
        return setup()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    contracts = load_contracts(prop)
    if tier == "thorough":
        for c in contracts: c.params += c.opts.get("thorough", [])
    if not contracts:
        print(f"no contracts for {prop}")
        return 2
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    jobs = [(prop, i, j, tier, seed) for i, c in enumerate(contracts) for j in range(len(c.params)) if only is None or c.name == only]
    jobs.sort(key=lambda k: -contracts[k[1]].opts.get("weight", 1))
    if not canary():
        print("canary: the verifier failed to refute a false contract")
        return 2
    results = run_jobs(jobs)
    code = report(prop, tier, seed, contracts, results, t0)
    return code


def _child(job, conn):
    try:
        r = run_unit(job)
    except BaseException as e:                                     # noqa: BLE001
        r = {"error": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()}
    conn.send(r)
    conn.close()


def run_jobs(jobs, workers=None):
    """One process per unit, so that no unit can disturb another."""
    workers = workers or min(8, os.cpu_count() or 4)
    mp = multiprocessing.get_context("fork")
    pending, live, results = list(jobs), {}, []
    while pending or live:
        while pending and len(live) < workers:
            job = pending.pop(0)
            a, b = mp.Pipe(duplex=False)
            p = mp.Process(target=_child, args=(job, b), daemon=True)
            p.start()
            b.close()
            live[a] = (p, job, time.time())
        for a in multiprocessing.connection.wait(list(live), timeout=1.0):
            p, job, _t = live.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = {"error": f"unit ended abnormally (exit code {p.exitcode})"}
            p.join(5)
            r["job"] = list(job)
            results.append(r)
        now = time.time()
        for a, (p, job, t) in list(live.items()):
            if now - t > (1500 if job[3] == "thorough" else UNIT) or (job[3] != "thorough" and now - STARTED > HARD):
                p.kill()
                live.pop(a)
                results.append({"error": "unit timed out", "job": list(job)})
        if pending and pending[0][3] != "thorough" and now - STARTED > HARD:
            results.extend({"error": "unit not reached in time", "job": list(job)} for job in pending)
            pending.clear()
    return results


def report(prop, tier, seed, contracts, results, t0):
    results.sort(key=lambda r: r["job"])
    errors = [r for r in results if "error" in r]
    units = [r for r in results if "error" not in r]
    violations = [r for r in units if r["violation"]]
    for r in errors:
        # the verifier gave no answer for this unit: fall back on evaluating the contract on the real code
        c = contracts[r["job"][1]]
        params = c.params[r["job"][2]]
        done, checks, failure, distinct = run_concrete(c, params, seed, min(5, 150 / len(errors)))
        u = {"contract": c.name, "params": list(params), "funcs": c.funcs, "level": "bounded", "obligations": [], "undecided": [r["error"]],
             "concrete": [done, checks, distinct], "violation": None, "secs": 5, "vacuous": False, "notes": []}
        if failure:
            u["violation"] = {**failure, "obligation": failure["label"], "how": "contract evaluated on the real code"}
            violations.append(u)
        units.append(u)
    total = proved = 0
    backends: collections.Counter = collections.Counter()
    bsecs: collections.Counter = collections.Counter()
    undecided, samples, bounded, notes = [], [], [], set()
    funcs, bfuncs = set(), set()
    solver_secs = 0.0
    for u in units:
        for label, status, backend, n, secs in u["obligations"]:
            total += n
            solver_secs += secs
            if status == "proved":
                proved += n
                backends[backend] += n
                bsecs[backend] += secs
        solver_secs += u.get("feasibility_secs", 0)
        for x in u["undecided"]: undecided.append(f"{u['contract']}{tuple(u['params'])}: {x}")
        (bfuncs if u["level"] == "bounded" or u["undecided"] else funcs).update(u["funcs"])
        notes.update(u["notes"])
        if u["level"] == "bounded" or u["undecided"]:
            c = next(c for c in contracts if c.name == u["contract"])
            bounded.append(f"{u['contract']}{tuple(u['params'])}: {c.opts.get('bound', 'contract evaluated on drawn inputs')}")
        if u["obligations"] and len(samples) < 12:
            samples.append({"contract": u["contract"], "params": u["params"], "obligation": u["obligations"][0][0], "status": u["obligations"][0][1],
                            "backend": u["obligations"][0][2], "paths": u.get("paths")})
    vac = [f"{u['contract']}{tuple(u['params'])}" for u in units if u.get("vacuous") and not u["undecided"] and not u["violation"]]
    evals = sum(u["concrete"][0] for u in units)
    level = manifest_level(prop)
    cov = {
        "obligations": total, "discharged": proved, "checker_cmd": f"{sys.executable} {os.path.join(HERE, 'check.py')} {prop}",
        "trusted_base": TRUSTED + sorted(notes),
        "functions_under_contract": sorted(funcs | bfuncs), "functions_bounded_only": sorted(bfuncs - funcs),
        "discharged_by_backend": {k: backends[k] for k in sorted(backends)},
        "solver_seconds_by_backend": {k: round(bsecs[k], 2) for k in sorted(bsecs)}, "solver_seconds": round(solver_secs, 2),
        "units": len(units), "paths": sum(sum(u.get("paths", {}).values()) for u in units),
        "feasibility_queries": sum(u.get("feasibility_queries", 0) for u in units),
        "undecided": undecided, "bounded_stand_ins": bounded,
        "evaluations": evals, "distinct_nontrivial": sum(u["concrete"][2] for u in units),
        "rule": "each contract is also evaluated on the unmodified code with drawn inputs (small, large, fractional and repeated values); a case counts if its precondition holds, distinct by its inputs",
        "samples": samples, "unit_results": [{k: u.get(k) for k in ("contract", "params", "paths", "obligations", "concrete", "secs", "undecided", "level")} for u in units],
        "canary": "a false contract was refuted", "explanation": "contract-based deductive verification of the real code; see DESIGN.md",
    }
    known = known_findings(prop)
    for k in known: print(f"KNOWN-FINDING: property={prop} {k}")
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov,
          "assumptions": TRUSTED + sorted(notes), "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    tmp = os.path.join(EVID, f".{prop}.json.tmp")
    with open(tmp, "w", encoding="utf-8") as f: json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    print(f"{prop}: {len(units)} units, {total} obligations, {proved} discharged, {len(undecided)} undecided, {evals} evaluations on the real code, {time.time() - t0:.1f}s")
    for u in undecided: print(f"  undecided: {u}")
    if os.environ.get("PYVC_VERBOSE"):
        for u in sorted(units, key=lambda u: -u["secs"])[:15]: print(f"  {u['secs']:7.1f}s {u['contract']}{tuple(u['params'])} {u.get('paths')} conc {u['concrete']}")
    if vac:
        print("  vacuous: " + ", ".join(vac))
    if violations:
        violations.sort(key=lambda u: bool(u["violation"].get("noinput")))
        u = violations[0]
        path = os.path.join(EVID, f"replay-{prop}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "contract": u["contract"], "params": u["params"], **u["violation"],
                       "replay_cmd": f"python3-vt {os.path.join(HERE, 'check.py')} --replay {path}",
                       "all": [{"contract": v["contract"], "params": v["params"], **v["violation"]} for v in violations]}, f, indent=1, default=str)
        v = u["violation"]
        print(f"  failed obligation: {v['obligation']} in {u['contract']}{tuple(u['params'])}: {v['label']} ({v['how']})")
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if v.get("noinput") else ""))
        return 1
    if vac:
        return 2
    return 0


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop: return c["level"]
    except (OSError, KeyError, ValueError):
        pass
    return "proof"


def do_replay(path):
    d = json.load(open(path))
    cs = load_contracts(d["property"])
    c = next(c for c in cs if c.name == d["contract"])
    params = tuple(tuple(p) if isinstance(p, list) else p for p in d["params"])
    vc = api.ConcVC(None, fixed={"values": d["values"], "choices": d["choices"]}, tol=c.opts.get("tol", 1e-7), exact=c.opts.get("exact", False))
    f = attempt(c, params, vc)
    print(f"inputs {vc.values} choices {vc.choices}")
    print(f"result: {f or 'the contract holds on this input'}")
    return 1 if f and f != "skip" else 0


def setup():
    import z3  # noqa: F401
    ok = canary()
    print("setup: verifier ready" if ok else "setup: canary failed")
    return 0 if ok else 1
