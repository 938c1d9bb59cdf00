"""Running scenarios: one at a time, guarded, and by the batch (a *cell*)."""

import gc
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import points, world
from .minimise import minimise
from .result import Result
from .sched import NoProgress
from .tracing import StepBudget

RUN_WALL = 30           # seconds before a run is re-examined for lack of progress
BUDGET = 3_000_000      # library steps one run may take


class Hang(BaseException):
    pass


class Inconclusive(Exception):
    """The run could not be judged (an operation it relies on failed)."""


def module(prop):
    return importlib.import_module("sim.props." + prop.lower())


def _alarm(*_):
    raise Hang()


def _library_frame(e):
    tb = e.__traceback__
    last = None
    root = os.path.join(world.SRC, world.PKG) + os.sep
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        if last.startswith(root):
            return True
        tb = tb.tb_next
    return False


def guarded(mod, sc):
    """Run a scenario; lack of progress is a violation, not a hang."""
    if sc.get("budget"):
        return _budgeted(mod, sc)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sc.get("wall", getattr(mod, "RUN_WALL", RUN_WALL)))
    try:
        return mod.run(sc)
    except (NoProgress, StepBudget) as e:
        return Result().fail("no-progress", str(e))
    except Hang:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sc["budget"] = True
        return _budgeted(mod, sc)
    except Exception as e:
        if not _library_frame(e):
            raise
        r = Result()
        r.hit("inconclusive")
        r.extra["inconclusive"] = repr(e)[:200]
        return r
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _budgeted(mod, sc):
    """Again, with every library step counted, to decide about progress."""
    n = 0

    def hook(site, sub):
        nonlocal n
        n += 1
        if n > BUDGET * 20:
            raise StepBudget(f"no progress after {BUDGET * 20} steps, "
                             f"in {points.SITES[site][:2]}")

    world.FORCE_POINTS = True
    old = points.install(hook)
    try:
        return mod.run(sc)
    except (NoProgress, StepBudget) as e:
        return Result().fail("no-progress", str(e))
    except Exception as e:
        if not _library_frame(e):
            raise
        r = Result()
        r.hit("inconclusive")
        return r
    finally:
        points.install(old)
        world.FORCE_POINTS = False


def digest(x):
    return hashlib.sha256(json.dumps(x, default=str).encode()).hexdigest()[:16]


def scenario(mod, prop, seed, tier, index):
    return mod.gen(random.Random(f"{seed}/{prop}/{tier}/{index}"), tier)


def shrink(mod, sc, res, budget):
    """A smaller scenario with the same kind of violation, and its result."""
    kind = res.violation["kind"]
    if "sched" in sc and "switches" in res.extra:
        # write the schedule out, so that it can be shrunk as well
        cand = json.loads(json.dumps(sc))
        cand["sched"] = {"switches": res.extra["switches"]}
        r = guarded(mod, cand)
        if r.violation and r.violation["kind"] == kind:
            sc, res = cand, r
    best = [sc, res]

    def fails(c):
        try:
            r = guarded(mod, c)
        except Exception:
            return False
        if r.violation and r.violation["kind"] == kind:
            best[0], best[1] = c, r
            return True
        return False

    small, tries = minimise(sc, mod.LISTS, fails, budget)
    final = guarded(mod, small)
    if final.violation and final.violation["kind"] == kind:
        return small, final, tries
    return best[0], best[1], tries


def cell(prop, seed, tier, indices, deadline, min_budget=20.0):
    """Run a list of run indices in this process; returns a summary dict."""
    gc.disable()
    mod = module(prop)
    out = {"runs": 0, "nontrivial": [], "interleavings": [], "stats": {}, "steps": 0,
           "samples": [], "violation": None, "inconclusive": 0, "cut": False,
           "digest": None, "worst_run_s": 0.0}
    acc = hashlib.sha256()
    distinct, inter = set(), set()
    batch = getattr(mod, "BATCH", 1)
    i = 0
    while i < len(indices):
        if time.time() > deadline:
            out["cut"] = True
            break
        idx = indices[i:i + batch]
        i += batch
        t = time.time()
        if batch > 1:
            scs = mod.gen_batch([f"{seed}/{prop}/{tier}/{k}" for k in idx], tier)
            results = mod.run_many(scs)
        else:
            scs = [scenario(mod, prop, seed, tier, idx[0])]
            results = [guarded(mod, scs[0])]
        out["worst_run_s"] = max(out["worst_run_s"], (time.time() - t) / len(idx))
        for k, sc, r in zip(idx, scs, results):
            out["runs"] += 1
            out["steps"] += r.steps
            if "inconclusive" in r.stats:
                out["inconclusive"] += 1
            for s, v in r.stats.items():
                out["stats"][s] = out["stats"].get(s, 0) + v
            d = digest(r.log)
            acc.update(d.encode())
            if r.nontrivial:
                distinct.add(d)
                if len(out["samples"]) < 1 and len(json.dumps(sc)) < 1500:
                    out["samples"].append({"run": k, "scenario": sc})
            if "interleaving" in r.extra:
                inter.add(r.extra["interleaving"])
            if r.violation:
                small, fin, tries = shrink(mod, sc, r, min_budget)
                out["violation"] = {
                    "run": k, "scenario": small, "violation": fin.violation,
                    "original": sc, "original_violation": r.violation,
                    "minimise_tries": tries, "log_digest": digest(fin.log),
                    "prefix": indices[:i],
                }
                break
        if out["violation"]:
            break
        if out["runs"] % 20 < batch:
            gc.collect()
    out["nontrivial"] = sorted(distinct)
    out["interleavings"] = sorted(inter)
    out["digest"] = acc.hexdigest()[:16]
    return out


def main():
    """Worker process: a job on stdin, its summary on stdout."""
    job = json.load(sys.stdin)
    real, sys.stdout = sys.stdout, sys.stderr
    try:
        if job["mode"] == "cell":
            ans = cell(job["prop"], job["seed"], job["tier"], job["indices"],
                       job["deadline"], job.get("min_budget", 20.0))
        else:
            mod = module(job["prop"])
            gc.disable()
            r = guarded(mod, job["scenario"])
            ans = {"violation": r.violation, "log_digest": digest(r.log)}
    except Exception:
        ans = {"error": traceback.format_exc()}
    json.dump(ans, real)
    real.flush()
    os._exit(0)         # do not wait for parked threads


if __name__ == "__main__":
    main()
