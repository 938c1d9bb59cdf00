#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--tier quick|thorough] [--workers N]

Exit 0: held on every simulated run.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed.
"""

import argparse
import json
import os
import random
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import runner, world  # noqa: E402

# simulated runs per tier, and the number of cells (processes, each with its own
# string-hash seed) they are spread over
RUNS = {
    "C01": (34000, 250000), "C02": (24000, 150000), "C03": (30000, 250000),
    "C04": (12000, 60000), "C05": (60000, 500000), "C06": (34000, 250000),
    "C07": (30000, 200000), "C08": (16000, 120000), "C09": (2200, 12000),
    "C10": (60000, 400000), "C11": (60000, 400000), "C12": (9000, 60000),
    "C13": (30000, 200000), "C14": (36000, 250000), "C15": (36000, 200000),
    "C16": (1500, 6000), "C17": (34000, 150000), "C18": (34000, 200000),
    "C19": (32000, 200000),
}
CELLS = {"quick": 16, "thorough": 64}
WALL = {"quick": 400, "thorough": 780}

COMPONENTS = {
    "real": ["src/colosseum: all modules, executed from the working tree (a fresh import "
             "per world)"],
    "stub": ["host node classes", "displays", "threading.Lock/RLock as seen by library "
             "code (cooperative)", "network between update producers and replicas"],
}


def hash_seed(seed, prop, c):
    return random.Random(f"hash/{seed}/{prop}/{c}").randrange(1, 1 << 32)


def worker(job, hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
               VERIF_REPO_SRC=world.SRC)
    p = subprocess.run([sys.executable, "-m", "sim.runner"], cwd=HERE, env=env,
                       input=json.dumps(job).encode(), stdout=subprocess.PIPE)
    if p.returncode != 0 or not p.stdout:
        return {"error": f"worker ended with status {p.returncode}"}
    return json.loads(p.stdout)


def replay_job(prop, sc):
    return {"mode": "replay", "prop": prop, "scenario": sc}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--workers", type=int, default=os.cpu_count() or 4)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--cells-out", help="write the per-cell log digests here")
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    n = a.runs or RUNS[prop][tier == "thorough"]
    cells = min(CELLS[tier], n)
    mod = runner.module(prop)
    print(f"{prop} tier={tier} seed={seed}: {n} simulated runs in {cells} cells", flush=True)
    jobs = []
    for c in range(cells):
        jobs.append(({"mode": "cell", "prop": prop, "seed": seed, "tier": tier,
                      "indices": list(range(c, n, cells)),
                      "deadline": t0 + WALL[tier]}, hash_seed(seed, prop, c)))
    stop = []

    def go(job):
        if stop:
            return None
        r = worker(*job)
        if r.get("violation") and tier == "thorough":
            stop.append(1)
        return r

    with ThreadPoolExecutor(a.workers) as ex:
        results = list(ex.map(go, jobs))
    done = [(c, r) for c, r in enumerate(results) if r is not None]
    for c, r in done:
        if "error" in r:
            print(f"check error in cell {c}:\n{r['error']}", file=sys.stderr)
            return 2
    if a.cells_out:
        with open(a.cells_out, "w") as f:
            json.dump([r["digest"] for _, r in done], f)

    found = next(((c, r["violation"]) for c, r in done if r["violation"]), None)
    wall = time.time() - t0
    runs = sum(r["runs"] for _, r in done)
    distinct, inter, stats = set(), set(), {}
    for _, r in done:
        distinct.update(r["nontrivial"])
        inter.update(r["interleavings"])
        for k, v in r["stats"].items():
            stats[k] = stats.get(k, 0) + v
    faults = {k[6:]: v for k, v in sorted(stats.items()) if k.startswith("fault:")}
    samples = [s for _, r in done for s in r["samples"]][:3]
    inconclusive = sum(r["inconclusive"] for _, r in done)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE + "; distinct = by digest of the run's observation log",
        "samples": samples or [{"run": 0, "scenario": "(longer than 1500 characters)"}],
        "runs_per_hour": round(runs * 3600 / max(wall, 0.01)),
        "seeds": runs,
        "hash_seeds": len(done),
        "simulated_steps": sum(r["steps"] for _, r in done),
        "faults_fired": faults,
        "probes": {k: v for k, v in sorted(stats.items()) if not k.startswith("fault:")},
        "inconclusive_runs": inconclusive,
        "cells_cut_by_wall_clock": sum(r["cut"] for _, r in done),
        "worst_run_s": round(max(r["worst_run_s"] for _, r in done), 3),
        "components": COMPONENTS,
        "source_digest": world.source_digest(),
    }
    if inter:
        cov["distinct_interleavings"] = len(inter)
        cov["interleaving_measure"] = ("digest of the sequence of (from thread, to thread, "
                                       "function and line) over all hand-overs")
    violations = 0
    status = 0
    if found:
        violations, status = 1, 1
        path = report(prop, seed, tier, *found)
        print(f"VIOLATION property={prop} replay={path}", flush=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": cov, "wall_s": round(wall, 2), "violations": violations,
          "assumptions": ["a clean batch is evidence, not proof: seeded search samples "
                          "histories, schedules and fault points",
                          "hand-overs and interrupts happen at statement or sub-expression "
                          "boundaries of library code"]}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: {runs} runs, {len(distinct)} distinct non-trivial, faults fired "
          f"{sum(faults.values())}, inconclusive {inconclusive}, {wall:.1f} s", flush=True)
    if status == 0 and (inconclusive > runs / 2 or runs == 0):
        print("check error: most runs could not be judged", file=sys.stderr)
        return 2
    return status


def report(prop, seed, tier, c, v):
    """Confirm the violation in a fresh process and write the replay file."""
    hs = hash_seed(seed, prop, c)
    rec = {"property": prop, "seed": seed, "tier": tier, "cell": c, "run": v["run"],
           "hashseed": hs, "source_digest": world.source_digest()}
    for which, sc, viol in (("minimised", v["scenario"], v["violation"]),
                            ("original", v["original"], v["original_violation"])):
        r = worker(replay_job(prop, sc), hs)
        if (r.get("violation") or {}).get("kind") == viol["kind"]:
            rec.update(kind=which, scenario=sc, violation=r["violation"],
                       log_digest=r["log_digest"], reproduced_in_fresh_process=True)
            break
    else:
        # depends on what ran before it in the process (e.g. object addresses)
        rec.update(kind="prefix", indices=v["prefix"], violation=v["original_violation"],
                   scenario=v["original"], reproduced_in_fresh_process=False)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{seed}-{v['run']}.json")
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    print(f"run {v['run']} (hash seed {hs}), {rec['kind']} trace, "
          f"{rec['violation']['kind']}: {rec['violation']['msg']}")
    return path


if __name__ == "__main__":
    sys.exit(main())
