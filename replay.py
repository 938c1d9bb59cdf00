#!/usr/bin/env python3
"""Replay a violation: python3 replay.py FILE

Runs the recorded scenario (operations, faults and schedule) in a fresh process
with the recorded string-hash seed.  Exit 1: the violation occurs again; 0: not.
"""

import json
import sys

from check import replay_job, worker


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    if rec["kind"] == "prefix":
        r = worker({"mode": "cell", "prop": rec["property"], "seed": rec["seed"],
                    "tier": rec["tier"], "indices": rec["indices"],
                    "deadline": 1e18, "min_budget": 0}, rec["hashseed"])
        v = r.get("violation")
        r = {"violation": v and v["original_violation"], "error": r.get("error")}
    else:
        r = worker(replay_job(rec["property"], rec["scenario"]), rec["hashseed"])
    if r.get("error"):
        print(r["error"], file=sys.stderr)
        return 2
    if not r["violation"]:
        print(f"property {rec['property']}: the recorded violation does not occur")
        return 0
    same = r["violation"] == rec["violation"]
    exact = "log_digest" not in rec or rec["log_digest"] == r["log_digest"]
    print(f"property {rec['property']}: {r['violation']['kind']}: {r['violation']['msg']}")
    print("identical to the recorded run" if same and exact else "differs from the recorded run")
    return 1


if __name__ == "__main__":
    sys.exit(main())
