#!/usr/bin/env python3
"""Determinism self-check: every property, several seeds, each batch executed twice
in fresh processes at different worker counts; the per-cell digests of all run logs
must be equal.  python3 tools/determinism.py [seeds] [runs per batch] [props...]"""

import json
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeds = int(sys.argv[1]) if len(sys.argv) > 1 else 3
runs = int(sys.argv[2]) if len(sys.argv) > 2 else 320
props = sys.argv[3:] or [f"C{i:02}" for i in range(1, 20)]
bad = 0
with tempfile.TemporaryDirectory() as tmp:
    for p in props:
        n = max(16, runs // 20) if p in ("C09", "C16") else runs
        total = 0
        for s in range(101, 101 + seeds):
            got = []
            for workers in (8, 3):
                out = os.path.join(tmp, f"{p}-{s}-{workers}")
                env = dict(os.environ, VERIF_SEED=str(s))
                subprocess.run([sys.executable, "check.py", p, "--runs", str(n), "--workers",
                                str(workers), "--cells-out", out], cwd=HERE, env=env,
                               stdout=subprocess.DEVNULL)
                got.append(json.load(open(out)))
            total += len(got[0])
            diff = [c for c in range(len(got[0])) if got[0][c] != got[1][c]]
            if diff:
                bad += 1
                print(f"{p} seed {s}: cells {diff} differ")
        print(f"{p}: {total} cells of {n // 16} runs compared", flush=True)
print("nondeterministic" if bad else "deterministic")
sys.exit(bool(bad))
