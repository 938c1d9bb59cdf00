#!/usr/bin/env python3
"""Reach: which library statements a batch of simulated runs executes, per property,
and which none of them does.  python3 tools/reach.py [runs] [props...]"""

import ast
import os
import random
import sys
from concurrent.futures import ProcessPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def one(job):
    prop, n = job
    from sim import points, runner, world
    seen = set()
    orig = points.stmt_point

    def stmt(site):
        seen.add(site)
        if points._hook is not None:
            points._hook(site, False)

    points.BUILTINS["__sim_s__"] = stmt
    world.FORCE_POINTS = True
    world._code.clear()
    mod = runner.module(prop)
    for i in range(n):
        mod.run(mod.gen(random.Random(f"reach/{prop}/{i}"), "quick"))
    return prop, {points.SITES[s][::2] for s in seen}


def all_lines():
    from sim import points, world
    world.FORCE_POINTS = True
    world.World()
    return {(m, ln): f for m, f, ln in points.SITES}


if __name__ == "__main__":
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 150
    props = sys.argv[2:] or [f"C{i:02}" for i in range(1, 20)]
    from sim import world
    stmts = set()
    names = {}
    root = os.path.join(world.SRC, world.PKG)
    for fn in sorted(os.listdir(root)):
        if fn.endswith(".py"):
            m = world.PKG + ("" if fn == "__init__.py" else "." + fn[:-3])
            tree = ast.parse(open(os.path.join(root, fn)).read())
            for f in ast.walk(tree):
                if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    for s in ast.walk(f):
                        if isinstance(s, ast.stmt) and s is not f and not (
                                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            stmts.add((m, s.lineno))
                            names[m, s.lineno] = f.name
    total = set()
    with ProcessPoolExecutor(8) as ex:
        for p, got in ex.map(one, [(p, max(10, n // 15) if p in ("C09", "C16") else n)
                                   for p in props]):
            got &= stmts
            total |= got
            print(f"{p}: {len(got)} of {len(stmts)} statements", flush=True)
    print(f"all: {len(total)} of {len(stmts)}")
    for m, ln in sorted(stmts - total):
        print("  not reached:", m, names[m, ln], ln)
