#!/usr/bin/env python3
"""Setup self-test: the library loads from the working tree with and without points,
and both behave the same on a few runs.  Reports; it never decides anything, so a
changed library cannot make it fail."""

import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from sim import runner, world  # noqa: E402

try:
    for pts in (False, True):
        w = world.World(points=pts)
        css = w.CSS(width=10, margin=(1, "auto"))
        assert str(css.width) == "10px" and css.margin_left == "auto"
    a = runner.module("C01")
    for s in range(5):
        sc = a.gen(random.Random(s), "quick")
        plain = runner.digest(a.run(sc).log)
        world.FORCE_POINTS = True
        with_points = runner.digest(a.run(sc).log)
        world.FORCE_POINTS = False
        assert plain == with_points, s
    print("ok", world.source_digest())
except Exception as e:
    print(f"note: the library in the tree misbehaves: {e!r}")
