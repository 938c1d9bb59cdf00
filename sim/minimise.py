"""Shrinking a failing scenario: drop list elements while the same kind of
violation persists."""

import copy
import time


def lists_of(sc, paths):
    """References to every list named by the dotted paths ('*' = each element)."""
    out = []
    for path in paths:
        cur = [sc]
        for part in path.split("."):
            nxt = []
            for c in cur:
                if part == "*":
                    nxt += list(c) if isinstance(c, list) else []
                elif isinstance(c, dict) and part in c:
                    nxt.append(c[part])
            cur = nxt
        out += [c for c in cur if isinstance(c, list)]
    return out


def minimise(sc, paths, fails, budget=20.0):
    """`fails(scenario)` says whether the same violation occurs."""
    end = time.monotonic() + budget
    best = copy.deepcopy(sc)
    tries = 0
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        n = len(lists_of(best, paths))
        k = 0
        while k < n and time.monotonic() < end:
            size = len(lists_of(best, paths)[k])
            chunk = max(1, size // 2)
            while chunk >= 1 and time.monotonic() < end:
                i = 0
                while time.monotonic() < end:
                    lst = lists_of(best, paths)
                    if k >= len(lst) or i >= len(lst[k]):
                        break
                    cand = copy.deepcopy(best)
                    del lists_of(cand, paths)[k][i:i + chunk]
                    tries += 1
                    if fails(cand):
                        best = cand
                        progress = True
                    else:
                        i += chunk
                if chunk == 1:
                    break
                chunk //= 2
            n = len(lists_of(best, paths))
            k += 1
    return best, tries
