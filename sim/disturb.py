"""Layouts under injected faults."""

import sys

from . import host as H
from .doc import build_fresh
from .tracing import traced
from .world import World

TRACE_EXC = ["KeyboardInterrupt", "MemoryError", "RecursionError", "Cancelled"]
HOST_EXC = ["HostFault", "HostFault", "KeyboardInterrupt", "Cancelled", "MemoryError"]


def gen_dist(rng, kinds):
    kind = rng.choice(kinds)
    f = rng.choice([rng.random(), rng.random(), rng.random() ** 3, 1 - rng.random() ** 3])
    if kind == "host":
        return {"type": "host", "f": f, "exc": rng.choice(HOST_EXC)}
    if kind == "trace":
        return {"type": "trace", "f": f, "exc": rng.choice(TRACE_EXC),
                "fine": rng.random() < 0.3}
    if kind == "recursion":
        return {"type": "recursion", "f": f}
    return {"type": kind, "f": f, "ops": []}


def _count(model, op, fine):
    """Host callbacks and library events of the undisturbed layout."""
    docs = build_fresh(World(points=True), model, model.root_of(op[1]))
    docs.host.arm({})
    _, _, n, _ = traced(lambda: docs.apply(op), fine=fine)
    return docs.host.count, n


def _countable(model, op, fine):
    try:
        return _count(model, op, fine)
    except Exception:
        return 1, 1


def disturbed_layout(model, docs, op, dist, res, on_act=None, between=None):
    """Run layout `op` under `dist`.  Returns (raised class name or None, fired)."""
    kind = dist["type"]
    if kind == "recursion":
        res.hit("armed:recursion")
        old = sys.getrecursionlimit()
        extra = 4 + int(dist["f"] * (2 * _depth(model, op[1]) + 10))
        try:
            try:
                sys.setrecursionlimit(H.call_depth() + extra)
                docs.apply(op[:3] + [op[3].partition("@")[0]])
            finally:
                sys.setrecursionlimit(old)
        except RecursionError:
            res.hit("fault:recursion_exhausted")
            return "RecursionError", True
        except Exception as e:
            return type(e).__name__, False
        return None, False

    fine = dist.get("fine", False)
    cb, ev = _countable(model, op, fine)
    res.steps += ev
    if kind == "trace":
        k = 1 + int(dist["f"] * ev)
        exc = H.EXC[dist["exc"]]
        how, val, n, fired = traced(lambda: docs.apply(op[:4]), at=k, exc=exc,
                                    fine=fine)
        if fired:
            res.hit("fault:interrupt_" + dist["exc"])
        return (type(val).__name__ if how == "err" else None), fired

    k = 1 + int(dist["f"] * cb)
    if kind == "host":
        def act():
            raise H.EXC[dist["exc"]]()
    else:
        def act():
            on_act(dist)
    docs.host.arm({k: act})
    try:
        docs.apply(op[:4])
        raised = None
    except H.Cancelled:
        raised = "Cancelled"
    except (Exception, KeyboardInterrupt) as e:
        raised = type(e).__name__
    fired = docs.host.fired > 0
    docs.host.disarm()
    if fired:
        res.hit("fault:host_" + kind + ("_" + dist["exc"] if kind == "host" else ""))
    return raised, fired


def _depth(model, n):
    ch = model.nodes[n].children
    return 1 + max([_depth(model, c) for c in ch], default=0)


def world_for(ops):
    """A world; one with points when an operation is to be cut short at one."""
    return World(points=any(isinstance(op[-1], dict) and op[-1].get("type") == "trace"
                            for op in ops))
