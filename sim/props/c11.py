"""C11: independent updates commute and repeated ones are harmless."""

import heapq
import random

from .. import catalog as C
from ..decl import REJECTIONS
from ..doc import INTR_DEFAULT, DocGen, DocModel, RealDocs, compare, outcome
from ..model import few_values, gen_style_op
from ..result import Result
from ..world import World

LISTS = ["setup", "updates", "replicas", "replicas.*.layouts"]
RULE = ("one run = per-property update streams for the nodes and display of a document, "
        "sent over a simulated network (seeded delay, reordering between streams, loss "
        "with retransmission, duplicate delivery of the latest update, partitions) to "
        "replicas that also lay out at seeded times; once everything is delivered each "
        "replica's declarations and geometry must equal those of one that got the updates "
        "in sending order, once; non-trivial = a replica received them in another order "
        "or more than once")


def touched(op):
    """What an update writes; updates that write the same thing are ordered."""
    if op[0] == "disp":
        return {("disp", op[1], op[2])}
    if op[0] == "intr":
        return {("intr", op[1], op[2])}
    sop = op[2]
    names = [p[0] for p in sop[1]] if sop[0] == "upd" else [sop[1]]
    return {("style", op[1], l) for n in names for l in C.addressed(n)}


def streams_of(updates):
    """The updates in independent streams: two that write the same property are in
    the same one, and so on transitively.  A property whose initial value tracks
    another is independent of it: tracking must commute."""
    root = {}

    def find(x):
        while root.setdefault(x, x) != x:
            x = root[x]
        return x

    for op in updates:
        t = sorted(touched(op))
        for x in t[1:]:
            root[find(x)] = find(t[0])
    out = {}
    for i, op in enumerate(updates):
        t = sorted(touched(op))
        if t:
            out.setdefault(find(t[0]), []).append(i)
    return out


FAMILIES = [
    C.SETTABLE, list(C.DIRECTIONAL), list(C.SHORTHAND) + ["border"],
    ["direction", "text_align", "color", "border_color", "border_top_color"],
    ["outline", "outline_style", "outline_width", "outline_color"],
    ["margin_left", "margin_right", "direction", "width"],
    ["position", "left", "right", "top", "bottom"],
    ["position", "z_index", "display", "float", "clear", "visibility"],
    ["clip", "quotes", "cursor", "border_spacing"], ["clip", "quotes"],
    [f"border_{s}_{p}" for s in C.SIDES for p in ("style", "width", "color")],
    ["width", "height", "min_width", "max_width", "min_height", "max_height"],
]


def gen(rng, tier):
    g = DocGen(rng, max_nodes=rng.choice([2, 3, 5, 8]),
               classes=None if rng.random() < 0.6 else ["plain"],
               hide=rng.choice([0, 0.1]), fail=rng.choice([0, 0, 0.04]), other=0.3)
    d = g.display()
    root = g.tree()
    setup = list(g.ops)
    ids = list(g.m.nodes)
    focus = ids if rng.random() < 0.5 else rng.sample(ids, min(2, len(ids)))
    updates = []
    family = rng.choice(FAMILIES)
    r = rng.random()
    if r < 0.4:
        family = rng.sample(C.NAMES, 4)
    elif r < 0.7:
        # neighbours in the specification
        i = rng.randrange(len(C.NAMES) - 4)
        family = C.NAMES[i:i + rng.choice([4, 6, 8])]
    narrow = rng.random() < 0.4
    if narrow:
        # a few properties of one node, related or not
        if len(family) > 6:
            family = rng.sample(family, 4)
        elif rng.random() < 0.3:
            family = family + rng.sample(C.NAMES, 2)
        longs = [n for n in family if n in C.PROPS]
        if len(longs) > 1 and rng.random() < 0.7:
            family = longs      # a shorthand would order them all
        focus = focus[:1]
        value = few_values(rng) if rng.random() < 0.7 else None
    hints = not narrow and rng.random() < 0.15
    if hints and rng.random() < 0.7:
        # content with a size of its own
        for n in focus:
            if not g.is_block(n):
                g.emit(["intr", n, "is_replaced", True])
                g.emit(["intr", n, "ratio", rng.choice([0.5, 2])])
        setup = list(g.ops)
    for _ in range(rng.choice([2, 4, 8, 16, 30])):
        start = len(g.ops)
        r = rng.random()
        n = rng.choice(focus)
        if narrow:
            g.emit(["style", n, gen_style_op(rng, family, p_upd=0.05, p_rej=0.05,
                                                value=value)])
        elif hints:
            g.emit(_hint(rng, g, n))
        elif r < 0.55:
            g.style_op(n)
        elif r < 0.8:
            names = rng.choice([family, family, rng.choice(FAMILIES)])
            names = [x for x in names if x not in ("display", "position", "float")]
            g.emit(["style", n, gen_style_op(rng, names, p_upd=0.05)])
        elif r < 0.92:
            g.emit(_hint(rng, g, n))
        else:
            f = rng.choice(["content_width", "content_height", "dpi"])
            g.emit(["disp", d, f, rng.choice([72, 96, 300, 640])])
        updates += g.ops[start:]
    reps = []
    for _ in range(rng.choice([1, 2, 2])):
        reps.append({
            "seed": rng.randrange(1 << 32),
            "jitter": rng.choice([5, 50, 400]),
            "loss": rng.choice([0, 0.1, 0.3]),
            "dup": rng.choice([0, 0.2, 0.5]),
            "partition": rng.choice([0, 0, 300]),
            "layouts": sorted(rng.randrange(0, 600)
                              for _ in range(rng.choice([0, 1, 3, 6]))),
        })
    return {"setup": setup, "root": root, "display": d, "updates": updates,
            "replicas": reps, "standard": rng.choice(["HTML5", "HTML4"])}


def _hint(rng, g, n):
    block = g.is_block(n)
    f = rng.choice(["width", "height", "ratio", "is_replaced", "exact_width",
                    "exact_height"])
    if f == "is_replaced":
        return ["intr", n, f, not block and rng.random() < 0.6]
    if f.startswith("exact"):
        return ["intr", n, f, rng.random() < 0.5]
    if f == "ratio":
        return ["intr", n, f, rng.choice([0.5, 1, 2, None])]
    return ["intr", n, f, rng.choice([1, 10, 60] + [None] * (not block))]


def deliver(sc, rep, res):
    """Simulate the network; returns the replica's events in order.

    Per stream: the sender sends update k until it is acknowledged, then k+1; the
    receiver applies an update that is next in line, and applies the latest one
    again whenever it arrives again.
    """
    rng = random.Random(rep["seed"])
    streams = streams_of(sc["updates"])
    q, seq = [], 0
    out = []
    now = 0

    def push(t, ev):
        nonlocal seq
        seq += 1
        heapq.heappush(q, (t, seq, ev))

    keys = sorted(streams, key=str)
    cut = {k: (rng.randrange(0, 300), rep["partition"]) for k in keys
           if rep["partition"] and rng.random() < 0.4}
    expected = dict.fromkeys(keys, 0)
    acked = dict.fromkeys(keys, 0)

    def lossy(k, t):
        if k in cut and cut[k][0] <= t < sum(cut[k]):
            res.hit("fault:partitioned")
            return True
        if t < 3000 and rng.random() < rep["loss"]:
            res.hit("fault:lost")
            return True
        return False

    def lat():
        return 1 + rng.randrange(rep["jitter"])

    for k in keys:
        push(rng.randrange(rep["jitter"]), ["send", k, 0])
    for t in rep["layouts"]:
        push(t, ["layout"])
    while q:
        now, _, ev = heapq.heappop(q)
        if ev[0] == "layout":
            out.append(("layout", None))
            continue
        k = ev[1]
        if ev[0] == "send":
            n = ev[2]
            if acked[k] != n or n >= len(streams[k]):
                continue
            if not lossy(k, now):
                push(now + lat(), ["msg", k, n])
                if rng.random() < rep["dup"]:
                    push(now + lat(), ["msg", k, n])
            push(now + 2 * rep["jitter"] + 5, ["send", k, n])
        elif ev[0] == "msg":
            n = ev[2]
            if n == expected[k]:
                expected[k] += 1
                out.append(("apply", streams[k][n]))
            elif n == expected[k] - 1:
                res.hit("fault:delivered_again")
                out.append(("again", streams[k][n]))
            else:
                continue
            if not lossy(k, now):
                push(now + lat(), ["ack", k, n])
        elif ev[0] == "ack":
            if ev[2] == acked[k]:
                acked[k] += 1
                push(now, ["send", k, acked[k]])
    res.steps += now
    res.hit("simulated_ms", now)
    return out


def build(world, sc):
    model, docs = DocModel(), RealDocs(world)
    for op in sc["setup"]:
        if model.apply(op):
            try:
                docs.apply(op)
            except REJECTIONS:
                pass
    return model, docs


def act(model, docs, op):
    if op[1] not in model.nodes and op[0] != "disp":
        return None
    if op[0] == "disp" and op[1] not in model.displays:
        return None
    try:
        docs.apply(op)
    except REJECTIONS as e:
        return type(e).__name__
    return None


def _state(docs, x):
    out = docs.decl(x)
    for f in INTR_DEFAULT:
        out["hint " + f] = getattr(docs.nodes[x].intrinsic, f)
    return out


def run(sc):
    res = Result()
    lay = ["layout", sc["root"], sc["display"], sc["standard"]]
    w0 = World()
    model, ref = build(w0, sc)
    if lay[1] not in model.nodes or lay[2] not in model.displays:
        return res
    rejected = {}
    for i, op in enumerate(sc["updates"]):
        rejected[i] = act(model, ref, op)
    ids = model.subtree(sc["root"])
    want = outcome(ref, lay, ids)
    decl = {x: _state(ref, x) for x in model.nodes}
    world = World()
    reps = [(deliver(sc, r, res),) + build(world, sc) for r in sc["replicas"]]
    # the replicas live side by side in one process and progress in turn
    turn = [list(r[0]) for r in reps]
    while any(turn):
        for n, r in enumerate(reps):
            if not turn[n]:
                continue
            kind, i = turn[n].pop(0)
            if kind == "layout":
                outcome(r[2], lay, [])
                res.hit("layouts_between")
                continue
            rej = act(r[1], r[2], sc["updates"][i])
            if (rej is None) != (rejected[i] is None):
                return res.fail("accepted-differently", f"replica {n}: update {i} "
                                f"{sc['updates'][i]} raised {rej}, in sending order "
                                f"{rejected[i]}")
    for n, (events, m, docs) in enumerate(reps):
        order = [i for k, i in events if k == "apply"]
        if order != sorted(order) or any(k == "again" for k, _ in events):
            res.nontrivial = True
        if order != sorted(order):
            res.hit("fault:reordered")
        res.log.append([n, events])
        for x in decl:
            got = _state(docs, x)
            if got != decl[x]:
                p = next(p for p in got if got[p] != decl[x][p])
                return res.fail("diverged", f"replica {n}: {x}.{p} is {got[p]}, delivered "
                                f"in sending order it is {decl[x][p]}")
        d = compare(outcome(docs, lay, ids), want)
        if d:
            return res.fail("diverged-layout", f"replica {n} against sending order: {d}")
    res.log.append(want)
    return res
