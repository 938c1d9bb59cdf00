"""C01: relayout equals a fresh layout, whatever the history."""

from ..doc import DocGen, DocModel, RealDocs, compare, outcome, reference, refused
from ..result import Result
from ..world import World

LISTS = ["ops"]
RULE = ("one run = one generated history of edits, display changes and layouts of "
        "long-lived documents in one world; after every layout each displayed box is "
        "compared with a newly built document in a pristine world; non-trivial = at "
        "least two layouts completed with an edit in between")
FAULTS = "failing layouts, hidden nodes, moves, drops with gc, display changes"


def gen(rng, tier):
    big = tier == "thorough"
    classes = None
    if rng.random() < 0.7:
        classes = ["plain"]
    g = DocGen(rng, max_nodes=rng.choice([3, 5, 8, 12, 20 if big else 12]),
               classes=classes, hide=rng.choice([0, 0.05, 0.15]),
               fail=rng.choice([0, 0.03, 0.1]), other=rng.choice([0, 0.1, 0.3]))
    g.hops = rng.choice([0, 0, 0, 0.3])
    for _ in range(rng.choice([1, 1, 2])):
        g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 1, 1, 2]))]
    rounds = rng.choice([2, 3, 4, 6, 10 if big else 5])
    for r in range(rounds):
        g.lay(g.layout_op(roots))
        if r < rounds - 1:
            style = rng.random()
            for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                if style < 0.2:
                    # same node again and again: value flips and reverts
                    g.style_op(rng.choice(list(g.m.nodes)[:3]))
                else:
                    g.edit(roots)
    return {"ops": g.ops}


def run(sc):
    res = Result()
    world = World()
    model, docs = DocModel(), RealDocs(world)
    good, edits = 0, 0
    seen_edit = False
    for i, op in enumerate(sc["ops"]):
        if not model.apply(op):
            continue
        if op[0] == "layout":
            want = reference(model, op)
            got = outcome(docs, op, model.displayed(op[1]))
            res.log.append([i, want])
            res.hit("layouts")
            d = compare(got, want)
            if d:
                return res.fail("relayout", f"op {i} {op}: {d}")
            if got[0] == "ok":
                good += 1
                if good >= 2 and seen_edit:
                    res.nontrivial = True
            else:
                res.hit("fault:layout_failed_" + got[1])
            continue
        seen_edit = seen_edit or good > 0
        res.hit("op:" + op[0])
        try:
            docs.apply(op)
        except Exception as e:
            if not refused(model, e):
                res.hit("edit_errors")
                return res
            res.hit("fault:rejected")
    return res
