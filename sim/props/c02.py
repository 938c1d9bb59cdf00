"""C02: a failed or disturbed layout leaves no trace in the next one."""

from .. import disturb
from ..doc import DocGen, DocModel, RealDocs, compare, outcome, reference, refused
from ..result import Result
from ..world import World

LISTS = ["ops"]
RULE = ("one run = a history of edits and layouts in which some layouts are cut short "
        "or disturbed at a seeded callback, statement or sub-expression; every following undisturbed "
        "layout (same and other documents) is compared with a newly built document in a "
        "pristine world; non-trivial = a disturbance actually fired and a later layout "
        "was compared")


def gen(rng, tier):
    classes = ["plain"] if rng.random() < 0.7 else None
    g = DocGen(rng, max_nodes=rng.choice([2, 4, 7, 10, 14]), classes=classes,
               hide=rng.choice([0, 0.08]), fail=rng.choice([0, 0.02, 0.08]),
               other=0.05)
    g.hops = rng.choice([0, 0, 0.3, 0.6])
    g.display()
    if rng.random() < 0.3:
        g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 2]))]
    kinds = rng.sample(["host", "trace", "recursion", "mutate", "nested", "resize"],
                       rng.randrange(1, 5))
    if rng.random() < 0.6:
        g.lay(g.layout_op(roots))
    for _ in range(rng.choice([1, 2, 2, 3])):
        for _ in range(rng.choice([0, 0, 1, 2, 4])):
            g.edit(roots)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            op = g.layout_op(roots)
            d = disturb.gen_dist(rng, kinds)
            if d["type"] in ("mutate", "resize"):
                start = len(g.ops)
                for _ in range(rng.choice([1, 1, 2, 4])):
                    if d["type"] == "resize":
                        disp = rng.choice(list(g.m.displays))
                        g.emit(["disp", disp, rng.choice(["content_width", "content_height", "dpi"]),
                                rng.choice([100, 96, 400, 720])])
                    else:
                        g.edit(roots)
                d["ops"] = g.ops[start:]
                del g.ops[start:]
            elif d["type"] == "nested":
                d["ops"] = [g.layout_op(roots)]
            g.ops.append(op + [d])
        for _ in range(rng.choice([0, 0, 0, 1])):
            g.edit(roots)
        last = g.ops[-1] if g.ops[-1][0] == "layout" else g.layout_op(roots)
        g.lay(last[:4] if rng.random() < 0.7 else g.layout_op(roots))
        if len(roots) > 1 and rng.random() < 0.5:
            g.emit(g.layout_op(roots))
    return {"ops": g.ops}


def run(sc):
    res = Result()
    world = World(points=True)
    model, docs = DocModel(), RealDocs(world)
    fired_before = False
    for i, op in enumerate(sc["ops"]):
        if not model.apply(op):
            continue
        if op[0] != "layout":
            if not step(model, docs, op, res):
                return res
            continue
        if len(op) > 4:
            diverged = []

            def on_act(dist):
                for o in dist["ops"]:
                    if not model.apply(o):
                        continue
                    if o[0] == "layout":
                        outcome(docs, o, [])
                    elif not step(model, docs, o, res):
                        diverged.append(1)

            raised, fired = disturb.disturbed_layout(model, docs, op, op[4], res, on_act)
            res.log.append([i, raised, fired])
            res.hit("disturbed_layouts")
            if diverged:
                return res
            fired_before = fired_before or fired or raised is not None
            continue
        want = reference(model, op)
        got = outcome(docs, op, model.displayed(op[1]))
        res.log.append([i, want])
        res.hit("layouts_compared")
        d = compare(got, want)
        if d:
            return res.fail("trace-left", f"op {i} {op}, after a disturbed layout: {d}")
        if fired_before:
            res.nontrivial = True
        if got[0] == "err":
            res.hit("fault:unsupported_" + got[1])
            fired_before = True
    return res


def step(model, docs, op, res):
    """An edit on the real side; False if it ended in an unexpected error."""
    try:
        docs.apply(op)
    except Exception as e:
        if not refused(model, e):
            res.hit("edit_errors")
            return False
        res.hit("fault:rejected")
    return True
