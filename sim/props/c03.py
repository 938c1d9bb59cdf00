"""C03: computing a layout changes nothing but the boxes it computes."""

from .. import catalog as C
from .. import disturb
from .. import values as V
from ..doc import DocGen, DocModel, INTR_DEFAULT, RealDocs
from ..result import Result
from ..world import World
from .c02 import step

LISTS = ["ops"]
RULE = ("one run = a history of edits and layouts (whole documents and subtrees), some "
        "failing or interrupted at a seeded point; styles, listings, size hints, links, "
        "displays, initial values, unit constants and outside boxes are compared before "
        "and after every layout; non-trivial = a layout of a document with at least two "
        "nodes was checked")


def gen(rng, tier):
    classes = ["plain"] if rng.random() < 0.6 else None
    g = DocGen(rng, max_nodes=rng.choice([2, 4, 7, 10]), classes=classes,
               hide=rng.choice([0, 0.1]), fail=rng.choice([0, 0.03, 0.12]),
               other=rng.choice([0.1, 0.4]))
    g.hops = rng.choice([0, 0, 0.3, 0.6])
    g.display()
    if rng.random() < 0.4:
        g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 2, 2]))]
    kinds = rng.sample(["host", "trace", "recursion"], rng.randrange(1, 4))
    p = rng.choice([0, 0.3, 0.7])
    for _ in range(rng.choice([2, 3, 4])):
        for _ in range(rng.choice([0, 1, 2, 4])):
            g.edit(roots)
        op = g.layout_op(roots)
        if rng.random() < 0.5:
            op[1] = rng.choice(list(g.m.nodes))
        if rng.random() < p:
            g.ops.append(op + [disturb.gen_dist(rng, kinds)])
        else:
            g.lay(op)
    return {"ops": g.ops}


def snapshot(model, docs, inside):
    w = docs.world
    s = {}
    for i in model.nodes:
        n = docs.nodes[i]
        for p in C.NAMES:
            s[f"style {i}.{p}"] = V.read(w, n.style, p)
        s[f"style listing of {i}"] = sorted(
            [k, V.show(w, v)] for k, v in n.style.items()) if not _mixed(n) else None
        s[f"style keys of {i}"] = V.listing(n.style)
        for f in INTR_DEFAULT:
            s[f"intrinsic {i}.{f}"] = getattr(n.intrinsic, f)
        s[f"parent of {i}"] = None if n.parent is None else n.parent.name
        s[f"children of {i}"] = [c.name for c in n._children]
        if i not in inside:
            s[f"box of {i} (outside)"] = docs.geom([i])[i]
    for d in docs.displays:
        x = docs.displays[d]
        s[f"display {d}"] = [dict(x._v), dict(x._fixed), sorted(vars(x))]
    css = w.CSS()
    for p in C.NAMES:
        s[f"initial {p}"] = V.read(w, css, p)
    for u in V.SUFFIX:
        s[f"unit {u}"] = V.read(w, w.units, u)
    return s


def _mixed(n):
    return True     # keys plus reads cover the listing; item order is free


def run(sc):
    res = Result()
    world = World(points=True)
    model, docs = DocModel(), RealDocs(world)
    for i, op in enumerate(sc["ops"]):
        if not model.apply(op):
            continue
        if op[0] != "layout":
            if not step(model, docs, op, res):
                return res
            continue
        inside = set(model.subtree(op[1]))
        before = snapshot(model, docs, inside)
        raised = None
        if len(op) > 4:
            raised, fired = disturb.disturbed_layout(model, docs, op, op[4], res)
        else:
            try:
                docs.apply(op)
            except Exception as e:
                raised = type(e).__name__
                res.hit("fault:unsupported_" + raised)
        after = snapshot(model, docs, inside)
        res.log.append([i, raised, len(before)])
        res.hit("layouts_checked")
        if inside != set(model.nodes):
            res.hit("layouts_with_outside")
        for k in before:
            if before[k] != after.get(k):
                return res.fail("side-effect",
                                f"op {i} {op} (ended: {raised}): {k} was {before[k]}, "
                                f"is {after.get(k)}")
        if len(model.nodes) > 1:
            res.nontrivial = True
    return res
