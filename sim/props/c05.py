"""C05: a change that can affect layout always marks the affected boxes."""

from .. import catalog as C
from .. import disturb
from .. import host as H
from ..doc import DocGen, DocModel, RealDocs, outcome, refused
from ..model import apply_real, few_values, gen_style_op
from ..result import Result
from ..tracing import traced

LISTS = ["ops"]
RULE = ("one run = a history of style, size-hint and tree changes with layouts and "
        "arbitrary prior marks between them, some layouts and changes cut short; after every change the marks of all boxes "
        "are compared with the set the reference model says must (may) be marked; "
        "non-trivial = at least one effective change was checked on a node with a box")


def gen(rng, tier):
    g = DocGen(rng, max_nodes=rng.choice([2, 4, 7, 10]),
               classes=None if rng.random() < 0.7 else ["plain"],
               hide=rng.choice([0, 0.1, 0.2]), fail=rng.choice([0, 0, 0.05]), other=0.3)
    g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 1, 2]))]
    few = rng.sample(C.SETTABLE, 4)
    value = few_values(rng) if rng.random() < 0.3 else None
    if rng.random() < 0.35:
        return _faults(rng, _narrow(rng, g, value))
    for _ in range(rng.choice([2, 3, 5])):
        r = rng.random()
        if r < 0.5:
            g.emit(g.layout_op(roots))
            if rng.random() < 0.15:     # a box the host does not draw
                g.emit(["boxset", rng.choice(list(g.m.nodes)), "visible", False])
            g.emit(["clean", roots[0]])
        elif r < 0.8:
            ids = list(g.m.nodes)
            for _ in range(rng.choice([1, 2, 4])):
                g.emit(["mark", rng.choice(ids), rng.choice([False, False, True, None])])
        for _ in range(rng.choice([1, 2, 4, 8])):
            ids = list(g.m.nodes)
            r = rng.random()
            if r < 0.5:
                n = rng.choice(ids)
                names = few if rng.random() < 0.3 else C.SETTABLE
                g.emit(["style", n, gen_style_op(rng, names, value=value)])
                if rng.random() < 0.35:
                    sop = g.ops[-1][2]
                    g.emit(["clean" if rng.random() < 0.7 else "look", n])
                    if rng.random() < 0.5:
                        sop = C.near_op(rng, sop)
                    g.emit(["style", n, sop])   # the same again, or nearly
            elif r < 0.6:
                g.edit(roots)
            elif r < 0.75:
                n = rng.choice(ids)
                f = rng.choice(["width", "height", "exact_width", "exact_height",
                                "ratio", "is_replaced"])
                v = {"width": [None, 0, 1, 50], "height": [None, 0, 1, 20],
                     "exact_width": [True, False], "exact_height": [True, False],
                     "ratio": [None, 0.5, 2], "is_replaced": [True, False]}[f]
                g.emit(["intr", n, f, rng.choice(v)])
            elif r < 0.85:
                g.emit(["mark", rng.choice(ids), rng.choice([False, False, True, None])])
            else:
                g.emit(["clean", rng.choice(ids)])
    return _faults(rng, {"ops": g.ops})


def _faults(rng, sc):
    """Some layouts and changes are cut short first."""
    p = rng.choice([0, 0, 0.1, 0.4])
    kinds = rng.choice([["host"], ["trace"], ["host", "trace", "recursion"]])
    out = []
    for op in sc["ops"]:
        if op[0] == "layout" and rng.random() < p:
            out.append(op + [disturb.gen_dist(rng, kinds)])
        elif op[0] == "style" and "trace" in kinds and rng.random() < p * 0.4:
            out.append(op + [{"type": "trace", "f": rng.random(), "exc": rng.choice(
                ["KeyboardInterrupt", "MemoryError", "Cancelled"])}])
        out.append(op)
    return {"ops": out}


def _narrow(rng, g, value):
    """A few properties of one or two nodes, changed and reset again and again."""
    few = rng.sample(C.NAMES if rng.random() < 0.7 else C.SETTABLE, rng.choice([1, 2, 3]))
    p_del = rng.choice([0.1, 0.3, 0.45])
    ids = rng.sample(list(g.m.nodes), min(2, len(g.m.nodes)))
    roots = [x for x in g.m.nodes if g.m.nodes[x].parent is None]
    for _ in range(rng.choice([6, 12, 25])):
        n = rng.choice(ids)
        r = rng.random()
        last = g.past.get(n)
        if r < 0.25 and last:
            g.emit(["style", n, C.near_op(rng, last[-1])])
        elif r < 0.9:
            g.emit(["style", n, gen_style_op(rng, few, p_rej=0.03, p_upd=0.08, p_del=p_del,
                                             value=value)])
        elif r < 0.93:
            g.emit(g.layout_op(roots))
        if rng.random() < 0.75:
            g.emit(["clean", n])
    return {"ops": g.ops}


MARKING_FREE = ("color", "spacing", "rect", "quotes", "cursor")


def run(sc):
    res = Result()
    world = disturb.world_for(sc["ops"])
    model, docs = DocModel(), RealDocs(world)
    fresh_roots = set()       # roots laid out with no edit since
    for i, op in enumerate(sc["ops"]):
        k = op[0]
        if k == "style" and op[1] in model.nodes:
            pre = model.nodes[op[1]].decl.copy()
        elif k == "intr" and op[1] in model.nodes:
            pre_i = dict(model.nodes[op[1]].intr)
        if k == "style" and len(op) > 3:
            # cut short; what it leaves is C13's concern, the next change is checked
            if op[1] in docs.nodes:
                _cut(world, model, docs, op, res)
                fresh_roots.clear()
            continue
        if not model.apply(op):
            continue
        if k == "layout" and len(op) > 4:
            disturb.disturbed_layout(model, docs, op, op[4], res)
            fresh_roots.clear()
            continue
        if k in ("style", "intr"):
            n = op[1]
            before = docs.marks(model.nodes)
            # nodes whose box must be marked by an effective change at n
            required = _with_boxes(model, docs, n)
            allowed = set(model.subtree(n))
            rejected = False
            try:
                docs.apply(op)
            except Exception as e:
                rejected = True
                if not refused(model, e):
                    return res.fail("edit-error", f"op {i} {op} raised {e!r}")
            after = docs.marks(model.nodes)
            fresh_roots.clear()
            if k == "style":
                post = model.nodes[n].decl
                changed = pre.all() != post.all()
                free = not (rejected and op[2][0] == "set") and _ambiguous(pre, op[2])
            else:
                changed = pre_i != model.nodes[n].intr
                free = False
            res.log.append([i, changed, rejected])
            res.hit("changes" if changed else "noops")
            if changed and required:
                res.nontrivial = True
            if changed:
                bad = [x for x in required if after[x] != [True]]
                if bad:
                    return res.fail("unmarked", f"op {i} {op}: effective change, but "
                                    f"{bad} not marked (before {[before[b] for b in bad]})")
                bad = [x for x in after if x not in allowed and after[x] != before[x]]
                if bad:
                    return res.fail("overmarked", f"op {i} {op}: {bad} outside the "
                                    f"subtree changed marks")
            else:
                ok = after == before
                if not ok and free:
                    ok = all(after[x] == [True] for x in required) and all(
                        after[x] == before[x] for x in after if x not in allowed)
                if not ok:
                    bad = [x for x in after if after[x] != before[x]]
                    return res.fail("noop-marks", f"op {i} {op}: nothing changed, but "
                                    f"marks of {bad} did")
            continue
        if k == "layout":
            got = outcome(docs, op, [])
            fresh_roots = {op[1]} if got[0] == "ok" else set()
            res.hit("layouts")
            continue
        if k == "clean":
            docs.apply(op)
            if op[1] in fresh_roots and not model.hidden(op[1]):
                res.hit("clean_after_layout")
                m = docs.marks(model.displayed(op[1]))
                bad = [x for x in m if m[x] != [False]]
                if bad:
                    return res.fail("not-cleared", f"op {i} {op}: {bad} still marked "
                                    f"{[m[b] for b in bad]}")
            continue
        res.hit("op:" + k)
        try:
            docs.apply(op)
        except Exception as e:
            if k in ("mark", "restyle", "look"):
                return res.fail("edit-error", f"op {i} {op} raised {e!r}")
            raise
        if k not in ("look", "mark", "boxset"):
            fresh_roots.clear()
    return res


def _cut(world, model, docs, op, res):
    """The change is cut short and made again, which settles what is assigned."""
    dist = op[3]
    op = op[:3]
    probe = docs.klasses["plain"](world, H.Host(), "probe").style
    for p in C.NAMES:
        if p in model.nodes[op[1]].decl.vals:
            setattr(probe, p, getattr(docs.nodes[op[1]].style, p))
    _, _, n, _ = traced(lambda: apply_real(world, probe, op[2]))
    _, _, _, fired = traced(lambda: docs.apply(op), at=1 + int(dist["f"] * n * 1.3),
                            exc=H.EXC[dist["exc"]])
    if fired:
        res.hit("fault:cut_change_" + dist["exc"])
    if model.apply(op):
        try:
            docs.apply(op)
        except Exception as e:
            if not refused(model, e):
                raise


def _with_boxes(model, docs, n):
    if docs.nodes[n].layout is None:
        return set()
    out = {n}
    for c in model.nodes[n].children:
        if docs.nodes[c].layout is not None and not model.hidden(c):
            out |= _with_boxes(model, docs, c)
    return out


def _ambiguous(pre, sop):
    """A no-op whose marking the property leaves open: shorthands, values without
    a notion of equality, deleting or assigning a value equal to the initial one."""
    if sop[0] == "del":
        names = [sop[1]]
    elif sop[0] == "set":
        names = [sop[1]]
    else:
        names = [p[0] for p in sop[1]]
    touched = [l for name in names for l in C.addressed(name)]
    if len(touched) != len(set(touched)):
        return True         # a bulk update that writes one property twice
    for name in names:
        if name in C.SHORTHAND or name == "border":
            return True
        for l in C.addressed(name):
            p = C.PROPS[l]
            if p.kind in MARKING_FREE and sop[0] != "del":
                return True
            if isinstance(p.initial, tuple):
                return True
            if l in pre.vals and pre.vals[l] == pre.initial(l):
                return True
    return False
