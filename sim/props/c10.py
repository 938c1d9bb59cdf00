"""C10: absolute and relative positions always agree."""

from .. import disturb
from ..doc import DocGen, DocModel, RealDocs, outcome
from ..result import Result
from .c02 import step

LISTS = ["ops"]
RULE = ("one run = a history of edits, layouts (some failing or interrupted before the "
        "next one) and host moves of boxes; position and edge invariants are checked on "
        "every displayed node after every completed layout and every move; non-trivial = "
        "a document of depth two or more was checked")


def gen(rng, tier):
    classes = ["plain"] if rng.random() < 0.6 else None
    g = DocGen(rng, max_nodes=rng.choice([2, 4, 7, 10, 14]), classes=classes,
               hide=rng.choice([0, 0.06, 0.15]), fail=rng.choice([0, 0.02, 0.06]),
               other=0.05)
    g.hops = rng.choice([0, 0, 0.3, 0.6])
    g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 1, 2]))]
    p = rng.choice([0, 0, 0.3])
    for _ in range(rng.choice([2, 3, 4])):
        for _ in range(rng.choice([0, 1, 2, 4])):
            g.edit(roots)
        op = g.layout_op(roots)
        if rng.random() < p:
            g.ops.append(op + [disturb.gen_dist(rng, ["host", "trace", "recursion"])])
        g.lay(op)
        ids = g.m.subtree(op[1])
        if rng.random() < 0.5:              # a few boxes, one above the other
            x = rng.choice(ids)
            ids = [x] + [y for y in g.m.ancestors(x) if y in ids][:2]
        axes = rng.choice([["content_top"], ["content_left"], ["content_top", "content_left"]])
        a = rng.choice([1, 4, 5, 2.5, 30])
        pool = rng.choice([[0, 0, 1, 5, -4, 10, 33, 2.5, 100], [0, a, -a], [0, a, -a, 2 * a]])
        for _ in range(rng.choice([0, 1, 2, 3, 6, 15])):
            n = rng.choice(ids)
            f = rng.choice(axes)
            if rng.random() < 0.12:
                f = rng.choice(["content_width", "content_height"])
            v = rng.choice(pool)
            if "width" in f or "height" in f:
                v = abs(v)
            g.emit(["boxset", n, f, v])
    return {"ops": g.ops}


def run(sc):
    res = Result()
    world = disturb.world_for(sc["ops"])
    model, docs = DocModel(), RealDocs(world)
    laid = None            # (root, displayed ids) of the last completed layout
    for i, op in enumerate(sc["ops"]):
        if not model.apply(op):
            continue
        k = op[0]
        if k == "layout":
            if len(op) > 4:
                disturb.disturbed_layout(model, docs, op, op[4], res)
                laid = None
                continue
            got = outcome(docs, op, [])
            laid = (op[1], model.displayed(op[1])) if got[0] == "ok" else None
            if laid is None:
                res.hit("fault:layout_failed_" + got[1])
        elif k == "boxset":
            if laid is None or op[1] not in laid[1]:
                continue
            docs.apply(op)
            res.hit("host_moves")
        else:
            # after an edit positions are only claimed again after the next layout
            if k in ("attach", "detach", "drop", "restyle", "rehint", "rebox"):
                laid = None
            elif k == "style" or k == "intr":
                laid = None
            if not step(model, docs, op, res):
                return res
            continue
        if laid:
            bad = check(model, docs, *laid)
            res.log.append([i, docs.geom(laid[1])])
            res.hit("checked_after_" + k)
            if bad:
                return res.fail("position", f"op {i} {op}: {bad}")
            if any(model.nodes[x].parent in laid[1] for x in laid[1]):
                res.nontrivial = True
    return res


def close(a, b):
    return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def check(model, docs, root, ids):
    idset = set(ids)
    for i in ids:
        b = docs.nodes[i].layout
        if b is None:
            return f"displayed node {i} has no box"
        w, h = b.content_width, b.content_height
        p = model.nodes[i].parent
        if i != root and p in idset:
            pb = docs.nodes[p].layout
            ol, ot = pb.absolute_content_left, pb.absolute_content_top
        else:
            ol = ot = 0
        want = []
        L, T = b.content_left, b.content_top
        want += [("absolute_content_left", ol + L), ("absolute_content_top", ot + T)]
        pl, pt, pr, pb_ = b.padding_left, b.padding_top, b.padding_right, b.padding_bottom
        bl, bt, br, bb = (b.border_left_width, b.border_top_width,
                          b.border_right_width, b.border_bottom_width)
        want += [("padding_box_left", L - pl), ("padding_box_top", T - pt),
                 ("border_box_left", L - pl - bl), ("border_box_top", T - pt - bt),
                 ("absolute_padding_box_left", ol + L - pl),
                 ("absolute_padding_box_top", ot + T - pt),
                 ("absolute_border_box_left", ol + L - pl - bl),
                 ("absolute_border_box_top", ot + T - pt - bt)]
        if w is not None:
            want += [("content_right", L + w), ("absolute_content_right", ol + L + w),
                     ("padding_box_right", L + w + pr),
                     ("border_box_right", L + w + pr + br),
                     ("padding_box_width", pl + w + pr),
                     ("border_box_width", bl + pl + w + pr + br),
                     ("absolute_padding_box_right", ol + L + w + pr),
                     ("absolute_border_box_right", ol + L + w + pr + br)]
        if h is not None:
            want += [("content_bottom", T + h), ("absolute_content_bottom", ot + T + h),
                     ("padding_box_bottom", T + h + pb_),
                     ("border_box_bottom", T + h + pb_ + bb),
                     ("padding_box_height", pt + h + pb_),
                     ("border_box_height", bt + pt + h + pb_ + bb),
                     ("absolute_padding_box_bottom", ot + T + h + pb_),
                     ("absolute_border_box_bottom", ot + T + h + pb_ + bb)]
        for name, v in want:
            try:
                got = getattr(b, name)
            except Exception as e:
                return f"node {i}: reading {name} raised {e!r}"
            if not close(got, v):
                return f"node {i}: {name} is {got}, should be {v}"
    return None
