"""C14: hidden nodes stay editable and hiding is fully reversible."""

from .. import disturb
from ..doc import DocGen, DocModel, RealDocs, compare, outcome, reference, refused
from ..result import Result
from ..doc import BLOCKISH

LISTS = ["ops"]
RULE = ("one run = a history of hiding and showing nodes (root included), edits of hidden "
        "nodes, their ancestors and descendants, layouts (some cut short) and tree moves; "
        "each layout is compared with a newly built document that lacks the hidden nodes "
        "altogether; non-trivial = a layout was compared while something was hidden or "
        "after it was shown again")


def gen(rng, tier):
    classes = ["plain"] if rng.random() < 0.6 else None
    g = DocGen(rng, max_nodes=rng.choice([2, 3, 5, 8, 11]), classes=classes,
               hide=rng.choice([0.1, 0.3]), fail=rng.choice([0, 0, 0.03]), other=0.08)
    g.hops = rng.choice([0, 0, 0.3, 0.6])
    g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 1, 2]))]
    p = rng.choice([0, 0, 0.2])
    focus = rng.sample(list(g.m.nodes), min(3, len(g.m.nodes)))
    for _ in range(rng.choice([3, 4, 6, 8])):
        for _ in range(rng.choice([1, 1, 2, 3, 5])):
            r = rng.random()
            focus = [f for f in focus if f in g.m.nodes] or [roots[0]]
            n = rng.choice(focus)
            if r < 0.45:
                if g.m.hidden(n):
                    inl = g.mode.get(g.m.nodes[n].parent) == "i"
                    how = rng.random()
                    if inl and how < 0.5:
                        g.emit(["style", n, ["del", "display", rng.choice(["attr", "item"])]])
                    else:
                        v = "inline" if inl else rng.choice(BLOCKISH)
                        g.emit(["style", n, ["set", "display", v, rng.choice(["attr", "upd"])]])
                else:
                    g.emit(["style", n, ["set", "display", rng.choice([None, "none"]),
                                         rng.choice(["attr", "item"])]])
            elif r < 0.8:
                near = [n] + g.m.ancestors(n) + g.m.subtree(n)
                x = rng.choice(near)
                if rng.random() < 0.75:
                    g.style_op(x, calm=True)
                else:
                    g.emit(["intr", x, rng.choice(["width", "height"]), rng.randrange(100)])
            else:
                g.edit(roots)
        op = g.layout_op(roots)
        if rng.random() < p:
            g.ops.append(op + [disturb.gen_dist(rng, ["host", "trace"])])
        g.lay(op)
    return {"ops": g.ops}


def reached(model, n):
    """Displayed nodes a completed layout certainly visits (inline content next to
    blocks, or inside inline nodes, is not laid out yet)."""
    def block(x):
        return model.nodes[x].decl.read("display") in BLOCKISH

    kids = [c for c in model.nodes[n].children if not model.hidden(c)]
    go = [c for c in kids if block(c)]
    if block(n) and not go:
        go = kids
    return [n] + [x for c in go for x in reached(model, c)]


def run(sc):
    res = Result()
    world = disturb.world_for(sc["ops"])
    model, docs = DocModel(), RealDocs(world)
    ever = False
    for i, op in enumerate(sc["ops"]):
        if not model.apply(op):
            continue
        if op[0] == "layout":
            if len(op) > 4:
                disturb.disturbed_layout(model, docs, op, op[4], res)
                continue
            hidden = [x for x in model.nodes if model.hidden(x)]
            ever = ever or bool(hidden)
            if model.hidden(op[1]):
                got = outcome(docs, op, [])
                res.hit("hidden_root_layouts")
                if got[0] != "ok":
                    return res.fail("hidden-root", f"op {i} {op}: hidden root, layout "
                                    f"fails with {got[1]}")
                if docs.nodes[op[1]].layout is not None:
                    return res.fail("hidden-box", f"op {i} {op}: the hidden root has a box")
                res.nontrivial = True
                continue
            root = model.root_of(op[1])
            # the same document without the nodes that are not displayed; ancestors
            # of the laid out node stay, they are consulted for percentages
            keep = set(model.ancestors(op[1]))
            keep.update(model.displayed(op[1]))
            want = reference(model, op, keep)
            got = outcome(docs, op, model.displayed(op[1]))
            res.log.append([i, want])
            res.hit("layouts_with_hidden" if hidden else "layouts_all_shown")
            d = compare(got, want)
            if d:
                return res.fail("hidden-geometry", f"op {i} {op} (hidden: {hidden}): {d}")
            if got[0] == "ok":
                for x in reached(model, op[1]):
                    for c in model.nodes[x].children:
                        if model.hidden(c) and docs.nodes[c].layout is not None:
                            return res.fail("hidden-box", f"op {i} {op}: hidden node "
                                            f"{c} has a box")
            if ever and got[0] == "ok":
                res.nontrivial = True
            continue
        res.hit("op:" + op[0])
        hid = op[0] in ("style", "intr") and docs.nodes[op[1]].layout is None
        if hid:
            res.hit("edits_of_nodes_without_box")
        try:
            docs.apply(op)
        except Exception as e:
            if refused(model, e):
                res.hit("fault:rejected")
                continue
            return res.fail("edit-error", f"op {i} {op} raised {type(e).__name__}: {e}")
    return res
