"""C15: concurrent writers of different properties lose no update."""

from .. import catalog as C
from .. import decl as D
from .. import host as H
from .. import sched as S
from .. import values as V
from ..doc import DocGen, DocModel, RealDocs, compare, outcome, reference
from ..model import Decl, apply_model, apply_real, gen_style_op
from ..result import Result
from ..tracing import traced
from ..world import World

LISTS = ["threads", "threads.*.ops", "setup", "sched.switches"]
RULE = ("one run = 2-4 threads writing and reading disjoint property groups of one "
        "declaration, or different nodes of one document, under a seeded schedule with "
        "hand-overs at library statements or sub-expressions and stalls; every read-back "
        "must give the thread's own latest value, and at the end every value, listing "
        "and mark must be there and the document must lay out like a newly built one; "
        "non-trivial = at least one switch happened inside an operation")

# Properties whose values or initial values depend on one another stay together.
GROUPS = {
    "margin": ["margin"] + C.DIRECTIONAL["margin"],
    "padding": ["padding"] + C.DIRECTIONAL["padding"],
    "color": ["color", "border"] + list(C.SHORTHAND)[:4]
    + [x for d in C.BORDER_PARTS for x in [d] + C.DIRECTIONAL[d]],
    "outline": ["outline", "outline_color", "outline_style", "outline_width"],
    "text": ["direction", "text_align"],
}
_grouped = {x for g in GROUPS.values() for x in g}
SINGLES = [n for n in C.NAMES if n not in _grouped and n != "background_color"]

# or every longhand on its own, apart from those that track another property
_tracked = ["color"] + C.DIRECTIONAL["border_color"]
LONGHANDS = [_tracked, ["direction", "text_align"]] + [
    [n] for n in C.NAMES
    if n not in _tracked and n not in ("direction", "text_align", "background_color")]


def gen(rng, tier):
    mode = rng.choice(["free", "free", "node", "node", "doc", "doc"])
    sc = {"mode": mode, "fine": rng.random() < 0.5, "sched": S.gen_plan(rng)}
    n = rng.choice([2, 2, 2, 3, 4])
    if mode == "doc":
        g = DocGen(rng, max_nodes=rng.choice([n, n + 1, n + 3]),
                   classes=[rng.choice(H.KLASSES)], hide=0, fail=0, other=0.1,
                   settable=[x for x in C.SETTABLE if x != "background_color"])
        d = g.display()
        root = g.tree(max(n, rng.randrange(2, 6)))
        ids = list(g.m.nodes)
        rng.shuffle(ids)
        sc["setup"] = list(g.ops)
        sc["layout"] = ["layout", root, d, rng.choice(["HTML5", "HTML4"])]
        start = len(g.ops)
        threads = []
        # few properties or only size hints: threads meet in the same places
        r = rng.random()
        few = rng.sample([x for x in C.NAMES if x != "background_color"],
                         rng.choice([1, 1, 2, 3])) if r < 0.35 else None
        hints = 0.9 if 0.35 < r < 0.5 else 0.25
        for t in range(n):
            mine = ids[t::n]
            ops = []
            for _ in range(rng.choice([1, 2, 4, 8]) if mine else 0):
                x = rng.choice(mine)
                del g.ops[start:]
                if few:
                    ops.append(["style", x, gen_style_op(rng, few, p_rej=0.05)])
                elif rng.random() < hints:
                    f = rng.choice(["width", "height", "ratio"])
                    ops.append(["intr", x, f, rng.choice([1, 7, 33, 60])])
                else:
                    g.style_op(x)
                    ops += g.ops[start:]
            threads.append({"ops": ops})
        sc["threads"] = threads
        return sc
    # one declaration, disjoint groups
    pieces = [list(g) for g in GROUPS.values()] + [[s] for s in SINGLES]
    if rng.random() < 0.5:
        pieces = [list(p) for p in LONGHANDS]
    if rng.random() < 0.6:
        pieces = rng.sample(pieces, rng.choice([n, n + 2, n * 3]))
    else:
        rng.shuffle(pieces)
    setup = []
    every = [x for p in pieces for x in p]
    for _ in range(rng.choice([0, 0, 3])):
        setup.append(gen_style_op(rng, every, p_rej=0))
    sc["setup"] = setup
    sc["threads"] = []
    for t in range(n):
        names = [x for p in pieces[t::n] for x in p]
        ops = [gen_style_op(rng, names, p_rej=0.08, p_del=rng.choice([0.1, 0.4]))
               for _ in range(rng.choice([1, 2, 4, 8, 12]))]
        # somebody else may delete or extend: keep bulk updates to own names
        sc["threads"].append({"ops": ops, "names": names})
    return sc


def _longs(names):
    out = []
    for n in names:
        for l in C.addressed(n):
            if l not in out:
                out.append(l)
    return out


class Writer:
    """One thread on a shared declaration."""

    def __init__(self, world, css, spec, pre):
        self.world, self.css, self.spec = world, css, spec
        self.model = pre.copy()
        self.longs = _longs(spec["names"])
        self.bad = None
        self.changed = False

    def body(self, task):
        for i, op in enumerate(self.spec["ops"]):
            pre = self.model.copy()
            ok = apply_model(self.model, op)
            kind, val = task.op(lambda: apply_real(self.world, self.css, op))
            if (kind == "ok") != ok:
                if ok or op[0] == "upd":
                    self.bad = (f"op {i} {op} "
                                + (f"raised {val!r}" if kind == "err" else "was accepted"))
                return
            if kind == "err" and not isinstance(val, D.REJECTIONS):
                self.bad = f"op {i} {op} raised {val!r}"
                return
            self.changed = self.changed or any(
                pre.read(l) != self.model.read(l) for l in self.longs)
            kind, got = task.op(lambda: [V.show(self.world, getattr(self.css, l))
                                         for l in self.longs])
            if kind == "err":
                self.bad = f"after op {i} {op}: reading raised {got!r}"
                return
            for l, g in zip(self.longs, got):
                if g != self.model.read(l):
                    self.bad = (f"after op {i} {op}: {l} reads {g}, this thread's latest "
                                f"value is {self.model.read(l)}")
                    return


def _finish(res, sched):
    res.steps += sched.total
    res.extra["switches"] = sched.recorded
    res.extra["interleaving"] = sched.sites.hexdigest()[:16]
    res.hit("switches", sched.nswitch)
    if sched.stalls:
        res.hit("fault:stall", sched.stalls)
    res.nontrivial = sched.nswitch > 0
    res.log.append(sched.recorded)
    if sched.problem:
        res.fail("no-progress", sched.problem)


def run(sc):
    if not sc["threads"]:
        return Result()
    return _doc(sc) if sc["mode"] == "doc" else _decl(sc)


def _decl(sc):
    res = Result()
    world = World(points=True)
    node = None
    if sc["mode"] == "node":
        node = H.node_classes()["plain"](world, H.Host(), "n")
        css = node.style
    else:
        css = world.CSS()
    m = Decl()
    for op in sc["setup"]:
        apply_model(m, op)
        apply_real(world, css, op)
    if node is not None:
        node.layout.dirty = False
    probe = World(points=True).CSS()
    horizon = 1
    for t in sc["threads"]:
        for op in t["ops"]:
            horizon += traced(lambda: _quiet(world, probe, op), fine=sc["fine"])[2]
    sched = S.Scheduler(sc["sched"], horizon=horizon, fine=sc["fine"])
    ws = [Writer(world, css, t, m) for t in sc["threads"]]
    sched.run([w.body for w in ws])
    _finish(res, sched)
    if res.violation:
        return res
    for i, w in enumerate(ws):
        res.log.append([sorted(w.model.vals), w.bad])
        if w.bad:
            return res.fail("lost", f"thread {i}: {w.bad}")
    final = m.copy()
    for w in ws:
        for l in w.longs:
            if l in w.model.vals:
                final.vals[l] = w.model.vals[l]
            else:
                final.vals.pop(l, None)
    bad = D.check(world, css, final)
    if bad:
        return res.fail("lost", f"after all threads finished: {bad}")
    if node is not None and any(w.changed for w in ws) and node.layout.dirty is not True:
        return res.fail("unmarked", "the node was changed but is not marked")
    return res


def _quiet(world, css, op):
    try:
        apply_real(world, css, op)
    except D.REJECTIONS:
        pass


def _doc(sc):
    res = Result()
    world = World(points=True)
    model, docs = DocModel(), RealDocs(world)
    for op in sc["setup"]:
        if model.apply(op):
            try:
                docs.apply(op)
            except D.REJECTIONS:
                pass
    lay = sc["layout"]
    if lay[1] not in model.nodes or lay[2] not in model.displays:
        return res
    for x in model.nodes:
        if docs.nodes[x].layout is not None:
            docs.nodes[x].layout.dirty = False
    pre = {x: (n.decl.all(), dict(n.intr)) for x, n in model.nodes.items()}
    bad = []

    def body(task, spec):
        for i, op in enumerate(spec["ops"]):
            # the model of each node is touched by its own thread only
            if not model.apply(op):
                continue
            kind, val = task.op(lambda: docs.apply(op))
            if kind == "err" and not isinstance(val, D.REJECTIONS):
                bad.append(f"op {i} {op} raised {val!r}")
                return
            x = op[1]
            kind, got = task.op(lambda: docs.decl(x))
            if kind == "err":
                bad.append(f"after op {i} {op}: reading raised {got!r}")
                return
            for l, g in got.items():
                want = model.nodes[x].decl.read(l)
                if g != want:
                    bad.append(f"after op {i} {op}: {l} of {x} reads {g}, should be {want}")
                    return

    sched = S.Scheduler(sc["sched"], horizon=3000 * len(sc["threads"]), fine=sc["fine"])
    sched.run([lambda task, t=t: body(task, t) for t in sc["threads"]])
    _finish(res, sched)
    if res.violation:
        return res
    if bad:
        return res.fail("lost", bad[0])
    changed = [x for x, n in model.nodes.items()
               if (n.decl.all(), n.intr) != pre[x]]
    res.log.append(sorted(changed))
    marks = docs.marks(model.nodes)
    for x in changed:
        for y in model.displayed(x):
            if marks[y] is not None and marks[y] != [True]:
                return res.fail("unmarked", f"{x} was changed but {y} is not marked")
    for x in model.nodes:
        b = D.check(world, docs.nodes[x].style, model.nodes[x].decl)
        if b:
            return res.fail("lost", f"after all threads finished, {x}: {b}")
    want = reference(model, lay)
    got = outcome(docs, lay, model.displayed(lay[1]))
    d = compare(got, want)
    if d:
        return res.fail("layout", f"after all threads finished: {d}")
    return res
