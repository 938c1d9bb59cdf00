"""C04: documents handled by different threads do not disturb each other."""

import random

from .. import catalog as C
from .. import host as H
from .. import sched as S
from .. import values as V
from ..doc import BOX_NAMES, DocGen, DocModel, RealDocs
from ..model import apply_real, gen_style_op
from ..result import Result
from ..tracing import traced
from ..world import World

LISTS = ["threads", "threads.*.ops", "templates", "templates.*", "sched.switches"]
RULE = ("one run = 2-4 caller threads, each building, restyling, copying and laying out "
        "its own documents, sharing style templates, displays and unit constants of one "
        "world, under a seeded schedule with hand-overs at library statements or sub-expressions, "
        "stalls, interruptions and layouts nested in callbacks; each thread's log of "
        "reads, geometry and errors is compared with the same thread alone in a pristine "
        "world; non-trivial = at least one switch happened inside a library operation")

NAMES = [n for n in C.SETTABLE if n != "background_color"]


def gen(rng, tier):
    templates = []
    for _ in range(rng.choice([1, 2, 3])):
        templates.append([gen_style_op(rng, NAMES, p_rej=0, p_del=0.05)
                          for _ in range(rng.choice([1, 3, 8]))])
    displays = [["display", f"d{i}", rng.choice([72, 96, 144]),
                 rng.choice([320, 640, 801]), rng.choice([240, 480]),
                 rng.choice([None, {"thin": 2, "medium": 3, "thick": 8}])]
                for i in range(rng.choice([1, 2]))]
    fine = rng.random() < 0.25
    nthreads = rng.choice([2, 2, 2, 3, 4])
    if rng.random() < 0.2:
        # values shared through a template, laid out for different displays
        displays = [["display", f"d{i}", rng.choice([72, 96, 144]),
                     rng.choice([320, 640, 801]), rng.choice([240, 480]),
                     rng.choice([None, {"thin": 2, "medium": 3, "thick": 8}])]
                    for i in range(nthreads)]
        names = rng.sample(SIZES, rng.choice([1, 2, 4]))
        units = list(V.SUFFIX)
        if rng.random() < 0.5:
            units = [rng.choice(units + ["em", "ex", "ch"])]
        template = [["set", n, {"u": [rng.choice(units), rng.randrange(1, 30)]}, "attr"]
                    for n in names]
        return {"templates": [template], "displays": displays,
                "threads": [{"ops": _sharing(rng, i)} for i in range(nthreads)],
                "fine": rng.random() < 0.7, "sched": S.gen_plan(rng)}
    if rng.random() < 0.12:
        # values that follow another property, read again and again
        names, reads = rng.choice([
            (["direction"], ["text_align"]), (["direction"], ["text_align", "direction"]),
            (["color"], C.DIRECTIONAL["border_color"][:rng.choice([1, 4])]),
            (["color"], ["border_top", "border_color"])])
        plan = S.gen_plan(rng)
        if rng.random() < 0.6:
            plan = {"seed": plan["seed"], "kind": "gap", "mean": rng.choice([1, 2, 3, 6])}
        return {"templates": templates, "displays": displays,
                "threads": [{"ops": _narrow(rng, i, names, 0, len(templates), reads)}
                            for i in range(nthreads)],
                "fine": rng.random() < 0.4, "sched": plan}
    if rng.random() < 0.5:
        # few properties, short operations: threads meet in the same places
        names = rng.choice(TOGETHER + [None])
        names = [n for n in names or rng.sample(C.NAMES, 2) if n in NAMES]
        sub = rng.sample(names, min(len(names), rng.choice([2, 2, 3])))
        lay = rng.choice([0, 0, 0.15, 0.5])
        return {"templates": templates, "displays": displays,
                "threads": [{"ops": _narrow(rng, i, sub, lay, len(templates))}
                            for i in range(nthreads)],
                "fine": rng.random() < 0.6, "sched": S.gen_plan(rng)}
    if rng.random() < 0.35:
        # everybody does the same for the first time, nearly in step
        ops = _first(rng)
        return {"templates": templates, "displays": displays,
                "threads": [{"ops": [[f"t{i}{x}" if isinstance(x, str) and x[:1] == "n"
                                      and x[1:].isdigit() else x for x in op]
                                     for op in (ops if rng.random() < 0.7 else _first(rng))]}
                            for i in range(nthreads)],
                "fine": rng.random() < 0.5,
                "sched": {"seed": rng.randrange(1 << 32), "kind": "gap",
                          "mean": rng.choice([1, 2, 3, 5, 10])} if rng.random() < 0.3 else
                {"seed": rng.randrange(1 << 32), "kind": "meet",
                 "share": rng.choice([0.05, 0.15, 0.15, 0.4])}}
    alike = rng.random() < 0.4          # similar documents, different values
    seed = rng.randrange(1 << 30)
    threads = []
    for i in range(nthreads):
        r = random.Random(seed if alike else seed + i)
        threads.append({"ops": _thread(r, rng, i, displays, len(templates),
                                       short=fine or nthreads > 2)})
    return {"templates": templates, "displays": displays, "threads": threads,
            "fine": fine, "sched": S.gen_plan(rng)}


TOGETHER = [
    ["direction", "text_align"], ["direction", "text_align"],
    ["color", "border_top_color", "border_color", "outline_color"],
    ["border", "border_top", "border_left_width", "border_style", "border_top_style"],
    ["outline", "outline_width", "outline_style", "outline_color"],
    ["margin", "margin_left", "margin_right", "width", "direction"],
    ["padding", "padding_top", "height", "min_height", "max_height"],
    ["cursor", "quotes", "clip", "border_spacing"],
    ["color", "background_color", "outline_color"],
    ["width", "min_width", "max_width", "left", "right"],
    ["orphans", "widows", "z_index", "order"],
]


SIZES = [n for n in BOX_NAMES if n in C.PROPS
         and n not in C.SIDES + ["position", "direction"]]


def _sharing(rng, i):
    ops = []
    for k in range(rng.choice([1, 1, 2])):
        n = f"t{i}n{k}"
        ops += [["node", n, "plain"], ["tcopy", n, 0],
                ["style", n, ["set", "display", "block", "attr"]]]
        if k:
            ops.append(["attach", n, f"t{i}n0", 0])
    for _ in range(rng.choice([1, 2, 4])):
        ops.append(["layout", f"t{i}n0", f"d{i}", "HTML5"])
    return ops


def _first(rng):
    """A small document, styled and laid out once."""
    ops = []
    for k in range(rng.choice([1, 2, 3])):
        n = f"n{k}"
        ops += [["node", n, "plain"],
                ["style", n, ["set", "display", rng.choice(["block", "list-item", "table"]),
                              "attr"]]]
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(["style", n, gen_style_op(rng, NAMES, p_rej=0.1, p_del=0.1)])
        if k:
            ops.append(["attach", n, "n0", 0])
    ops.append(["layout", "n0", "d0", rng.choice(["HTML5", "HTML4"])])
    return ops


def _narrow(rng, i, names, lay, nt, reads=None):
    n = f"t{i}n0"
    ops = [["node", n, "plain"], ["style", n, ["set", "display", "block", "attr"]]]
    fresh = rng.choice([0, 0, 0.3, 0.8])
    if reads is not None:
        fresh = 0
    elif len(names) > 1 and rng.random() < 0.4:
        reads, names = names, rng.sample(names, 1)    # the others keep following it, or their initial
    reads = reads or names
    if rng.random() < 0.3:
        ops.append(["tcopy", n, rng.randrange(nt)])
    for _ in range(rng.choice([1, 2, 3])):
        ops.append(["style", n, gen_style_op(rng, names, p_rej=0, p_del=0)])
    for _ in range(rng.choice([4, 8, 16])):
        x = rng.random()
        if x < lay:
            ops.append(["layout", n, "d0", "HTML5"])
            ops.append(["clean", n])
        elif x < lay + fresh:
            some = [gen_style_op(rng, names, p_rej=0, p_del=0)
                    for _ in range(rng.choice([0, 1, 1, 2]))]
            if rng.random() < 0.5:
                ops += [["tcopy", n, rng.randrange(nt)], ["clean", n]]
                ops += [["style", n, sop] for sop in some]
            else:
                ops += [["clean", n], ["free", some]]
            ops.append(["readm", n])
        elif x < 0.75:
            ops.append(["readp", n, [rng.choice(reads) for _ in range(rng.choice([1, 2, 5]))]])
        else:
            ops.append(["style", n, gen_style_op(rng, names, p_rej=0.1)])
    return ops


def _thread(r, rng, i, displays, nt, short):
    """r drives the shape (shared when threads are alike), rng the detail."""
    g = DocGen(r, max_nodes=r.choice([2, 3, 4] if short else [2, 4, 6]),
               classes=[r.choice(H.KLASSES)], hide=r.choice([0, 0.05]),
               fail=r.choice([0, 0.03]), other=0.3, prefix=f"t{i}n", settable=NAMES)
    g.m = _Model()
    g.m.ntemplates = nt
    for d in displays:
        g.m.apply(d)
    roots = [g.tree()]
    if r.random() < 0.3:
        roots.append(g.tree(2))

    def spice():
        x = rng.random()
        ids = list(g.m.nodes)
        if x < 0.35:
            g.emit(["tcopy", rng.choice(ids), rng.randrange(nt)])
        elif x < 0.5:
            g.emit(["read", rng.choice(ids)])
        elif x < 0.55:
            g.emit(["tread", rng.randrange(nt)])
        elif x < 0.6:
            g.emit(["clean", rng.choice(ids)])
            g.emit(["free", [gen_style_op(rng, NAMES, p_rej=0)]])
            g.emit(["readm", rng.choice(ids)])
        elif x < 0.8:
            g.emit(["style", rng.choice(ids), gen_style_op(rng, NAMES)])
        elif x < 0.9:
            g.style_op(rng.choice(ids))

    for _ in range(r.choice([1, 2, 2, 3])):
        for _ in range(r.choice([0, 1, 2, 4])):
            spice()
        op = ["layout", r.choice(roots), r.choice(displays)[1],
              r.choice(["HTML5", "HTML5", "HTML4"])]
        x = rng.random()
        if x < 0.15 and len(roots) > 1:
            op.append({"nested": ["layout", rng.choice(roots), rng.choice(displays)[1],
                                  "HTML5"], "f": rng.random()})
            if op[4]["nested"][1] == op[1]:
                op.pop()
        g.ops.append(op)
        if rng.random() < 0.3:
            g.edit(roots)
    g.emit(["read", rng.choice(list(g.m.nodes))])
    ops = [o for o in g.ops if o[0] not in ("gc", "look", "disp", "display")]
    if rng.random() < 0.15:
        k = rng.randrange(len(ops))
        ops[k] = ["hit", ops[k], {"f": rng.random(),
                                  "exc": rng.choice(["KeyboardInterrupt", "MemoryError",
                                                     "Cancelled"])}]
    return ops


def _plain(op):
    """The operation without its interruption (interrupted layouts have no other
    layout nested in them)."""
    if op[0] != "hit":
        return op
    return op[1][:4] if op[1][0] == "layout" else op[1]


class _Model(DocModel):
    ntemplates = 0

    def apply(self, op):
        if op[0] == "tcopy":
            return op[1] in self.nodes and op[2] < self.ntemplates
        if op[0] == "tread":
            return op[1] < self.ntemplates
        if op[0] in ("read", "readp", "readm"):
            return op[1] in self.nodes
        if op[0] == "free":
            return True
        return super().apply(op)

    def displayed(self, n):
        # template values are not modelled: observe whatever has a box
        return self.subtree(n)


def _decl_log(world, css):
    out = [[n, V.show(world, getattr(css, n))] for n in C.NAMES]
    out.append(sorted(css.keys()))
    out.append(sorted(str(css).split("; ")))
    return out


def _get(world, css, name):
    if name == "border":        # cannot be read
        name = "border_top"
    return V.show(world, getattr(css, name))


class Agent:
    """One thread's private documents and log."""

    def __init__(self, world, shared, spec, solo):
        self.world = world
        self.templates, displays = shared
        self.docs = RealDocs(world, H.Host())
        self.docs.displays = displays
        self.model = _Model()
        self.model.ntemplates = len(self.templates)
        for d in displays:
            self.model.displays[d] = {}
        self.spec = spec
        self.solo = solo
        self.log = []
        self.counts = {}
        self.stats = []
        self.interrupted = None

    def perform(self, op):
        """Real side of op; returns the log entry.  Library errors propagate."""
        w, docs = self.world, self.docs
        if op[0] == "tcopy":
            docs.nodes[op[1]].style = self.templates[op[2]].copy(docs.nodes[op[1]])
            return "ok"
        if op[0] == "tread":
            return _decl_log(w, self.templates[op[1]])
        if op[0] == "read":
            n = docs.nodes[op[1]]
            return [_decl_log(w, n.style), docs.marks([op[1]])]
        if op[0] == "readm":
            return docs.marks([op[1]])
        if op[0] == "free":
            css = w.CSS()
            for sop in op[1]:
                apply_real(w, css, sop)
            return sorted(css.keys())
        if op[0] == "readp":
            css = docs.nodes[op[1]].style
            return [_get(w, css, p) for p in op[2]]
        if op[0] == "layout":
            docs.apply(op[:4])
            return docs.geom(self.model.subtree(op[1]))
        docs.apply(op)
        return "ok"

    def entry(self, kind, val):
        return val if kind == "ok" else ["err", type(val).__name__]

    def one(self, i, op, do):
        """Perform op number i through `do` (scheduled or solo) and log it."""
        nested = op[0] == "layout" and len(op) > 4
        if nested and not self.model.apply(op[4]["nested"]):
            nested = False
        inner = []
        if nested and not self.solo:
            inner_op = op[4]["nested"]
            k = 1 + int(op[4]["f"] * self.counts.get(i, 1))

            def act():
                try:
                    inner.append(self.perform(inner_op))
                except Exception as e:
                    inner.append(["err", type(e).__name__])
                self.stats.append("fault:nested_layout")

            self.docs.host.arm({k: act})
        elif nested:
            self.docs.host.arm({})
        kind, val = do(lambda: self.perform(op))
        if nested:
            self.counts[i] = self.docs.host.count
            self.docs.host.disarm()
            if not inner:
                # alone, or the callback count was not reached: run it now
                k2, v2 = do(lambda: self.perform(op[4]["nested"]))
                inner.append(self.entry(k2, v2))
            self.log.append([i, "nested", inner])
        self.log.append([i, op[0], self.entry(kind, val)])
        return kind, val

    def body(self, task, solo_counts):
        for i, op in enumerate(self.spec["ops"]):
            hit = None
            if op[0] == "hit":
                hit, op = op[2], _plain(op)
            if not self.model.apply(op):
                continue
            if hit is not None:
                n = solo_counts.get(i, 1)
                kind, val = task.op(lambda: self.perform(op),
                                    at=1 + int(hit["f"] * n), exc=H.EXC[hit["exc"]])
                if task.fired:
                    self.stats.append("fault:interrupt_" + hit["exc"])
                    self.interrupted = i
                    return
                self.log.append([i, op[0], self.entry(kind, val)])
                continue
            self.one(i, op, task.op)

    def alone(self, fine):
        """The same thread alone in this world; returns steps per op."""
        steps = {}
        for i, op in enumerate(self.spec["ops"]):
            op = _plain(op)
            if not self.model.apply(op):
                continue
            n = [0]

            def do(fn):
                kind, val, c, _ = traced(fn, fine=fine)
                n[0] += c
                return kind, val

            self.one(i, op, do)
            steps[i] = n[0]
        return steps


def _shared(world, sc):
    ts = []
    for ops in sc["templates"]:
        css = world.CSS()
        for op in ops:
            apply_real(world, css, op)
        ts.append(css)
    host = H.Host()
    return ts, {d[1]: H.Display(host, *d[2:6]) for d in sc["displays"]}


def run(sc):
    res = Result()
    fine = sc.get("fine", False)
    if not sc["threads"]:
        return res
    solo, counts = [], []
    for spec in sc["threads"]:
        w = World(points=True)
        a = Agent(w, _shared(w, sc), spec, True)
        counts.append(a.alone(fine))
        solo.append(a)
    world = World(points=True)
    shared = _shared(world, sc)
    before = [_decl_log(world, t) for t in shared[0]]
    agents = [Agent(world, shared, spec, False) for spec in sc["threads"]]
    for a, s in zip(agents, solo):
        a.counts = dict(s.counts)
    horizon = sum(sum(c.values()) for c in counts) or 1
    sched = S.Scheduler(sc["sched"], horizon=horizon, fine=fine)
    sched.run([lambda task, a=a, c=c: a.body(task, c) for a, c in zip(agents, counts)])
    res.steps += sched.total
    res.extra["switches"] = sched.recorded
    res.extra["interleaving"] = sched.sites.hexdigest()[:16]
    res.hit("switches", sched.nswitch)
    if sched.stalls:
        res.hit("fault:stall", sched.stalls)
    for a in agents:
        for s in a.stats:
            res.hit(s)
    res.nontrivial = sched.nswitch > 0
    res.log = [a.log for a in agents] + [sched.recorded]
    if sched.problem:
        return res.fail("no-progress", sched.problem)
    for i, (a, s) in enumerate(zip(agents, solo)):
        res.hit("thread_logs_compared")
        for got, want in zip(a.log, s.log):
            if got != want:
                return res.fail("interference", f"thread {i}, op {want[0]} "
                                f"({sc['threads'][i]['ops'][want[0]]}): "
                                + _diff(got, want))
        if a.interrupted is None and len(a.log) != len(s.log):
            return res.fail("interference", f"thread {i} made {len(a.log)} observations, "
                            f"{len(s.log)} alone")
    for i, t in enumerate(shared[0]):
        if _decl_log(world, t) != before[i]:
            return res.fail("template", f"template {i} changed: "
                            + _diff(_decl_log(world, t), before[i]))
    # a newcomer afterwards finds nothing out of place
    spec = {"ops": [_plain(o) for o in sc["threads"][0]["ops"]]}
    late = Agent(world, shared, spec, True)
    late.alone(fine)
    if late.log != solo[0].log:
        got, want = next((g, w) for g, w in zip(late.log, solo[0].log) if g != w)
        return res.fail("left-behind", f"a later thread, op {want[0]} "
                        f"({spec['ops'][want[0]]}): " + _diff(got, want))
    return res


def _diff(a, b, path=""):
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return _diff(x, y, f"{path}[{i}]")
    if isinstance(a, dict) and isinstance(b, dict):
        for k in b:
            if a.get(k) != b[k]:
                return _diff(a.get(k), b[k], f"{path}[{k}]")
    return f"{path} {str(a)[:300]}, alone {str(b)[:300]}"
