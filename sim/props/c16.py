"""C16: the work of an operation is in proportion to the part of the document it concerns."""

from .. import host as H
from ..doc import DocGen, DocModel, RealDocs
from ..result import Result
from ..tracing import StepBudget, traced
from ..world import World

LISTS = ["ops", "pattern", "pattern.*", "prior", "cycle"]
RULE = ("one run = documents made of 1x, 2x and 4x as many copies of seeded pieces (side "
        "by side, nested, or as separate live documents), or one document after 3, 12 and 60 rounds "
        "of a seeded cycle of edits, rejected ones, failed and cut layouts, taken through the same seeded "
        "history with failed and interrupted layouts; library steps (children gone over in compiled code included) of every layout, "
        "style, hint, mark, move and copy operation are counted and their growth is "
        "bounded; non-trivial = a layout of the largest document completed")

ITEM = 5        # steps per child that the library goes over in compiled code


class Counted(list):
    """A list of children that counts how many of them are gone over."""

    work = 0

    def _all(name):
        base = getattr(list, name)

        def method(self, *args):
            Counted.work += len(self)
            return base(self, *args)

        return method

    for _n in ("index", "count", "__contains__", "copy", "__add__", "__eq__",
               "__reversed__", "sort", "reverse"):
        locals()[_n] = _all(_n)
    del _n, _all
    __hash__ = None

    def __iter__(self):
        for x in list.__iter__(self):
            Counted.work += 1
            yield x

    def __getitem__(self, i):
        got = list.__getitem__(self, i)
        Counted.work += len(got) if isinstance(i, slice) else 1
        return got


_classes = {}


def counting(node):
    """Comparisons of a node with others are counted, too."""
    base = type(node)
    if base not in _classes:
        def __eq__(self, other):
            Counted.work += 1
            return base.__eq__(self, other)

        _classes[base] = type(base.__name__, (base,), {
            "__slots__": (), "__eq__": __eq__, "__hash__": base.__hash__})
    node.__class__ = _classes[base]


SIZES = {"wide": [42, 84, 168], "deep": [12, 24, 48],
         "many": [10, 40, 160], "often": [3, 12, 60]}
LIMIT = 6_000_000


def gen(rng, tier):
    shape = rng.choice(["wide", "wide", "deep", "many", "often", "often"])
    klass = rng.choice(H.KLASSES)
    pattern = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        g = DocGen(rng, max_nodes=1 if shape == "deep" else rng.choice([1, 1, 2, 3]),
                   classes=[klass], hide=0.03, fail=rng.choice([0, 0, 0.02]), other=0.1)
        g.tree()
        pattern.append(g.ops)
    cycle = []
    hidden = shape == "often" and rng.random() < 0.25
    if shape == "often":
        for _ in range(rng.choice([1, 1, 2, 3])):
            who = None if hidden else rng.choice(["r", None, "other"])
            cycle += rng.choice([
                lambda: [["style", who, ["set", p, v, "attr"]]
                         for p in [rng.choice(["width", "color", "padding_top", "margin",
                                               "border", "direction", "orphans"])]
                         for v in {"color": ["red", "blue"], "direction": ["rtl", "ltr"],
                                   "border": ["1px solid", "2px dotted"]}.get(p, [7, 8])],
                lambda: [["style", who, ["set", "height", 30, "upd"]],
                         ["style", who, ["del", "height", rng.choice(["attr", "item"])]]],
                lambda: [["intr", who, "width", 3], ["intr", who, "width", 4]],
                lambda: [["layout", "r", "d0", "HTML5"]],
                lambda: [["bad"]], lambda: [["bad"]],
                lambda: [["cut", rng.random()]],
                lambda: [["style", who, ["set", "width", "nonsense", "item"]]],
                lambda: [["mark", "r", False], ["mark", "r", True]],
                lambda: [["clean", "r"]],
                lambda: [["look", who]],
                lambda: [["restyle", who, "r"]],
                lambda: [["boxset", "r", "content_top", 3], ["boxset", "r", "content_top", 4]],
                lambda: [["hide"], ["show"]],
                lambda: [["node", "x", klass], ["attach", "x", "r", 0], ["drop", "x"], ["gc"]],
                lambda: [["copies"]],
            ])()
    # operations before measuring
    prior = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        prior.append(rng.choice([
            ["layout"], ["cut", rng.random()], ["hide"], ["show"], ["bad"], ["good"],
            ["clean"], ["width", rng.randrange(100, 400)]]))
    if hidden:
        prior.append(["hide"])
    ops = []
    for _ in range(rng.choice([2, 4, 6])):
        ops.append(rng.choice([
            ["root", ["style", "r", ["set", "width", rng.randrange(50, 500), "attr"]]],
            ["root", ["style", "r", ["set", "padding_left", rng.randrange(1, 50), "upd"]]],
            ["root", ["style", "r", ["set", "border_top", f"{rng.randrange(1, 9)}px solid",
                                     "attr"]]],
            ["root", ["style", "r", ["set", "margin", rng.randrange(1, 9), "item"]]],
            ["root", ["style", "r", ["del", "margin_top", "attr"]]],
            ["root", ["style", "r", ["set", "direction", rng.choice(["ltr", "rtl"]),
                                     "attr"]]],
            ["root", ["style", "r", ["set", "display", "nonsense", "attr"]]],
            ["root", ["intr", "r", rng.choice(["width", "height"]), rng.randrange(99)]],
            ["root", ["boxset", "r", "content_top", rng.randrange(1, 500)]],
            ["root", ["boxset", "r", "content_left", rng.randrange(1, 500)]],
            ["root", ["mark", "r", True]], ["root", ["mark", "r", False]],
            ["root", ["clean", "r"]],
            ["root", ["restyle", "r", "r"]],
            ["leaf", ["style", None, ["set", "height", rng.randrange(50, 500), "attr"]]],
            ["leaf", ["style", None, ["set", "padding_top", rng.randrange(50), "attr"]]],
            ["leaf", ["style", None, ["set", "color", "red", "attr"]]],
            ["leaf", ["style", None, ["del", "padding_top", "attr"]]],
            ["leaf", ["intr", None, "width", rng.randrange(50, 500)]],
            ["leaf", ["boxset", None, "content_top", rng.randrange(1, 99)]],
            ["leaf", ["look", None]], ["leaf", ["mark", None, False]],
            ["leaf", ["restyle", None, "r"]],
        ]))
        ops.append(["root", ["layout", "r", "d0", rng.choice(["HTML5", "HTML4"])]])
    return {"shape": shape, "klass": klass, "pattern": pattern, "prior": prior, "ops": ops,
            "cycle": cycle}


def build(sc, n):
    """The document (and, in shape "many", n others) with its leaf's name."""
    world = World(points=True)
    model, docs = DocModel(), RealDocs(world)

    def do(op):
        if model.apply(op):
            try:
                docs.apply(op)
            except Exception:
                pass
            if op[0] == "node":
                docs.nodes[op[1]]._children = Counted()
                counting(docs.nodes[op[1]])

    do(["display", "d0", 96, 640, 480, None])
    do(["node", "r", sc["klass"]])
    do(["style", "r", ["set", "display", "block", "attr"]])
    shape = sc["shape"]
    parent, leaf = "r", "r"
    extra = 4 if shape in ("many", "often") else n
    do(["node", "other", sc["klass"]])      # a document that cannot be laid out
    do(["style", "other", ["upd", [["display", "block"], ["float", "left"]], "upd"]])
    for i in range(extra + (n if shape == "many" else 0)):
        other = shape == "many" and i >= extra
        pat = sc["pattern"][i % len(sc["pattern"])]
        first = None
        for op in pat:
            op = list(op)
            if op[0] == "attach":
                op[2] = f"{op[2]}.{i}"
            if isinstance(op[1], str) and op[0] != "display":
                op[1] = f"{op[1]}.{i}"
                first = first or op[1]
            do(op)
        if first not in model.nodes:
            continue
        if other:
            if i % 4 == 0:
                do(["layout", first, "d0", "HTML5"])
            continue
        do(["attach", first, parent, len(model.nodes[parent].children)])
        leaf = first
        if shape == "deep":
            parent = first
    return world, model, docs, do, leaf


def measure(sc, n, res):
    """Steps of each measured operation, or None with the failure in res."""
    world, model, docs, do, leaf = build(sc, n)
    lay = ["layout", "r", "d0", "HTML5"]
    hits = {}

    def prepare(p):
        if p[0] == "layout" and len(p) == 1:
            do(lay)
        elif p[0] == "cut":
            if "cut" not in hits:
                hits["cut"] = traced(lambda: do(lay))[2]
            traced(lambda: docs.apply(lay), at=1 + int(p[1] * hits["cut"]),
                   exc=KeyboardInterrupt)
            res.hit("fault:interrupted_layout")
        elif p[0] in ("hide", "show"):
            do(["style", leaf, ["set", "display", None if p[0] == "hide" else "block",
                                "attr"]])
            do(lay)
        elif p[0] in ("bad", "good") and sc["shape"] != "often":
            do(["style", leaf, ["set", "float", "left" if p[0] == "bad" else None, "attr"]])
            do(lay)
            res.hit("fault:failed_layout")
        elif p[0] in ("bad", "good"):
            do(["layout", "other", "d0", "HTML5"])
            res.hit("fault:failed_layout")
        elif p[0] == "width":
            do(["style", "r", ["set", "width", p[1], "attr"]])
        elif p[0] == "copies":
            docs.nodes["r"].style.copy().copy()
        elif len(p) > 1:
            op = list(p)
            if op[1] is None:
                op[1] = leaf
            do(op)
        else:
            do(["clean", "r"])

    for p in sc["prior"]:
        prepare(p)
    if sc["shape"] == "often":
        for _ in range(n):
            for p in sc["cycle"]:
                prepare(p)
        res.hit("repetitions", n)
    out = []
    again = [["root", op] for op in sc["cycle"]
             if op[0] in ("style", "intr", "boxset", "look", "mark", "restyle")]
    for what, op in again + [["root", lay]] + sc["ops"]:
        op = list(op)
        if op[1] is None:
            op[1] = leaf
        if not model.apply(op):
            out.append([what, op, None, None, 0])
            continue
        Counted.work = 0
        try:
            how, val, steps, _ = traced(lambda: docs.apply(op), fine=True, limit=LIMIT)
        except StepBudget:
            res.fail("steps", f"{op} on {n} pieces ({sc['shape']}): more than {LIMIT} steps")
            return None
        steps += Counted.work * ITEM
        res.steps += steps
        out.append([what, op, steps, None if how == "ok" else type(val).__name__,
                    Counted.work])
    return out


def run(sc):
    res = Result()
    shape = sc["shape"]
    if not sc["pattern"]:
        return res
    runs = []
    for n in SIZES[shape]:
        m = measure(sc, n, res)
        if m is None:
            return res
        runs.append(m)
    for a, b, c in zip(*runs):
        what, op = a[:2]
        if None in (a[2], b[2], c[2]) or not a[3] == b[3] == c[3]:
            continue
        s1, s2, s4 = a[2], b[2], c[2]
        res.log.append([op, s1, s2, s4])
        res.hit("operations_measured")
        if op[0] == "layout" and c[3] is None:
            res.nontrivial = True
        if shape in ("many", "often"):
            low, high = s1, s4
            text = "other live documents" if shape == "many" else "repetitions before"
            ok = high <= low * 1.02 + 60
        elif what == "leaf" and not (shape == "deep" and op[0] == "layout"):
            low, high, text = s1, s4, "other nodes"
            ok = high <= low * 1.1 + 60
        else:
            low, high, text = s2 - s1, s4 - s2, "nodes"
            most = 2.25 if shape == "wide" else 5 if op[0] == "layout" else 2.8
            ok = high <= most * max(low, 0) + 150
            if ok:      # what compiled code goes over, on its own
                i1, i2, i4 = a[4], b[4], c[4]
                ok = i4 - i2 <= most * max(i2 - i1, 0) + 60
                if not ok:
                    s1, s2, s4 = i1, i2, i4
        if not ok:
            sizes = SIZES[shape]
            return res.fail("steps", f"{op} takes {s1}, {s2} and {s4} steps with "
                            f"{sizes[0]}, {sizes[1]} and {sizes[2]} {text} ({shape})")
    return res
