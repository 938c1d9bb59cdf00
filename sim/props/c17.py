"""C17: looking at a document never changes it."""

from .. import catalog as C
from .. import decl as D
from .. import host as H
from .. import values as V
from ..doc import BOX_NAMES, DocGen, DocModel, INTR_DEFAULT, RealDocs, layout_value
from ..model import FORMS, few_values
from ..result import Result
from ..tracing import traced
from ..world import World

LISTS = ["ops"]
RULE = ("one run = the same history of edits and layouts in two worlds, in one of which "
        "observations are inserted (reads in every form, listings, text, copies, boxes, "
        "marks, hints, value conversions) between operations, inside host callbacks of "
        "operations in progress, from further threads, and cut short at a seeded point; "
        "outcomes, final styles, listings, marks, boxes, objects the host got earlier and a final layout must be equal; "
        "non-trivial = observations were made before a later change")

KINDS = ["attr", "attr", "item", "item", "side", "short", "all", "keys", "items", "str",
         "mark", "copy", "editcopy", "copyto", "box", "box1", "repr", "hints", "bad",
         "px", "value", "engine", "absent"]


def gen_obs(rng, ids, names):
    kind = rng.choice(KINDS)
    name = rng.choice(names)
    return {"n": rng.choice(ids), "kind": kind, "name": name,
            "arg": rng.randrange(1000),
            "how": rng.choice(["plain"] * 5 + ["@t1", "@t2", "cut", "cut"]),
            "f": rng.random()}


def gen(rng, tier):
    g = DocGen(rng, max_nodes=rng.choice([1, 2, 4, 8]), hide=rng.choice([0, 0.1]),
               fail=rng.choice([0, 0.03, 0.1]), other=rng.choice([0.1, 0.5, 0.9]))
    g.hops = rng.choice([0, 0, 0.4])
    if rng.random() < 0.4:
        g.value = few_values(rng, g.value)
    g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 1, 2]))]
    names = C.NAMES if rng.random() < 0.5 else rng.sample(C.NAMES, 6) + [
        "color", "border_left_color", "direction", "text_align"]
    density = rng.choice([0.5, 1, 3])
    mid = rng.choice([0, 0.2, 0.6])
    keeps = rng.choice([0, 0.3])
    out = []
    if rng.random() < 0.3:
        return _narrow(rng, g)
    focus = rng.sample(C.SETTABLE, rng.choice([1, 3])) if rng.random() < 0.5 else None
    if focus:
        names = [x for f in focus for x in C.addressed(f)] + [
            "direction", "text_align", "color", "border_top_color"]
    done = 0
    for _ in range(rng.choice([3, 6, 12])):
        r = rng.random()
        if r < 0.25:
            g.lay(g.layout_op(roots))
        elif focus and r < 0.7:
            n = rng.choice(list(g.m.nodes))
            name = rng.choice(focus)
            if rng.random() < 0.25:
                g.emit(["style", n, ["del", name, rng.choice(FORMS)]])
            else:
                v = g.value(rng, name)
                g.emit(["style", n, ["set", name, "none" if v is None else v,
                                     rng.choice(FORMS)]])
        else:
            g.edit(roots)
        if keeps and rng.random() < keeps and g.m.nodes:
            out.append(["keep", rng.choice(list(g.m.nodes)),
                        rng.choice(["keys", "items", "copy", "value", "value", "side", "short",
                                    "box", "hints"]), rng.choice(names)])
        for op in g.ops[done:]:
            op = list(op)
            ids = list(g.m.nodes)
            if ids and mid and rng.random() < mid:
                op.append({"mid": [[rng.random(), gen_obs(rng, ids, names)]
                                   for _ in range(rng.choice([1, 2, 4]))]})
            out.append(op)
        done = len(g.ops)
        ids = list(g.m.nodes)
        for _ in range(int(density + rng.random())):
            if ids:
                out.append(["obs", gen_obs(rng, ids, names)])
    return {"ops": out}


FOLLOWED = [["direction", "text_align"], ["color", "border_top_color"],
            ["color", "border_left_color", "border_color"]]


def _narrow(rng, g):
    """One or two nodes and properties, looked at between any two changes."""
    ids = rng.sample(list(g.m.nodes), min(len(g.m.nodes), rng.choice([1, 2])))
    names = list(rng.choice(FOLLOWED)) if rng.random() < 0.4 else \
        rng.sample(C.NAMES, rng.choice([1, 2]))
    boxes = rng.random() < 0.4
    if boxes:
        names = rng.sample([n for n in BOX_NAMES if n in C.PROPS], rng.choice([1, 2, 3]))
    root = g.m.root_of(ids[0])
    writes = names[:1] if rng.random() < 0.6 else names
    reads = [x for n in names for x in C.addressed(n)]
    value = layout_value if boxes else C.pick_spec
    if rng.random() < 0.5:
        value = few_values(rng, value)
    ops = list(g.ops)
    echoes = rng.choice([0, 0.4])
    for _ in range(rng.choice([2, 3, 4, 8])):
        n = rng.choice(ids)
        name = rng.choice(writes)
        last = next((o for o in reversed(ops) if o[0] == "style" and o[1] == n), None)
        if last and rng.random() < echoes and C.echo_op(rng, last[2]) != last[2]:
            op = ["style", n, C.echo_op(rng, last[2])]
            reads = reads + C.addressed(op[2][1])
        elif rng.random() < 0.35:
            op = ["style", n, ["del", name, rng.choice(FORMS)]]
        else:
            v = value(rng, name)
            op = ["style", n, ["set", name, "none" if v is None else v, rng.choice(FORMS)]]
        ops.append(op)
        if rng.random() < (0.7 if boxes else 0.15):
            ops.append(["layout", root, "d0", "HTML5"])
            if rng.random() < 0.7:
                ops.append(["clean", root])
        for _ in range(rng.choice([0, 1, 1, 3])):
            o = gen_obs(rng, ids, reads)
            if rng.random() < 0.5:
                o["kind"] = rng.choice(
                    ["box", "box", "box1", "repr", "mark"] if boxes
                    else ["attr", "px", "all", "value", "str", "keys"])
            ops.append(["obs", o])
    return {"ops": ops}


def observe(docs, o):
    """One observation of a live document; whatever it raises is its answer."""
    w = docs.world
    n = docs.nodes.get(o["n"])
    if n is None:
        return
    css, box, name, kind, arg = n.style, n.layout, o["name"], o["kind"], o["arg"]
    if kind == "attr":
        getattr(css, name)
    elif kind == "item":
        css[name if arg % 2 else name.replace("_", "-")]
    elif kind == "side":
        getattr(css, list(C.DIRECTIONAL)[arg % len(C.DIRECTIONAL)])
    elif kind == "short":
        names = list(C.SHORTHAND) + ["border"]
        v = getattr(css, names[arg % len(names)])
        str(v), repr(v), v == v
    elif kind == "all":
        D.reads(w, css)
    elif kind == "keys":
        k = css.keys()
        if isinstance(k, set):
            k.clear()           # the listing is the caller's
    elif kind == "items":
        k = css.items()
        if isinstance(k, list):
            k.clear()
    elif kind == "str":
        str(css), repr(css)
    elif kind == "mark":
        css.dirty, n.intrinsic.dirty, box is not None and box.dirty
    elif kind == "copy":
        css.copy()
    elif kind == "editcopy":
        dup = css.copy()
        dup.update(width=arg, color="red")
        dup.direction = "rtl"
        del dup.height
        del dup[name]
    elif kind == "copyto":
        other = H.node_classes()["plain"](w, H.Host(), "other")
        other.style = css.copy(other)
        other.style.width = arg
    elif kind == "box":
        H.geometry(box)
    elif kind == "box1":
        if box is not None:
            getattr(box, H.GEOMETRY[arg % len(H.GEOMETRY)])
    elif kind == "repr":
        repr(box), repr(n.intrinsic), str(box)
    elif kind == "hints":
        for f in INTR_DEFAULT:
            getattr(n.intrinsic, f)
    elif kind == "bad":
        css["no-such-property"]
    elif kind == "absent":
        getattr(css, "no_such_property", None)
    elif kind == "px":
        d = next(iter(docs.displays.values()), None)
        for p in ("width", "margin_left", "padding_top", "height", name):
            v = getattr(css, p)
            if hasattr(v, "px"):
                -v, 2 * v, v.val, v.suffix
                if arg % 3:
                    v.px(display=d, font=None, size=100)
                else:
                    v.px()
    elif kind == "value":
        v = getattr(css, name)
        str(v), repr(v), v == 3, v != v, V.show(w, v)
        others = [getattr(css, x) for x in ("width", "color", "direction", "quotes")]
        [(v == x, x == v, v != x) for x in others]
        _quietly(lambda: v < others[0], lambda: others[0] < v, lambda: sorted([v, 3 * v]))
        if hasattr(v, "px") or hasattr(v, "val"):
            u = w.units
            for x in (5 * u.percent, 0.5 * u.percent, 2 * u.px, 1.5 * u.em, 7):
                _quietly(lambda: v < x, lambda: x < v, lambda: v <= x, lambda: v > x,
                         lambda: v == x, lambda: max(v, x), lambda: v * 2, lambda: 2 * v)
        for a in ("rgb", "url", "horizontal", "vertical", "top", "left"):
            _quietly(lambda: getattr(v, a))
        _quietly(lambda: v.opening(arg % 4), lambda: v.closing(arg % 4), lambda: len(v),
                 lambda: v.to_dict().clear(), lambda: v.deg(), lambda: v.dup(arg),
                 lambda: v.lu())
        if isinstance(v, (list, tuple)):
            list(v), len(v), v + v, v[:1], v[::-1], v * 2, list(reversed(v)), v in [v]
            _quietly(lambda: v[arg % 5], lambda: v["x"], lambda: v.copy(),
                     lambda: v.index("x"), lambda: v.count(v))
        hash(v)
    elif kind == "engine":
        css.engine()


def _quietly(*fs):
    for f in fs:
        try:
            f()
        except Exception:
            pass


def _quiet(docs, o):
    try:
        observe(docs, o)
    except Exception:
        pass


def look(docs, o, res):
    how = o["how"]
    if how == "cut":
        # count on the spot: an observation may be repeated at will
        n = traced(lambda: _quiet(docs, o), fine=True)[2]
        if n:
            traced(lambda: observe(docs, o), at=1 + int(o["f"] * n), fine=True,
                   exc=KeyboardInterrupt)
            res.hit("fault:observation_cut_short")
    elif how.startswith("@"):
        H.hand(how[1:]).call(lambda: _quiet(docs, o))
    else:
        _quiet(docs, o)
    res.hit("observations")


def keep(docs, op):
    """Something the host obtained from the library and holds on to."""
    n = docs.nodes[op[1]]
    what, name = op[2:]
    if what == "keys":
        return n.style.keys()
    if what == "items":
        return n.style.items()
    if what == "copy":
        return n.style.copy()
    if what == "box":
        return n.layout
    if what == "hints":
        return n.intrinsic
    if what == "side":
        return n.style.margin if len(name) % 2 else n.style.border_color
    if what == "short":
        return n.style.outline if len(name) % 2 else n.style.border_top
    return getattr(n.style, name)


def kept(docs, op, x):
    w = docs.world
    what = op[2]
    if what == "keys":
        return sorted(x)
    if what == "items":
        return sorted([k, V.show(w, v)] for k, v in x)
    if what == "copy":
        return [D.reads(w, x), V.listing(x)]
    if what == "box":
        return [H.geometry(x), x is not None and x.dirty]
    if what == "hints":
        return [getattr(x, f) for f in INTR_DEFAULT]
    return V.show(w, x)


def perform(docs, op):
    try:
        docs.apply(op)
    except Exception as e:
        return type(e).__name__
    return None


def state(model, docs):
    w = docs.world
    s = {}
    for i in model.nodes:
        n = docs.nodes[i]
        s[f"mark of {i}"] = None if n.layout is None else n.layout.dirty
        s[f"box of {i}"] = H.geometry(n.layout)
        s[f"listing of {i}"] = V.listing(n.style)
        s[f"text of {i}"] = str(n.style)
        for p in C.NAMES:
            s[f"style {i}.{p}"] = V.read(w, n.style, p)
        for f in INTR_DEFAULT:
            s[f"hint {i}.{f}"] = getattr(n.intrinsic, f)
        s[f"parent of {i}"] = None if n.parent is None else n.parent.name
        s[f"children of {i}"] = [c.name for c in n._children]
    for d, x in docs.displays.items():
        s[f"display {d}"] = [dict(x._v), dict(x._fixed)]
    new = w.CSS()
    for p in C.NAMES:
        s[f"initial {p}"] = V.read(w, new, p)
    return s


def run(sc):
    res = Result()
    model = DocModel()
    plain, seen = RealDocs(World(points=True)), RealDocs(World(points=True))
    looked = 0
    held = []
    for i, op in enumerate(sc["ops"]):
        if op[0] == "obs":
            look(seen, op[1], res)
            looked += 1
            continue
        if op[0] == "keep":
            if op[1] in model.nodes:
                try:
                    held.append([op, keep(plain, op), keep(seen, op)])
                except Exception:
                    pass        # reading: other properties' business
            continue
        mid = []
        if isinstance(op[-1], dict) and "mid" in op[-1]:
            op, mid = op[:-1], op[-1]["mid"]
        if not model.apply(op):
            continue
        plain.host.arm({})
        a = perform(plain, op)
        calls = plain.host.count
        plain.host.disarm()
        seen.host.arm({1 + int(f * calls): (lambda o=o: look(seen, o, res))
                       for f, o in mid if calls})
        b = perform(seen, op)
        if seen.host.fired:
            res.hit("fault:observed_in_callback", seen.host.fired)
            looked += 1
        seen.host.disarm()
        res.log.append([i, a])
        res.steps += calls
        if looked:
            res.nontrivial = True
        if a != b:
            return res.fail("outcome", f"op {i} {op}: {_said(b)} when the document has "
                            f"been looked at, {_said(a)} otherwise")
    for op, x, y in held:
        x, y = kept(plain, op, x), kept(seen, op, y)
        res.hit("kept_objects")
        if x != y:
            return res.fail("kept", f"what the host got by {op} is now {y}; had nobody "
                            f"looked, it would be {x}")
    d = _differ(state(model, plain), state(model, seen))
    if d:
        return res.fail("state", f"at the end, {d}")
    for x in model.nodes:
        if model.nodes[x].parent is None and model.displays:
            op = ["layout", x, next(iter(model.displays)), "HTML5"]
            a, b = perform(plain, op), perform(seen, op)
            if a != b:
                return res.fail("layout", f"a final layout of {x}: {_said(b)} when the "
                                f"document has been looked at, {_said(a)} otherwise")
    d = _differ(state(model, plain), state(model, seen))
    if d:
        return res.fail("layout", f"after a final layout, {d}")
    return res


def _said(x):
    return "succeeds" if x is None else f"fails with {x}"


def _differ(a, b):
    for k in a:
        if a[k] != b.get(k):
            return f"{k} is {b.get(k)}; had nobody looked, it would be {a[k]}"
    return None
