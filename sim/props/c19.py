"""C19: errors raised by host code or injected faults reach the caller as they are."""

from .. import catalog as C
from .. import host as H
from ..doc import DocGen, DocModel, RealDocs, build_fresh
from ..result import Result
from ..tracing import traced
from ..world import World

LISTS = ["ops"]
RULE = ("one run = a document taken through edits, layouts, mark and size changes, reads "
        "and copies, in some of which a host callback (node attribute, children, display) "
        "raises one of 20 error classes or an asynchronous error is injected at a seeded "
        "statement or sub-expression, directly or from a library call nested in a "
        "callback; the very same exception object must come out of that call and of no "
        "later one; non-trivial = an injected error fired")

HOST = [H.HostFault, H.Cancelled, KeyboardInterrupt, MemoryError, RecursionError,
        ValueError, AttributeError, KeyError, TypeError, NameError, AssertionError,
        NotImplementedError, OSError, IndexError, ZeroDivisionError, RuntimeError,
        LookupError, ArithmeticError, SystemExit, UnicodeError]
ASYNC = [H.Cancelled, KeyboardInterrupt, MemoryError, RecursionError, SystemExit,
         H.HostFault]
EXC = {c.__name__: c for c in HOST}
PEEKS = ["box", "attr", "item", "side", "short", "keys", "items", "text", "mark", "copy",
         "copyto", "px", "value", "value", "hints"]
VALUES = ["cursor", "cursor", "quotes", "border_spacing", "clip", "color", "width", "margin_left"]
LIBRARY = ("layout", "style", "mark", "boxset", "look", "restyle", "intr")


def gen(rng, tier):
    classes = [rng.choice(["plain", "proxy", "proxy", "proxy", "tuple", "slot", "len"])]
    g = DocGen(rng, max_nodes=rng.choice([1, 2, 4, 8]), classes=classes,
               hide=rng.choice([0, 0.1]), fail=rng.choice([0, 0, 0.05]),
               other=rng.choice([0.1, 0.5]))
    if rng.random() < 0.25:
        g.inline, g.replaced = 0.8, 0.9
    g.display()
    root = g.tree()
    host_only = rng.random() < 0.5
    pool = rng.sample(sorted(EXC), rng.choice([1, 3, len(EXC)]))
    if rng.random() < 0.5:      # those that library code handles itself
        pool = rng.sample(["AttributeError", "AttributeError", "AttributeError", "KeyError",
                           "ValueError", "TypeError", "TypeError", "LookupError",
                           "IndexError", "ZeroDivisionError"], rng.choice([1, 2]))
    for _ in range(rng.choice([2, 4, 8])):
        start = len(g.ops)
        r = rng.random()
        ids = list(g.m.nodes)
        n = rng.choice(ids)
        if r < 0.35:
            g.emit(g.layout_op([root]))
        elif r < 0.75:
            if rng.random() < 0.3 and g.past.get(n):
                # take back something that is set
                sop = rng.choice(g.past[n])
                name = sop[1] if isinstance(sop[1], str) else sop[1][0][0] if sop[1] else "width"
                if name == "no_such_property":
                    name = "width"
                g.emit(["style", n, ["del", name, rng.choice(["attr", "item", "item-", "upd"])]])
            else:
                g.style_op(n)
        elif r < 0.83:
            g.emit(["mark", n, rng.random() < 0.5])
        elif r < 0.88:
            g.emit(["boxset", n, rng.choice(["content_top", "content_left"]),
                    rng.randrange(1, 50)])
        elif r < 0.94:
            g.emit(["look", n, rng.choice(PEEKS), rng.choice(C.NAMES if rng.random() < 0.5
                                                              else VALUES),
                    rng.randrange(100)])
        elif r < 0.97:
            g.emit(["restyle", n, rng.choice(ids)])
        else:
            g.edit([root])
        for op in g.ops[start:]:
            if op[0] in LIBRARY and rng.random() < 0.85:
                how = "host" if host_only or rng.random() < 0.6 else "point"
                f = rng.choice([rng.random(), rng.random() ** 3, 1 - rng.random() ** 3])
                if how == "host":
                    exc = rng.choice(pool)
                else:
                    exc = rng.choice(ASYNC).__name__
                op.append({"fault": how, "exc": exc, "f": f,
                           "by": rng.random() if rng.random() < 0.7 else None,
                           "sticky": how == "host" and rng.random() < 0.3,
                           "fine": rng.random() < 0.4,
                           "nested": rng.choice([None] * 4 + [n])})
    return {"ops": g.ops}


def perform(docs, op):
    if op[0] != "look" or len(op) < 5:
        return docs.apply(op)
    if op[1] in docs.nodes:
        peek(docs, docs.nodes[op[1]], *op[2:5])


def peek(docs, node, kind, name, arg):
    """Look at something; nothing that goes wrong is hidden here."""
    if kind == "box":
        return H.look_at(node.layout)
    css = node.style
    if kind == "attr":
        getattr(css, name)
    elif kind == "item":
        css[name.replace("_", "-") if arg % 2 else name]
    elif kind == "side":
        getattr(css, list(C.DIRECTIONAL)[arg % len(C.DIRECTIONAL)])
    elif kind == "short":
        str(getattr(css, list(C.SHORTHAND)[arg % len(C.SHORTHAND)]))
    elif kind == "keys":
        css.keys()
    elif kind == "items":
        css.items()
    elif kind == "text":
        str(css)
    elif kind == "mark":
        css.dirty, node.intrinsic.dirty
    elif kind == "copy":
        css.copy()
    elif kind == "copyto":
        css.copy(node)
    elif kind == "hints":
        node.intrinsic.width, node.intrinsic.ratio
    elif kind == "px":
        display = next(iter(docs.displays.values()))
        for p in ("width", "margin_left", "padding_top", "height"):
            v = getattr(css, p)
            if type(v).__module__ == "colosseum.units" and hasattr(v, "suffix"):
                if v.suffix not in ("em", "ex", "ch"):
                    v.px(display=display, font=None, size=100)
    elif kind == "value":
        v = getattr(css, name)
        if name == "cursor":
            v[0], v[-1], len(v), str(v), v == v, v[:1], v.copy()
        elif name == "quotes" and v is not None and not isinstance(v, str):
            v.opening(0), v.closing(0), str(v)
        else:
            str(v), repr(v), v == v


def _split(op):
    if isinstance(op[-1], dict) and "fault" in op[-1]:
        return op[:-1], op[-1]
    return op, None


def _counts(model, op, fault):
    """Callbacks and points of the operation on a newly built document."""
    world = World(points=True)
    docs = RealDocs(world)
    for r in model.nodes:
        if model.nodes[r].parent is None:
            docs.nodes.update(build_fresh(world, model, r, host=docs.host).nodes)
    for d, v in model.displays.items():
        docs.displays[d] = H.Display(docs.host, v["dpi"], v["content_width"],
                                     v["content_height"], v.get("fixed"))
    docs.host.arm({})
    try:
        n = traced(lambda: perform(docs, op), fine=fault["fine"])[2]
    except Exception:
        n = 1
    return docs.host.what or [None], max(1, n)


def run(sc):
    res = Result()
    world = World(points=True)
    model, docs = DocModel(), RealDocs(world)
    past = []           # errors already delivered
    for i, op in enumerate(sc["ops"]):
        op, fault = _split(op)
        before = model.clone() if fault else None
        if not model.apply(op):
            continue
        if not fault:
            try:
                perform(docs, op)
            except Exception as e:
                if any(e is p for p in past):
                    return res.fail("deferred", f"op {i} {op} raised {e!r}, the error an "
                                    f"earlier operation was given")
                # other errors are not this property's business
            continue
        raised, error = _inject(before, world, docs, op, fault, res)
        if error is None:           # did not get that far
            continue
        res.nontrivial = True
        res.log.append([i, fault["exc"], type(raised).__name__])
        if raised is None:
            return res.fail("swallowed", f"op {i} {op}: {fault['exc']} raised in "
                            f"{_where(fault)} did not come out")
        if raised is not error:
            return res.fail("replaced", f"op {i} {op}: {error!r} raised in "
                            f"{_where(fault)} came out as {raised!r}")
        past.append(error)
    return res


def _where(fault):
    s = "a host callback" if fault["fault"] == "host" else "the library"
    if fault["nested"]:
        s += " (call nested in a host callback)"
    return s


def _inject(model, world, docs, op, fault, res):
    """Perform op with the fault; (what came out, the error injected or None)."""
    cb, ev = _counts(model, op, fault)
    res.steps += ev
    error = EXC[fault["exc"]]("injected")
    fired = []

    def boom():
        fired.append(1)
        raise error

    def attempt(fn):
        try:
            fn()
        except BaseException as e:
            e.__traceback__ = None
            return e
        return None

    k = 1 + int(fault["f"] * len(cb))
    if fault.get("by") is not None:
        # any of the things asked for, however rarely it is
        asked = sorted(set(cb), key=str)
        what = asked[int(fault["by"] * len(asked))]
        hints = [x for x in asked if x and x.startswith("hint.")]
        if hints and int(fault["by"] * 1000) % 3 == 0:
            what = hints[int(fault["by"] * len(hints))]
        where = [i for i, x in enumerate(cb) if x == what]
        k = 1 + where[int(fault["f"] * len(where))]
    nested = fault["nested"]
    if nested in model.nodes:
        # the error comes from a library call the callback makes itself
        inner = build_fresh(world, model, model.root_of(nested))
        for x in inner.nodes.values():
            if x.layout is not None:
                x.layout.dirty = False

        def act():
            inner.host.arm({1: boom})
            try:
                inner.nodes[nested].style.orphans = 77
            finally:
                inner.host.disarm()
    else:
        act = boom
    if fault["fault"] == "host":
        def broken():       # the host stays out of order
            raise H.HostFault("another error")

        docs.host.arm({k: act}, broken if fault.get("sticky") else None)
        try:
            raised = attempt(lambda: perform(docs, op))
        finally:
            docs.host.disarm()
    else:
        k = 1 + int(fault["f"] * ev)
        how, val, _, hit = traced(lambda: perform(docs, op), at=k, exc=lambda: error,
                                  fine=fault["fine"])
        raised = val if how == "err" else None
        if hit:
            fired.append(1)
    if fired:
        res.hit(f"fault:{fault['fault']}_{fault['exc']}")
        return raised, error
    return raised, None
