"""C08: declarations are isolated from copies, each other and shared defaults."""

from .. import catalog as C
from .. import decl as D
from .. import host as H
from .. import values as V
from ..model import Decl, apply_model, apply_real, gen_style_op
from ..result import Result
from ..tracing import traced
from ..world import World

LISTS = ["ops"]
RULE = ("one run = a population of declarations created, copied (to and from nodes, "
        "chains of copies), edited, given collections that are edited afterwards and "
        "having their returned collections edited in place; every declaration and the "
        "initial values are compared with the reference model after every operation; "
        "non-trivial = a copy existed and was compared after an edit of its source or "
        "another copy")

COLLECTION = ["cursor", "quotes", "border_spacing", "outline", "border_top", "border_left",
              "border_right", "border_bottom", "border", "clip"]
MUTATORS = ["append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear",
            "setitem", "setslice", "delitem", "delslice", "iadd", "imul", "attrs"]


def gen(rng, tier):
    ops = [["new", "s0", []]]
    ids = ["s0"]
    names = C.SETTABLE
    if rng.random() < 0.3:
        names = rng.sample(C.SETTABLE, 5) + ["cursor"]
    for _ in range(rng.choice([6, 12, 25])):
        r = rng.random()
        d = rng.choice(ids)
        if r < 0.10:
            x = f"s{len(ids)}"
            ops.append(["new", x, []])
            ids.append(x)
        elif r < 0.30 and len(ids) < 8:
            x = f"s{len(ids)}"
            ops.append(["copy", x, d, rng.choice([None, None, "plain", "len", "value"])])
            ids.append(x)
        elif r < 0.62:
            ops.append(["op", d, gen_style_op(rng, names, p_rej=0.12)])
        elif r < 0.78:
            name = rng.choice(COLLECTION)
            lst = _collection(rng, name)
            others = rng.sample(ids, min(len(ids), rng.choice([1, 1, 2])))
            ops.append(["give", others, name, lst,
                        rng.choice(["append", "clear", "pop", "reverse", "setitem"])])
        elif r < 0.95:
            ops.append(["grab", d, rng.choice(COLLECTION + ["margin", "cursor", "cursor"]
                                              + ["keys()", "items()"]),
                        rng.sample(MUTATORS, rng.randrange(1, 6))])
        else:
            ops.append(["interrupt", d, gen_style_op(rng, names, p_rej=0.1),
                        rng.random()])
    return {"ops": ops}


def _collection(rng, name):
    if name == "cursor":
        return rng.choice([{"l": ["url(a.cur)", "help"]}, {"l": ["wait"]},
                           {"l": ["url(x.cur)", "url(y.cur)", "text"]}, {"l": ["auto"]}])
    if name == "quotes":
        inner = rng.choice(["t", "l", "tl"])
        return {"l": [{rng.choice(inner): [rng.choice("<([a"), rng.choice(">)]b")]}
                      for _ in range(rng.choice([1, 2, 2, 3]))]}
    if name == "border_spacing":
        return {"l": [rng.randrange(9), rng.randrange(9)][: rng.choice([1, 2])]}
    if name == "clip":
        return "rect(1px, 2px, 3px, 4px)"
    for _ in range(20):
        s = C.pick_spec(rng, name)
        if isinstance(s, dict) and "l" in s:
            return s
    return {"l": ["solid", 2]} if name != "outline" else {"l": ["red", "solid"]}


def run(sc):
    res = Result()
    world = World(points=True)
    css, model, hold = {}, {}, []
    klasses = H.node_classes()
    copies = 0
    for i, op in enumerate(sc["ops"]):
        k = op[0]
        touched = None
        if k == "new":
            if op[1] in css:
                continue
            css[op[1]], model[op[1]] = world.CSS(), Decl()
        elif k == "copy":
            if op[2] not in css or op[1] in css:
                continue
            node = None
            if op[3]:
                node = klasses[op[3]](world, H.Host(), op[1])
            try:
                css[op[1]] = css[op[2]].copy(node) if node is not None else css[op[2]].copy()
            except Exception as e:
                return res.fail("copy-error", f"op {i} {op}: copying raised {e!r}")
            if node is not None:
                node.style = css[op[1]]
            model[op[1]] = model[op[2]].copy()
            copies += 1
            res.hit("copies")
        elif k == "op":
            if op[1] not in css:
                continue
            ok = apply_model(model[op[1]], op[2])
            try:
                apply_real(world, css[op[1]], op[2])
                if not ok:
                    return res
            except D.REJECTIONS:
                res.hit("fault:rejected")
                if ok:
                    return res
        elif k == "interrupt":
            if op[1] not in css:
                continue
            d = op[1]
            # interrupted operation: only this declaration may be affected
            _, _, n, _ = traced(lambda: _quiet(world, world.CSS(), op[2]))
            _, _, _, fired = traced(lambda: _quiet(world, css[d], op[2]),
                                    at=1 + int(op[3] * n), exc=H.Cancelled)
            if fired:
                res.hit("fault:interrupt")
            touched = d
        elif k == "give":
            who = [d for d in op[1] if d in css]
            if not who:
                continue
            lst = V.make(world, op[3])
            for d in who:
                if not apply_model(model[d], ["set", op[2], op[3], "attr"]):
                    return res
                try:
                    setattr(css[d], op[2], lst)
                except D.REJECTIONS:
                    return res
            if isinstance(lst, list):
                mutate(lst, op[4])
                for x in lst:
                    if isinstance(x, list):
                        mutate(x, op[4])
                res.hit("fault:given_collection_edited")
        elif k == "grab":
            if op[1] not in css:
                continue
            d = op[1]
            v = (css[d].keys() if op[2] == "keys()" else css[d].items()
                 if op[2] == "items()" else getattr(css[d], op[2]))
            for m in op[3]:
                mutate(v, m)
            res.hit("fault:returned_collection_edited")
            hold.append(v)
            touched = d if op[2] not in ("keys()", "items()") else None
        res.log.append([i, k])
        if touched:
            # the declaration itself may have changed; accept what it now says
            try:
                resync(world, css[touched], model[touched])
            except Exception as e:
                return res.fail("unreadable", f"op {i} {op}: reading raised {e!r}")
        for d in css:
            bad = D.check(world, css[d], model[d])
            if bad:
                kind = "isolation" if op[1] != d else "own"
                return res.fail(kind, f"op {i} {op}: declaration {d}: {bad}")
        new = world.CSS()
        bad = D.check(world, new, Decl())
        if bad:
            return res.fail("defaults", f"op {i} {op}: a new declaration: {bad}")
        if copies and k != "copy":
            res.nontrivial = True
    res.steps = len(sc["ops"])
    return res


def _quiet(world, css, op):
    try:
        apply_real(world, css, op)
    except D.REJECTIONS:
        pass


def resync(world, css, m):
    """Adopt what the declaration reports (the operation was interrupted)."""
    listed = set(css.keys())
    old = m.copy()
    now = D.reads(world, css)
    for p in C.NAMES:
        if p in listed:
            m.vals[p] = now[p]
        elif p in m.vals and now[p] != m.vals[p]:
            m.vals.pop(p)
    del old


def mutate(v, how):
    """Try to edit a collection in place; immutables refuse."""
    try:
        if how == "append":
            v.add("edited") if isinstance(v, set) else v.append("edited")
        elif how == "extend":
            v.extend(["edited"])
        elif how == "insert":
            v.insert(0, "edited")
        elif how == "pop":
            v.pop()
        elif how == "remove":
            v.remove(next(iter(v)))
        elif how == "reverse":
            v.reverse()
        elif how == "sort":
            v.sort(key=str, reverse=True)
        elif how == "clear":
            v.clear()
        elif how == "setitem":
            v[0] = "edited"
        elif how == "setslice":
            v[:] = ["edited"]
        elif how == "delitem":
            del v[0]
        elif how == "delslice":
            del v[:]
        elif how == "iadd":
            v += ["edited"]
        elif how == "imul":
            v *= 2
        elif how == "attrs" and hasattr(v, "to_dict"):
            for key in list(v.to_dict()):
                setattr(v, key, "edited")
            v.to_dict().clear()
    except Exception:
        pass
