"""C07: a rejected style assignment changes nothing."""

from .. import catalog as C
from .. import decl as D
from .. import values as V
from ..doc import DocModel, RealDocs, outcome
from ..model import apply_model, gen_style_op, FORMS
from ..result import Result
from ..world import World

LISTS = ["ops"]
RULE = ("one run = node-bound and free declarations taken through accepted operations "
        "with invalid assignments injected (attribute, item, bulk; bad part first, "
        "middle or last); after each rejection all declarations, listings and marks are "
        "compared with before; non-trivial = a rejection hit a declaration that already "
        "had values")


def gen(rng, tier):
    ops = [["display", "d0", 96, 640, 480, None]]
    n = rng.choice([1, 2, 3])
    kl = rng.choice(["plain", "plain", "len", "value", "slot"])
    for i in range(n):
        ops.append(["node", f"n{i}", kl])
        ops.append(["style", f"n{i}", ["set", "display", "block", "attr"]])
        if i:
            ops.append(["attach", f"n{i}", f"n{rng.randrange(i)}", 0])
    fam = rng.random()
    names = C.SETTABLE
    if fam < 0.3:
        names = list(C.DIRECTIONAL) + list(C.SHORTHAND) + ["border"]
    elif fam < 0.5:
        names = rng.sample(C.SETTABLE, 6)
    for _ in range(rng.choice([4, 8, 16, 30])):
        x = f"n{rng.randrange(n)}"
        r = rng.random()
        if r < 0.45:
            ops.append(["style", x, gen_style_op(rng, names, p_rej=0, p_del=0.1)])
        elif r < 0.9:
            name = rng.choice(names)
            if rng.random() < 0.5:
                # on something already set
                ops.append(["style", x, ["set", name, C.pick_spec(rng, name), "attr"]])
            if rng.random() < 0.5:
                ops.append(["clean", "n0"])
            spec = C.pick_reject(rng, name)
            form = rng.choice(FORMS)
            if form.startswith("upd") and spec is None:
                form = "item"
            if rng.random() < 0.2:
                pairs = [[rng.choice(names), None] for _ in range(rng.randrange(0, 3))]
                pairs = [[a, C.pick_spec(rng, a) if rng.random() < 0.8 else None]
                         for a, _ in pairs if a != name]
                pairs = [list(t) for t in {a: (a, "none" if b is None else b)
                                           for a, b in pairs}.values()]
                bad = rng.choice([[name, "bogus" if spec is None else spec],
                                  ["no_such_property", 3]])
                pairs.insert(rng.randrange(len(pairs) + 1), bad)
                ops.append(["style", x, ["upd", pairs, rng.choice(["upd", "upd-"])]])
            else:
                ops.append(["style", x, ["set", name, spec, form]])
        elif r < 0.95:
            ops.append(["layout", "n0", "d0", "HTML5"])
            ops.append(["clean", "n0"])
            if rng.random() < 0.5:
                name = rng.choice(names)
                spec = C.pick_reject(rng, name)
                ops.append(["style", x, ["set", name, spec, "attr"]])
        else:
            ops.append(["style", x, ["badname", rng.choice(["set", "del", "get"])]])
    return {"ops": ops}


def run(sc):
    res = Result()
    world = World()
    model, docs = DocModel(), RealDocs(world)
    free = world.CSS(width=3, cursor="help", outline="1px solid")
    for i, op in enumerate(sc["ops"]):
        if op[0] == "style" and op[2][0] == "badname":
            if op[1] not in docs.nodes:
                continue
            before = state(docs, free)
            css = docs.nodes[op[1]].style
            try:
                if op[2][1] == "set":
                    css["no-such-property"] = 1
                elif op[2][1] == "del":
                    del css["no-such-property"]
                else:
                    css["no-such-property"]
                return res.fail("no-error", f"op {i} {op}: no error for an unknown name")
            except KeyError:
                pass
            d = diff(before, state(docs, free))
            if d:
                return res.fail("changed", f"op {i} {op}: rejected, but {d}")
            continue
        if op[0] != "style":
            if not model.apply(op):
                continue
            if op[0] == "layout":
                outcome(docs, op, [])
            else:
                docs.apply(op)
            continue
        if op[1] not in model.nodes:
            continue
        n = op[1]
        sop = op[2]
        before = state(docs, free)
        pre = model.nodes[n].decl.copy()
        want_ok = apply_model(model.nodes[n].decl, sop)
        try:
            docs.apply(op)
            ok = True
        except D.REJECTIONS:
            ok = False
        if want_ok:
            if not ok:
                return res          # C06 reports valid values that are refused
            continue
        if ok:
            return res.fail("no-error", f"op {i} {op}: invalid, but no error")
        res.hit("fault:rejected_" + sop[0])
        post = model.nodes[n].decl
        after = state(docs, free)
        prefix = pre.vals != post.vals or (sop[0] == "upd" and _prefix(sop))
        want = dict(before)
        if prefix:
            # a bulk update applies the assignments before the rejected one
            for p in C.NAMES:
                want[f"{n}.{p}"] = post.read(p)
            for k in list(want):
                if k.startswith("mark ") or k == f"keys {n}":
                    want.pop(k)
                    after.pop(k, None)
        d = diff(want, after)
        res.log.append([i, sorted(post.vals)])
        if d:
            return res.fail("changed", f"op {i} {op}: rejected, but {d}")
        if pre.vals:
            res.nontrivial = True
    res.steps = len(sc["ops"])
    return res


def _prefix(sop):
    return len(sop[1]) > 1


def state(docs, free):
    w = docs.world
    s = {}
    for i, node in docs.nodes.items():
        for p in C.NAMES:
            s[f"{i}.{p}"] = V.read(w, node.style, p)
        s[f"keys {i}"] = V.listing(node.style)
        s[f"mark {i}"] = None if node.layout is None else node.layout.dirty
    for p in C.NAMES:
        s[f"free.{p}"] = V.read(w, free, p)
    s["keys free"] = V.listing(free)
    new = w.CSS()
    for p in C.NAMES:
        s[f"initial {p}"] = V.read(w, new, p)
    return s


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            return f"{k} was {a[k]}, is {b.get(k)}"
    return None
