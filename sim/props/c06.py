"""C06: a declaration always reports its latest accepted values."""

from .. import catalog as C
from .. import decl as D
from ..model import Decl, apply_model, apply_real, few_values, gen_style_op
from ..result import Result
from ..world import World

LISTS = ["ops"]
RULE = ("one run = interleaved histories of assignments, deletions, bulk updates and "
        "rejected attempts on several declarations in one world; all reads and listings "
        "are compared with the reference model after every operation; non-trivial = at "
        "least five accepted operations")


def gen(rng, tier):
    nd = rng.choice([1, 2, 3])
    n = rng.choice([5, 10, 20, 40])
    swarm = rng.random()
    if swarm < 0.3:
        names = rng.sample(C.SETTABLE, rng.choice([2, 4, 8]))
    elif swarm < 0.4:
        names = rng.choice([x for x in list(C.SHORTHAND) + list(C.DIRECTIONAL) + ["border"]])
        names = [names, names] + rng.sample(C.addressed(names), 2)
    elif swarm < 0.55:
        fam = rng.choice(["border", "outline", "margin", "padding", "text", "color"])
        names = [x for x in C.SETTABLE if fam in x] + (["direction", "color"]
                                                       if fam in ("text", "border") else [])
    elif swarm < 0.7:
        # one property, of a rare kind of value more often than not
        rare = [x for x in C.NAMES if C.PROPS[x].kind and C.PROPS[x].kind not in
                ("length", "color")]
        names = [rng.choice(rare if rng.random() < 0.7 else C.NAMES)]
    else:
        names = C.SETTABLE
    ops = []
    for d in range(nd):
        ops.append(["new", f"s{d}", []])
    if rng.random() < 0.4:
        pairs = [[x, C.pick_spec(rng, x)] for x in rng.sample(C.NAMES, 3)]
        ops.append(["new", "k0", [[a, "none" if b is None else b] for a, b in pairs]])
    decls = [o[1] for o in ops]
    copies = rng.choice([0, 0, 0.1, 0.25])
    again = rng.choice([0.15, 0.5, 0.8] if len(names) == 1 else [0.05, 0.15, 0.5])
    value = few_values(rng) if rng.random() < 0.3 else None
    for _ in range(n):
        d = rng.choice(decls)
        if copies and rng.random() < copies:
            ops.append(["copy", f"c{len(decls)}", d])
            decls.append(ops[-1][1])
        elif ops[-1][0] == "op" and rng.random() < again:
            sop = ops[-1][2]
            if rng.random() < 0.6:
                d, sop = ops[-1][1], C.near_op(rng, sop)
            ops.append(["op", d, sop])
        else:
            ops.append(["op", d, gen_style_op(rng, names, p_rej=rng.choice([0.05, 0.3]),
                                             value=value)])
    return {"ops": ops, "probe": rng.sample(C.NAMES, 3),
            "wipe": rng.random() < 0.3}


def run(sc):
    res = Result()
    world = World()
    css, model = {}, {}
    accepted = 0
    for i, op in enumerate(sc["ops"]):
        d = op[1]
        if op[0] == "new":
            if d in css:
                continue
            model[d] = Decl()
            from .. import values as V
            try:
                css[d] = world.CSS(**{n: V.make(world, s) for n, s in op[2]})
            except Exception as e:
                return res.fail("constructor", f"op {i} {op}: raised {e!r}")
            apply_model(model[d], ["upd", op[2], "upd"])
        elif op[0] == "copy":
            if d in css or op[2] not in css:
                continue
            css[d], model[d] = css[op[2]].copy(), model[op[2]].copy()
            res.hit("copies")
        else:
            if d not in css:
                continue
            want_ok = apply_model(model[d], op[2])
            try:
                apply_real(world, css[d], op[2])
                ok = True
            except D.REJECTIONS as e:
                ok = False
                err = e
            accepted += ok
            res.hit("accepted" if ok else "fault:rejected")
            if want_ok and not ok:
                return res.fail("refused", f"op {i} {op}: valid, but raised {err!r}")
            if ok and not want_ok:
                return res.fail("accepted-bad", f"op {i} {op}: invalid, but accepted")
        bad = D.check(world, css[d], model[d], sc["probe"])
        res.log.append([i, sorted(model[d].vals)])
        if bad:
            return res.fail("report", f"op {i} {op}: {bad}")
    for d in css:
        bad = D.check(world, css[d], model[d], sc["probe"])
        if bad:
            return res.fail("report", f"at the end, declaration {d}: {bad}")
    for d in css:
        for n in C.NAMES:
            if sc.get("wipe"):
                delattr(css[d], n)
                model[d].delete(n)
        bad = D.check(world, css[d], model[d], sc["probe"])
        if bad:
            return res.fail("report", f"declaration {d}, everything deleted: {bad}")
    res.nontrivial = accepted >= 5
    res.steps = len(sc["ops"])
    return res
