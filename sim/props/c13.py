"""C13: an interrupted style operation can be repeated to completion."""

from .. import catalog as C
from .. import decl as D
from .. import host as H
from .. import values as V
from ..model import Decl, apply_model, apply_real, few_values, gen_style_op
from ..result import Result
from ..tracing import traced
from ..world import World
from .c08 import resync

LISTS = ["ops"]
RULE = ("one run = a history of style operations on free and node-bound declarations, "
        "some interrupted at a seeded statement or sub-expression (once or several times) and then "
        "repeated or given up; after the interruption unaddressed properties must be unchanged and "
        "addressed ones old, initial or new; after the repetition and every later "
        "operation the declaration must equal the model; non-trivial = an interruption "
        "fired inside an accepted operation")

EXCS = ["KeyboardInterrupt", "MemoryError", "RecursionError", "Cancelled"]
# iteration order of this keyword set depends on an object address, so step
# numbers inside it would not replay
NAMES = [n for n in C.SETTABLE if n != "background_color"]


def gen(rng, tier):
    ops = [["new", "s0", rng.choice([None, None, "plain", "len"])]]
    if rng.random() < 0.3:
        ops.append(["new", "s1", None])
    ids = [o[1] for o in ops]
    names = NAMES
    r = rng.random()
    if r < 0.35:
        names = [n for n in list(C.DIRECTIONAL) + list(C.SHORTHAND) + ["border"]]
    elif r < 0.5:
        names = rng.sample(NAMES, 6)
    value = few_values(rng) if rng.random() < 0.3 else None
    for _ in range(rng.choice([3, 6, 12, 20])):
        d = rng.choice(ids)
        sop = gen_style_op(rng, names, p_rej=0.05, p_upd=rng.choice([0.1, 0.5]), value=value)
        if rng.random() < 0.5:
            hits = [_hit(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            ops.append(["op", d, sop, hits])
            if rng.random() < 0.3:
                ops[-1].append("abandon")
        else:
            ops.append(["op", d, sop])
        if rng.random() < 0.15:
            ops.append(["copy", d, [_hit(rng) for _ in range(rng.choice([0, 1, 1, 2]))]])
    return {"ops": ops}


def _hit(rng):
    f = rng.choice([rng.random(), rng.random(), 1 - rng.random() ** 2])
    return {"f": f, "exc": rng.choice(EXCS), "fine": rng.random() < 0.5}


def _do(world, css, sop):
    try:
        apply_real(world, css, sop)
        return True
    except D.REJECTIONS:
        return False


def candidates(pre, sop):
    """Longhand -> canonical values it may legitimately read during sop."""
    m = pre.copy()
    cand = {}

    def note(names):
        for n in names:
            cand.setdefault(n, []).append(m.read(n))
            cand[n].append(m.initial(n))

    subs = ([["set", n, s, "attr"] if s is not None else ["del", n, "attr"]
             for n, s in sop[1]] if sop[0] == "upd" else [sop])
    names = {l for s in subs for l in C.addressed(s[1])}
    # tracked initial values follow these
    if "color" in names:
        names |= set(C.DIRECTIONAL["border_color"])
    if "direction" in names:
        names.add("text_align")
    note(names)
    for s in subs:
        if s[1] not in C.SETTABLE or not apply_model(m, s):
            break
        note(names)
    return cand


def run(sc):
    res = Result()
    world = World(points=True)
    css, model, nodes = {}, {}, []
    klasses = H.node_classes()
    for i, op in enumerate(sc["ops"]):
        if op[0] == "new":
            if op[1] in css:
                continue
            if op[2]:
                node = klasses[op[2]](world, H.Host(), op[1])
                nodes.append(node)
                css[op[1]] = node.style
            else:
                css[op[1]] = world.CSS()
            model[op[1]] = Decl()
            continue
        d = op[1]
        if d not in css:
            continue
        m = model[d]
        if op[0] == "copy":
            for hit in op[2]:
                _, _, n, _ = traced(lambda: css[d].copy(), fine=hit["fine"])
                _, _, _, fired = traced(lambda: css[d].copy(), at=1 + int(hit["f"] * n),
                                        exc=H.EXC[hit["exc"]], fine=hit["fine"])
                if fired:
                    res.hit("fault:interrupt_copy")
            try:
                dup = css[d].copy()
            except Exception as e:
                return res.fail("copy-error", f"op {i} {op}: {e!r}")
            bad = D.check(world, css[d], m) or D.check(world, dup, m)
            if bad:
                return res.fail("copy", f"op {i} {op}: {bad}")
            continue
        sop = op[2]
        for hit in (op[3] if len(op) > 3 else []):
            pre = Decl(m.vals)
            probe = world.CSS()
            for p in C.NAMES:
                if p in m.vals:
                    setattr(probe, p, getattr(css[d], p))
            _, _, n, _ = traced(lambda: _do(world, probe, sop), fine=hit["fine"])
            kind, val, _, fired = traced(lambda: _do(world, css[d], sop),
                                         at=1 + int(hit["f"] * n),
                                         exc=H.EXC[hit["exc"]], fine=hit["fine"])
            res.steps += n
            if not fired:
                if kind == "err":
                    return res
                apply_model(m, sop)
                continue
            res.hit("fault:interrupt_" + hit["exc"])
            cand = candidates(pre, sop)
            try:
                now = D.reads(world, css[d])
            except Exception as e:
                return res.fail("unreadable", f"op {i} {op}: after the interruption "
                                f"reading raised {e!r}")
            for p in C.NAMES:
                ok = cand.get(p, [pre.read(p)])
                if now[p] not in ok:
                    return res.fail("torn", f"op {i} {op}: after {hit} {p} reads {now[p]}; "
                                    f"allowed {ok}")
            resync(world, css[d], m)
            if kind == "ok":
                res.hit("interrupt_absorbed")
            res.nontrivial = True
        if len(op) > 4 and res.nontrivial:
            # given up; later operations find nothing left of it
            res.hit("abandoned")
            continue
        ok = apply_model(m, sop)
        try:
            apply_real(world, css[d], sop)
            done = True
        except D.REJECTIONS as e:
            done = False
            if ok:
                return res.fail("repeat-error", f"op {i} {op}: repeating raised {e!r}")
        if done and not ok:
            return res
        bad = D.check(world, css[d], m)
        res.log.append([i, sorted(m.vals)])
        if bad:
            return res.fail("not-converged", f"op {i} {op}: {bad}")
    for d in css:
        bad = D.check(world, css[d], model[d])
        if bad:
            return res.fail("not-converged", f"at the end, {d}: {bad}")
    new = world.CSS()
    bad = D.check(world, new, Decl())
    if bad:
        return res.fail("defaults", f"at the end, a new declaration: {bad}")
    return res
