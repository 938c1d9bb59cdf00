"""C18: reading a declaration while other threads change it."""

from .. import catalog as C
from .. import decl as D
from .. import host as H
from .. import sched as S
from .. import values as V
from ..doc import spec_of
from ..model import Decl, apply_model, apply_real, few_values, gen_style_op
from ..result import Result
from ..tracing import traced
from ..world import World
from .c15 import GROUPS, LONGHANDS, SINGLES, _finish, _longs

LISTS = ["threads", "threads.*.ops", "setup", "sched.switches"]
RULE = ("one run = 1-3 threads changing disjoint property groups of one declaration while "
        "1-3 threads read it (attribute, item, sides, shorthand, listings, text, copies) "
        "under a seeded schedule with stalls; no read may fail, "
        "and per property the reads must be those of an atomic register with the "
        "writer's sequence of values; non-trivial = a read overlapped a write")

INF = float("inf")
READS = ["attr", "attr", "attr", "item", "side", "short", "keys", "items", "str", "copy",
         "copyto"]


def gen(rng, tier):
    sc = {"fine": rng.random() < 0.5, "sched": S.gen_plan(rng),
          "node": rng.random() < 0.4}
    nw = rng.choice([1, 1, 2, 3])
    pieces = [list(g) for g in GROUPS.values()] + [[s] for s in SINGLES]
    if rng.random() < 0.5:
        pieces = [list(p) for p in LONGHANDS]
    pieces = rng.sample(pieces, rng.choice([nw, nw, nw + 2, nw * 3]))
    parts = rng.random() < 0.15
    if parts:
        # the parts of one shorthand, read together
        sh = rng.choice(list(C.SHORTHAND))
        pieces = [[l] for l in C.SHORTHAND[sh]]
        if rng.random() < 0.5:
            pieces = [list(C.SHORTHAND[sh]) + [sh] * rng.choice([0, 1])]
    sides = not parts and rng.random() < 0.15
    if sides:
        # the sides of one property, never back to their initial values
        d = rng.choice(list(C.DIRECTIONAL))
        pieces = [[d] * rng.choice([4, 12]) + C.DIRECTIONAL[d]]
    value = few_values(rng) if rng.random() < 0.3 else None
    every = [x for p in pieces for x in p]
    sc["setup"] = [gen_style_op(rng, every, p_rej=0, value=value)
                   for _ in range(rng.choice([0, 0, 3]))]
    sc["threads"] = []
    for t in range(nw):
        names = [x for p in pieces[t::nw] for x in p]
        if not names:
            continue
        if rng.random() < 0.4:
            names = rng.sample(names, min(len(names), 2))
        ops = [gen_style_op(rng, names, p_rej=0.05, p_del=0 if sides else rng.choice([0.1, 0.4]),
                            p_upd=0 if parts or sides else 0.15, value=value)
               for _ in range(rng.choice([1, 3, 6, 12]))]
        if rng.random() < 0.3:
            # the same again and again
            ops = [rng.choice(ops[:3]) for _ in range(8)]
        sc["threads"].append({"ops": ops, "names": names})
    longs = _longs(every)
    for t in range(rng.choice([1, 1, 2, 3])):
        ops = [["short" if parts and rng.random() < 0.8 else rng.choice(READS),
                rng.choice(longs), rng.randrange(100)]
               for _ in range(rng.choice([2, 4, 10]))]
        sc["threads"].append({"ops": ops, "reads": True})
    rng.shuffle(sc["threads"])
    return sc


class Register:
    """The values one property takes, in order, each from a known interval."""

    def __init__(self, value, assigned):
        self.versions = [[value, assigned, -1, -1]]
        self.transient = []
        self.reads = []

    def feasible(self, s, e, low, accept):
        vs = self.versions
        for j in range(low, len(vs)):
            if vs[j][2] > e:
                break
            if j + 1 < len(vs) and vs[j + 1][3] < s:
                continue            # overwritten before the read began
            if accept(vs[j][0], vs[j][1]):
                return j
        return None


class Run:
    def __init__(self, world, css, decl, names):
        self.world, self.css = world, css
        self.regs = {l: Register(decl.read(l), l in decl.vals) for l in names}
        self.bad = None
        self.overlap = False

    def write(self, sched, decl, op, task):
        """Perform op; its effect on the registers is known beforehand."""
        s = sched.total
        parts = [op]
        if op[0] == "upd":
            parts = [["del", n, "attr"] if v is None else ["set", n, v, "attr"]
                     for n, v in op[1]]
        mine, ok = [], True
        for part in parts:
            if part[1] not in C.SETTABLE:
                ok = False
                break
            ok = apply_model(decl, part)
            if not ok:
                break
            short = part[0] == "set" and part[1] in list(C.SHORTHAND) + ["border"]
            for l in C.addressed(part[1]):
                if l in self.regs:
                    v = [decl.read(l), l in decl.vals, s, INF]
                    self.regs[l].versions.append(v)
                    mine.append(v)
                    if short:
                        # parts may pass through their initial value
                        tr = [decl.initial(l), s, INF]
                        self.regs[l].transient.append(tr)
                        mine.append(tr)
        kind, val = task.op(lambda: apply_real(self.world, self.css, op))
        for v in mine:
            v[-1] = sched.total
        if kind == "err" and not isinstance(val, D.REJECTIONS):
            self.bad = f"{op} raised {val!r}"
        elif (kind == "ok") != ok:
            self.bad = f"{op} " + (f"raised {val!r}" if kind == "err" else "was accepted")

    def read(self, sched, op, task):
        kind, name, arg = op
        s = sched.total
        how, got = task.op(lambda: self.observe(kind, name, arg))
        e = sched.total
        if how == "err":
            self.bad = f"reading ({kind} {name}) raised {got!r}"
            return
        for l, what, value in got:
            if l in self.regs:
                self.regs[l].reads.append([s, e, task.i, what, value, kind])

    def observe(self, kind, name, arg):
        w, css = self.world, self.css
        if kind == "attr":
            return [(name, "value", V.show(w, getattr(css, name)))]
        if kind == "item":
            return [(name, "value", V.show(w, css[name if arg % 2 else
                                                  name.replace("_", "-")]))]
        if kind == "side":
            d = next((d for d, ls in C.DIRECTIONAL.items() if name in ls), None)
            if d is None:
                return [(name, "value", V.show(w, getattr(css, name)))]
            return [(l, "value", V.show(w, v))
                    for l, v in zip(C.DIRECTIONAL[d], getattr(css, d))]
        if kind == "short":
            sh = next((d for d, ls in C.SHORTHAND.items() if name in ls), "outline")
            got = V.show(w, getattr(css, sh))
            parts = got[1] if isinstance(got, list) and got[0] == "sh" else {}
            return [(l, "value", parts[l]) if l in parts else (l, "unlisted", None)
                    for l in C.SHORTHAND[sh]]
        if kind == "keys":
            keys = set(css.keys())
            return [(l, "listed" if l in keys else "unlisted", None) for l in self.regs]
        if kind == "items":
            items = dict(css.items())
            return [(l, "item", V.show(w, items[l])) if l in items
                    else (l, "unlisted", None) for l in self.regs]
        if kind == "str":
            text = str(css)
            parts = dict(p.split(": ", 1) for p in text.split("; ")) if text else {}
            return [(l, "text", parts[l.replace("_", "-")])
                    if l.replace("_", "-") in parts
                    else (l, "unlisted", None) for l in self.regs]
        if kind == "copyto":
            node = H.node_classes()["plain"](w, H.Host(), "m")
            node.style = dup = css.copy(node)
        else:
            dup = css.copy()
        return [(l, "value", V.show(w, getattr(dup, l))) for l in self.regs]

    def judge(self, initial, text):
        """Do the recorded reads belong to atomic registers?"""
        for l, reg in self.regs.items():
            done = []           # (end, thread, version)
            for s, e, who, what, value, kind in sorted(reg.reads, key=lambda r: r[:3]):
                low = max([j for end, t, j in done if end < s or t == who], default=0)
                if what in ("value", "item"):
                    def accept(v, assigned):
                        return v == value and (assigned or what == "value")
                elif what == "listed":
                    def accept(v, assigned):
                        return assigned
                elif what == "text":
                    def accept(v, assigned):
                        # equal colors and the like may have different texts
                        return assigned and (isinstance(v, list) and v[0] != "len"
                                             or text(l, v) == value)
                else:
                    def accept(v, assigned):
                        return not assigned or v == initial(l)
                j = reg.feasible(s, e, low, accept)
                if j is None:
                    if any(a <= e and b >= s and accept(v, False)
                           for v, a, b in reg.transient):
                        continue
                    near = [v[:2] for v in reg.versions]
                    return (f"thread {who}, {kind} during steps {s}-{e}: {l} is "
                            f"{what} {value}; its values in order (assigned or not) are "
                            f"{near[max(0, low - 1):low + 6]}")
                if len(reg.versions) > 1 and any(v[2] <= e and v[3] >= s
                                                 for v in reg.versions[1:]):
                    self.overlap = True
                done.append((e, who, j))
        return None


def run(sc):
    res = Result()
    if not sc["threads"]:
        return res
    world = World(points=True)
    if sc["node"]:
        css = H.node_classes()["plain"](world, H.Host(), "n").style
    else:
        css = world.CSS()
    m = Decl()
    for op in sc["setup"]:
        if apply_model(m, op):
            apply_real(world, css, op)
        else:
            try:
                apply_real(world, css, op)
            except D.REJECTIONS:
                pass
    written = {l for t in sc["threads"] if "names" in t for l in _longs(t["names"])}
    names = set(C.NAMES) - {"background_color"}
    if "color" in written:
        names -= set(C.DIRECTIONAL["border_color"])
    if "direction" in written:
        names -= {"text_align"}
    # what nobody writes is watched as well, but not all of it every time
    used = written | {op[1] for t in sc["threads"] if "reads" in t for op in t["ops"]}
    r = Run(world, css, m, [n for n in C.NAMES if n in names and (
        n in used or n in m.vals)])
    probe = World(points=True)
    pc = probe.CSS()
    horizon = 1
    for t in sc["threads"]:
        for op in t["ops"]:
            if "reads" in t:
                horizon += 20
            else:
                horizon += traced(lambda: _quiet(probe, pc, op), fine=sc["fine"])[2]
    sched = S.Scheduler(sc["sched"], horizon=horizon, fine=sc["fine"])

    def body(task, t):
        decl = m.copy()
        for op in t["ops"]:
            if r.bad:
                return
            if "reads" in t:
                r.read(sched, op, task)
            else:
                r.write(sched, decl, op, task)

    sched.run([lambda task, t=t: body(task, t) for t in sc["threads"]])
    _finish(res, sched)
    if res.violation:
        return res
    if r.bad:
        return res.fail("failed", r.bad)
    w2 = World()
    texts = {}

    def text(name, c):
        key = f"{name} {c}"
        if key not in texts:
            fresh = w2.CSS()
            setattr(fresh, name, V.make(w2, spec_of(c)))
            texts[key] = f"{getattr(fresh, name)}"
        return texts[key]

    bad = r.judge(m.initial, text)
    if bad:
        return res.fail("not-current", bad)
    res.nontrivial = r.overlap
    res.log.append([[l, len(x.versions), [y[:3] for y in x.reads]]
                    for l, x in sorted(r.regs.items())])
    return res


def _quiet(world, css, op):
    try:
        apply_real(world, css, op)
    except D.REJECTIONS:
        pass
