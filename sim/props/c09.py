"""C09: memory and work per operation stay bounded over a process lifetime."""

import gc
import random
import sys
import types
import weakref

from .. import catalog as C
from .. import host as H
from ..doc import BLOCKISH, DocGen, DocModel, RealDocs, build_fresh
from ..model import gen_style_op
from ..result import Result
from ..tracing import traced
from ..world import World

LISTS = ["kinds"]
RULE = ("one run = a soak of one world: some thousands of operations of a seeded mix of "
        "kinds (distinct values, rejections, copies, layouts on changing displays, failed "
        "and interrupted layouts, hiding, documents built and dropped) on a live document "
        "of constant size; objects reachable from the library and the document, and "
        "allocated blocks, must stop growing, dropped nodes must be reclaimable, and "
        "probe operations must take no more steps than in a new world; non-trivial = "
        "the soak reached its last round")

KINDS = ["set_length", "set_color", "set_any", "set_border", "reject", "delete", "bulk",
         "copy", "new_style", "read", "layout", "layout_display", "fail_layout", "hide",
         "build_drop", "move", "intr", "interrupt_layout", "interrupt_style", "host_fault",
         "box_move", "units", "restyle", "cursor_quotes", "unknown", "drop_failed"]
NAMES = [n for n in C.SETTABLE if n != "background_color"]


def gen(rng, tier):
    g = DocGen(rng, max_nodes=4, classes=[rng.choice(H.KLASSES)], hide=0, fail=0, other=0)
    g.display()
    root = g.tree(rng.choice([2, 3, 4]))
    kinds = rng.sample(KINDS, rng.choice([1, 1, 2, 2, 3, 5]))
    return {"setup": g.ops, "root": root, "kinds": kinds, "seed": rng.randrange(1 << 32),
            "per": 90, "rounds": 12}


class Soak:
    def __init__(self, sc):
        self.rng = random.Random(sc["seed"])
        self.world = World(points=True)
        self.model, self.docs = DocModel(), RealDocs(self.world)
        for op in sc["setup"]:
            if self.model.apply(op):
                try:
                    self.docs.apply(op)
                except Exception:
                    pass
        self.root = sc["root"]
        self.ids = list(self.model.nodes)
        self.dropped = []
        self.i = 0
        self.stats = {}

    def hit(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def edit(self, op):
        if not self.model.apply(op):
            return
        try:
            self.docs.apply(op)
        except Exception:
            self.hit("fault:rejected")

    def lay(self, disp="d0"):
        try:
            self.docs.apply(["layout", self.root, disp, "HTML5"])
        except Exception:
            self.hit("fault:layout_failed")

    def op(self, kind):
        """One operation of a kind, with a value never used before."""
        self.i += 1
        i, rng, w = self.i, self.rng, self.world
        n = rng.choice(self.ids)
        css = self.docs.nodes[n].style
        if kind == "set_length":
            name = rng.choice(["width", "margin_left", "padding_top", "max_height", "left"])
            v = rng.choice([f"{i}.25px", {"u": [rng.choice(["px", "em", "percent", "pt", "vw"]),
                                                i + 0.5]}, i + 0.75, f"{i}.5%"])
            self.edit(["style", n, ["set", name, v, rng.choice(["attr", "item", "upd"])]])
        elif kind == "set_color":
            name = rng.choice(["color", "border_top_color", "outline_color"])
            x = i * 7919 % (1 << 24)
            v = rng.choice([f"#{x:06x}", {"rgb": [x >> 16, x >> 8 & 255, x & 255]},
                            f"rgb({x >> 16}, {x >> 8 & 255}, {x & 255})",
                            f"rgba({x >> 16}, {x >> 8 & 255}, {x & 255}, 0.{i})",
                            f"hsl({i % 360}, {i % 100}%, {i % 97}%)"])
            self.edit(["style", n, ["set", name, v, "attr"]])
        elif kind == "set_any":
            self.edit(["style", n, gen_style_op(rng, NAMES, p_rej=0)])
        elif kind == "set_border":
            v = rng.choice([f"{i}px solid #{i % 4096:03x}", {"t": [i + 0.5, "dotted"]}])
            self.edit(["style", n, ["set", rng.choice(["border_left", "outline", "border"]),
                                    v, "attr"]])
        elif kind == "reject":
            name = rng.choice(NAMES)
            self.edit(["style", n, ["set", name, f"bogus{i}", rng.choice(["attr", "upd"])]])
        elif kind == "delete":
            name = rng.choice(NAMES)
            self.edit(["style", n, gen_style_op(rng, [name], p_rej=0, p_del=0)])
            self.edit(["style", n, ["del", name, "attr"]])
        elif kind == "bulk":
            self.edit(["style", n, ["upd", [["width", i + 0.5], ["height", f"{i}.5px"],
                                            ["z_index", i]], "upd"]])
        elif kind == "copy":
            dup = css.copy()
            dup.width = i
            dup.copy(self.docs.nodes[n])
        elif kind == "new_style":
            w.CSS(width=i, color=f"#{i % 4096:03x}", margin=(i, i + 1))
        elif kind == "read":
            str(css), css.keys(), css.items(), css.border_top, css.margin
            repr(self.docs.nodes[n].layout)
        elif kind == "layout":
            self.lay()
        elif kind == "layout_display":
            self.docs.displays["dx"] = H.Display(self.docs.host, 96, 300 + i, 200 + i)
            self.lay("dx")
        elif kind == "fail_layout":
            css.float = "left"
            self.lay()
            css.float = None
        elif kind == "hide":
            old = css.display
            css.display = None
            self.lay()
            css.display = old if old is not None else "block"
            self.lay()
        elif kind in ("build_drop", "drop_failed"):
            docs = RealDocs(w)
            docs.displays = self.docs.displays
            for k in range(3):
                docs.apply(["node", f"x{k}", "plain"])
                docs.apply(["style", f"x{k}", ["set", "display", rng.choice(BLOCKISH), "attr"]])
                docs.apply(["style", f"x{k}", ["set", "width", i + k, "attr"]])
                if k:
                    docs.apply(["attach", f"x{k}", f"x{k - 1}", 0])
            how = rng.choice(["float", "host", "stop", "hidden", "edit"])
            lay = ["layout", "x0", "d0", "HTML5"]
            try:
                if kind == "drop_failed" and how == "float":
                    docs.nodes["x2"].style.float = "left"
                elif kind == "drop_failed" and how == "hidden":
                    docs.nodes["x0"].style.display = None
                    docs.apply(lay)
                elif kind == "drop_failed" and how == "edit":
                    docs.apply(lay)
                    docs.nodes["x1"].style.width = f"bogus{i}"
                if kind == "drop_failed" and how in ("host", "stop"):
                    traced(lambda: docs.apply(lay), at=rng.randrange(1, 150),
                           exc=H.HostFault if how == "host" else H.EXC["KeyboardInterrupt"])
                else:
                    docs.apply(lay)
            except Exception:
                self.hit("fault:layout_failed")
            self.dropped = self.dropped[-300:]
            self.dropped += [weakref.ref(x) for x in docs.nodes.values()]
            docs.klasses.clear()
        elif kind == "move":
            if n != self.root:
                p = self.model.nodes[n].parent
                self.edit(["detach", n])
                self.lay()
                self.edit(["attach", n, p or self.root, rng.randrange(3)])
        elif kind == "intr":
            self.edit(["intr", n, rng.choice(["width", "height"]), i])
        elif kind == "interrupt_layout":
            traced(lambda: self.docs.apply(["layout", self.root, "d0", "HTML5"]),
                   at=rng.randrange(1, 200), exc=H.EXC[rng.choice(["MemoryError",
                                                                  "KeyboardInterrupt"])])
            self.hit("fault:interrupt_layout")
        elif kind == "interrupt_style":
            traced(lambda: setattr(css, rng.choice(["width", "margin_top"]), f"{i}.5px"),
                   at=rng.randrange(1, 30), exc=H.EXC["Cancelled"])
            self.hit("fault:interrupt_style")
        elif kind == "host_fault":
            def boom():
                raise H.HostFault()
            self.docs.host.arm({rng.randrange(1, 12): boom})
            self.lay()
            self.docs.host.disarm()
            self.hit("fault:host_fault")
        elif kind == "box_move":
            box = self.docs.nodes[n].layout
            if box is not None:
                box.content_top = i
                box.content_left = i + 0.5
        elif kind == "units":
            u = i * w.units.px
            -u, (i + 0.5) * w.units.percent, str(u)
            u.px(display=self.docs.displays["d0"])
        elif kind == "unknown":
            form = rng.choice(["item", "upd", "del", "get"])
            try:
                if form == "item":
                    css[f"no-such-{i}"] = i
                elif form == "upd":
                    css.update(**{f"no-such-{i}": i})
                elif form == "del":
                    del css[f"no-such-{i}"]
                else:
                    css[f"no-such-{i}"]
            except (KeyError, NameError):
                self.hit("fault:rejected")
        elif kind == "restyle":
            self.docs.nodes[n].style = css.copy(self.docs.nodes[n])
        elif kind == "cursor_quotes":
            css.cursor = [f"url(c{i}.png)", "help"]
            css.quotes = [(f"<{i}", ">")]
            css.clip = f"rect({i}px, 2px, 3px, 4px)"
            css.border_spacing = (i, i + 1)
        else:
            raise AssertionError(kind)
        self.hit("op:" + kind)


_STDLIB = None


def reachable(soak):
    """Objects and container slots reachable from the library and the live document."""
    global _STDLIB
    if _STDLIB is None:
        _STDLIB = {id(vars(m)) for m in list(sys.modules.values())
                   if isinstance(m, types.ModuleType)}
    w = soak.world
    mine = {id(m) for m in w.modules.values()}
    seen = set()
    # neither the harness nor the interpreter's own structures
    skip = {id(w), id(w.modules), id(w._builtins), id(soak.docs), id(soak), id(seen)} | _STDLIB
    stack = list(w.modules.values()) + list(soak.docs.nodes.values())
    slots = 0
    while stack:
        o = stack.pop()
        k = id(o)
        if k in seen or k in skip:
            continue
        seen.add(k)
        if isinstance(o, types.ModuleType) and k not in mine:
            continue
        if isinstance(o, type) and not getattr(o, "__module__", "").startswith("colosseum"):
            continue
        if isinstance(o, (types.FrameType, types.CodeType)):
            continue
        if isinstance(o, (dict, list, tuple, set, frozenset)):
            slots += len(o)
        stack.extend(gc.get_referents(o))
    return len(seen) + slots


def growing(series, per, last):
    tail = series[-(last + 1):]
    return len(tail) > last and all(b - a >= 0.1 * per for a, b in zip(tail, tail[1:]))


PROBE_STYLE = [["set", "width", "31.5px", "attr"], ["set", "height", {"u": ["pt", 5]}, "attr"],
               ["set", "color", "#123456", "attr"], ["set", "margin", {"t": [1, 2]}, "attr"],
               ["set", "border_top", "1px solid red", "attr"], ["set", "width", "junk", "attr"],
               ["set", "left", "12qq", "attr"], ["set", "max_width", "7em", "attr"],
               ["set", "cursor", "url(a.png), help", "attr"], ["del", "width", "attr"],
               ["set", "padding_left", 3, "attr"]]


def probe(world):
    """Steps taken by fixed operations on a fixed new document in `world`."""
    docs = RealDocs(world)
    out = []

    def do(fn):
        out.append(traced(fn)[2])

    docs.apply(["display", "d0", 96, 640, 480])
    for k in range(4):
        do(lambda: docs.apply(["node", f"p{k}", "plain"]))
        do(lambda: docs.apply(["style", f"p{k}", ["set", "display", "block", "attr"]]))
        if k:
            docs.apply(["attach", f"p{k}", f"p{(k - 1) // 2}", 9])
    for s in PROBE_STYLE:
        do(lambda: docs.apply(["style", "p1", s]))
        do(lambda: docs.apply(["style", "p1", s]))
    do(lambda: docs.nodes["p1"].style.copy())
    do(lambda: docs.apply(["layout", "p0", "d0", "HTML5"]))
    do(lambda: docs.apply(["layout", "p0", "d0", "HTML5"]))
    do(lambda: docs.apply(["look", "p1"]))
    return out


def run(sc):
    res = Result()
    if not sc["kinds"] or sc["root"] not in [o[1] for o in sc["setup"] if o[0] == "node"]:
        return res
    soak = Soak(sc)
    per, rounds = sc["per"], sc["rounds"]
    reach, blocks = [], []

    def rounds_of(n, per):
        for _ in range(n):
            for _ in range(per):
                try:
                    soak.op(soak.rng.choice(sc["kinds"]))
                except Exception:
                    soak.docs.host.disarm()
                    soak.hit("fault:op_raised")
            gc.collect()
            reach.append(reachable(soak))
            blocks.append(sys.getallocatedblocks())

    gc.collect()
    rounds_of(rounds, per)
    last = rounds - 4
    for name in ("reachable", "blocks"):
        series = reach if name == "reachable" else blocks
        if growing(series, per, last):
            # a bounded cache may still be filling: look again much later
            del reach[:], blocks[:]
            rounds_of(10, per * 10)
            series = reach if name == "reachable" else blocks
            if growing(series, per * 10, 9):
                slope = (series[-1] - series[0]) / (per * 90)
                what = ("objects reachable from the library and the live document"
                        if name == "reachable" else "allocated blocks")
                res.stats.update(soak.stats)
                return res.fail("memory-" + name, f"soak of {sc['kinds']}: {what} grow by "
                                f"{slope:.1f} per operation without end")
    res.hit("rounds", rounds)
    alive = [r for r in soak.dropped[:] if r() is not None]
    if alive:
        return res.fail("not-reclaimed", f"soak of {sc['kinds']}: {len(alive)} of "
                        f"{len(soak.dropped)} recently dropped nodes are still alive")
    if soak.dropped:
        res.hit("dropped_nodes_reclaimed", len(soak.dropped))
    new = World(points=True)
    a, b = probe(new), probe(new)
    c = probe(soak.world)
    for k, n in enumerate(c):
        base = max(a[k], b[k])
        if n > base * 1.05 + 5:
            return res.fail("steps", f"soak of {sc['kinds']}: probe operation {k} takes "
                            f"{n} steps, {base} in a new process")
    # the live document itself must not have become slower
    fresh = build_fresh(World(points=True), soak.model, sc["root"])
    lay = ["layout", sc["root"], "d0", "HTML5"]
    if not any(k in sc["kinds"] for k in ("hide", "fail_layout", "restyle", "interrupt_style",
                                          "cursor_quotes")):
        n1 = [traced(lambda: _lay(fresh, lay))[2] for _ in range(3)]
        n2 = [traced(lambda: _lay(soak.docs, lay))[2] for _ in range(3)]
        res.steps += sum(n2)
        if min(n2) > max(n1) * 1.05 + 5:
            return res.fail("steps", f"soak of {sc['kinds']}: laying out the live document "
                            f"takes {n2} steps, a newly built one {n1}")
    res.steps += soak.i
    res.stats.update(soak.stats)
    res.log = [c, sc["kinds"], sc["seed"]]
    res.nontrivial = True
    return res


def _lay(docs, op):
    try:
        docs.apply(op)
    except Exception:
        pass
