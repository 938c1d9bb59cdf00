"""Documents: the model, the real thing in a world, and generation.

A document operation is JSON; each applies to the model (DocModel) and to the
real document (RealDocs).  Operations that make no sense in the current state
(missing node, cycle) do nothing on both sides, so any subsequence of a valid
scenario is a valid scenario - which is what minimisation needs.
"""

import gc
import sys

from . import catalog as C
from . import host as H
from . import values as V
from .model import Decl, apply_model, apply_real, few_values, gen_style_op

INTR_DEFAULT = {"width": None, "height": None, "exact_width": True,
                "exact_height": True, "ratio": None, "is_replaced": False}


def spec_of(c):
    """A spec whose canonical form is c."""
    if not isinstance(c, list):
        return c
    tag = c[0]
    if tag == "len":
        return {"u": [V.UNIT_OF[c[2]], c[1]]}
    if tag in ("rgb", "hsl"):
        return {tag: c[1:]}
    if tag == "bs":
        return {"t": [spec_of(c[1]), spec_of(c[2])]}
    if tag == "rect":
        return "rect(" + ", ".join(f"{x[1]}{x[2]}" for x in c[1:]) + ")"
    if tag == "quotes":
        return {"l": [{"t": list(p)} for p in c[1:]]}
    if tag == "list":
        return {"l": [f"url({x[1]})" if isinstance(x, list) else x for x in c[1:]]}
    raise AssertionError(c)


class MNode:
    def __init__(self, klass):
        self.klass = klass
        self.parent = None
        self.children = []
        self.decl = Decl()
        self.intr = dict(INTR_DEFAULT)

    def clone(self):
        n = MNode(self.klass)
        n.parent = self.parent
        n.children = list(self.children)
        n.decl = self.decl.copy()
        n.intr = dict(self.intr)
        return n


class DocModel:
    def __init__(self):
        self.nodes = {}
        self.displays = {}

    def clone(self):
        m = DocModel()
        m.nodes = {k: v.clone() for k, v in self.nodes.items()}
        m.displays = {k: dict(v) for k, v in self.displays.items()}
        return m

    def root_of(self, n):
        while self.nodes[n].parent is not None:
            n = self.nodes[n].parent
        return n

    def subtree(self, n):
        out = [n]
        for c in self.nodes[n].children:
            out += self.subtree(c)
        return out

    def hidden(self, n):
        return self.nodes[n].decl.read("display") is None

    def displayed(self, n):
        """Nodes of n's subtree that take part in a layout of n."""
        if self.hidden(n):
            return []
        out = [n]
        for c in self.nodes[n].children:
            out += self.displayed(c)
        return out

    def ancestors(self, n):
        out = []
        p = self.nodes[n].parent
        while p is not None:
            out.append(p)
            p = self.nodes[p].parent
        return out

    def apply(self, op):
        """Returns False if the op is a no-op here (applied to neither side)."""
        self.ok = True          # False: a style op the library must reject
        k = op[0]
        N = self.nodes
        if k == "node":
            if op[1] in N:
                return False
            N[op[1]] = MNode(op[2])
        elif k == "attach":
            _, n, p, i = op
            if (n not in N or p not in N or N[n].parent is not None
                    or n in [p] + self.ancestors(p)):
                return False
            N[p].children.insert(min(i, len(N[p].children)), n)
            N[n].parent = p
        elif k == "detach":
            n = op[1]
            if n not in N or N[n].parent is None:
                return False
            N[N[n].parent].children.remove(n)
            N[n].parent = None
        elif k == "drop":
            n = op[1]
            if n not in N:
                return False
            if N[n].parent is not None:
                N[N[n].parent].children.remove(n)
            for x in self.subtree(n):
                del N[x]
        elif k == "style":
            if op[1] not in N:
                return False
            self.ok = apply_model(N[op[1]].decl, op[2])
        elif k == "restyle":
            if op[1] not in N or op[2] not in N:
                return False
            N[op[1]].decl = N[op[2]].decl.copy()
        elif k == "intr":
            if op[1] not in N:
                return False
            N[op[1]].intr[op[2]] = op[3]
        elif k == "display":
            if op[1] in self.displays:
                return False
            self.displays[op[1]] = dict(dpi=op[2], content_width=op[3],
                                        content_height=op[4],
                                        fixed=dict(op[5]) if len(op) > 5 and op[5] else None)
        elif k == "disp":
            if op[1] not in self.displays:
                return False
            self.displays[op[1]][op[2]] = op[3]
        elif k == "layout":
            return op[1] in N and op[2] in self.displays
        elif k == "rehint":
            if op[1] not in N:
                return False
            N[op[1]].intr = dict(INTR_DEFAULT, **op[2])
        elif k in ("clean", "mark", "look", "boxset", "rebox"):
            return op[1] in N
        elif k == "gc":
            pass
        else:
            raise AssertionError(op)
        return True


class RealDocs:
    """Real documents living in one world."""

    def __init__(self, world, host=None):
        self.world = world
        self.host = host or H.Host()
        self.klasses = H.node_classes()
        self.nodes = {}
        self.displays = {}

    def apply(self, op):
        """Perform a (sensible) op; library errors propagate."""
        k = op[0]
        N = self.nodes
        if k == "node":
            N[op[1]] = self.klasses[op[2]](self.world, self.host, op[1])
        elif k == "attach":
            _, n, p, i = op
            ch = N[p]._children
            ch.insert(min(i, len(ch)), N[n])
            N[n].parent = N[p]
        elif k in ("detach", "drop"):
            n = N[op[1]]
            if n.parent is not None:
                self._unlink(n)
            if k == "drop":
                self._forget(n)
        elif k == "style":
            apply_real(self.world, N[op[1]].style, op[2])
        elif k == "restyle":
            N[op[1]].style = N[op[2]].style.copy(N[op[1]])
        elif k == "intr":
            setattr(N[op[1]].intrinsic, op[2], op[3])
        elif k == "rehint":     # the host gives a node new size hints as a whole
            size = H.size_hints(self.world, N[op[1]])
            for f, v in op[2].items():
                setattr(size, f, v)
            N[op[1]].intrinsic = size
        elif k == "rebox":      # or a new box, or none
            N[op[1]].layout = self.world.Box(N[op[1]]) if op[2] else None
        elif k == "display":
            self.displays[op[1]] = H.Display(self.host, *op[2:6])
        elif k == "disp":
            if op[2] == "fixed":
                self.displays[op[1]]._fixed = dict(op[3])
            else:
                self.displays[op[1]]._v[op[2]] = op[3]
        elif k == "layout":
            std, _, hand = op[3].partition("@")
            args = self.displays[op[2]], N[op[1]], self.standard(std)
            if hand:            # called from another thread
                H.hand(hand).call(lambda: self.world.layout(*args))
            else:
                self.world.layout(*args)
        elif k == "clean":
            if N[op[1]].layout is not None:
                N[op[1]].layout.dirty = False
        elif k == "mark":
            if N[op[1]].layout is not None:
                N[op[1]].layout.dirty = op[2]
        elif k == "boxset":
            if N[op[1]].layout is not None:
                setattr(N[op[1]].layout, op[2], op[3])
        elif k == "look":
            n = N[op[1]]
            H.look_at(n.layout)
            str(n.style), n.style.keys(), n.style.items(), n.style.dirty
            repr(n.layout)
        elif k == "gc":
            gc.collect()
        else:
            raise AssertionError(op)

    def _unlink(self, n):
        ch = n.parent._children
        for i, c in enumerate(ch):
            if c is n:
                del ch[i]
                break
        n.parent = None

    def _forget(self, n):
        for c in list(n._children):
            self._forget(c)
        del self.nodes[n.name]

    def standard(self, std):
        # HTML standards are compared by identity inside the library
        return getattr(self.world.constants, std)

    def decl(self, n):
        css = self.nodes[n].style
        return {p: V.read(self.world, css, p) for p in C.NAMES}

    def geom(self, ids):
        return {i: H.geometry(self.nodes[i].layout) for i in ids}

    def marks(self, ids):
        return {i: (None if self.nodes[i].layout is None
                    else [self.nodes[i].layout.dirty]) for i in ids}


def refused(model, e):
    """Is error `e` of the op the model just applied an ordinary rejection?"""
    return isinstance(e, (ValueError, NameError, KeyError)) or (
        not model.ok and isinstance(e, (TypeError, AttributeError, IndexError)))


def build_fresh(world, model, root, keep=None, host=None):
    """A newly built document equal to the model's tree at `root`."""
    docs = RealDocs(world, host)
    ids = [i for i in model.subtree(root) if keep is None or i in keep]
    for i in ids:
        docs.nodes[i] = docs.klasses[model.nodes[i].klass](world, docs.host, i)
    for i in ids:
        m = model.nodes[i]
        for c in m.children:
            if c in docs.nodes:
                docs.nodes[i]._children.append(docs.nodes[c])
                docs.nodes[c].parent = docs.nodes[i]
    for i in ids:
        m = model.nodes[i]
        css = docs.nodes[i].style
        for p in C.NAMES:
            if p in m.decl.vals:
                setattr(css, p, V.make(world, spec_of(m.decl.vals[p])))
        for f, v in m.intr.items():
            if v != INTR_DEFAULT[f]:
                setattr(docs.nodes[i].intrinsic, f, v)
    for d, v in model.displays.items():
        docs.displays[d] = H.Display(docs.host, v["dpi"], v["content_width"],
                                     v["content_height"], v.get("fixed"))
    return docs


def outcome(docs, op, ids):
    """Perform a layout; ["ok", geometry] or ["err", class name]."""
    try:
        docs.apply(op)
    except Exception as e:
        return ["err", type(e).__name__]
    return ["ok", docs.geom(ids)]


def reference(model, op, keep=None, world=None):
    """Outcome of the layout `op` on a newly built copy, in a pristine world."""
    from .world import World

    w = world or World()
    root = model.root_of(op[1])
    docs = build_fresh(w, model, root, keep)
    ids = model.displayed(op[1])
    return outcome(docs, op, ids)


def compare(got, want):
    """None, or a description of how two outcomes differ."""
    if got[0] != want[0]:
        return f"layout {describe(got)}, but a newly built document {describe(want)}"
    if got[0] == "err":
        if got[1] != want[1]:
            return f"layout fails with {got[1]}, a newly built document with {want[1]}"
        return None
    for i in want[1]:
        if got[1].get(i) != want[1][i]:
            return f"node {i}: " + H.geometry_diff(got[1].get(i), want[1][i])
    return None


def describe(o):
    return "completes" if o[0] == "ok" else f"fails with {o[1]}"


# ------------------------------------------------------------------ generation
BLOCKISH = ["block", "block", "block", "block", "list-item", "table"]
FIXED = {"thin": 1, "medium": 5, "thick": 10}


def layout_value(rng, name):
    """Accepted value, biased so that most layouts complete."""
    if name.startswith("margin"):
        if name in C.PROPS:
            r = rng.random()
            if r < 0.25 and name in ("margin_left", "margin_right"):
                return "auto"
            if r < 0.03:
                return "auto"
            if r < 0.33:
                return rng.choice(C.NEG_LENGTHS)
            return C.pick_kind(rng, "length")
        if rng.random() < 0.3:
            return {"t": [layout_value(rng, "margin_top"), "auto"]}
        return {"t": [layout_value(rng, "margin_top")
                      for _ in range(rng.randrange(1, 5))]}
    if name == "display":
        return rng.choice(BLOCKISH)
    if name == "position":
        return rng.choice(["static", "relative", "relative"])
    if name in C.SIDES:
        r = rng.random()
        if r < 0.2:
            return "auto"
        if r < 0.25:
            return "inherit"
        if r < 0.4:
            return rng.choice(C.NEG_LENGTHS)
        return C.pick_kind(rng, "length")
    if name == "float":
        return None if rng.random() < 0.97 else "left"
    return C.pick_spec(rng, name)


BOX_NAMES = (C.DIRECTIONAL["margin"] + C.DIRECTIONAL["padding"]
             + C.DIRECTIONAL["border_width"]
             + ["width", "height", "min_width", "max_width", "min_height",
                "max_height", "position", "direction"] + C.SIDES
             + ["margin", "padding", "border_width", "border_top", "border_left",
                "border_right", "border_bottom", "border"])


# properties whose values meet in one computation
THEMES = [
    ["width", "min_width", "max_width"],
    ["width", "max_width", "margin_left", "margin_right"],
    ["height", "min_height", "max_height"],
    ["height", "%"],
    ["height", "max_height", "%"],
    ["width", "margin_left", "%"],
    ["height", "max_height", "margin_top", "margin_bottom"],
    ["position", "left", "right"],
    ["position", "top", "bottom"],
    ["position", "left", "direction", "margin_left", "width"],
    ["width", "margin_left", "margin_right", "direction"],
    ["margin_top", "margin_bottom"],
    ["margin_top", "padding_top", "border_top_width"],
    ["margin", "padding", "width"],
    ["border_top_width", "border_left_width", "border_top", "border_left"],
    ["padding_left", "padding_right", "border_left_width", "border_right_width"],
    ["width", "height"],
]


class DocGen:
    """Generates documents and histories for one run."""

    def __init__(self, rng, max_nodes=10, classes=None, hide=0.06, fail=0.05,
                 other=0.12, prefix="n", settable=C.SETTABLE):
        self.rng = rng
        self.m = DocModel()
        self.ops = []
        self.next = 0
        self.max_nodes = max_nodes
        self.classes = classes or [rng.choice(H.KLASSES)]
        self.hide = hide
        self.fail = fail
        self.other = other
        self.prefix = prefix
        self.settable = settable
        self.mode = {}           # node -> "b" | "i": intended kind of children
        # swarm: some runs concentrate on a few properties, units or size hints
        self.theme = list(rng.choice(THEMES)) if rng.random() < 0.35 else None
        percent = self.theme and "%" in self.theme
        if percent:
            self.theme.remove("%")
        self.focus = self.theme or (rng.sample(BOX_NAMES, rng.choice([2, 4, 8]))
                                    if rng.random() < 0.5 else None)
        if rng.random() < 0.4:
            rng.unit = rng.choice(["percent", "percent", "percent"] + list(V.SUFFIX))
        self.replaced = rng.choice([0.1, 0.3, 0.8])
        self.inline = 0.35       # share of nodes with inline content
        self.cleans = rng.choice([0, 0.3, 0.9])
        self.fractions = rng.choice([0, 0, 0.3])
        self.flips = rng.choice([0, 0.1, 0.3])
        self.echoes = rng.choice([0, 0, 0.3, 0.7])
        self.reboxes = True      # whether the host may replace boxes
        self.hops = 0            # share of layouts called from further threads
        self.value = few_values(rng, layout_value) if rng.random() < 0.2 else layout_value
        if self.theme:
            self.value = self.theme_value(self.value, percent)
        self.warm = rng.choice([0, 0, 0.5, 0.9])     # share of edits near one node
        self.hot = []
        self.past = {}           # node -> style ops given to it

    def theme_value(self, value, percent):
        """Values of one run's theme: often the same one for related properties, or
        clearly larger and smaller ones, and positioned rather than static nodes."""
        rng = self.rng
        shared = [C.pick_kind(rng, "length") for _ in range(2)] + \
            rng.sample([0, 10, 1000, {"u": ["percent", 50]}], 2)
        if percent:
            shared = [{"u": ["percent", 50]}, {"u": ["percent", 20]}, 100, 360]

        def pick(r, name):
            if name == "position":
                return "relative" if r.random() < 0.8 else "static"
            if name in self.theme and name in C.PROPS and r.random() < 0.6:
                spec = r.choice(shared)
                try:
                    C.expand(name, spec)
                    return spec
                except V.Unacceptable:
                    pass
            return value(r, name)

        return pick

    def near(self, ids):
        """A node to edit; in some runs mostly one node and those around it."""
        rng = self.rng
        if self.warm and rng.random() < self.warm:
            hot = [n for n in self.hot if n in self.m.nodes]
            if not hot:
                n = rng.choice(ids)
                up = self.m.ancestors(n)[:1]
                self.hot = hot = [n] + up + self.m.nodes[n].children[:1] + \
                    [x for p in up for x in self.m.nodes[p].children[:2]]
            return rng.choice(hot)
        return rng.choice(ids)

    def emit(self, op):
        self.m.apply(op)
        self.ops.append(op)
        if op[0] == "style":
            past = self.past.setdefault(op[1], [])
            past.append(op[2])
            del past[:-5]

    def lay(self, op):
        """A layout, after which the host may reset the marks."""
        self.emit(op)
        if self.rng.random() < self.cleans:
            self.emit(["clean", op[1]])

    def flip(self, n):
        """Something given to n before, again or with a value close to it."""
        past = self.past.get(n)
        if not past:
            return False
        sop = self.rng.choice(past)
        if self.rng.random() < 0.3:
            sop = C.echo_op(self.rng, sop)
        elif self.rng.random() < 0.5:
            sop = C.near_op(self.rng, sop)
        self.emit(["style", n, sop])
        return True

    def display(self):
        d = f"d{len(self.m.displays)}"
        rng = self.rng
        self.emit(["display", d, rng.choice([72, 96, 96, 120, 192]),
                   rng.choice([320, 640, 800, 1024, 333]),
                   rng.choice([240, 480, 640, 601]),
                   rng.choice([None, None, {"thin": 2, "medium": 4, "thick": 9}])])
        return d

    def new_node(self, parent=None, depth=0):
        rng = self.rng
        n = f"{self.prefix}{self.next}"
        self.next += 1
        self.emit(["node", n, rng.choice(self.classes)])
        inline = parent is not None and self.mode.get(parent) == "i"
        if rng.random() < self.fail * 0.5:
            inline = not inline
        self.mode[n] = "i" if rng.random() < self.inline or inline else "b"
        if not inline:
            self.emit(["style", n, ["set", "display", rng.choice(BLOCKISH), "attr"]])
        if inline or rng.random() < 0.1:
            self.intrinsic(n, inline)
        for _ in range(rng.choice([1, 2, 3, 4]) if self.theme
                       else rng.choice([0, 0, 1, 1, 2, 3])):
            self.style_op(n, calm=True)
        if parent is not None:
            self.emit(["attach", n, parent,
                       rng.randrange(0, len(self.m.nodes[parent].children) + 1)])
        return n

    def intrinsic(self, n, inline=True):
        rng = self.rng
        self.emit(["intr", n, "width", self.hint(200)])
        self.emit(["intr", n, "height", self.hint(80)])
        if inline and rng.random() < self.replaced:
            self.emit(["intr", n, "is_replaced", True])
            if rng.random() < 0.7:
                self.emit(["intr", n, "ratio", rng.choice([0.5, 1, 1.5, 2, 0.3])])
            if rng.random() < 0.4:
                self.emit(["intr", n, "width", None])
            if rng.random() < 0.4:
                self.emit(["intr", n, "height", None])

    def hint(self, top):
        rng = self.rng
        if rng.random() < self.fractions:
            return rng.randrange(0, top) + rng.choice([0.5, 0.25, 0.3])
        return rng.randrange(0, top)

    def tree(self, size=None):
        rng = self.rng
        size = size or rng.randrange(min(2, self.max_nodes), self.max_nodes + 1)
        root = self.new_node()
        nodes = [root]
        while len(nodes) < size:
            p = rng.choice(nodes if rng.random() < 0.6 else nodes[-2:])
            nodes.append(self.new_node(p))
        return root

    def is_block(self, n):
        return self.m.nodes[n].decl.read("display") in ("block", "list-item", "table")

    def style_op(self, n, calm=False):
        self.style_op1(n, calm)
        if self.echoes and self.rng.random() < self.echoes and self.past.get(n):
            sop = self.past[n][-1]
            if sop[0] == "set" and sop[1] in C.ECHO:
                self.emit(["style", n, C.echo_op(self.rng, sop)])

    def style_op1(self, n, calm=False):
        rng = self.rng
        r = rng.random()
        if not calm and r < self.hide:
            self.emit(["style", n, ["set", "display", rng.choice([None, "none"]), "attr"]])
            return
        if not calm and self.m.hidden(n) and r < 0.5:
            inline = self.mode.get(self.m.nodes[n].parent) == "i"
            v = "inline" if inline else rng.choice(BLOCKISH)
            self.emit(["style", n, ["set", "display", v, rng.choice(["attr", "item", "upd"])]])
            return
        if not calm and r < self.hide + self.fail:
            op = rng.choice([
                ["set", "float", "left", "attr"], ["set", "position", "absolute", "attr"],
                ["set", "position", "fixed", "item"], ["set", "display", "inline-block", "attr"],
                ["set", "display", "flex", "upd"], ["set", "margin_top", "auto", "attr"],
                ["set", "display", "inline", "attr"], ["set", "display", "block", "attr"],
                ["set", "left", "inherit", "attr"]])
            self.emit(["style", n, op])
            return
        if not calm and r < self.hide + self.fail + 0.06:
            # repair: back to something that lays out
            self.emit(["style", n, ["upd", [["float", None], ["position", None]], "upd"]])
            return
        if not calm and r < self.hide + self.fail + 0.09:
            inline = self.mode.get(self.m.nodes[n].parent) == "i"
            v = "inline" if inline else rng.choice(BLOCKISH)
            self.emit(["style", n, ["set", "display", v, rng.choice(["attr", "item", "upd"])]])
            return
        if r > 1 - self.other:
            names = [x for x in self.settable if x not in ("float", "display", "position")]
            self.emit(["style", n, gen_style_op(rng, names, p_rej=0.1)])
            return
        names = BOX_NAMES
        if self.focus and rng.random() < (0.9 if self.theme else 0.7):
            names = self.focus
        if not self.is_block(n):
            names = [x for x in names if not x.startswith("margin_") or "left" in x
                     or "right" in x]
            names = [x for x in names if x != "margin"] or ["width", "height"]
        self.emit(["style", n, gen_style_op(rng, names, p_rej=0.04, p_del=0.12,
                                            value=self.value)])

    def edit(self, root_ids):
        """One random edit somewhere in the documents."""
        rng = self.rng
        ids = list(self.m.nodes)
        r = rng.random()
        if r < 0.62 or not ids:
            if ids:
                n = self.near(ids)
                if rng.random() >= self.flips or not self.flip(n):
                    self.style_op(n)
            return
        n = rng.choice(ids)
        if r < 0.70:
            f = rng.choice(["width", "height", "width", "height", "ratio",
                            "exact_width", "exact_height", "is_replaced"])
            v = {"width": None if rng.random() < 0.1 and not self.is_block(n)
                 else self.hint(200),
                 "height": None if rng.random() < 0.1 and not self.is_block(n)
                 else self.hint(80),
                 "ratio": rng.choice([None, 0.5, 2]), "exact_width": rng.random() < 0.5,
                 "exact_height": rng.random() < 0.5,
                 "is_replaced": rng.random() < 0.3 and not self.is_block(n)}[f]
            self.emit(["intr", n, f, v])
        elif r < 0.76 and len(ids) < self.max_nodes + 4:
            self.new_node(n)
        elif r < 0.80 and n not in root_ids:
            self.emit(["drop", n])
            if rng.random() < 0.5:
                self.emit(["gc"])
        elif r < 0.87 and n not in root_ids:
            cand = [x for x in ids if x not in self.m.subtree(n)]
            self.emit(["detach", n])
            if cand and rng.random() < 0.85:
                p = rng.choice(cand)
                self.emit(["attach", n, p, rng.randrange(0, 4)])
        elif r < 0.90:
            det = [x for x in ids if self.m.nodes[x].parent is None and x not in root_ids]
            if det:
                x = rng.choice(det)
                cand = [y for y in ids if y not in self.m.subtree(x)]
                if cand:
                    self.emit(["attach", x, rng.choice(cand), rng.randrange(0, 4)])
        elif r < 0.905:
            self.emit(["rehint", n, self.other_hints(n)])
        elif r < 0.91 and self.reboxes:
            self.emit(["rebox", n, rng.random() < 0.7])
        elif r < 0.915:
            self.emit(["boxset", n] + rng.choice([["visible", False], ["content_left", 7],
                                                  ["content_top", 50]]))
        elif r < 0.93:
            self.emit(["restyle", n, rng.choice(ids)])
        elif r < 0.97 and self.m.displays:
            d = rng.choice(list(self.m.displays))
            f = rng.choice(["content_width", "content_height", "dpi", "fixed"])
            v = {"content_width": rng.choice([200, 320, 640, 1000, 0]),
                 "content_height": rng.choice([100, 300, 480]),
                 "dpi": rng.choice([72, 96, 144]),
                 "fixed": {"thin": rng.randrange(1, 4), "medium": rng.randrange(4, 8),
                           "thick": rng.randrange(8, 12)}}[f]
            self.emit(["disp", d, f, v])
        elif r < 0.985:
            self.emit(["look", n])
        else:
            self.emit(["clean", n])

    def other_hints(self, n):
        """All size hints of a node, one or two of them changed."""
        rng = self.rng
        out = dict(self.m.nodes[n].intr)
        for f in rng.sample(["width", "height", "ratio", "exact_width"], rng.choice([1, 2])):
            out[f] = {"width": self.hint(200), "height": self.hint(80),
                      "ratio": rng.choice([None, 0.5, 2]),
                      "exact_width": not out["exact_width"]}[f]
        return {f: v for f, v in out.items() if v != INTR_DEFAULT[f]}

    def layout_op(self, roots):
        rng = self.rng
        n = rng.choice(roots)
        if rng.random() < 0.1:
            n = rng.choice(self.m.subtree(n))
        return ["layout", n, rng.choice(list(self.m.displays)),
                rng.choice(["HTML5", "HTML5", "HTML4"]) + self.hop()]

    def hop(self):
        """Which thread makes the call."""
        if self.hops and self.rng.random() < self.hops:
            return self.rng.choice(["@t1", "@t1", "@t2"])
        return ""
