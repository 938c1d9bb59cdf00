"""The simulated host: node classes, displays and their fault points.

These are the stand-ins for what a deployment supplies (widgets, screens).
Everything the library calls on them goes through `Host.touch`, the seam where
the simulator injects callback errors, mutations and nested layouts.
"""

import _thread
import sys
import threading


class HostFault(Exception):
    """An error raised by host code."""


class Cancelled(BaseException):
    """A cancellation (not an Exception), e.g. a task being torn down."""


EXC = {
    "HostFault": HostFault,
    "Cancelled": Cancelled,
    "KeyboardInterrupt": KeyboardInterrupt,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
}

GEOMETRY = (
    "content_width", "content_height", "content_top", "content_left",
    "content_right", "content_bottom",
    "margin_top", "margin_right", "margin_bottom", "margin_left",
    "collapse_top", "collapse_right", "collapse_bottom", "collapse_left",
    "padding_top", "padding_right", "padding_bottom", "padding_left",
    "border_top_width", "border_right_width", "border_bottom_width",
    "border_left_width",
    "border_box_top", "border_box_right", "border_box_bottom", "border_box_left",
    "border_box_width", "border_box_height",
    "padding_box_top", "padding_box_right", "padding_box_bottom",
    "padding_box_left", "padding_box_width", "padding_box_height",
    "absolute_content_top", "absolute_content_right", "absolute_content_bottom",
    "absolute_content_left",
    "absolute_border_box_top", "absolute_border_box_right",
    "absolute_border_box_bottom", "absolute_border_box_left",
    "absolute_padding_box_top", "absolute_padding_box_right",
    "absolute_padding_box_bottom", "absolute_padding_box_left",
    "visible",
)


def geometry(box):
    """All documented attributes of a box as plain data (None if no box)."""
    if box is None:
        return None
    out = []
    for name in GEOMETRY:
        try:
            v = getattr(box, name)
        except Exception as e:
            v = f"<{type(e).__name__}>"
        if isinstance(v, float) and v == int(v):
            v = int(v)
        out.append(v)
    return out


def look_at(box):
    """Read the whole box; errors come out, except for sides a failed layout left odd."""
    for name in GEOMETRY if box is not None else ():
        try:
            getattr(box, name)
        except TypeError:
            pass


def geometry_diff(a, b):
    if a is None or b is None:
        return f"box {'absent' if a is None else 'present'} vs {'absent' if b is None else 'present'}"
    return ", ".join(
        f"{n}={x!r} (expected {y!r})" for n, x, y in zip(GEOMETRY, a, b) if x != y
    )


class Host:
    """Counts host callbacks; fires what the scenario planned for the k-th."""

    def __init__(self):
        self.count = 0
        self.plan = {}       # k -> callable
        self.after = None    # called by every callback after the first that fired
        self.armed = False
        self.fired = 0
        self.what = []

    def arm(self, plan, after=None):
        self.count = 0
        self.plan = dict(plan)
        self.after = after
        self.armed = True
        self.fired = 0
        self.what = []       # what was asked for, in order

    def disarm(self):
        self.armed = False
        self.plan = {}
        self.after = None

    def touch(self, what="children"):
        if not self.armed:
            return
        self.count += 1
        self.what.append(what)
        if self.fired and self.after is not None:
            self.after()
        act = self.plan.pop(self.count, None)
        if act is not None:
            self.fired += 1
            self.armed = False      # host code runs undisturbed
            try:
                act()
            finally:
                self.armed = True


class Display:
    def __init__(self, host, dpi, width, height, fixed=None):
        self.host = host
        self._v = {"dpi": dpi, "content_width": width, "content_height": height}
        self._fixed = dict(fixed or {"thin": 1, "medium": 5, "thick": 10})

    def _setting(name):
        def get(self):
            self.host.touch("display." + name)
            return self._v[name]

        def put(self, value):
            self._v[name] = value

        return property(get, put)

    dpi = _setting("dpi")
    content_width = _setting("content_width")
    content_height = _setting("content_height")
    del _setting

    # a display is also the box the root is laid out in
    @property
    def content_top(self):
        return 0

    @property
    def content_left(self):
        return 0

    @property
    def content_right(self):
        return self._v["content_width"]

    @property
    def content_bottom(self):
        return self._v["content_height"]

    def fixed_size(self, value):
        self.host.touch("display.fixed_size")
        return self._fixed[value]

    def snapshot(self):
        return [self._v, self._fixed]


HINTS = frozenset(["width", "height", "ratio", "is_replaced", "exact_width",
                   "exact_height"])


def size_hints(world, node):
    """Size hints for a node; those of some are computed by host code."""
    if not getattr(type(node), "live", False):
        return world.Size(node)
    if world.LiveSize is None:
        class LiveSize(world.Size):
            def __init__(self, node):
                self.sim_host = node.host
                super().__init__(node)

            def __getattribute__(self, name):
                if name in HINTS:
                    self.sim_host.touch("hint." + name)
                return super().__getattribute__(name)

        world.LiveSize = LiveSize
    return world.LiveSize(node)


def node_classes():
    """Fresh node classes (so no class-level state crosses runs)."""

    class Node:
        def __init__(self, world, host, name):
            self.world = world
            self.host = host
            self.name = name
            self.parent = None
            self._children = []
            self.intrinsic = size_hints(world, self)
            self.layout = world.Box(self)
            self.style = world.CSS().copy(self)

        @property
        def children(self):
            self.host.touch()
            return self._children

    class LenNode(Node):
        "A container-like node: empty means falsy."

        def __len__(self):
            return len(self._children)

        def __iter__(self):
            return iter(self._children)

        def __getitem__(self, i):
            return self._children[i]

    class ValueNode(Node):
        "A node with value equality and hash: many nodes compare equal."

        def __eq__(self, other):
            return isinstance(other, ValueNode)

        def __hash__(self):
            return 7

    class TupleNode(Node):
        "Hands out a new tuple of children every time."

        @property
        def children(self):
            self.host.touch()
            return tuple(self._children)

    class SlotNode:
        "No instance dict."

        __slots__ = ("world", "host", "name", "parent", "_children", "intrinsic",
                     "layout", "style", "__weakref__")

        def __init__(self, world, host, name):
            Node.__init__.__get__(self)(world, host, name)

        @property
        def children(self):
            self.host.touch()
            return self._children

    class ProxyNode:
        "Every attribute the library uses is computed by host code."

        live = True

        def __init__(self, world, host, name):
            Node.__init__.__get__(self)(world, host, name)

        def _live(attr):
            def get(self):
                self.host.touch(attr)
                return self.__dict__["its_" + attr]

            def put(self, value):
                self.host.touch(attr + "=")
                self.__dict__["its_" + attr] = value

            return property(get, put)

        parent = _live("parent")
        layout = _live("layout")
        style = _live("style")
        intrinsic = _live("intrinsic")
        del _live

        @property
        def children(self):
            self.host.touch()
            return self._children

    return {"plain": Node, "len": LenNode, "value": ValueNode, "tuple": TupleNode,
            "slot": SlotNode, "proxy": ProxyNode}


class Hand:
    """A further caller thread.  Whoever gives it work waits for the result, so
    one thread runs at any time and nothing is left to the operating system."""

    def __init__(self):
        self.go, self.done = _thread.allocate_lock(), _thread.allocate_lock()
        self.go.acquire()
        self.done.acquire()
        self.busy = False
        threading.Thread(target=self.main, daemon=True).start()

    def main(self):
        self.ident = _thread.get_ident()
        while True:
            self.go.acquire()
            try:
                self.fn()
                self.error = None
            except BaseException as e:
                self.error = e
            self.fn = None
            self.done.release()

    def call(self, fn):
        if self.busy:           # this very thread, further down its stack
            return fn()
        self.fn, self.busy = fn, True
        self.go.release()
        self.done.acquire()
        self.busy = False
        error, self.error = self.error, None
        if error is not None:
            raise error


_hands = {}


def hand(name):
    h = _hands.get(name)
    if h is None or h.busy and _thread.get_ident() != h.ident:
        h = _hands[name] = Hand()
    return h


KLASSES = ["plain", "plain", "plain", "len", "value", "tuple", "slot", "proxy"]


def call_depth():
    f = sys._getframe(1)
    n = 0
    while f:
        n += 1
        f = f.f_back
    return n
