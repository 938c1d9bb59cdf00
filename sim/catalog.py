"""Every CSS property of the library: kind, keywords, initial value, pools."""

from . import values as V
from .values import Unacceptable

SIDES = ["top", "right", "bottom", "left"]


class P:
    """One longhand property."""

    def __init__(self, name, initial, kw=(), kind=None, none=False, layout=False):
        self.name = name
        self.initial = initial      # canonical, or ("track", fn-name)
        self.kw = list(kw)
        self.kind = kind            # validator kind or None
        self.none = none            # accepts None / "none"
        self.layout = layout        # read by the layout engine

    def canon(self, spec):
        """Canonical form an accepted `spec` reads back as; Unacceptable."""
        if self.kind:
            try:
                return KINDS[self.kind](spec)
            except Unacceptable:
                pass
        if self.none and (spec is None or spec == "none"):
            return None
        if isinstance(spec, str) and spec in self.kw:
            return spec
        raise Unacceptable


def _int(spec):
    if isinstance(spec, bool):
        raise Unacceptable
    if isinstance(spec, (int, float)):
        return int(spec)
    if isinstance(spec, str):
        try:
            return int(spec)
        except ValueError:
            pass
    raise Unacceptable


KINDS = {
    "length": V.canon_length,
    "int": _int,
    "color": V.canon_color,
    "cursor": V.canon_cursor,
    "spacing": V.canon_spacing,
    "rect": V.canon_rect,
    "quotes": V.canon_quotes,
}

ZERO = ["len", 0, "px"]
INH = ["inherit"]
BSTYLES = ["hidden", "dotted", "dashed", "solid", "double", "groove", "ridge",
           "inset", "outset"]
DISPLAYS = ["inline", "block", "list-item", "inline-block", "table",
            "inline-table", "table-row-group", "table-header-group",
            "table-footer-group", "table-row", "table-column-group",
            "table-column", "table-cell", "table-caption", "flex",
            "inline-flex", "grid", "inline-grid"]

PROPS = {}


def _add(name, initial, **k):
    PROPS[name] = P(name, initial, **k)


for s in SIDES:
    _add(f"margin_{s}", ZERO, kw=["auto"], kind="length", layout=True)
for s in SIDES:
    _add(f"padding_{s}", ZERO, kind="length", layout=True)
for s in SIDES:
    _add(f"border_{s}_width", ZERO, kw=["thin", "medium", "thick"], kind="length",
         layout=True)
for s in SIDES:
    _add(f"border_{s}_color", ("track", "color"),
         kw=["transparent", "initial", "inherit", "unset", "revert"], kind="color")
for s in SIDES:
    _add(f"border_{s}_style", None, kw=BSTYLES, none=True)
_add("display", "inline", kw=DISPLAYS, none=True, layout=True)
_add("position", "static", kw=["static", "relative", "absolute", "fixed"], layout=True)
for s in SIDES:
    _add(s, "auto", kw=["auto", "inherit"], kind="length", layout=True)
_add("float", None, kw=["left", "right"], none=True, layout=True)
_add("clear", None, kw=["left", "right", "both"], none=True)
_add("z_index", "auto", kw=["auto"], kind="int")
_add("direction", "ltr", kw=["ltr", "rtl"], layout=True)
_add("unicode_bidi", "normal", kw=["normal", "embed", "bidi-override"])
for a in ("width", "height"):
    _add(a, "auto", kw=["auto"], kind="length", layout=True)
    _add(f"min_{a}", "auto", kw=["auto"], kind="length", layout=True)
    _add(f"max_{a}", None, kind="length", none=True, layout=True)
_add("overflow", "visible", kw=["visible", "hidden", "scroll", "auto"] + INH)
_add("clip", "auto", kw=["auto"] + INH, kind="rect")
_add("visibility", "visible", kw=["visible", "hidden", "collapse"])
_add("quotes", "initial", kw=["initial"] + INH, kind="quotes", none=True)
for s in ("before", "after"):
    _add(f"page_break_{s}", "auto", kw=["auto", "always", "avoid", "left", "right"] + INH)
_add("page_break_inside", "auto", kw=["auto", "avoid"] + INH)
_add("orphans", 2, kw=INH, kind="int")
_add("widows", 2, kw=INH, kind="int")
_add("color", "<default>", kind="color")
_add("background_color", "<default>", kw=["transparent"], kind="color")
_add("text_indent", ZERO, kw=INH, kind="length")
_add("text_align", ("track", "direction"),
     kw=["left", "right", "center", "justify"] + INH)
_add("text_decoration", None, kw=["underline", "overline", "line-through", "blink"] + INH,
     none=True)
_add("letter_spacing", "normal", kw=["normal"] + INH, kind="length")
_add("word_spacing", "normal", kw=["normal"] + INH, kind="length")
_add("text_transform", None, kw=["capitalize", "uppercase", "lowercase"] + INH, none=True)
_add("white_space", "normal", kw=["normal", "pre", "nowrap", "pre-wrap", "pre-line"] + INH)
_add("caption_side", "top", kw=["top", "bottom"] + INH)
_add("table_layout", "auto", kw=["auto", "fixed"] + INH)
_add("border_collapse", "separate", kw=["collapse", "separate"] + INH)
_add("border_spacing", ["bs", ZERO, ZERO], kw=INH, kind="spacing")
_add("empty_cells", "show", kw=["show", "hide"] + INH)
_add("cursor", ["list", "auto"], kw=INH, kind="cursor")
_add("outline_width", "medium", kw=["thin", "medium", "thick"] + INH, kind="length")
_add("outline_style", None, kw=BSTYLES + INH, none=True)
_add("outline_color", "invert", kw=["invert"] + INH, kind="color")

NAMES = list(PROPS)
LAYOUT_PROPS = [n for n in NAMES if PROPS[n].layout]

# name -> four longhands in top/right/bottom/left order
DIRECTIONAL = {
    "margin": [f"margin_{s}" for s in SIDES],
    "padding": [f"padding_{s}" for s in SIDES],
    "border_width": [f"border_{s}_width" for s in SIDES],
    "border_color": [f"border_{s}_color" for s in SIDES],
    "border_style": [f"border_{s}_style" for s in SIDES],
}
# name -> ordered parts (order in which a part is tried), each a longhand
SHORTHAND = {
    f"border_{s}": [f"border_{s}_width", f"border_{s}_style", f"border_{s}_color"]
    for s in SIDES
}
SHORTHAND["outline"] = ["outline_color", "outline_style", "outline_width"]
# "border" parts are directionals
BORDER_PARTS = ["border_width", "border_style", "border_color"]

SETTABLE = NAMES + list(DIRECTIONAL) + list(SHORTHAND) + ["border"]


def addressed(name):
    """Longhands an operation on `name` can touch."""
    if name in PROPS:
        return [name]
    if name in DIRECTIONAL:
        return list(DIRECTIONAL[name])
    if name in SHORTHAND:
        return list(SHORTHAND[name])
    if name == "border":
        return [l for d in BORDER_PARTS for l in DIRECTIONAL[d]]
    return []


def parts_of(spec):
    if isinstance(spec, str):
        return spec.split()
    if isinstance(spec, dict) and ("l" in spec or "t" in spec):
        return list(spec.get("l", spec.get("t")))
    raise Unacceptable


def expand(name, spec):
    """Accepted assignment -> {longhand: canonical or DELETED}, else Unacceptable."""
    if name in PROPS:
        return {name: PROPS[name].canon(spec)}
    if name in DIRECTIONAL:
        longs = DIRECTIONAL[name]
        if isinstance(spec, dict) and "t" in spec:
            t = spec["t"]
            if len(t) == 1:
                t = [t[0]] * 4
            elif len(t) == 2:
                t = [t[0], t[1], t[0], t[1]]
            elif len(t) == 3:
                t = [t[0], t[1], t[2], t[1]]
            elif len(t) != 4:
                raise Unacceptable
        else:
            t = [spec] * 4
        return {l: PROPS[l].canon(v) for l, v in zip(longs, t)}
    if name in SHORTHAND:
        keys = SHORTHAND[name]
        got = _match(parts_of(spec), [(k, PROPS[k]) for k in keys])
        return {k: got.get(k, DELETED) for k in keys}
    if name == "border":
        got = _match(parts_of(spec),
                     [(d, PROPS[DIRECTIONAL[d][0]]) for d in BORDER_PARTS])
        out = {}
        for d in BORDER_PARTS:
            for l in DIRECTIONAL[d]:
                out[l] = got.get(d, DELETED)
        return out
    raise Unacceptable


DELETED = ("deleted",)


def _match(parts, keys):
    if not parts or len(parts) > 3:
        raise Unacceptable
    got = {}
    for part in parts:
        for k, p in keys:
            try:
                c = p.canon(part)
            except Unacceptable:
                continue
            if k in got:
                raise Unacceptable
            got[k] = c
            break
        else:
            raise Unacceptable
    return got


# ---------------------------------------------------------------- value pools
LENGTHS = [0, 1, 3, 7, 10, 12.5, 20, 33, 50, {"u": ["px", 5]}, {"u": ["px", 0.5]},
           {"u": ["pt", 6]}, {"u": ["pc", 1]}, {"u": ["inch", 0.25]},
           {"u": ["cm", 0.5]}, {"u": ["mm", 3]}, {"u": ["percent", 10]},
           {"u": ["percent", 2.5]}, {"u": ["vw", 3]}, {"u": ["vh", 2]},
           {"u": ["vmin", 4]}, {"u": ["vmax", 1.5]}, {"u": ["em", 2]},
           {"u": ["ex", 1]}, {"u": ["ch", 3]},
           "8px", "1.5pt", "6%", "11", "2vw", "4mm", "0.5in", "1vmax", "0px",
           0.3, "33.3px", {"u": ["px", 1.1]}, {"u": ["pt", 0.7]},
           0.0, {"u": ["px", 0]}, {"u": ["percent", 0]}, {"u": ["em", 0]}]
NEG_LENGTHS = [-3, {"u": ["px", -7]}, "-2px", {"u": ["percent", -5]}]
COLORS = ["red", "Blue", "#fff", "#102030", "rgb(1, 2, 3)", "rgba(9, 8, 7, 0.5)",
          "hsl(120, 50%, 25%)", {"rgb": [4, 5, 6]}, {"rgb": [7, 8, 9, 0.25]},
          {"hsl": [30, 0.5, 0.5]}, "gold", "navy", "teal", "#abc8", "#AbC", "#10203040",
          "hsla(30, 10%, 20%, 0.5)", "rgba(9,8,7,0.5)", "rgb(9,8,7)", "WHITE", "Lime",
          {"hsl": [120, 0.5, 0.25, 0.75]}, "black", "silver"]
RECTS = ["rect(1px, 2px, 3px, 4px)", "rect(1px 2px 3px 4px)", "rect(0, 5, 6%, 7pt)"]
QUOTES = ["'<' '>'", "'<' '>' '{' '}'", {"l": [{"t": ["<", ">"]}]},
          {"l": [{"t": ["a", "b"]}, {"l": ["c", "d"]}]}, {"t": [{"t": ["(", ")"]}]}]
CURSOR_VALS = ["pointer", "url(a.cur), help", "url('b.cur'), url(c.cur), wait",
               {"l": ["move"]}, {"l": ["url(d.png)", "text"]}, {"t": ["e-resize"]},
               "auto", {"l": ["url(x.cur)"]}, {"l": ["auto"]}]
SPACINGS = [1, "2px", "3px 4px", {"l": [5, 6]}, {"t": [7]}, {"l": ["8px"]},
            {"t": [1, {"u": ["pt", 2]}]}, 2.5]
INTS = [0, 1, 2, 5, -3, "7", 100]
POOL = {"length": LENGTHS, "int": INTS, "color": COLORS, "rect": RECTS,
        "quotes": QUOTES, "cursor": CURSOR_VALS, "spacing": SPACINGS}

REJECT_ANY = ["bogus", "12qq", "aut o", {"l": []}, {"t": ["a", "b", "c", "d", "e"]},
              "px", "autoo", {"l": [1, 2, 3]}]
REJECT_NONSTR = [{"l": [None]}]


def pool(name, odd=False):
    """Accepted specs for longhand `name`."""
    p = PROPS[name]
    out = list(p.kw)
    if p.none:
        out += [None, "none"]
    if p.kind:
        out += POOL[p.kind]
    if odd and p.kind == "length":
        out += NEG_LENGTHS
    return out


def pick_value(rng, name):
    p = PROPS[name]
    if p.kind and (not (p.kw or p.none) or rng.random() < 0.7):
        return pick_kind(rng, p.kind)
    opts = list(p.kw) + ([None, "none"] if p.none else [])
    return rng.choice(opts)


def pick_kind(rng, kind):
    """A value of a kind: from the pool, random, or close to one used before in this
    run (same number in another unit, same color in another notation, ...)."""
    recent = rng.__dict__.setdefault("recent", {}).setdefault(kind, [])
    if recent and rng.random() < 0.25:
        spec = near(rng, kind, rng.choice(recent))
    elif rng.random() < 0.3:
        spec = RANDOM[kind](rng)
    else:
        spec = rng.choice(POOL[kind])
    recent.append(spec)
    del recent[:-6]
    return spec


def rand_length(rng):
    unit = rng.choice(list(V.SUFFIX))
    bias = getattr(rng, "unit", None)
    if bias and rng.random() < 0.6:
        unit = bias
    x = rng.choice([rng.randrange(0, 60), rng.randrange(0, 240) / 4,
                    rng.choice([rng.randrange(0, 60), rng.randrange(0, 64000) / 64])])
    if unit in ("inch", "cm", "pc", "em", "ex", "ch"):
        x = rng.randrange(0, 16) / 4
    if unit in ("vw", "vh", "vmin", "vmax", "percent"):
        x = rng.randrange(0, 80) / 4
    if rng.random() < 0.1:
        x = rng.randrange(0, 400) / 10
    form = rng.random()
    if form < 0.5:
        return {"u": [unit, x]}
    if form < 0.8:
        return f"{x}{V.SUFFIX[unit]}"
    return rng.choice([rng.randrange(0, 500), rng.randrange(0, 500), rng.randrange(0, 20000)])


def rand_color(rng):
    def c():
        return rng.choice([0, 1, 2, 11, 12, 21, 112, 128, 211, 255, rng.randrange(256)])

    def hue():
        return rng.randrange(360) if rng.random() < 0.8 else rng.choice([-30, 400, 720, 360])

    k = rng.randrange(7)
    sep = rng.choice([", ", ","])
    if k == 0:
        return f"rgb({c()}{sep}{c()}{sep}{c()})"
    if k == 1:
        return f"rgba({c()}{sep}{c()}{sep}{c()}{sep}{rng.choice([0, 0.5, 1, 0.25])})"
    if k == 2:
        return "#" + "".join(rng.choice("0123456789abcdefABCDEF")
                             for _ in range(rng.choice([3, 4, 6, 8])))
    if k == 3:
        return f"hsl({hue()}, {rng.randrange(101)}%, {rng.randrange(101)}%)"
    if k == 4:
        return (f"hsla({hue()}, {rng.randrange(101)}%, {rng.randrange(101)}%, "
                f"{rng.choice([0, 0.5, 1])})")
    if k == 5:
        return {"rgb": [c(), c(), c()] + rng.choice([[], [0.5]])}
    return {"hsl": [hue(), rng.randrange(5) / 4, rng.randrange(5) / 4]
            + rng.choice([[], [0.5]])}


def rand_cursor(rng):
    items = [rng.choice([f"url({u})", f"url('{u}')", f'url("{u}")', f"url( {u} )"])
             for u in rng.sample(["a.cur", "b.cur", "c.png", "d", "http://host/dir/e.cur",
                                  "f_g-h.cur"], rng.choice([0, 1, 2, 3, 6]))]
    if not items or rng.random() < 0.8:
        items.append(rng.choice(V.CURSORS))
    k = rng.randrange(3)
    return {"l": items} if k == 0 else {"t": items} if k == 1 else ", ".join(items)


def rand_quotes(rng):
    marks = ["<", ">", "(", ")", "[", "]", "a", "bb", "«", "»", '"']
    if rng.random() < 0.2:
        marks = ["<<<", ">>>", "open", "close", "“", "”"]
    pairs = [[rng.choice(marks), rng.choice(marks)]
             for _ in range(rng.choice([1, 1, 2, 3, 3, 7]))]
    k = rng.randrange(4)
    if k == 0:
        return " ".join("'%s' '%s'" % (a, b) for a, b in pairs)
    if k == 1:
        return {"l": [{"t": p} for p in pairs]}
    if k == 2:
        return {"t": [{"t": p} for p in pairs]}
    return {rng.choice("lt"): [{rng.choice("lt"): p} for p in pairs]}


def rand_spacing(rng):
    parts = [rand_length(rng) for _ in range(rng.choice([1, 2]))]
    if all(isinstance(x, str) for x in parts):
        return rng.choice([" ", "  "]).join(parts)
    return {rng.choice("lt"): parts}


def rand_rect(rng):
    long = rng.random() < 0.4
    parts = [f"{rng.randrange(-4000, 4000) / 4 if long else rng.randrange(0, 40)}"
             f"{rng.choice(['px', 'pt', '%', '', 'em'])}" for _ in range(4)]
    return "rect(" + rng.choice([", ", ",", " "]).join(parts) + ")"


RANDOM = {"length": rand_length, "color": rand_color, "cursor": rand_cursor,
          "quotes": rand_quotes, "spacing": rand_spacing, "rect": rand_rect,
          "int": lambda rng: rng.choice([rng.randrange(-50, 50),
                                         str(rng.randrange(-50, 50)),
                                         rng.randrange(-10**6, 10**6)])}


def near(rng, kind, spec):
    """An accepted value easily confused with `spec` (or equal to it)."""
    c = KINDS[kind](spec)
    if kind == "length":
        _, x, suf = c
        k = rng.randrange(5)
        if k == 0:
            suf = rng.choice(list(V.UNIT_OF))
        elif k == 1:
            x = rng.choice([x + 1, x + 0.25, x * 10, x / 2, -x, x + 100, x + 0.005, x - 0.004,
                            x + 0.015625, round(x), int(x)])
        if k == 4 and suf == "px":
            return x
        return f"{x}{suf}" if rng.random() < 0.5 else {"u": [V.UNIT_OF[suf], x]}
    if kind == "int":
        return rng.choice([c, str(c), c + 1, -c, c * 10, float(c)])
    if kind == "color":
        return _near_color(rng, c)
    if kind == "cursor":
        items = [f"url({x[1]})" if isinstance(x, list) else x for x in c[1:]]
        k = rng.randrange(5)
        if k == 4:      # other letter case, other ending
            f = rng.choice([str.upper, str.title, lambda u: u + "x", lambda u: u[:-1] + "2"])
            items = [f"url({f(x[4:-1])})" if x.startswith("url(") else x for x in items]
        elif k == 0:
            items = ["url(z.cur)"] + items
        elif k == 1 and len(items) > 1:
            items = items[1:]
        elif k == 2:
            items = [x for x in items if x.startswith("url")] + [rng.choice(V.CURSORS)]
        return {"l": items} if rng.random() < 0.5 else ",".join(items)
    if kind == "quotes":
        pairs = [list(p) for p in c[1:]]
        k = rng.randrange(4)
        if k == 0:
            pairs.append(["<", ">"])
        elif k == 1 and len(pairs) > 1:
            pairs.pop()
        elif k == 2:
            pairs[0].reverse()
        elif len(pairs) > 1:
            pairs.reverse()
        return {rng.choice("lt"): [{"t": p} for p in pairs]}
    if kind == "spacing":
        a, b = [f"{x}{suf}" for _, x, suf in c[1:]]
        return rng.choice([a, f"{a} {b}", f"{b} {a}", {"l": [a, b]}, {"t": [b]},
                           {"t": [a, a]}])
    if kind == "rect":
        parts = [f"{x}{suf}" for _, x, suf in c[1:]]
        k = rng.randrange(3)
        if k == 0:
            rng.shuffle(parts)
        elif k == 1:
            i = rng.randrange(4)
            _, x, suf = c[1 + i]
            parts[i] = f"{x + rng.choice([1, 0.5, -7])}{suf}"
        return "rect(" + rng.choice([", ", ",", " "]).join(parts) + ")"
    return spec


def _near_color(rng, c):
    if c[0] == "hsl":
        h, s, l, a = c[1:]
        s, l = round(s * 100), round(l * 100)
        k = rng.randrange(4)
        if k == 0:
            return f"rgb({h % 256}, {s}, {l})"
        if k == 1:
            return f"hsla({h}, {s}%, {l}%, {rng.choice([a, 0.5, 1, 0])})"
        if k == 2:
            return f"hsl({h}, {l}%, {s}%)"
        return {"hsl": [h, s / 100, l / 100, a]}
    r, g, b, a = c[1:]
    k = rng.randrange(7)
    if k == 0:      # a digit moves from one channel to the next
        ch = [str(r), str(g), str(b)]
        i = rng.randrange(2)
        if len(ch[i]) > 1:
            ch[i], ch[i + 1] = ch[i][:-1], ch[i][-1] + ch[i + 1]
        elif len(ch[i + 1]) > 1:
            ch[i], ch[i + 1] = ch[i] + ch[i + 1][0], ch[i + 1][1:]
        ch = [int(x) % 256 for x in ch]
        if a == 1 and rng.random() < 0.5:
            return "rgb(%d,%d,%d)" % tuple(ch)
        return rng.choice(["rgba(%d, %d, %d, %s)", "rgba(%d,%d,%d,%s)"]) % (*ch, a)
    if k == 1:
        return "#%02x%02x%02x" % (r, g, b)
    if k == 2:
        return "#%02X%02X%02X" % (b, g, r)
    if k == 3:
        return f"rgba({r}, {g}, {b}, {rng.choice([a, 0, 0.5, 1])})"
    if k == 4:
        return f"hsl({r}, {min(g, 100)}%, {min(b, 100)}%)"
    if k == 5:
        return {"rgb": [r, g, b, rng.choice([a, 0.5, 1])]}
    return "rgb(%s)" % rng.choice([",", ", ", " , "]).join([str(r), str(g), str(b)])


def near_parts(rng, name, spec):
    """A shorthand or four-sided value with a part less, changed or moved."""
    if name in DIRECTIONAL:
        if not (isinstance(spec, dict) and "t" in spec):
            return {"t": [spec] * rng.randrange(1, 5)}
        parts, tag = list(spec["t"]), "t"
    else:
        parts, tag = parts_of(spec), rng.choice("lt")
    expand(name, spec)
    k = rng.randrange(4)
    i = rng.randrange(len(parts))
    if k == 0 and len(parts) > 1:
        del parts[i]
    elif k == 1:
        rng.shuffle(parts)
    elif k == 2:
        other = pick_spec(rng, name)
        if name in DIRECTIONAL:
            other = other["t"] if isinstance(other, dict) and "t" in other else [other]
        else:
            other = parts_of(other)
        parts[i] = rng.choice(other)
    if tag in "lt" and name not in DIRECTIONAL and all(isinstance(p, str) for p in parts) \
            and rng.random() < 0.5:
        out = " ".join(parts)
    else:
        out = {tag: parts}
    expand(name, out)
    return out


def near_op(rng, sop):
    """A style op close to `sop` (same property, values easily confused)."""
    def sub(name, spec):
        if name in PROPS and PROPS[name].kind:
            try:
                KINDS[PROPS[name].kind](spec)
            except Unacceptable:
                return pick_spec(rng, name)
            return near(rng, PROPS[name].kind, spec)
        if name in SHORTHAND or name == "border" or name in DIRECTIONAL:
            try:
                return near_parts(rng, name, spec)
            except Unacceptable:
                pass
        return pick_spec(rng, name) if name in SETTABLE else spec

    if sop[0] == "set":
        v = sub(sop[1], sop[2])
        return ["set", sop[1], "none" if v is None else v, sop[3]]
    if sop[0] == "upd":
        return ["upd", [[n, None if v is None else sub(n, v) or "none"]
                        for n, v in sop[1]], sop[2]]
    return list(sop)


ECHO = {}
for _g in (SIDES, [f"margin_{s}" for s in SIDES], [f"padding_{s}" for s in SIDES],
           [f"border_{s}_width" for s in SIDES], [f"border_{s}_style" for s in SIDES],
           [f"border_{s}_color" for s in SIDES],
           ["width", "min_width", "max_width", "height", "min_height", "max_height"],
           ["top", "bottom"], ["left", "right"], ["orphans", "widows", "z_index"],
           ["letter_spacing", "word_spacing", "text_indent"],
           ["color", "background_color", "outline_color"],
           ["color"] + [f"border_{s}_color" for s in SIDES]):
    for _n in _g:
        ECHO[_n] = ECHO.get(_n, []) + [x for x in _g if x != _n]


def echo_op(rng, sop):
    """The value of `sop` given to another property that takes such values."""
    if sop[0] != "set" or sop[1] not in PROPS:
        return sop
    name = sop[1]
    like = ECHO.get(name)
    if not like:
        return sop
    return ["set", rng.choice(like), sop[2], sop[3]]


def pick_spec(rng, name):
    """An accepted spec for any settable name."""
    if name in PROPS:
        return pick_value(rng, name)
    if name in DIRECTIONAL:
        longs = DIRECTIONAL[name]
        n = rng.choice([0, 1, 2, 3, 4, 4])
        if n == 0:
            return pick_value(rng, longs[0])
        return {"t": [pick_value(rng, longs[0]) for _ in range(n)]}
    if name in SHORTHAND or name == "border":
        for _ in range(50):
            keys = (SHORTHAND[name] if name in SHORTHAND
                    else [DIRECTIONAL[d][0] for d in BORDER_PARTS])
            ks = rng.sample(keys, rng.randrange(1, 4))
            parts = [pick_value(rng, k) for k in ks]
            if rng.random() < 0.5 and all(isinstance(x, str) and " " not in x
                                          for x in parts):
                spec = " ".join(parts)
            else:
                spec = {rng.choice("tl"): parts}
            try:
                expand(name, spec)
            except Unacceptable:
                continue
            return spec
        return "solid" if name != "outline" else "1px solid red"
    raise AssertionError(name)


def pick_reject(rng, name):
    """A spec every sane version rejects, in varied shapes (late bad part first)."""
    for _ in range(100):
        spec = _reject(rng, name)
        try:
            expand(name, spec)
        except Unacceptable:
            return spec
    return "bogus"


# values of every kind, for properties of another kind
CROSS = ([x for x in LENGTHS if not isinstance(x, float)] + ["25%", "5%", "-3%"] + COLORS
         + RECTS + QUOTES + CURSOR_VALS
         + SPACINGS + INTS + [k for p in PROPS.values() for k in p.kw])


def _reject(rng, name):
    if name in PROPS:
        p = PROPS[name]
        if rng.random() < 0.3:
            spec = rng.choice(CROSS)
            if name == "quotes" and isinstance(spec, dict):
                spec = "bogus"      # a two-letter string is also a pair
            return spec
        opts = ["bogus", "12qq", "px", "autoo", "1 2 3 4 5", "-", "bogus(", "5%%", "5% 6%"]
        if p.kind in ("length", "color", "int", None):
            opts += [{"l": [1, 2, 3]}, {"t": ["a", "b"]}]
        if p.kind is None:
            opts += [12, "10px", {"u": ["px", 3]}, "BOGUS"]
        if p.kind == "length":
            opts += ["5 px px", "--3px", "red", "#123"]
            if not p.none:
                opts += [None]
        if p.kind == "color":
            opts += ["#12", "rgb(1,2)", "notacolor", 12, "#zzz"]
        if p.kind == "quotes":
            opts += ["'<'", {"l": []}, "'<' '>' '{'", 5, "'' '>'", "'<' ''",
                     {"l": [{"t": ["", ">"]}]}, "'<' '>' '' ''"]
        if p.kind == "rect":
            opts += ["rect(1px)", "rect(1px, 2px, 3px)", "circle(1px)"]
        if p.kind == "spacing":
            opts += ["1px 2px 3px", "1px bogus", {"l": [1, 2, 3]}, {"l": []}]
        if p.kind == "cursor":
            opts += ["auto, url(a.cur)", "auto, help", "url(a.cur), bogus",
                     {"l": ["help", "url(x)"]}, {"l": ["bogus"]}]
        if p.kind == "int":
            opts += ["1.5", "x1"]
        return rng.choice(opts)
    if name in DIRECTIONAL:
        longs = DIRECTIONAL[name]
        bad = rng.choice(["bogus", "12qq", "autoo"])
        n = rng.choice([0, 1, 2, 3, 4, 4, 4, 5])
        if n == 0:
            return bad
        vals = [pick_value(rng, longs[0]) for _ in range(n)]
        if n <= 4:
            vals[rng.randrange(n)] = bad
        return {"t": vals}
    keys = (SHORTHAND[name] if name in SHORTHAND
            else [DIRECTIONAL[d][0] for d in BORDER_PARTS])
    r = rng.random()
    parts = [pick_value(rng, k) for k in keys]
    rng.shuffle(parts)
    if r < 0.4:
        del parts[rng.choice([1, 2, 3, 3]):]
        parts[rng.randrange(len(parts))] = rng.choice(["bogus", "bogus", "12qq", "#12"])
    elif r < 0.6:
        parts = parts + ["solid"]
    elif r < 0.8:
        parts = ["solid", "dotted"]
    else:
        return rng.choice(["", "bogus", "solid bogus", "1px 2px solid"])
    if rng.random() < 0.4 and all(isinstance(x, str) and " " not in x for x in parts):
        return " ".join(parts)
    return {rng.choice("tl"): parts}
