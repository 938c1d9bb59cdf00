"""JSON value specs, their Python values in a world, and canonical forms.

A spec is JSON: number, string, null, or one of
  {"u": [unit, x]}  x * unit          {"t": [...]} tuple       {"l": [...]} list
  {"rgb": [..]} / {"hsl": [..]} color objects

`make(world, spec)` builds the Python value; `show(world, value)` reduces
anything the library hands back to plain JSON-able data, using only public
attributes.  Independently of the library, `canon(kind, spec)` says what an
accepted assignment must read back as (used by the reference model).
"""

SUFFIX = {
    "px": "px", "em": "em", "ex": "ex", "ch": "ch", "pt": "pt", "pc": "pc",
    "inch": "in", "cm": "cm", "mm": "mm", "vh": "vh", "vw": "vw",
    "vmin": "vmin", "vmax": "vmax", "percent": "%",
}
UNIT_OF = {v: k for k, v in SUFFIX.items()}


def num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, float) and x == int(x):
        return int(x)
    return x


def make(world, spec):
    if isinstance(spec, str):
        # a fresh string object: identity with library constants is never given
        return "".join([c for c in spec])
    if isinstance(spec, dict):
        (tag, arg), = spec.items()
        if tag == "u":
            return arg[1] * getattr(world.units, arg[0])
        if tag == "t":
            return tuple(make(world, a) for a in arg)
        if tag == "l":
            return [make(world, a) for a in arg]
        if tag == "rgb":
            return world.colors.rgb(*arg)
        if tag == "hsl":
            return world.colors.hsl(*arg)
        raise AssertionError(spec)
    return spec


def read(world, obj, name):
    """Attribute of a library object as plain data; an error is its own answer."""
    try:
        return show(world, getattr(obj, name))
    except Exception as e:
        return ["raised", type(e).__name__]


def listing(css):
    try:
        return sorted(css.keys())
    except Exception as e:
        return ["raised", type(e).__name__]


def _agrees(h, c):
    """Whether a color's channels are those of its hue, saturation and lightness.
    (For hues of 240-300 the library's own order of channels is accepted too.)"""
    h, sat, light, a = h[1:]
    ch = (1 - abs(2 * light - 1)) * sat
    hh = h / 60.0
    x = ch * (1 - abs(hh % 2 - 1))
    m = light - ch / 2
    z = {0: [(ch, x, 0)], 1: [(x, ch, 0)], 2: [(0, ch, x)], 3: [(0, x, ch)],
         4: [(x, 0, ch), (0, x, ch)], 5: [(ch, 0, x)]}
    ok = z.get(int(hh), sum(z.values(), [])) if hh >= 0 else sum(z.values(), [])
    return abs(c.a - a) < 1e-5 and any(
        all(abs(got - 255 * (v + m)) <= 1.5 for got, v in zip((c.r, c.g, c.b), t)) for t in ok)


def show(world, value):
    if value is None or isinstance(value, (bool, str)):
        return value
    if isinstance(value, (int, float)):
        return num(value)
    if value is world.constants.default:
        return "<default>"
    if hasattr(value, "suffix") and hasattr(value, "val"):
        return ["len", num(value.val), value.suffix]
    w = world.wrappers
    if isinstance(value, world.colors.rgb):
        return ["rgb", num(value.r), num(value.g), num(value.b), num(round(value.a, 6))]
    if isinstance(value, world.colors.hsl):
        out = ["hsl", num(value.h), num(round(value.s, 6)), num(round(value.l, 6)),
               num(round(value.a, 6))]
        return out if _agrees(out, value.rgb) else out + ["as", show(world, value.rgb)]
    if isinstance(value, w.BorderSpacing):
        return ["bs", show(world, value.horizontal), show(world, value.vertical)]
    if isinstance(value, w.Quotes):
        return ["quotes"] + [
            [value.opening(i), value.closing(i)] for i in range(len(value))
        ]
    if isinstance(value, w.Uri):
        return ["uri", value.url]
    if isinstance(value, w.Shorthand):
        return ["sh", {k: show(world, v) for k, v in value.to_dict().items()}]
    if isinstance(value, world.shapes.Rect):
        return ["rect"] + [
            show(world, getattr(value, s)) for s in ("top", "right", "left", "bottom")
        ]
    if isinstance(value, (list, tuple)):
        return ["list"] + [show(world, v) for v in value]
    if isinstance(value, (set, frozenset)):
        return ["set"] + sorted(str(v) for v in value)
    return ["?", type(value).__name__]


NAMED = {
    "red": [255, 0, 0], "blue": [0, 0, 255], "white": [255, 255, 255],
    "black": [0, 0, 0], "lime": [0, 255, 0], "gold": [255, 215, 0],
    "aqua": [0, 255, 255], "silver": [192, 192, 192], "teal": [0, 128, 128],
    "navy": [0, 0, 128],
}


class Unacceptable(Exception):
    pass


def canon_length(spec):
    if isinstance(spec, bool):
        raise Unacceptable
    if isinstance(spec, (int, float)):
        return ["len", num(spec), "px"]
    if isinstance(spec, dict) and "u" in spec:
        return ["len", num(spec["u"][1]), SUFFIX[spec["u"][0]]]
    if isinstance(spec, str):
        for suf in sorted(UNIT_OF, key=len, reverse=True):
            if spec.endswith(suf):
                try:
                    return ["len", num(float(spec[: -len(suf)])), suf]
                except ValueError:
                    pass
        try:
            return ["len", num(float(spec)), "px"]
        except ValueError:
            pass
    raise Unacceptable


def canon_color(spec):
    if isinstance(spec, dict):
        if "rgb" in spec:
            a = spec["rgb"]
            return ["rgb"] + [num(x) for x in a] + ([1] if len(a) == 3 else [])
        if "hsl" in spec:
            a = spec["hsl"]
            r = ["hsl", num(a[0]), num(round(a[1], 6)), num(round(a[2], 6))]
            return r + ([num(a[3])] if len(a) == 4 else [1])
    if isinstance(spec, str):
        if spec.lower() in NAMED:
            return ["rgb"] + NAMED[spec.lower()] + [1]
        if spec.startswith("#") and len(spec) in (4, 5, 7, 9):
            h = spec[1:]
            if len(h) < 6:
                h = "".join(c + c for c in h)
            try:
                r = ["rgb"] + [int(h[i:i + 2], 16) for i in (0, 2, 4)]
                return r + [num(round(int(h[6:8], 16) / 255, 6)) if len(h) == 8 else 1]
            except ValueError:
                raise Unacceptable
        for name, n in (("rgba", 4), ("rgb", 3)):
            if spec.startswith(name + "(") and spec.endswith(")"):
                parts = spec[len(name) + 1:-1].split(",")
                if len(parts) == n:
                    r = ["rgb"] + [int(p) for p in parts[:3]]
                    return r + [num(float(parts[3])) if n == 4 else 1]
                raise Unacceptable
        for name, n in (("hsla", 4), ("hsl", 3)):
            if spec.startswith(name + "(") and spec.endswith(")"):
                p = [x.strip().rstrip("%") for x in spec[len(name) + 1:-1].split(",")]
                if len(p) == n:
                    return ["hsl", int(p[0]), num(round(int(p[1]) / 100.0, 6)),
                            num(round(int(p[2]) / 100.0, 6)),
                            num(float(p[3])) if n == 4 else 1]
                raise Unacceptable
    raise Unacceptable


CURSORS = ["auto", "crosshair", "default", "pointer", "move", "e-resize",
           "ne-resize", "nw-resize", "n-resize", "se-resize", "sw-resize",
           "s-resize", "w-resize", "text", "wait", "progress", "help"]


def canon_cursor(spec):
    if isinstance(spec, str):
        items = [s.strip() for s in spec.split(",")]
    elif isinstance(spec, dict) and ("l" in spec or "t" in spec):
        items = spec.get("l", spec.get("t"))
    else:
        raise Unacceptable
    out = ["list"]
    for i, it in enumerate(items):
        if it in CURSORS:
            if i != len(items) - 1:
                raise Unacceptable
            out.append(it)
        elif isinstance(it, str) and it.startswith("url(") and it.endswith(")"):
            u = it[4:-1].strip()
            if len(u) > 1 and u[0] == u[-1] and u[0] in "'\"":
                u = u[1:-1]
            out.append(["uri", u])
        else:
            raise Unacceptable
    return out


def canon_spacing(spec):
    if isinstance(spec, (int, float)):
        parts = [spec]
    elif isinstance(spec, str):
        parts = spec.split()
    elif isinstance(spec, dict) and ("l" in spec or "t" in spec):
        parts = spec.get("l", spec.get("t"))
    else:
        raise Unacceptable
    if len(parts) not in (1, 2):
        raise Unacceptable
    ps = [canon_length(p) for p in parts]
    return ["bs", ps[0], ps[-1]]


def canon_rect(spec):
    if isinstance(spec, str) and spec.startswith("rect(") and spec.endswith(")"):
        body = spec[5:-1]
        parts = body.split(",") if "," in body else body.split()
        if len(parts) == 4:
            return ["rect"] + [canon_length(p.strip()) for p in parts]
    raise Unacceptable


def canon_quotes(spec):
    if isinstance(spec, dict) and ("l" in spec or "t" in spec):
        out = ["quotes"]
        for pair in spec.get("l", spec.get("t")):
            if not isinstance(pair, dict):
                raise Unacceptable
            p = pair.get("t", pair.get("l"))
            if len(p) != 2 or not all(isinstance(x, str) and x for x in p):
                raise Unacceptable
            out.append(list(p))
        if len(out) > 1:
            return out
    elif isinstance(spec, str):
        parts = spec.split()
        if parts and len(parts) % 2 == 0 and all(
            len(p) >= 3 and p[0] == p[-1] and p[0] in "'\"" for p in parts
        ):
            vals = [p[1:-1] for p in parts]
            return ["quotes"] + [[vals[i], vals[i + 1]] for i in range(0, len(vals), 2)]
    raise Unacceptable
