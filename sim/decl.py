"""Comparing a real declaration with its reference model."""

from . import catalog as C
from . import values as V


def reads(world, css):
    return {n: V.read(world, css, n) for n in C.NAMES}


def check_reads(world, css, m, names=None):
    for n in names or C.NAMES:
        try:
            got = V.show(world, getattr(css, n))
        except Exception as e:
            return f"reading {n} raised {type(e).__name__}"
        want = m.read(n)
        if got != want:
            return f"{n} reads {got}, should read {want}"
    return None


def check_listing(world, css, m):
    """Keys, items, text, items by name, directionals and shorthands."""
    must, may = m.must_list(), m.may_list()
    keys = set(css.keys())
    for n in must - keys:
        return f"keys() lacks {n}, whose value differs from its initial value"
    for n in keys & set(C.PROPS):
        if n not in may:
            return f"keys() lists {n}, which is not assigned"
    items = css.items()
    names = [k for k, _ in items]
    if len(names) != len(set(names)):
        return f"items() repeats a name: {sorted(names)}"
    for n in must - set(names):
        return f"items() lacks {n}, whose value differs from its initial value"
    for n, v in items:
        if n in C.PROPS:
            if n not in may:
                return f"items() lists {n}, which is not assigned"
            if V.show(world, v) != m.read(n):
                return f"items() gives {n} = {V.show(world, v)}, reads give {m.read(n)}"
    text = str(css)
    parts = dict(p.split(": ", 1) for p in text.split("; ")) if text else {}
    tnames = {p.replace("-", "_") for p in parts}
    for n in must - tnames:
        return f"text lacks {n}, whose value differs from its initial value"
    for n in tnames & set(C.PROPS):
        if n not in may:
            return f"text lists {n}, which is not assigned"
        if parts[n.replace("_", "-")] != f"{getattr(css, n)}":
            return f"text gives {n} as {parts[n.replace('_', '-')]}"
    for d, longs in C.DIRECTIONAL.items():
        got = V.show(world, getattr(css, d))
        if got != ["list"] + [m.read(l) for l in longs]:
            return f"{d} reads {got}, its sides read {[m.read(l) for l in longs]}"
    for s, longs in C.SHORTHAND.items():
        got = V.show(world, getattr(css, s))
        req = {l for l in longs if l in must}
        opt = {l for l in longs if l in may}
        if got == "":
            if req:
                return f"{s} reads as empty although {sorted(req)} are set"
            continue
        d = got[1] if isinstance(got, list) and got[0] == "sh" else None
        if d is None:
            return f"{s} reads {got}"
        if not (req <= set(d) <= opt):
            return f"{s} reads {got}; set parts are {sorted(opt)}"
        for l in d:
            if d[l] != m.read(l):
                return f"{s} gives {l} = {d[l]}, which reads {m.read(l)}"
    return None


def check_items(world, css, m, names):
    """Item access, both spellings."""
    for n in names:
        for spelling in (n, n.replace("_", "-")):
            got = V.show(world, css[spelling])
            if got != m.read(n):
                return f"css[{spelling!r}] is {got}, should be {m.read(n)}"
    return None


def check(world, css, m, rng_names=()):
    try:
        return (check_reads(world, css, m) or check_listing(world, css, m)
                or check_items(world, css, m, rng_names))
    except Exception as e:
        return f"reading the declaration raised {type(e).__name__}: {e}"


REJECTIONS = (ValueError, NameError, KeyError, IndexError, TypeError, AttributeError)
