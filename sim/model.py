"""Reference model of a style declaration: a dict of assigned longhands."""

from . import catalog as C
from .values import Unacceptable


class Decl:
    def __init__(self, vals=None, ever=None):
        self.vals = dict(vals or {})     # longhand -> canonical (assigned)

    def copy(self):
        return Decl(self.vals)

    def initial(self, name):
        i = C.PROPS[name].initial
        if isinstance(i, tuple):
            if name == "text_align":
                return {"ltr": "left", "rtl": "right"}[self.read("direction")]
            return self.read(i[1])
        return i

    def read(self, name):
        if name in self.vals:
            return self.vals[name]
        return self.initial(name)

    def all(self):
        return {n: self.read(n) for n in C.NAMES}

    def set(self, name, spec):
        """Raises Unacceptable (nothing changed) if the library must reject."""
        for k, v in C.expand(name, spec).items():
            if v == C.DELETED:
                self.vals.pop(k, None)
            else:
                self.vals[k] = v

    def delete(self, name):
        for k in C.addressed(name):
            self.vals.pop(k, None)

    def must_list(self):
        return {n for n in self.vals if self.vals[n] != self.initial(n)}

    def may_list(self):
        return set(self.vals)


def pythonic(name, form):
    """Spelling of a property name for the item/bulk forms."""
    return name.replace("_", "-") if form.endswith("-") else name


def apply_model(decl, op):
    """op: ["set",name,spec,form] | ["del",name,form] | ["upd",[[name,spec]..],form]
    Returns True if the whole operation is accepted.  Bulk updates are a
    sequence of assignments; None deletes; the first bad one stops it."""
    kind = op[0]
    if kind == "set":
        try:
            decl.set(op[1], op[2])
        except Unacceptable:
            return False
        return True
    if kind == "del":
        decl.delete(op[1])
        return True
    if kind == "upd":
        for name, spec in op[1]:
            if name not in C.SETTABLE:
                return False
            if spec is None:
                decl.delete(name)
                continue
            try:
                decl.set(name, spec)
            except Unacceptable:
                return False
        return True
    raise AssertionError(op)


def apply_real(world, css, op, made=None):
    """Perform op on a real declaration.  Errors propagate."""
    from . import values as V

    kind = op[0]
    if kind == "set":
        value = V.make(world, op[2]) if made is None else made
        form = op[3]
        if form == "attr":
            setattr(css, op[1], value)
        elif form in ("item", "item-"):
            css[pythonic(op[1], form)] = value
        else:
            css.update(**{pythonic(op[1], form): value})
    elif kind == "del":
        form = op[2]
        if form == "attr":
            delattr(css, op[1])
        elif form in ("item", "item-"):
            del css[pythonic(op[1], form)]
        else:
            css.update(**{pythonic(op[1], form): None})
    elif kind == "upd":
        css.update(**{pythonic(n, op[2]): V.make(world, s) for n, s in op[1]})
    else:
        raise AssertionError(op)


FORMS = ["attr", "attr", "item", "item-", "upd", "upd-"]


def few_values(rng, value=None):
    """A value generator that keeps to a few values per property, the initial one
    among them: assignments then return to earlier values."""
    value = value or C.pick_spec
    pools = {}

    def pick(r, name):
        if name not in pools:
            pool = pools[name] = [value(rng, name) for _ in range(rng.choice([1, 2, 3]))]
            if name in C.PROPS:
                init = C.PROPS[name].initial
                if init is None or isinstance(init, (str, int, float)):
                    try:
                        C.expand(name, init)
                        pool.append(init)
                    except Unacceptable:
                        pass
        return r.choice(pools[name])

    return pick


def gen_style_op(rng, names, p_del=0.15, p_rej=0.15, p_upd=0.15, value=None):
    """A random style op on one of `names`."""
    value = value or C.pick_spec
    r = rng.random()
    if r < p_del:
        return ["del", rng.choice(names), rng.choice(FORMS)]
    if r < p_del + p_rej:
        name = rng.choice(names)
        spec = C.pick_reject(rng, name)
        form = rng.choice(FORMS)
        if spec is None and form.startswith("upd"):
            form = "attr"
        return ["set", name, spec, form]
    if r < p_del + p_rej + p_upd:
        n = rng.randrange(1, 5)
        pairs, seen = [], set()
        for _ in range(n):
            name = rng.choice(names)
            if name in seen:
                continue
            seen.add(name)
            x = rng.random()
            if x < 0.12:
                pairs.append([name, None])
            elif x < 0.12 + p_rej * 0.5:
                s = C.pick_reject(rng, name)
                pairs.append([name, "bogus" if s is None else s])
            elif x < 0.12 + p_rej * 0.6:
                pairs.append(["no_such_property", 1])
            else:
                s = value(rng, name)
                if s is None:
                    s = "none"
                pairs.append([name, s])
        return ["upd", pairs, rng.choice(["upd", "upd-"])]
    name = rng.choice(names)
    spec = value(rng, name)
    form = rng.choice(FORMS)
    if spec is None and form.startswith("upd"):
        spec = "none"
    return ["set", name, spec, form]
