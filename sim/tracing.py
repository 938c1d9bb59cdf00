"""Counting, interrupting and bounding library code at its points."""

from . import points


class StepBudget(BaseException):
    """The operation made too many steps: no progress."""


def traced(fn, at=None, exc=None, fine=False, limit=2_000_000):
    """Run fn() with library points counted; raise exc() at point number `at`.

    fine: also count sub-expressions, not only statements.
    Returns (kind, value, count, fired): kind "ok" with fn's result or "err"
    with the exception that came out.
    """
    count = 0
    fired = False

    def hook(site, sub):
        nonlocal count, fired
        if sub and not fine:
            return
        count += 1
        if count == at:
            fired = True
            raise exc()
        if count > limit:
            raise StepBudget(f"more than {limit} steps")

    old = points.install(hook)
    try:
        try:
            value = fn()
            kind = "ok"
        except BaseException as e:
            kind, value = "err", e
            if not isinstance(e, Exception) and not fired:
                raise
    finally:
        points.install(old)
    if kind == "err":
        # do not keep the frames of the interrupted operation alive
        value.__traceback__ = None
        value.__context__ = None
    return kind, value, count, fired
