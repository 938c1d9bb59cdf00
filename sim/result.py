class Result:
    """What one simulated run observed."""

    def __init__(self):
        self.violation = None       # {"kind":..., "msg":...}
        self.stats = {}
        self.log = []               # event log (digested for determinism)
        self.nontrivial = False
        self.steps = 0              # simulated time: events executed
        self.extra = {}             # e.g. recorded switches

    def hit(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def fail(self, kind, msg, **more):
        if self.violation is None:
            self.violation = {"kind": kind, "msg": msg, **more}
        return self
