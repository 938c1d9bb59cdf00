"""The thread scheduler: real threads, of which exactly one runs.

Every statement (or sub-expression) executed inside the library is a scheduling
point. A
seeded policy, or an explicit list of switches when replaying, decides there
who runs next; the operating system never does. Switches are identified by
(thread, that thread's own step number), so that dropping one from a recorded
schedule leaves the meaning of the others intact.
"""

import _thread
import hashlib
import random
import threading as _threading
import types

from . import points

STEP_LIMIT = 2_000_000


class NoProgress(BaseException):
    """Deadlock, or too many steps."""


class _Aborted(BaseException):
    pass


_current = None         # the scheduler of the run in progress, if any


class Scheduler:
    def __init__(self, plan, horizon=10000, fine=False):
        self.plan = plan
        self.fine = fine
        self.tasks = []
        self.total = 0
        self.recorded = []
        self.sites = hashlib.sha256()
        self.nswitch = 0
        self.stalls = 0
        self.problem = None
        self.running = None
        self.explicit = None
        self.rng = None
        if "switches" in plan:
            self.explicit = {(t, s): to for t, s, to in plan["switches"]}
        else:
            self.rng = random.Random(plan["seed"])
            self.kind = plan["kind"]
            self.next = 0
            if self.kind == "pct":
                n = plan["d"]
                self.points = sorted(1 + int(self.rng.random() * horizon)
                                     for _ in range(n))
            self.stall_p = plan.get("stall", 0)
            self.hot = {}
            self.burst = self.tempo = self.relay = 0
            self.parked = {}        # function -> task waiting for company
            self.visits = {}

    # ------------------------------------------------------------------ running
    def run(self, bodies):
        """Run the bodies, each called with its task, to completion."""
        global _current
        self.tasks = [Task(self, i, b) for i, b in enumerate(bodies)]
        if self.rng is not None:
            if self.kind == "pct":
                self.prio = list(range(len(bodies)))
                self.rng.shuffle(self.prio)
            else:
                self._draw()
        self.done_gate = _thread.allocate_lock()
        self.done_gate.acquire()
        old = _current
        _current = self
        old_hook = points.install(self._hook)
        try:
            for t in self.tasks:
                t.thread = _threading.Thread(target=t.main, daemon=True)
                t.thread.start()
            first = self._choose(self.tasks, None)
            self.running = first
            first.gate.release()
            self.done_gate.acquire()
            for t in self.tasks:
                t.thread.join()
        finally:
            points.install(old_hook)
            _current = old
        for t in self.tasks:
            if t.error is not None:
                raise t.error
        return self

    def _hook(self, site, sub):
        if sub and not self.fine:
            return
        task = self.running
        if task is None or not task.active:
            return
        task.opstep += 1
        if task.opstep == task.at:
            task.fired = True
            raise task.exc()
        self.point(task, site)

    # ------------------------------------------------------------------ policy
    def _draw(self):
        r = self.rng
        k = self.kind
        if k == "gap":
            mean = self.plan["mean"]
        elif k == "mix":
            mean = r.choice([1, 1, 3, 10, 40, 200, 1000])
        else:
            mean = 400
        self.next = self.total + (1 if mean <= 1 else 1 + int(r.expovariate(1 / mean)))

    def _runnable(self, me=None):
        return [t for t in self.tasks if not t.done and t.waiting is None and t is not me]

    def _choose(self, cands, me):
        if self.explicit is not None:
            key = (me.i if me else -1, -1 if me is None or me.done else me.steps)
            to = self.explicit.get(key)
            for t in cands:
                if t.i == to:
                    return t
            return cands[0]
        if self.kind == "pct":
            return max(cands, key=lambda t: self.prio[t.i])
        awake = [t for t in cands if t.stalled <= self.total] or cands
        return self.rng.choice(awake)

    def point(self, task, site):
        """A scheduling point of the running task."""
        task.steps += 1
        self.total += 1
        if self.problem is not None:
            raise _Aborted()
        if self.total > STEP_LIMIT:
            self._problem("no progress: step limit reached")
            raise _Aborted()
        if self.explicit is not None:
            to = self.explicit.get((task.i, task.steps))
            if to is None or to == task.i or to >= len(self.tasks):
                return
            t = self.tasks[to]
            if t.done or t.waiting is not None:
                return
            self._switch(task, t, site)
            return
        if self.kind == "pct":
            if not self.points or self.total < self.points[0]:
                return
            self.points.pop(0)
            self.prio[task.i] = min(self.prio) - 1
            cands = self._runnable()
            t = self._choose(cands, task)
            if t is not task:
                self._switch(task, t, site)
            return
        if self.kind == "hot":
            where = points.SITES[site][:2]
            h = self.hot.get(where)
            if h is None:
                h = self.rng.random() < self.plan["share"]
                self.hot[where] = h
            go = (h and self.rng.random() < 0.4) or self.total >= self.next
        elif self.kind == "meet":
            go = self._meet(task, points.SITES[site][:2])
        else:
            go = self.total >= self.next
        if not go:
            return
        self._draw()
        cands = self._runnable(task)
        if not cands:
            return
        if (self.kind == "meet" and task.stalled <= self.total
                and all(t.stalled > self.total for t in cands)):
            return                      # nobody else is due yet
        if self.stall_p and self.rng.random() < self.stall_p:
            task.stalled = self.total + self.rng.choice([200, 2000, 20000])
            self.stalls += 1
        self._switch(task, self._choose(cands, task), site)

    def _meet(self, task, where):
        """Some functions are entered together: whoever comes first waits for a while."""
        if self.burst:
            self.burst -= 1
            return (self.burst == self.relay if self.relay else
                    self.rng.random() < self.tempo)
        gate = self.hot.get(where)
        if gate is None:
            gate = self.hot[where] = self.rng.random() < self.plan["share"]
        if gate:
            first = self.parked.get(where)
            if first is not None and first is not task:
                del self.parked[where]
                if not first.done and first.stalled > self.total:
                    first.stalled = 0
                    self.burst = 60
                    self.tempo = self.rng.choice([0.6, 0.3, 0.15, 0.08])
                    self.relay = self.rng.choice([0, 60 - self.rng.randrange(1, 25)])
                    return True
            n = self.visits.get((task.i, where), 0)
            if first is None and n < 3:
                self.visits[task.i, where] = n + 1
                self.parked[where] = task
                task.stalled = self.total + 4000
                return True
        return self.total >= self.next

    def _switch(self, task, to, site):
        self.recorded.append([task.i, task.steps, to.i])
        self.nswitch += 1
        if site is not None:
            self.sites.update(f"{task.i}>{to.i}@{points.SITES[site]};".encode())
        self.running = to
        to.gate.release()
        task.gate.acquire()
        if self.problem is not None:
            raise _Aborted()

    def finished(self, task):
        cands = self._runnable()
        if cands:
            to = self._choose(cands, task)
            self.recorded.append([task.i, -1, to.i])
            self.running = to
            to.gate.release()
            return
        left = [t for t in self.tasks if not t.done]
        if left:
            self._problem("deadlock: every thread waits for a lock")
            self.running = left[0]
            left[0].gate.release()
            return
        self.done_gate.release()

    def _problem(self, text):
        if self.problem is None:
            self.problem = text
            for t in self.tasks:
                t.waiting = None

    def wait(self, lock):
        """The running task cannot take `lock` now: let others run."""
        task = self.me()
        task.waiting = lock
        cands = self._runnable()
        if not cands:
            self._problem("deadlock: every thread waits for a lock")
            raise _Aborted()
        task.steps += 1
        self.total += 1
        self._switch(task, self._choose(cands, task), None)

    def wake(self, lock):
        for t in self.tasks:
            if t.waiting is lock:
                t.waiting = None

    def me(self):
        return self.running


class Task:
    def __init__(self, sched, i, body):
        self.sched = sched
        self.i = i
        self.body = body
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.steps = 0
        self.stalled = 0
        self.done = False
        self.waiting = None
        self.error = None
        self.active = False
        self.at = None
        self.exc = None
        self.opstep = 0
        self.fired = False

    def main(self):
        self.gate.acquire()
        try:
            if self.sched.problem is None:
                self.body(self)
        except _Aborted:
            pass
        except BaseException as e:      # harness error: reported by run()
            self.error = e
        finally:
            self.active = False
            self.done = True
            self.sched.finished(self)

    def op(self, fn, at=None, exc=None):
        """Perform one operation under the scheduler; interrupt at its step `at`.

        Returns (kind, value): "ok" and the result, or "err" and the exception.
        """
        self.at, self.exc, self.opstep, self.fired = at, exc, 0, False
        self.active = True
        try:
            value = fn()
            kind = "ok"
        except _Aborted:
            raise
        except BaseException as e:
            if not isinstance(e, Exception) and not self.fired:
                raise
            kind, value = "err", e
            value.__traceback__ = None
            value.__context__ = None
        finally:
            self.active = False
        return kind, value


def gen_plan(rng):
    kind = rng.choice(["gap", "gap", "mix", "pct", "hot", "hot", "meet", "meet"])
    plan = {"seed": rng.randrange(1 << 32), "kind": kind,
            "stall": rng.choice([0, 0, 0.1])}
    if kind == "gap":
        plan["mean"] = rng.choice([1, 2, 5, 20, 100, 500])
    elif kind == "pct":
        plan["d"] = rng.choice([1, 2, 3, 5])
    elif kind == "hot":
        plan["share"] = rng.choice([0.03, 0.1, 0.3])
    elif kind == "meet":
        plan["share"] = rng.choice([0.05, 0.15, 0.4])
    return plan


# ------------------------------------------------- what library code may import
class Lock:
    """threading.Lock under the simulator."""

    def __init__(self):
        self._held = False

    def acquire(self, blocking=True, timeout=-1):
        while self._held:
            if not blocking:
                return False
            if _current is None or _current.me() is None:
                raise NoProgress("deadlock: waiting for a lock nobody will release")
            if timeout is not None and timeout >= 0:
                return False        # simulated time jumps to the deadline
            _current.wait(self)
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        if _current is not None:
            _current.wake(self)

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self._lock = Lock()
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._n += 1
            return True
        if not self._lock.acquire(blocking, timeout):
            return False
        self._owner, self._n = me, 1
        return True

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None
            self._lock.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()


def _shim():
    m = types.ModuleType("threading")
    for k, v in vars(_threading).items():
        if not k.startswith("__"):
            setattr(m, k, v)
    m.Lock, m.RLock = Lock, RLock
    return m


SHIM = _shim()
