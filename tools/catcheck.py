"""Development aid: compare catalog.canon with the library, one fresh CSS per value."""
import os, sys, random
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.world import World
from sim import catalog as C, values as V
w = World()
bad = 0
def cur(css): return {n: V.show(w, getattr(css, n)) for n in C.NAMES}
base = cur(w.CSS())
for n in C.NAMES:
    i = C.PROPS[n].initial
    if isinstance(i, tuple): continue
    if base[n] != i: print("INIT", n, base[n], i); bad += 1
for n in C.NAMES:
    for spec in C.pool(n, True):
        css = w.CSS()
        try: setattr(css, n, V.make(w, spec)); got = V.show(w, getattr(css, n))
        except Exception as e: got = repr(e)
        exp = C.PROPS[n].canon(spec)
        if got != exp: print(n, spec, got, exp); bad += 1
rng = random.Random(5)
for n in C.SETTABLE:
    for _ in range(200):
        spec = C.pick_spec(rng, n); css = w.CSS()
        exp = dict(base); 
        for k, v in C.expand(n, spec).items():
            if v != C.DELETED: exp[k] = v
        try: setattr(css, n, V.make(w, spec)); got = cur(css)
        except Exception as e: got = repr(e)
        if n == "direction" or n == "color":
            continue
        if got != exp: print(n, spec, got if isinstance(got, str) else {k: (got[k], exp[k]) for k in exp if got[k] != exp[k]}); bad += 1
    for _ in range(200):
        spec = C.pick_reject(rng, n); css = w.CSS()
        try: setattr(css, n, V.make(w, spec)); print("ACCEPTED", n, spec, V.show(w, getattr(css, n))); bad += 1
        except Exception as e:
            if not isinstance(e, ValueError): print(n, spec, repr(e)[:100])
print("bad", bad, len(C.SETTABLE))
import inspect
pub = [k for k, v in vars(w.CSS).items() if isinstance(v, property)]
print(set(pub) ^ set(C.SETTABLE))
