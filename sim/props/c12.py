"""C12: the same program gives the same results in every process."""

import gc
import json
import os
import random
import subprocess
import sys

from .. import catalog as C
from .. import host as H
from .. import values as V
from ..doc import DocGen, DocModel, RealDocs
from ..model import apply_real, gen_style_op
from ..result import Result
from ..world import SRC, World

LISTS = ["ops", "prelude", "configs"]
RULE = ("one run = one seeded program of style, tree and layout operations executed in "
        "differently configured interpreter processes (string-hash seed, -O/-OO, eager "
        "or no garbage collection, unrelated work done first in the process); the logs "
        "of reads, listings, geometry and error types must be equal; non-trivial = the "
        "program made at least five observations in at least two configurations")


def gen(rng, tier, configs=None):
    if configs is None:
        configs = gen_configs(rng)
    g = DocGen(rng, max_nodes=rng.choice([1, 2, 4, 7]), classes=None,
               hide=rng.choice([0, 0.1]), fail=rng.choice([0, 0.1, 0.2]), other=0.4)
    g.m = _Model()
    g.display()
    roots = [g.tree() for _ in range(rng.choice([1, 1, 2]))]
    start = 0
    if rng.random() < 0.4:
        g.emit(["free", "s0"])
    names = C.SETTABLE
    if rng.random() < 0.2:
        # many values, looked at one by one
        kind = rng.choice(list(C.KINDS) + ["color", "color", "length"])
        names = [n for n in C.NAMES if C.PROPS[n].kind == kind]
        if rng.random() < 0.3:
            names = rng.sample(C.SETTABLE, 3)
        g.emit(["free", "s0"])
        for _ in range(rng.choice([10, 20, 40])):
            g.emit(["fset", "s0", gen_style_op(rng, names, p_rej=0.1, p_del=0.03, p_upd=0)])
    elif rng.random() < 0.5:
        # the values of one kind only
        kind = rng.choice(list(C.KINDS) + ["color"])
        names = [n for n in C.NAMES if C.PROPS[n].kind == kind]
    for _ in range(rng.choice([3, 8, 15])):
        r = rng.random()
        ids = list(g.m.nodes)
        if r < 0.3:
            g.emit(["style", rng.choice(ids), gen_style_op(rng, names, p_rej=0.3)])
        elif r < 0.45:
            g.emit(["fstyle", "s0", gen_style_op(rng, names, p_rej=0.2)])
        elif r < 0.7:
            g.edit(roots)
        elif r < 0.85:
            g.emit(g.layout_op(roots))
        else:
            g.emit(["tcopy", rng.choice(ids)])
    if rng.random() < 0.2:
        # the same again and again
        own = [op for op in g.ops if op[0] in ("style", "fstyle")]
        for op in rng.sample(own, min(2, len(own))):
            for _ in range(rng.choice([2, 4])):
                g.emit(op)
    g.emit(g.layout_op(roots))
    ops = g.ops[start:]
    # unrelated earlier use of the library in the same process
    p = DocGen(rng, max_nodes=rng.choice([1, 3, 6]), classes=None, hide=0.1, fail=0.1,
               other=0.5, prefix="x")
    p.m = _Model()
    p.display()
    proots = [p.tree()]
    for _ in range(rng.choice([0, 3, 10])):
        p.edit(proots)
        if rng.random() < 0.5:
            p.emit(p.layout_op(proots))
    # values easily confused with those the program uses
    own = [op[2] for op in ops if op[0] in ("style", "fstyle")]
    x = list(p.m.nodes)[0]
    again = rng.choice([0, 0, 0.3])
    for sop in own:
        if rng.random() < again:
            # or exactly what the program does, a few times
            for _ in range(rng.choice([1, 2, 4])):
                p.emit(["style", x, sop])
        elif rng.random() < 0.6:
            p.emit(["style", x, C.near_op(rng, sop)])
    if rng.random() < 0.5:
        p.emit(p.layout_op(proots))
    return {"ops": ops, "prelude": p.ops, "configs": configs}


def gen_configs(rng):
    out = [{"hash": 0, "opt": 0, "prelude": False, "gc": "off"}]
    for _ in range(2):
        out.append({"hash": rng.randrange(1, 1 << 31), "opt": rng.choice([0, 1, 2]),
                    "prelude": rng.random() < 0.6, "gc": rng.choice(["off", "often"])})
    out[1]["prelude"] = True
    return out


BATCH = 25


def gen_batch(seeds, tier):
    """The scenarios of one batch run in the same processes."""
    configs = gen_configs(random.Random("configs" + seeds[0]))
    return [gen(random.Random(s), tier, configs) for s in seeds]


class _Model(DocModel):
    def __init__(self):
        super().__init__()
        self.free = set()

    def apply(self, op):
        if op[0] == "free":
            self.free.add(op[1])
            return True
        if op[0] in ("fstyle", "fset"):
            return op[1] in self.free
        if op[0] == "tcopy":
            return op[1] in self.nodes
        return super().apply(op)


def observe_decl(world, css):
    return {
        "reads": {n: V.read(world, css, n) for n in C.SETTABLE if n != "border"},
        "keys": V.listing(css),
        "items": sorted([k, str(V.show(world, v))] for k, v in css.items()),
        "text": sorted(str(css).split("; ")),
    }


def observe(sc, prelude):
    """The program's observations in this process."""
    world = World()
    if prelude:
        m, d = _Model(), RealDocs(world)
        for op in sc["prelude"]:
            if m.apply(op):
                try:
                    d.apply(op)
                except Exception:
                    pass
    model, docs = _Model(), RealDocs(world)
    free = {}
    log = []
    for i, op in enumerate(sc["ops"]):
        if not model.apply(op):
            continue
        k = op[0]
        try:
            if k == "free":
                free[op[1]] = world.CSS()
                out = "ok"
            elif k == "fstyle":
                apply_real(world, free[op[1]], op[2])
                out = "ok"
            elif k == "fset":
                apply_real(world, free[op[1]], op[2])
                out = [V.read(world, free[op[1]], n) for n in C.addressed(op[2][1])]
            elif k == "tcopy":
                dup = docs.nodes[op[1]].style.copy()
                out = observe_decl(world, dup)
            elif k == "layout":
                docs.apply(op)
                ids = model.subtree(op[1])
                out = {"geom": docs.geom(ids), "marks": docs.marks(ids),
                       "repr": [repr(docs.nodes[x].layout) for x in ids]}
            else:
                docs.apply(op)
                out = "ok"
        except Exception as e:
            out = ["err", type(e).__name__]
        obs = [i, k, out]
        if k == "style":
            obs.append(observe_decl(world, docs.nodes[op[1]].style))
        elif k == "fstyle":
            obs.append(observe_decl(world, free[op[1]]))
        log.append(obs)
    return log


def _spawn(config, scenarios):
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"),
           "PYTHONHASHSEED": str(config["hash"]), "VERIF_REPO_SRC": SRC,
           "PYTHONDONTWRITEBYTECODE": "1"}
    cmd = [sys.executable] + (["-" + "O" * config["opt"]] if config["opt"] else [])
    cmd += ["-m", "sim.props.c12", json.dumps(config)]
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    return subprocess.Popen(cmd, cwd=here, env=env, stdin=subprocess.PIPE,
                            stdout=subprocess.PIPE), json.dumps(scenarios).encode()


def run_many(scs):
    """Scenarios of one batch share their configurations."""
    results = [Result() for _ in scs]
    groups = {}
    for i, sc in enumerate(scs):
        groups.setdefault(json.dumps(sc["configs"]), []).append(i)
    for key, idx in groups.items():
        configs = json.loads(key)
        logs = []
        for c in configs:
            p, data = _spawn(c, [{"ops": scs[i]["ops"], "prelude": scs[i]["prelude"]}
                                 for i in idx])
            try:
                out, _ = p.communicate(data, timeout=200)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise RuntimeError(f"child for {c} did not finish")
            if p.returncode != 0:
                raise RuntimeError(f"child for {c} exited with {p.returncode}")
            logs.append(json.loads(out))
        for j, i in enumerate(idx):
            _judge(results[i], configs, [log[j] for log in logs])
    return results


def _judge(res, configs, logs):
    for c in configs[1:]:
        res.hit("fault:other_hash_seed")
        if c["opt"]:
            res.hit("fault:optimised")
        if c["prelude"]:
            res.hit("fault:unrelated_prelude")
        if c["gc"] == "often":
            res.hit("fault:eager_gc")
    if not logs:
        return
    res.log = logs[0]
    res.steps = sum(len(x) for x in logs)
    res.nontrivial = len(logs) > 1 and len(logs[0]) >= 5
    for c, log in zip(configs[1:], logs[1:]):
        for a, b in zip(log, logs[0]):
            if a != b:
                res.fail("process-dependent", f"op {b[0]} ({b[1]}): {_d(a, b)} "
                         f"[{c} against {configs[0]}]")
                return
        if len(log) != len(logs[0]):
            res.fail("process-dependent", f"{len(log)} observations, not {len(logs[0])}")
            return


def _d(a, b):
    while True:
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            n = next((k for k in range(len(a)) if a[k] != b[k]), None)
        elif isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
            n = next((k for k in a if a[k] != b[k]), None)
        else:
            break
        a, b = a[n], b[n]
    return f"{str(a)[:200]} instead of {str(b)[:200]}"


def run(sc):
    return run_many([sc])[0]


def child(config):
    if config["gc"] == "often":
        gc.set_threshold(50, 2, 2)
    else:
        gc.disable()
    logs = []
    for i, sc in enumerate(json.load(sys.stdin)):
        logs.append(observe(sc, config["prelude"]))
        if config["gc"] == "off" and i % 20 == 0:
            gc.collect()
    json.dump(logs, sys.stdout)


if __name__ == "__main__":
    child(json.loads(sys.argv[1]))
