"""C14: the problem definition does not depend on random numbers."""
import contextlib
import copy
import json
import os
import random
import sys

import numpy as np

from dst import changes, sim, twins, world
from dst.world import Violation, World, close

ID = "C14"
RUNS_QUICK = 560
RULE = ("Each run builds the same problem two or more times in different states of the random "
        "number generators: other seeds, a generator in mid-stream, and adversarial states in "
        "which every draw gives the same special value (0, 1, tiny, huge, negative). Dimensions, "
        "structures and bounds have to be identical, all function values equal to the independent "
        "definition at random points and at points that activate other branches, so that every "
        "entry that is not zero there has to be in the structures. Also for changed problems, the "
        "example simulations and model solvers. Some runs build their problems in processes with "
        "different hash seeds (the order of sets). A run is non-trivial when builds in different "
        "states were compared.")
REAL = ["lumos models, problems, tracks, simulations and model solver", "casadi and jax"]
STUB = ["numpy.random and random (chosen by the simulator)", "gcc for casadi problems"]
ASSUMPTIONS = ["the initial guess of the base class is random by design and not part of the definition"]
MUST_HIT = ("stuck_draws", "other_seed", "special_points", "condensed", "switch", "twin_ltc", "twin_drone",
            "twin_solver", "jax", "casadi", "hash_seeds")
STUCK = (0.0, 1.0, 0.5, -1.0, 1e-12, 1e9, 0.25)


class _Stuck:
    """A generator in a state in which it always draws the same value"""

    def __init__(self, v, counts):
        self._v, self._c = v, counts

    def _full(self, size):
        self._c["draws"] += 1
        return self._v if size is None else np.full(size, self._v)

    def rand(self, *shape):
        return self._full(shape or None)

    randn = rand

    def random(self, size=None):
        return self._full(size)

    random_sample = ranf = sample = standard_normal = standard_exponential = random

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * np.clip(self._full(size), 0, 1)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._full(size)

    def randint(self, low, high=None, size=None, dtype=int, endpoint=False):
        self._c["draws"] += 1
        v = 0 if high is None else low
        return v if size is None else np.full(size, v, dtype=dtype)

    integers = randint

    def permutation(self, n):
        self._c["draws"] += 1
        return np.arange(n) if isinstance(n, (int, np.integer)) else np.array(n)

    def shuffle(self, a):
        self._c["draws"] += 1

    def choice(self, a, size=None, replace=True, p=None):
        self._c["draws"] += 1
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        return a[0] if size is None else np.full(size, a[0])

    def seed(self, *a):
        pass


NAMES = ("rand", "randn", "random", "random_sample", "ranf", "sample", "standard_normal", "uniform", "normal",
         "randint", "permutation", "shuffle", "choice")


@contextlib.contextmanager
def generator(state, ctx):
    """The random number generators in a given state"""
    np_state, py_state = np.random.get_state(), random.getstate()
    saved = {n: getattr(np.random, n) for n in NAMES}
    rng = np.random.default_rng
    counts = {"draws": 0}
    if state[0] == "seed":
        np.random.seed(state[1])
        random.seed(state[1])
        np.random.default_rng = lambda seed=None: rng(state[1] if seed is None else seed)
        for _ in range(state[2]):
            np.random.random()
            random.random()
        ctx.fault("other_seed")
    else:
        stub = _Stuck(state[1], counts)
        for n in NAMES:
            setattr(np.random, n, getattr(stub, n))
        np.random.default_rng = lambda seed=None: stub if seed is None else rng(seed)
        py_random, py_uniform = random.random, random.uniform
        random.random = lambda: min(max(state[1], 0.0), 0.999)
        random.uniform = lambda a, b: a + (b - a) * random.random()
        ctx.fault("stuck_draws")
    try:
        yield
    finally:
        for n, f in saved.items():
            setattr(np.random, n, f)
        np.random.default_rng = rng
        if state[0] != "seed":
            random.random, random.uniform = py_random, py_uniform
        np.random.set_state(np_state)
        random.setstate(py_state)
    ctx.probe("draws", counts["draws"])


def gen_state(r):
    return ["stuck", r.choice(STUCK)] if r.random() < 0.6 else ["seed", r.randrange(1 << 30), r.choice([0, 1, 57])]


def gen(r, index, tier):
    if index % 180 == 17:
        ps = []
        for i in range(10):
            while True:
                p = gen_state_plan(r, 7 + i)  # not one of the twins
                if p["spec"]["backend"] != "jax":
                    break
            ps.append(p)
        for i in (5, 45, 6):
            ps.append(gen_state_plan(r, i, "ltc" if i == 5 else None))
        return {"kind": "processes", "seed": r.randrange(1 << 30), "plans": ps,
                "hash_seeds": [r.randrange(1, 1 << 32), r.randrange(1, 1 << 32)]}
    return gen_state_plan(r, index)


def gen_state_plan(r, index, twin=None):
    states = [gen_state(r) for _ in range(r.choice([2, 2, 3]))]
    kind = "spec"
    if index % 40 == 5:
        kind = twin or (r.choice(["ltc", "drone"]) if index % 80 == 5 else "drone")
    elif index % 40 == 6:
        kind = "solver"
    plan = {"kind": kind, "states": states, "points": [r.choice(["random", "zero", "ones", "big", "low", "high"])
                                                       for _ in range(3)],
            "seed": r.randrange(1 << 30), "ops": []}
    if kind != "spec":
        plan["settings"] = twins.gen_settings(r, kind)
        s = copy.deepcopy(plan["settings"])
        if kind == "solver":  # a problem needs an objective
            plan["ops"].append(["sadd", "states", "p", 1.0])
            s = twins.on_settings(s, plan["ops"][0])
        for _ in range(r.choice([0, 0, 1])):
            op = twins.gen_op(r, s)
            s = twins.on_settings(s, op)
            plan["ops"].append(op)
        return plan
    be = r.choices(["custom", "casadi", "jax"], [0.5, 0.46, 0.04])[0]
    plan["spec"] = world.gen_spec(r, backend=be, kinds=("flat", "nested", "mesh", "switch"), small=True,
                                  condensed=r.random() < 0.7)
    cur = copy.deepcopy(plan["spec"])
    for _ in range(r.choice([0, 0, 1, 2])):
        op = changes.gen_change(r, cur)
        cur = changes.apply_to_spec(cur, op)
        plan["ops"].append(op)
    return plan


def lists(plan):
    if plan["kind"] == "processes":
        return [("plans",)]
    return [("ops",), ("states",), ("points",)]


def point(w, how, seed):
    x = w.point(seed) * w.ref.scale_vec()
    m = x[-1]
    nvs = 8 + len(w.spec["con_outputs"])
    p = np.arange(world.num_stages(w.spec)) * nvs
    if how == "zero":
        x = np.zeros_like(x)
    elif how == "ones":
        x = np.ones_like(x)
    elif how == "big":
        x = 3 * x
    elif how == "low":
        x[p] = 0.1  # the first state decides about the branch
    elif how == "high":
        x[p] = 0.9
    if w.spec["kind"] == "switch":
        x[p] = np.where(np.abs(x[p] - 0.5) < 0.05, 0.7, x[p])
    if w.spec["mesh_scale"] is None:
        x[-1] = m
    return x / w.ref.scale_vec()


def static(p):
    out = {"num_dec": p.num_dec, "num_con": p.num_con}
    for n in ("lb", "ub", "cl", "cu"):
        out[n] = np.array(getattr(p, n), dtype=float)
    for n in ("jacobianstructure", "hessianstructure"):
        out[n] = np.stack([np.ravel(np.asarray(a)).astype(int) for a in getattr(p, n)()])
    return out


def compare_static(a, b):
    for k, v in a.items():
        if np.shape(v) != np.shape(b[k]) or not np.array_equal(v, b[k]):
            raise Violation("differs:" + k, "between two builds of the same problem: %s instead of %s" % (
                np.shape(b[k]), np.shape(v)))


def order(p):
    """The order of everything that has a name"""
    m = p.model if hasattr(p, "model") else None
    out = {}
    if m is not None:
        out = {"names." + g: list(getattr(m.names, g)) for g in m.names._fields}
        out["params"] = list(m.get_recursive_params().to_flat_dict()[0])
        out["config"] = sorted(m.get_recursive_default_model_config().to_flat_dict()[0].items())
    if hasattr(p, "dec_var_operator"):
        out["stage_variables"] = list(p.dec_var_operator.stage_var_names)
    return out


def child(plan, ctx):
    """The definitions of the problems, built in this process"""
    out = []
    with ctx.inline():
        for i, pl in enumerate(plan["plans"]):
            np.random.seed(pl["seed"] % (1 << 32))
            if pl["kind"] == "spec":
                w = World(pl["spec"])
            else:
                root = os.path.join(ctx.root, "twin%d" % i)
                sim.R["mkdir"](root)
                w = twins.Twin(pl["settings"], root)
            for op in pl["ops"]:
                ok = changes.applicable(w.spec, op) if pl["kind"] == "spec" else twins.applicable(w.settings, op)
                if ok:
                    w.apply(op)
            d = {k: np.asarray(v).tolist() for k, v in static(w.problem).items()}
            d.update(order(w.problem))
            if pl["kind"] == "spec":
                x = w.point(pl["seed"])
            else:
                x = twins.point(w, pl["seed"])
            lag = np.random.RandomState(5).randn(w.problem.num_con)
            for fn in ("objective", "gradient", "constraints", "jacobian"):
                d[fn] = np.asarray(getattr(w.problem, fn)(x.copy()), dtype=float).tolist()
            if pl["kind"] == "spec":
                d["hessian"] = np.asarray(w.problem.hessian(x.copy(), lag, 0.7), dtype=float).tolist()
            out.append(d)
    return out


def run_processes(plan, ctx):
    path = os.path.join(ctx.root, "plan.json")
    with open(path, "w") as f:
        json.dump(plan, f)
    main = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "main.py")
    jobs = []
    for k, h in enumerate(plan["hash_seeds"]):
        root = os.path.join(ctx.root, "p%d" % k)
        os.mkdir(root)
        res = os.path.join(ctx.root, "r%d.json" % k)
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        jobs.append((res, sim.R["Popen"]([sys.executable, main, "child", ID, path, root, res], env=env)))
        ctx.fault("hash_seed")
    outs = []
    for res, p in jobs:
        if p.wait() != 0:
            raise RuntimeError("process ended with %r" % p.returncode)
        with open(res) as f:
            outs.append(json.load(f))
    a, b = outs
    for o in outs:
        if isinstance(o, dict):
            if o["where"] is None:
                raise RuntimeError(o["detail"])
            raise Violation("exception:" + o["error"], "%s in a process of its own\n%s" % (o["where"], o["detail"]))
    for i, (x, y) in enumerate(zip(a, b)):
        for k, v in x.items():
            if k in ("objective", "gradient", "constraints", "jacobian", "hessian"):
                close(k, np.array(v), np.array(y[k]), 1e-9)
            elif v != y[k]:
                raise Violation("differs:" + k, "between two processes: %s instead of %s" % (
                    str(y[k])[:150], str(v)[:150]))
            ctx.evals += 1
        ctx.ev("compared", i, len(x))
        ctx.probe("hash_seeds")
    ctx.nontrivial = True


def run(plan, ctx):
    if plan["kind"] == "processes":
        return run_processes(plan, ctx)
    with ctx.inline():
        if plan["kind"] != "spec":
            return run_twins(plan, ctx)
        spec = plan["spec"]
        ctx.probe(spec["backend"])
        ctx.probe("condensed", int(spec["condensed"]))
        ctx.probe("switch", int(spec["kind"] == "switch"))
        worlds = []
        for st in plan["states"]:
            with generator(st, ctx):
                w = World(spec)
                for op in plan["ops"]:
                    if changes.applicable(w.spec, op):
                        w.apply(op)
                worlds.append(w)
            ctx.ev("built", st)
        stats = [static(w.problem) for w in worlds]
        for s in stats[1:]:
            compare_static(stats[0], s)
            ctx.nontrivial = True
        for k, how in enumerate(plan["points"]):
            x = point(worlds[0], how, plan["seed"] + k)
            ctx.probe("special_points", int(how != "random"))
            for j, w in enumerate(worlds):
                # the state must not matter for the evaluations either
                with generator(plan["states"][-1 - j], ctx):
                    for fn in ("objective", "gradient", "constraints", "jacobian", "hessian"):
                        w.check_function(fn, x.copy(), plan["seed"] + k)
                        ctx.evals += 1
        for w in worlds:
            w.check_static()
        for s, w in zip(stats, worlds):
            compare_static(s, static(w.problem))
        ctx.value("structure", stats[0]["jacobianstructure"])


def run_twins(plan, ctx):
    ts = []
    for st in plan["states"][:2]:
        with generator(st, ctx):
            t = twins.Twin(plan["settings"], ctx.root)
            for op in plan["ops"]:
                if twins.applicable(t.settings, op):
                    t.apply(op)
            ts.append(t)
        ctx.ev("built", plan["kind"], st)
    stats = [static(t.problem) for t in ts]
    if len(ts) > 1:
        compare_static(*stats)
        ctx.nontrivial = True
        twins.compare(ts[0], ts[1], plan["seed"], ctx)
