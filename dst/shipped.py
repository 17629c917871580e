"""Histories of the models that come with the library.

The values are compared with those of the same model in a process without any history, built
from the same configuration and parameters (forked before the run does anything)."""
import os
import pickle

import numpy as np

from dst import lines, sim
from dst.world import Violation

LINE_FILES = ("lumos/models/base.py", "lumos/models/composition.py", "lumos/models/tree_utils.py",
              "lumos/models/simple_vehicle_on_track.py", "lumos/models/kinematics.py",
              "lumos/models/vehicles/simple_vehicle.py", "lumos/models/tires/pacejka.py",
              "lumos/models/tires/perantoni.py", "lumos/models/aero/aero.py", "lumos/models/ml.py",
              "lumos/numpy/utils.py")
TIRES = ("MF52", "PerantoniTire")
AEROS = ("ConstAero", "GPAero", "MLPAero")
POSITIONS = ("tire_fl", "tire_fr", "tire_rl", "tire_rr")
LEAVES = ("DroneModel", "TrackPosition2D", "SimpleVehicle", "MF52", "PerantoniTire", "ConstAero",
          "GPAero", "MLPAero")
RANGES = {"vx": (20, 60), "vy": (-1, 1), "yaw_rate": (-0.5, 0.5), "Fz": (1500, 7000),
          "kappa": (-0.05, 0.05), "alpha": (-0.06, 0.06), "gamma": (-0.02, 0.02), "f": (1, 20),
          "track_curvature": (-0.02, 0.02), "track_heading": (-3, 3), "eta": (-0.3, 0.3),
          "n": (-4, 4), "throttle": (0, 1), "brake": (0, 1), "ax": (-9, 9), "ay": (-9, 9),
          "front_ride_height": (-1, 1), "rear_ride_height": (-1, 1), "yaw": (-1, 1)}


# ------------------------------------------------------------------------- generation
def gen_model(r):
    name = r.choice(("SimpleVehicleOnTrack",) * 3 + ("SimpleVehicle",) * 2 + LEAVES)
    parts = {}
    if name.startswith("SimpleVehicle"):
        for p in POSITIONS:
            if r.random() < 0.3:
                parts[p] = "PerantoniTire"
        if r.random() < 0.3:
            parts["aero"] = r.choice(AEROS)
    return {"name": name, "parts": parts}


def paths(m):
    if m["name"] == "SimpleVehicle":
        return ("",) + POSITIONS + ("aero",)
    if m["name"] == "SimpleVehicleOnTrack":
        return ("", "vehicle", "kinematics") + tuple("vehicle." + p for p in POSITIONS + ("aero",))
    return ("",)


def gen_eval(r, i, m, seeds):
    return ["eval", i, r.choice(paths(m) + ("", "")), r.choice(["forward"] * 4 + ["arrays"] * 2 + ["apply", "casadi"]),
            r.choice(seeds) if r.random() < 0.5 else r.randrange(1 << 30), r.random() < 0.4]


def gen(r, fails=0.2):
    ms = [gen_model(r) for _ in range(r.choice([1, 1, 2]))]
    ops = []
    seeds = [r.randrange(1 << 30) for _ in range(2)]  # users come back to the same inputs
    for _ in range(r.randint(4, 10)):
        i = r.randrange(len(ms))
        u = r.random()
        if u < fails:
            ops.append(["fail"] + gen_eval(r, i, ms[i], seeds)[1:] + [r.randint(1, 60), r.random() < 0.2])
        elif u < fails + 0.2:
            ops.append(["set", i, r.randrange(1 << 30), r.random() < 0.5])
        elif u < fails + 0.3:
            ops.append(["edit", r.randrange(64), r.randrange(1 << 30)])
        else:
            ops.append(gen_eval(r, i, ms[i], seeds))
    for i, m in enumerate(ms):
        ops.append(["eval", i, "", "forward", r.choice(seeds), r.random() < 0.5])
        ops.append(["eval", i, r.choice(paths(m)), "forward", r.choice(seeds), False])
    return {"kind": "shipped", "models": ms, "ops": ops, "seed": r.randrange(1 << 30)}


# ------------------------------------------------------------------------------ models
def build(m):
    from lumos.models.composition import ModelMaker
    from lumos.models.drone_model import DroneModel
    if m["name"] == "DroneModel":
        return DroneModel()
    c = ModelMaker.make_config(m["name"])
    pre = "vehicle." if m["name"] == "SimpleVehicleOnTrack" else ""
    for pos, sub in m["parts"].items():
        c.replace_subtree(pre + pos, ModelMaker.make_config(sub))
    return ModelMaker.make_model_from_config(c)


def flat(tree):
    return {k: np.array(v, dtype=float) for k, v in tree.to_flat_dict()[0].items()}


def set_flat(model, P):
    t = model.get_recursive_params()
    for k, v in P.items():
        t.set_param(k, float(v) if v.ndim == 0 else v.copy())
    model.set_recursive_params(t)
    return t


def first_params(model, seed):
    """The default ones; where these are random, with random numbers of our own"""
    r = np.random.RandomState(seed % (2 ** 32))
    P = flat(model.get_recursive_params())
    for k in sorted(P):
        if P[k].ndim:
            P[k] = 0.3 * r.standard_normal(P[k].shape)
    return P


def changed_params(P, seed, n):
    r = np.random.RandomState(seed % (2 ** 32))
    P = {k: v.copy() for k, v in P.items()}
    parts = {}  # a component first: a vehicle has few parameters, its tires have many
    for k in sorted(P):
        parts.setdefault(k.rpartition(".")[0], []).append(k)
    for _ in range(n if P else 0):
        names = parts[sorted(parts)[r.randint(len(parts))]]
        k = names[r.randint(len(names))]
        P[k] = P[k] * r.uniform(0.9, 1.1)
    names = [k for k in sorted(P) if "tire_" not in k and not P[k].ndim and abs(P[k]) < 50]
    if names and r.rand() < 0.4:  # something unusual
        P[names[r.randint(len(names))]] *= 10
    for pre in ("", "vehicle."):  # these matter at every point
        for k in ("vehicle_mass", "tire_fl.LMUX", "tire_rr.LMUY", "tire_fr.mux1", "aero.Cx", "aero.Cz", "gravity"):
            if pre + k in P and r.rand() < 0.5:
                P[pre + k] = P[pre + k] * r.uniform(0.9, 1.1)
    return P


def inputs_for(model, seed):
    r = np.random.RandomState(seed % (2 ** 32))
    ss = hasattr(model.names, "states")
    args = []
    vx = 30.0 + 10 * r.rand()
    for g in ("states", "inputs") if ss else ("inputs",):
        d = {}
        for n in model.get_group_names(g):
            lo, hi = RANGES.get(n, (-1, 1))
            d[n] = vx / 0.33 * r.uniform(0.98, 1.02) if n.startswith("wheel_speed") else vx if n == "vx" else r.uniform(lo, hi)
        args.append(d)
    if ss:
        args.append(float(r.uniform(0, 100)))
    return args


def result_dict(ret):
    """Values of a return, by group and name"""
    out = {}
    for g in ret._fields:
        for k, v in dict(getattr(ret, g)).items():
            out[g + ":" + k] = float(np.asarray(v).ravel()[0])
    return out


def array_dict(model, ret):
    out = {}
    for g in ret._fields:
        a = np.ravel(np.asarray(getattr(ret, g), dtype=float))
        names = model.get_group_names(g)
        if len(a) != len(names):
            raise Violation("result_size", "%s: %d values for %d names" % (g, len(a), len(names)))
        out.update({g + ":" + n: x for n, x in zip(names, a)})
    return out


def evaluate(model, api, args, P=None, tree=None):
    """Returns (values, the objects returned)"""
    import lumos.numpy as lnp
    if api == "forward":
        ret = model.forward(*args)
        return result_dict(ret), ret
    arrs = [np.array(list(a.values())) if isinstance(a, dict) else a for a in args]
    if api == "arrays":
        ret = model.forward_with_arrays(*arrs)
        return array_dict(model, ret), ret
    if api == "apply":
        ret = model.apply_and_forward_with_arrays(*arrs, tree)
        return array_dict(model, ret), ret
    import casadi as cas
    syms = [cas.SX.sym("a%d" % i, np.size(a)) for i, a in enumerate(arrs)]
    with lnp.use_backend("casadi"):
        ret = model.forward_with_arrays(*syms)
    groups = [g for g in ret._fields if model.get_group_names(g)]
    f = cas.Function("f", syms, [cas.SX(getattr(ret, g)) for g in groups])
    vals = f(*arrs)
    vals = vals if isinstance(vals, tuple) else (vals,)
    return {g + ":" + n: x for g, v in zip(groups, vals)
            for n, x in zip(model.get_group_names(g), np.ravel(np.asarray(v)))}, None


def compare(tag, got, want):
    """got: a subset of the groups of want (without arrays: also names of other groups)"""
    for k, v in want.items():
        if k not in got:
            raise Violation("values:" + tag, "%s is missing" % k)
        if not np.isclose(got[k], v, rtol=1e-7, atol=1e-8 * (1 + abs(v)), equal_nan=True):
            raise Violation("values:" + tag, "%s is %r instead of %r" % (k, got[k], v))


# --------------------------------------------------------------------------- reference
class Pristine:
    """Evaluates in processes in which nothing has happened yet"""

    def __init__(self):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(a[1]), os.close(b[0])
                self.serve(os.fdopen(a[0], "rb"), b[1])
                code = 0
            finally:
                os._exit(code)
        os.close(a[0]), os.close(b[1])
        self.w, self.r = os.fdopen(a[1], "wb"), os.fdopen(b[0], "rb")

    @staticmethod
    def serve(r, w):
        while True:
            try:
                req = pickle.load(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    m, path, P, seed = req
                    model = build(m)
                    set_flat(model, P)
                    if path:
                        model = model.get_submodel(path)
                    out, _ = evaluate(model, "forward", inputs_for(model, seed))
                    data = pickle.dumps(out)
                except BaseException as e:
                    data = pickle.dumps("%s: %s" % (type(e).__name__, e))
                while data:
                    data = data[os.write(w, data):]
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, m, path, P, seed):
        pickle.dump((m, path, P, seed), self.w)
        self.w.flush()
        out = pickle.load(self.r)
        if isinstance(out, str):
            raise RuntimeError("reference of a shipped model: " + out)
        return out

    def close(self):
        self.w.close()
        self.r.close()
        os.waitpid(self.pid, 0)


def run(plan, ctx):
    ref = Pristine()
    try:
        with ctx.inline():
            History(plan, ctx, ref).run()
    finally:
        ref.close()


class History:
    def __init__(self, plan, ctx, ref):
        self.plan, self.ctx, self.ref = plan, ctx, ref
        self.models, self.want = [], []
        self.held = []  # trees and their content
        self.kept = []  # results and their content
        self.args = {}
        for m in plan["models"]:
            model = build(m)
            P = first_params(model, plan["seed"])
            set_flat(model, P)
            self.models.append(model)
            self.want.append(P)

    def run(self):
        import lumos.numpy as lnp
        before = lnp.get_backend()
        for op in self.plan["ops"]:
            if op[0] != "edit" and op[1] >= len(self.models):
                continue
            self.ctx.ev(*op)
            getattr(self, op[0])(*op[1:])
            if lnp.get_backend() != before:
                raise Violation("backend", "%s instead of %s" % (lnp.get_backend(), before))
            self.check_params()
        for ret, vals, how in self.kept:
            if how(ret) != vals:
                raise Violation("result_changed", "an earlier result changed later")
        self.ctx.probe("shipped")

    def check_params(self):
        for m, model, P in zip(self.plan["models"], self.models, self.want):
            for path in paths(m):
                sub = model.get_submodel(path) if path else model
                pre = path + "." if path else ""
                want = {k[len(pre):]: v for k, v in P.items() if k.startswith(pre)}
                have = flat(sub.get_recursive_params())
                if set(have) != set(want):
                    raise Violation("params", "%s %s: names %s" % (m["name"], path, sorted(set(have) ^ set(want))[:5]))
                for k, v in want.items():
                    if not np.array_equal(have[k], v):
                        raise Violation("params", "%s %s: %s is %s instead of %s" % (m["name"], path, k, have[k], v))
        for t, P in self.held:
            have = flat(t)
            if set(have) != set(P) or any(not np.array_equal(have[k], v) for k, v in P.items()):
                raise Violation("held_tree", "a tree of the user changed")
        self.ctx.evals += 1

    def inputs(self, i, path, sub, seed):
        """The same objects for the same inputs"""
        if (i, path, seed) not in self.args:
            self.args[i, path, seed] = inputs_for(sub, seed)
        return self.args[i, path, seed]

    def eval(self, i, path, api, seed, scribble):
        m, model, P = self.plan["models"][i], self.models[i], self.want[i]
        tree = None
        if api == "apply" and (path or not hasattr(model.names, "states")):
            api = "arrays"  # models without states keep the parameters of apply, by design
        if api == "apply":
            P = changed_params(P, seed + 1, 2)
            tree = model.get_recursive_params()
            for k, v in P.items():
                tree.set_param(k, float(v) if v.ndim == 0 else v.copy())
            self.held.append((tree, P))
        sub = model.get_submodel(path) if path else model
        args = self.inputs(i, path, sub, seed)
        given = [dict(a) if isinstance(a, dict) else a for a in args]
        got, ret = evaluate(sub, api, args, tree=tree)
        if args != given:
            raise Violation("argument_modified", "the evaluation modified its arguments")
        want = self.ref(m, path, P, seed)
        if api != "forward":
            want = {k: v for k, v in want.items() if k in got or k.split(":")[0] in ("states_dot", "outputs")}
        compare(api, got, want)
        self.ctx.evals += 1
        self.ctx.value("values", [got[k] for k in sorted(want)])
        if ret is None:
            return
        if scribble:
            self.ctx.fault("result_scribbled")
            for g in ret._fields:
                o = getattr(ret, g)
                if isinstance(o, dict):
                    for k in o:
                        o[k] = 1e6
                elif isinstance(o, np.ndarray) and o.flags.writeable:
                    o[...] = 1e6
            del self.args[i, path, seed]
            for a in args:
                if isinstance(a, dict):
                    for k in a:
                        a[k] = -1e6
        elif api == "forward":
            self.kept.append((ret, got, result_dict))
        else:
            self.kept.append((ret, got, lambda r, sub=sub: array_dict(sub, r)))

    def fail(self, i, path, api, seed, scribble, nth, missing):
        m, model = self.plan["models"][i], self.models[i]
        if api == "apply" and (path or not hasattr(model.names, "states")):
            api = "arrays"
        tree = None
        if api == "apply":
            tree = model.get_recursive_params()
            for k, v in changed_params(self.want[i], seed + 1, 2).items():
                tree.set_param(k, float(v) if v.ndim == 0 else v.copy())
        sub = model.get_submodel(path) if path else model
        args = self.inputs(i, path, sub, seed)
        if missing:
            args = inputs_for(sub, seed)
            names = sorted(args[-2 if len(args) == 3 else 0])
            del args[-2 if len(args) == 3 else 0][names[seed % len(names)]]
            api = "forward"
        li = lines.LineInterrupt(nth, LINE_FILES)
        try:
            if missing:
                evaluate(sub, api, args, tree=tree)
            else:
                with li:
                    evaluate(sub, api, args, tree=tree)
        except KeyError:
            if not missing:
                raise
        except sim.InjectedInterrupt:
            self.ctx.fault("shipped_interrupt")
        else:
            if li.fired:
                raise Violation("error_lost", "interrupt in %s" % li.fired)
            return  # ended before the interrupt, or the input isn't used
        if missing:
            self.ctx.fault("shipped_missing_input")
        self.ctx.ev("failed", li.fired)
        self.ctx.nontrivial = True
        # directly, without anything that could tidy up
        self.eval(i, path if seed % 2 else "", "forward", seed if seed % 3 else seed + 7, False)

    def set(self, i, seed, hold):
        self.want[i] = P = changed_params(self.want[i], seed, 4)
        t = set_flat(self.models[i], P)
        if hold:
            self.held.append((t, {k: v.copy() for k, v in P.items()}))
        self.ctx.nontrivial = True

    def edit(self, n, seed):
        """The user changes a tree that was given to or obtained from a model before"""
        i = n % len(self.models)
        self.held.append((self.models[i].get_recursive_params(), {k: v.copy() for k, v in self.want[i].items()}))
        t, P = self.held[n % len(self.held)]
        r = np.random.RandomState(seed % (2 ** 32))
        names = sorted(P)
        if not names:
            return
        k = names[r.randint(len(names))]
        if P[k].ndim:
            t.get_param(k)[...] = 3.0
            P[k] = 3.0 * np.ones_like(P[k])
        else:
            t.set_param(k, 3.0)
            P[k] = np.array(3.0)
        self.ctx.fault("shipped_tree_edited")
