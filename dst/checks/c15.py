"""C15: configurations and instances are isolated from each other."""
import copy
import dataclasses
import importlib
import os

import numpy as np

from dst import changes, models, solves, twins, world
from dst.world import Violation, World, close

ID = "C15"
RUNS_QUICK = 900
RULE = ("Each run builds several problems from the same configuration objects (with bounds, scales, "
        "boundary conditions, intervals, parameters, lists of names, transcription and logging "
        "settings in mutable containers) at random points of an interleaving of changes, evaluations, "
        "complete and aborted solves of the problems, and of edits by the user of the objects passed "
        "in. After every step the objects have to be what the user made them, and every problem has to "
        "be what its own settings say. Other runs edit default configurations, parameters and "
        "model configurations obtained from the library in any order, after which new ones have to be "
        "unaffected; and build the example simulations from shared objects. A run is non-trivial when "
        "two users of the same objects were compared.")
REAL = ["lumos configurations, models, problems and example simulations", "casadi and jax"]
STUB = ["IPOPT (scripted solver)", "gcc for casadi problems", "clock and file system faults"]
ASSUMPTIONS = ["objects the user puts into two configurations himself are shared by him, not by the library"]
MUST_HIT = ("shared_config", "user_edit", "shared_model", "aborted", "defaults", "configs", "twin_drone",
            "twin_ltc", "changed", "solved", "edited_change")
INJECTED = (solves.sim.InjectedError, solves.sim.InjectedInterrupt)

MODELS = (
    ("lumos.models.simple_vehicle_on_track", "SimpleVehicleOnTrack"), ("lumos.models.drone_model", "DroneModel"),
    ("lumos.models.tires.perantoni", "PerantoniTire"), ("lumos.models.tires.pacejka", "MF52"),
    ("lumos.models.aero.aero", "ConstAero"), ("lumos.models.aero.aero", "GPAero"),
    ("lumos.models.vehicles.simple_vehicle", "SimpleVehicle"),
    ("lumos.models.kinematics", "TrackPosition2D"),
    ("dst.models", "DstNested"), ("dst.models", "DstFlat"), ("dst.models", "DstBody"),
)


def model_classes():
    out = []
    for mod, name in MODELS:
        try:
            out.append(getattr(importlib.import_module(mod), name))
        except (ImportError, AttributeError):
            pass
    return out


# ----------------------------------------------------------------------- deep snapshots
def snap(o):
    """A value that is equal exactly if the objects are equal in content"""
    if dataclasses.is_dataclass(o):
        return (type(o).__name__,) + tuple((f.name, snap(getattr(o, f.name))) for f in dataclasses.fields(o))
    if isinstance(o, np.ndarray):
        return ("array", str(o.dtype), o.shape, tuple(np.ravel(o).tolist()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(snap(x) for x in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((k, snap(v)) for k, v in o.items())
    if hasattr(o, "to_dict"):
        return (type(o).__name__, snap(o.to_dict()))
    if isinstance(o, float) and o != o:
        return "nan"
    return o


def diff(a, b, path=""):
    """Where two snapshots differ"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, path + "/" + (str(x[0]) if isinstance(x, tuple) and x else str(i)))
    return "%s: %.120r instead of %.120r" % (path, b, a)


def unchanged(what, before, obj):
    after = snap(obj)
    if before != after:
        raise Violation("modified:" + what, diff(before, after))


# --------------------------------------------------------------------------- generation
def gen(r, index, tier):
    m = index % 20
    kind = "spec"
    if m in (3, 13):
        kind = "models"
    elif m in (5, 11, 17):
        kind = "configs"
    elif index % 40 == 7 or index % 160 == 27:
        kind = "drone" if index % 40 == 7 else "ltc"
    if index % 150 == 39:
        K = list(models.KINDS["nested"]["con_outputs"])
        a = r.sample(K, r.randint(0, 2))
        b = r.choice([x for x in (K[:1], K[:2], K[1:2], [], K[:3]) if len(x) != len(a)])
        spec = world.gen_spec(r, backend=r.choice(["custom", "casadi"]), kinds=("nested",), small=True)
        for g in ("scales", "bounds0", "bcs0"):
            spec[g] = [x for x in spec[g] if x[0] != "con_outputs"]
        return {"kind": "onemodel", "spec": spec, "con": [a, b], "seed": r.randrange(1 << 30)}
    if kind == "models":
        return {"kind": kind, "ops": [[r.choice(["params", "params", "config", "instance", "submodel"]),
                                       r.randrange(len(MODELS)), r.randrange(1 << 20)]
                                      for _ in range(r.randint(2, 6))]}
    if kind == "configs":
        ops = []
        for _ in range(r.randint(2, 8)):
            k = r.choice(["new", "new", "edit", "edit", "default", "round"])
            ops.append([k, r.choice(["sim", "ltc", "drone", "logging"]), r.randrange(8), r.randrange(1 << 20)])
        return {"kind": kind, "ops": ops, "track": r.randrange(1 << 20)}
    if kind in ("ltc", "drone"):
        s = twins.gen_settings(r, kind)
        ops, cur = [], s
        for _ in range(r.randint(1, 3)):
            op = twins.gen_op(r, cur)
            cur = twins.on_settings(cur, op)
            ops.append(op)
        return {"kind": kind, "settings": s, "ops": ops, "seed": r.randrange(1 << 30)}
    be = r.choices(["custom", "casadi", "jax"], [0.72, 0.26, 0.02])[0]
    spec = world.gen_spec(r, backend=be, kinds=("flat", "nested", "mesh"), small=True)
    plan = {"kind": "spec", "spec": spec, "seed": r.randrange(1 << 30),
            "cont": {k: r.choice(["list", "tuple"]) for k in ("bounds", "scales", "bcs", "con")},
            "tr": r.choice(["tuple", "list"]), "log": r.choice([None, None, 0, 1, 2]),
            "points": r.random() < 0.5, "model": r.random() < 0.25}
    if plan["points"]:
        spec["interval_points"] = world.gen_points(r, spec["num_intervals"])
    ops = [["build"]]
    cur = {0: spec}
    n = 1
    for _ in range(r.randint(3, 8 if tier == "quick" else 16)):
        k = r.choice(["build", "change", "change", "change", "solve", "abort", "edit", "edit", "check", "edit_change"])
        if k == "build" and n < 3:
            cur[n] = copy.deepcopy(spec)
            n += 1
            ops.append(["build"])
            continue
        i = r.randrange(n)
        if k in ("change", "edit_change", "build"):
            op = changes.gen_change(r, cur[i])
            if k == "edit_change":
                op = [r.choice(["bounds", "bcs", "scales"]), []]
                op[1] = {"bounds": world.gen_bounds, "bcs": world.gen_bcs, "scales": world.gen_scales}[op[0]](
                    r, cur[i], 0.5)
            cur[i] = changes.apply_to_spec(cur[i], op)
            ops.append(["change", i, op, k == "edit_change", r.randrange(1 << 20)])
        elif k in ("solve", "abort"):
            call = solves.gen_call(r)
            if k == "abort":
                call["script"]["abort"] = {"at": r.randint(0, 25), "kind": r.choice(["error", "interrupt"])}
            ops.append(["solve", i, call])
        elif k == "edit":
            ops.append(["edit", r.choice(EDITS), r.randrange(1 << 20)])
        else:
            ops.append(["check", i, r.randrange(1 << 20)])
    if n == 1:
        ops.append(["build"])
    plan["ops"] = ops
    return plan


def lists(plan):
    return [("ops",)]


# ------------------------------------------------------------------------ shared objects
EDITS = ("bounds", "bound_array", "bcs", "scales", "points", "con", "non_cyclic", "transcription", "params",
         "logging", "containers", "bcs", "bounds")


class Shared:
    """The user's objects, and the specification of a problem built from them now"""

    def __init__(self, plan, root):
        from lumos.optimal_control.config import LoggingConfig
        self.plan, self.spec = plan, copy.deepcopy(plan["spec"])
        lc = None
        if plan["log"] is not None:
            lc = LoggingConfig("shared", root + "/results", plan["log"])
        self.nth = plan["log"]
        spec, c = self.spec, plan["cont"]
        cfg = world.sim_config(spec, lc)
        cast = {"list": list, "tuple": tuple}
        cfg.bounds = cast[c["bounds"]](cfg.bounds)
        cfg.scales = cast[c["scales"]](cfg.scales)
        cfg.boundary_conditions = cast[c["bcs"]](cfg.boundary_conditions)
        cfg.con_output_names = cast[c["con"]](cfg.con_output_names)
        if plan["tr"] == "list":
            cfg.transcription = list(cfg.transcription)
        self.cfg = cfg
        model = models.make_model(spec["kind"], spec["backend"], spec["params"])
        self.params = model.get_recursive_params()
        self.model = model if plan["model"] else None
        self.snapshot()

    def objects(self):
        return {"config": self.cfg, "params": self.params}

    def snapshot(self):
        self.snaps = {k: snap(v) for k, v in self.objects().items()}

    def unchanged(self):
        for k, v in self.objects().items():
            unchanged(k, self.snaps[k], v)

    def build(self):
        model = self.model
        if model is None:
            model = models.model_class(self.spec["kind"], self.spec["backend"])(params=self.params)
        p = world.build(self.spec, config=self.cfg, model=model)
        return World(self.spec, problem=p)

    def edit(self, how, seed):
        """The user changes his objects in place. Returns False if there is nothing to change."""
        r = np.random.RandomState(seed)
        spec, cfg = self.spec, self.cfg
        if how in ("bounds", "bound_array"):
            if not spec["bounds0"]:
                return False
            i = r.randint(len(spec["bounds0"]))
            e = spec["bounds0"][i]
            if how == "bound_array":
                arr = [i for i, e in enumerate(spec["bounds0"]) if isinstance(e[2][0], list)]
                if not arr:
                    return False
                i = arr[r.randint(len(arr))]
                e = spec["bounds0"][i]
                cfg.bounds[i].values[0][:] -= 0.25
                e[2][0] = [v - 0.25 for v in e[2][0]]
            else:
                e[2] = [-6.5, 7.25]
                cfg.bounds[i].values = (-6.5, 7.25)
        elif how == "bcs":
            if not spec["bcs0"]:
                return False
            i = r.randint(len(spec["bcs0"]))
            spec["bcs0"][i][3] = v = round(float(r.uniform(-1, 1)), 3)
            cfg.boundary_conditions[i].value = v
        elif how == "scales":
            if not spec["scales"]:
                return False
            i = r.randint(len(spec["scales"]))
            spec["scales"][i][2] = v = round(float(r.uniform(0.5, 3)), 3)
            cfg.scales[i].value = v
        elif how == "points":
            if spec["interval_points"] is None or spec["num_intervals"] < 2:
                return False
            a, b = spec["interval_points"][0], spec["interval_points"][2]
            v = round(a + (b - a) * float(r.uniform(0.2, 0.8)), 6)
            spec["interval_points"][1] = v
            cfg.interval_points[1] = v
        elif how == "con":
            # with another set of outputs the problems can't share the model
            if not isinstance(cfg.con_output_names, list) or self.model is not None:
                return False
            free = [n for n in models.KINDS[spec["kind"]]["con_outputs"] if n not in spec["con_outputs"]]
            if not free:
                return False
            cfg.con_output_names.append(free[0])
            spec["con_outputs"] = spec["con_outputs"] + [free[0]]
        elif how == "non_cyclic":
            if not spec["cyclic"]:
                return False
            free = [n for n in ("states.p", "states.v", "inputs.u", "inputs.w") if n not in spec["non_cyclic"]]
            if len(free) < 2:
                return False
            cfg.non_cyclic_vars.append(free[0])
            spec["non_cyclic"] = spec["non_cyclic"] + [free[0]]
        elif how == "transcription":
            t = cfg.transcription
            if len(t) < 2 or t[0] in ("ForwardEuler", "Trapezoidal") or self.spec["num_intervals"] > 2 or any(
                    isinstance(e[2][0], list) for e in spec["bounds0"]):
                return False
            if any(e[2] > 1 for e in spec["bcs0"]):
                return False
            n = 3 if spec["transcription"][1] == 4 else 4
            t[1]["num_stages"] = n
            spec["transcription"] = [spec["transcription"][0], n]
        elif how == "params":
            if self.model is not None:
                return False
            K = models.KINDS[spec["kind"]]
            if r.rand() < 0.5:
                k = K["arrays"][0]
                self.params.get_param(k)[0] += 0.125
                spec["params"][k] = np.array(self.params.get_param(k)).tolist()
            else:
                k = K["scalars"][r.randint(len(K["scalars"]))]
                v = round(float(r.uniform(0.5, 2)), 3)
                self.params.set_param(k, v)
                spec["params"][k] = v
        elif how == "logging":
            if cfg.logging_config is None:
                return False
            lc = cfg.logging_config
            lc.log_every_nth_iter = self.nth = (lc.log_every_nth_iter + 1) % 3
            lc.sim_name = lc.sim_name + "x"
        elif how == "containers":
            if not isinstance(cfg.bounds, list) or not cfg.bounds:
                return False
            cfg.bounds.pop()
            spec["bounds0"] = spec["bounds0"][:-1]
        else:
            raise KeyError(how)
        self.snapshot()
        return True


def run_spec(plan, ctx):
    sh = Shared(plan, ctx.root)
    ws, nth = [], []
    for op in plan["ops"]:
        ctx.ev(*op)
        if op[0] == "build":
            ws.append(sh.build())
            nth.append(sh.nth)
            ctx.probe("shared_config", int(len(ws) > 1))
            ctx.probe("shared_model", int(len(ws) > 1 and sh.model is not None))
        elif op[0] == "edit":
            if sh.edit(op[1], op[2]):
                ctx.fault("user_edit")
                ctx.probe("edit_" + op[1])
        elif op[1] >= len(ws):
            continue
        elif op[0] == "change":
            change(ws[op[1]], op, ctx)
            if sh.model is not None and op[2][0] == "param":
                # changed by the user, in the model as well that he uses for the problems
                sh.spec["params"] = copy.deepcopy(ws[op[1]].spec["params"])
        elif op[0] == "solve":
            solve(ws[op[1]], op[2], ctx, nth[op[1]])
        else:
            ws[op[1]].check_all(op[2])
            ctx.evals += 5
        if op[0] == "build":
            ws[-1].check_all(plan["seed"] + len(ws))
            if len(ws) > 1:
                ctx.nontrivial = True
        sh.unchanged()
    for i, w in enumerate(ws):
        # bounds have to be rebuilt from what the problem itself remembers
        w.apply(["bounds", []])
        w.check_all(plan["seed"] + i)
        ctx.evals += 5
    sh.unchanged()
    ctx.value("bounds", np.concatenate([np.where(np.isfinite(w.problem.lb), w.problem.lb, 0) for w in ws]))


def change(w, op, ctx):
    if not changes.applicable(w.spec, op[2]):
        return
    ctx.probe("changed")
    if not op[3]:
        w.apply(op[2])
        return
    # the user keeps what he passed in and edits it afterwards
    kind, entries = op[2]
    p = w.problem
    f, make = {"bounds": (p.update_bounds, world.bound_configs),
               "bcs": (p.update_boundary_conditions, world.bc_configs),
               "scales": (p.set_scales, world.scale_configs)}[kind]
    objs = list(make(entries))
    before = snap(objs)
    f(objs)
    w.on_spec(op[2])
    unchanged("passed_" + kind, before, objs)
    for o in objs:
        if kind == "bounds" and isinstance(o.values[0], np.ndarray):
            o.values[0][:] = -77.0
            o.values[1][:] = 77.0
        elif kind == "bounds":
            o.values = (-77.0, 77.0)
        elif kind == "bcs":
            o.value, o.stage = 33.0, 0
        else:
            o.value = 55.0
    objs.clear()
    ctx.fault("edited_change")
    w.check_static()


def solve(w, call, ctx, nth):
    out = solves.solve(w, call)
    if out.nlp is None:
        raise out.error
    solves.check_inputs(w, out)
    if out.nlp.script.get("abort", {}).get("_done"):
        ctx.fault("aborted")
        if not isinstance(out.error, INJECTED):
            raise Violation("error_replaced", "%r" % out.error)
    elif out.error is not None:
        raise out.error
    else:
        solves.check_result(w, out)
        if nth is not None:
            solves.check_log(w, out, w.problem.logging_dir, nth, ctx)
    ctx.probe("solved")
    ctx.evals += 1


# ----------------------------------------------------------- defaults of the models
def scramble(tree_or_dict, r):
    """In-place edits of everything in a parameter tree"""
    flat, _ = tree_or_dict.to_flat_dict()
    for k in flat:
        v = tree_or_dict.get_param(k)
        if isinstance(v, np.ndarray) and v.dtype.kind == "f" and v.ndim:
            v += 1.5
            v *= r.uniform(0.5, 2)
        elif isinstance(v, (int, float)):
            tree_or_dict.set_param(k, v + r.uniform(1, 2))
        elif isinstance(v, list):
            v.append(1.0)
        elif isinstance(v, dict):
            v["added"] = 1.0


def run_models(plan, ctx):
    classes = model_classes()
    pristine, live = {}, []

    def state(cls):
        m = cls()
        return {"params": snap(m.get_recursive_params()), "default": snap(m.get_recursive_default_params()),
                "config": snap(cls.get_recursive_default_model_config()),
                "direct": snap(cls.get_default_params()), "submodels": snap(cls.get_default_submodel_config())}

    for c in classes:
        a, b = state(c), state(c)
        pristine[c] = {k: v for k, v in a.items() if v == b[k]}
    for k, i, seed in plan["ops"]:
        c = classes[i % len(classes)]
        r = np.random.RandomState(seed)
        ctx.ev(k, c.__name__)
        m = c()
        before = snap(m.get_recursive_params())
        if k == "params":
            t = m.get_recursive_default_params()
            scramble(t, r)
            d = c.get_default_params()
            for n in d:
                if isinstance(d[n], np.ndarray) and d[n].ndim and d[n].dtype.kind == "f":
                    d[n][...] = 9.75
                else:
                    d[n] = 9.75
        elif k == "config":
            cfg = c.get_recursive_default_model_config()
            sub = c.get_default_submodel_config()
            for n in list(sub):
                cfg.replace_subtree(n, type(cfg)("Nothing"))
                sub[n] = "Nothing"
            sub["more"] = "Nothing"
        elif k == "submodel":
            t = m.get_recursive_params()
            m2 = c(params=t)
            for n in m2.get_submodel_names():
                s = m2.get_submodel(n)
                st = s.get_recursive_params()
                scramble(st, r)
                s.set_recursive_params(st)
            unchanged("given_params", before, t)
        else:
            t = m.get_recursive_params()
            m2 = c(params=t)
            scramble(t, r)
            unchanged("model_params", before, m2.get_recursive_params())
            t2 = m2.get_recursive_params()
            scramble(t2, r)
            m2.set_recursive_params(t2)
        unchanged("other_model", before, m.get_recursive_params())
        live.append((m, before))
        for cc in classes:
            now = state(cc)
            for n, v in pristine[cc].items():
                if now[n] != v:
                    raise Violation("default_modified:%s" % n, "%s: %s" % (cc.__name__, diff(v, now[n])))
        for mm, b in live:
            unchanged("other_model", b, mm.get_recursive_params())
        ctx.probe("defaults")
        ctx.evals += 1
        ctx.nontrivial = True


# ------------------------------------------------------------------------ configurations
def run_configs(plan, ctx):
    from lumos.optimal_control.config import BoundConfig, LoggingConfig, SimConfig
    from lumos.simulations import drone_simulation as dm, laptime_simulation as lm
    track = twins.write_track(ctx.root, "t", twins.track_text(plan["track"], 12))

    def new(kind, opt):
        kw = {}
        if opt & 1:
            kw["num_intervals"] = 3 + opt
        if kind == "logging":
            return LoggingConfig()
        if opt & 2:
            kw["is_cyclic"] = True
        if opt & 4:
            kw["transcription"] = ("LGR", {"num_stages": 3})
        if kind == "sim":
            return SimConfig(**kw)
        if kind == "drone":
            return dm.DroneSimulation.get_sim_config(**kw)
        return lm.LaptimeSimulation.get_sim_config(track=track, **kw)

    def defaults():
        return {"ltc_bounds": lm.get_default_bounds(), "ltc_scales": lm.get_default_scales(),
                "ltc_bcs": lm.get_default_boundary_conditions(True), "ltc_bcs2": lm.get_default_boundary_conditions(
                    False), "drone_bounds": dm.get_default_bounds(), "drone_bcs": dm.get_default_boundary_conditions()}

    kinds = [(k, o) for k in ("sim", "ltc", "drone") for o in range(8)] + [("logging", 0)]
    pristine = {ko: snap(new(*ko)) for ko in kinds}
    pris_def = {k: snap(v) for k, v in defaults().items()}
    live = []  # [object, snapshot]

    def edit(c, r):
        """The user changes everything in a configuration"""
        if isinstance(c, LoggingConfig):
            c.sim_name = c.sim_name + "x"
            c.log_every_nth_iter += 1
            return
        c.non_cyclic_vars.append("states.v%d" % r.randint(100))
        for b in c.bounds:
            b.values = (-float(r.randint(2, 90)), 91.0)
        for b in c.boundary_conditions:
            b.value += float(r.uniform(1, 2))
        for s in c.scales:
            s.value *= float(r.uniform(2, 3))
        if len(c.transcription) > 1:
            c.transcription[1]["num_stages"] += 1
        c.bounds = tuple(c.bounds) + (BoundConfig("states", "extra", (0.0, 1.0)),)

    for k, kind, opt, seed in plan["ops"]:
        r = np.random.RandomState(seed)
        ctx.ev(k, kind, opt)
        if k == "new":
            c = new(kind, opt)
            live.append([c, snap(c)])
        elif k == "edit" and live:
            e = live[seed % len(live)]
            edit(e[0], r)
            e[1] = snap(e[0])
            ctx.fault("user_edit")
        elif k == "default":
            for v in defaults().values():
                for o in v:
                    if hasattr(o, "values"):
                        o.values = (-1.0, 1.5)
                    else:
                        o.value = 12.5
            ctx.fault("user_edit")
        elif k == "round" and live and kind != "logging":
            e = live[seed % len(live)]
            if not isinstance(e[0], LoggingConfig):
                d = e[0].to_dict()
                c = type(e[0])(**copy.deepcopy(d))
                unchanged("round_trip", e[1], c)
                live.append([c, snap(c)])
                for v in d.values():  # the dictionary belongs to the user
                    if isinstance(v, list):
                        v.append(None)
                    if isinstance(v, (list, tuple)):
                        for x in v:
                            if isinstance(x, dict):
                                x.clear()
        for c, s in live:
            unchanged("other_config", s, c)
        for ko in kinds:
            unchanged("new_config", pristine[ko], new(*ko))
        for n, v in defaults().items():
            unchanged("defaults", pris_def[n], v)
        ctx.probe("configs")
        ctx.evals += 1
        ctx.nontrivial = True


# --------------------------------------------- one model object, several constraint outputs
def run_onemodel(plan, ctx):
    """Two problems of the same model object. The first one has to work as before the second
    was built, and in any case both work while the model has their constraint outputs."""
    model = models.make_model("nested", plan["spec"]["backend"], plan["spec"]["params"])
    ws = []
    broken = None
    for con in plan["con"]:
        spec = copy.deepcopy(plan["spec"])
        spec["con_outputs"] = con
        w = World(spec, problem=world.build(spec, model=model))
        w.check_all(plan["seed"])
        ws.append(w)
    try:
        ws[0].check_all(plan["seed"])
        df = "first.csv"
        ws[0].problem._create_result_df(ws[0].point(plan["seed"]), df, 0)
    except Exception as e:
        broken = e
    ws[1].check_all(plan["seed"] + 1)
    if broken is not None:
        if not isinstance(broken, (Violation, ValueError, IndexError, KeyError)):
            raise broken
        model.set_con_outputs(plan["con"][0])
        w = World(ws[0].spec, problem=world.build(ws[0].spec, model=model))
        w.check_all(plan["seed"] + 2)
        w.check_all(plan["seed"])
        raise Violation("one_model_other_con_outputs", "%s: %s" % (type(broken).__name__, str(broken)[:200]))


# ------------------------------------------------------------------------------ twins
def run_twins(plan, ctx):
    """Example simulations built from one set of objects"""
    from lumos.simulations import drone_simulation as dm, laptime_simulation as lm
    s = plan["settings"]
    if s["kind"] == "ltc":
        from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack as Model
        twins.write_tracks(ctx.root, s)
        cls, kw = lm.LaptimeSimulation, {"track": twins.track_path(ctx.root, s["track"])}
    else:
        from lumos.models.drone_model import DroneModel as Model
        cls, kw = dm.DroneSimulation, {}
    tr = s["transcription"]
    tr = (tr[0],) if tr[0] in ("ForwardEuler", "Trapezoidal") else (tr[0], {"num_stages": tr[1]})
    non_cyclic = []
    cfg = cls.get_sim_config(num_intervals=s["ni"], transcription=tr, is_cyclic=s["cyclic"], backend="casadi",
                             is_condensed=s["condensed"], hessian_approximation=s["hess"],
                             non_cyclic_vars=non_cyclic, **kw)
    if s["kind"] == "ltc":
        cfg.boundary_conditions = lm.get_default_boundary_conditions(s["cyclic"])
    if non_cyclic:
        raise Violation("modified:list", "the user's list of names became %r" % non_cyclic)
    mc = Model.get_recursive_default_model_config()
    params = Model(model_config=mc).get_recursive_default_params()
    snaps = {"config": snap(cfg), "params": snap(params), "model_config": snap(mc)}

    def check():
        for n, o in (("config", cfg), ("params", params), ("model_config", mc)):
            unchanged(n, snaps[n], o)

    def make():
        p = cls(model_params=params, model_config=mc, sim_config=cfg)
        t = twins.Twin(s, ctx.root, problem=p)
        return t

    a = make()
    check()
    ref = twins.Twin(s, ctx.root)
    twins.compare(a, ref, plan["seed"], ctx)
    for op in plan["ops"]:
        if twins.applicable(a.settings, op):
            ctx.ev("change", op)
            a.apply(op)
            check()
    if s["kind"] == "ltc":
        twins.write_tracks(ctx.root, s)  # one of the operations rewrites a track
    b = make()  # built from the same objects after the other one was changed
    check()
    twins.compare(b, ref, plan["seed"], ctx)
    b.problem.update_bounds(())
    twins.compare(a, a.fresh(), plan["seed"] + 1, ctx)
    twins.compare(b, ref, plan["seed"] + 2, ctx)
    check()
    ctx.nontrivial = True


def run(plan, ctx):
    with ctx.inline():
        {"spec": run_spec, "models": run_models, "configs": run_configs, "onemodel": run_onemodel}.get(plan["kind"], run_twins)(plan, ctx)
