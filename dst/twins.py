"""The example simulations of the library: a live problem and a freshly built twin.

A settings dictionary describes the problem; operations change the live problem and the
settings; the twin is built from the resulting settings.
"""
import copy
import os

import numpy as np

from dst import models, sim, solves, world
from dst.world import Violation, bound_configs, bc_configs, scale_configs


# ------------------------------------------------------------------------------ tracks
def track_text(seed, rows=None):
    """A closed synthetic track in the TUM csv format"""
    r = np.random.RandomState(seed)
    n = int(r.randint(25, 60)) if rows is None else rows
    th = np.linspace(0, 2 * np.pi, n)
    a, b = r.uniform(100, 400), r.uniform(100, 400)
    k, e = r.randint(2, 4), r.uniform(0, 0.15)
    rad = 1 + e * np.cos(k * th + r.uniform(0, 6))
    out = ["# x_m,y_m,w_tr_right_m,w_tr_left_m"]
    for i in range(n):
        out.append("%.6f,%.6f,%.3f,%.3f" % (
            a * rad[i] * np.cos(th[i]), b * rad[i] * np.sin(th[i]),
            r.uniform(4, 8), r.uniform(4, 8)))
    return "\n".join(out) + "\n"


def track_path(root, name):
    """Different for every problem, even in the last part"""
    return os.path.join(root, "tracks", "%s%s.csv" % (name, os.path.basename(root)[-3:] if "fresh" in root else ""))


def write_track(root, name, text):
    d = os.path.join(root, "tracks")
    if not os.path.isdir(d):
        sim.R["mkdir"](d)
    path = track_path(root, name)
    with sim.R["fopen"](path, "w") as f:
        f.write(text)
    return path


def write_tracks(root, settings):
    for i, sd in enumerate(settings["tracks"]):
        write_track(root, "t%d" % i, track_text(sd))


# --------------------------------------------------------------------------- settings
LTC_STATES = ("eta", "vx", "vy", "yaw_rate", "wheel_speed_fl", "wheel_speed_rr")
LTC_SLIP = ("vehicle.slip_ratio_fl", "vehicle.slip_angle_rr", "vehicle.slip_angle_fl")
LTC_PARAMS = (("vehicle.vehicle_mass", 1200, 2200), ("vehicle.aero.Cx", 0.3, 0.9), ("vehicle.kd", 0.3, 0.6))
DRONE_STATES = ("x", "x_dot", "z", "z_dot", "theta")
LEVEL1 = {"ltc": (("states", LTC_STATES), ("inputs", ("throttle", "brake", "steer")),
                  ("con_outputs", LTC_SLIP)),
          "drone": (("states", DRONE_STATES), ("inputs", ("f", "omega"))),
          "solver": (("states", models.STATES), ("inputs", models.INPUTS), ("con_outputs", ("acc", "en")))}


def gen_settings(r, kind):
    if kind == "ltc":
        ni = r.choice([2, 3])
        tr = r.choice([("ForwardEuler", 2), ("Trapezoidal", 2), ("LGR", 2)])
        return {"kind": kind, "track": "t%d" % r.randrange(3), "tracks": [r.randrange(1 << 20) for _ in range(3)],
                "ni": ni, "ip": None, "transcription": tr, "cyclic": r.random() < 0.5,
                "condensed": r.random() < 0.5, "params": {}, "bounds": [], "bcs": [],
                "scales": None, "hess": "limited-memory", "objs": []}
    if kind == "drone":
        return {"kind": kind, "ni": r.choice([2, 3, 5]), "ip": None,
                "transcription": r.choice([("ForwardEuler", 2), ("Trapezoidal", 2), ("LGR", 3), ("LGRIntegral", 3)]),
                "cyclic": False, "condensed": r.random() < 0.4, "params": {}, "bounds": [], "bcs": [],
                "scales": None, "hess": r.choice(["exact", "limited-memory"]), "objs": []}
    return {"kind": "solver", "model": r.choice(["flat", "nested"]), "params": {}, "bounds": [],
            "scales": [], "objs": [], "hess": "exact"}


def params_of(settings):
    if settings["kind"] == "ltc":
        return LTC_PARAMS
    if settings["kind"] == "drone":
        return (("gravity", 8, 11),)
    return ()


def _scale_entry(r, settings):
    g, names = r.choice(LEVEL1[settings["kind"]])
    return [g, r.choice(names), round(r.uniform(0.5, 20), 3)]


def gen_op(r, settings):
    kind = settings["kind"]
    if kind == "solver":
        k = r.choice(["bound", "bound", "scale", "scale", "add_obj", "del_obj"])
        groups = [("states", models.STATES), ("inputs", models.INPUTS),
                  ("con_outputs", models.KINDS[settings["model"]]["con_outputs"][:2])]
        g, names = r.choice(groups)
        n = r.choice(names)
        if k == "bound":
            v = round(r.uniform(-1, 1), 3)
            return ["sbound", g, n, v if r.random() < 0.4 else [v - 1, v + 1]]
        if k == "scale":
            return ["sscale", g, n, round(r.uniform(0.3, 5), 3)]
        if k == "add_obj":
            wt = round(r.choice([-1, 1]) * r.uniform(0.5, 2), 2)
            if [g, n, wt] in settings["objs"]:
                wt += 0.013
            return ["sadd", g, n, round(wt, 4)]
        if len(settings["objs"]) > 1:
            return ["sdel", r.randrange(len(settings["objs"]))]
        return ["sscale", g, n, round(r.uniform(0.3, 5), 3)]
    ks = ["param", "bounds", "scales", "mesh", "bcs"] + (["track"] * 3 if kind == "ltc" else [])
    k = r.choice(ks)
    if k == "track":
        if r.random() < 0.3:
            return ["retrack", "t%d" % r.randrange(3), r.randrange(1 << 20)]
        return ["track", "t%d" % r.randrange(3)]
    if k == "param":
        p, lo, hi = r.choice(params_of(settings))
        return ["param", p, round(r.uniform(lo, hi), 3)]
    if k == "mesh":
        return ["mesh", None if r.random() < 0.3 else world.gen_points(r, settings["ni"])]
    if k == "scales":
        ent = {}
        for _ in range(r.randint(0, 5)):
            g, n, v = _scale_entry(r, settings)
            ent[g, n] = v
        return ["scales", [[g, n, v] for (g, n), v in ent.items()]]
    if k == "bounds":
        out = []
        for _ in range(r.randint(1, 3)):
            g, names = r.choice(LEVEL1[kind])
            lo = round(r.uniform(-9, -1), 3)
            out.append([g, r.choice(names), [lo, round(r.uniform(11, 60), 3)]])
        return ["bounds", out]
    out = []
    for _ in range(r.randint(1, 2)):
        g, names = r.choice(LEVEL1[kind][:2])
        out.append([g, r.choice(names), r.choice([0, -1, 1]), round(r.uniform(0, 1), 3)])
    return ["bcs", out]


# ----------------------------------------------------------------- building and changing
def build(settings, root, logging_config=None):
    kind = settings["kind"]
    if kind == "solver":
        return _build_solver(settings)
    tr = settings["transcription"]
    tr = (tr[0],) if tr[0] in ("ForwardEuler", "Trapezoidal") else (tr[0], {"num_stages": tr[1]})
    kw = dict(num_intervals=settings["ni"],
              interval_points=None if settings["ip"] is None else np.array(settings["ip"]),
              transcription=tr, is_cyclic=settings["cyclic"], is_condensed=settings["condensed"],
              backend="casadi", hessian_approximation=settings["hess"], logging_config=logging_config)
    if kind == "ltc":
        from lumos.simulations import laptime_simulation as m
        from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack as Model
        cls = m.LaptimeSimulation
        kw["track"] = track_path(root, settings["track"])
        bcs0, bounds0 = m.get_default_boundary_conditions(settings["cyclic"]), m.get_default_bounds()
        scales0 = m.get_default_scales()
    else:
        from lumos.simulations import drone_simulation as m
        from lumos.models.drone_model import DroneModel as Model
        cls = m.DroneSimulation
        bcs0, bounds0, scales0 = m.get_default_boundary_conditions(), m.get_default_bounds(), ()
    kw["boundary_conditions"] = tuple(bcs0) + bc_configs(settings["bcs"])
    kw["bounds"] = tuple(bounds0) + bound_configs(settings["bounds"])
    kw["scales"] = tuple(scales0) if settings["scales"] is None else scale_configs(settings["scales"])
    mc = Model.get_recursive_default_model_config()
    params = Model(model_config=mc).get_recursive_default_params()
    for k, v in settings["params"].items():
        params.set_param(k, v)
    config = cls.get_sim_config(**kw)
    return cls(model_params=params, model_config=mc, sim_config=config)


def _build_solver(settings):
    from lumos.optimal_control.model_solver import ModelSolver
    kind = settings["model"]
    p = ModelSolver(models.make_model(kind, "casadi"), "casadi",
                    con_outputs=list(models.KINDS[kind]["con_outputs"][:2]))
    for g, n, v in settings["scales"]:
        p.set_var_scale(g, n, v)
    for g, n, v in settings["bounds"]:
        p.set_bounds(g, n, tuple(v) if isinstance(v, list) else v)
    for g, n, wt in settings["objs"]:
        p.add_obj_from_var(g, n, wt)
    return p


def on_problem(p, op, root, settings):
    k = op[0]
    if k == "track":
        p.set_track(track_path(root, op[1]))
    elif k == "retrack":  # the same file with a new content
        write_track(root, op[1], track_text(op[2]))
        p.set_track(track_path(root, op[1]))
    elif k == "param":
        p.modify_model_param(op[1], op[2])
    elif k == "bounds":
        p.update_bounds(bound_configs(op[1]))
    elif k == "bcs":
        p.update_boundary_conditions(bc_configs(op[1]))
    elif k == "scales":
        p.set_scales(scale_configs(op[1]))
    elif k == "mesh":
        p.set_normalized_mesh(None if op[1] is None else np.array(op[1], float))
    elif k == "sbound":
        p.set_bounds(op[1], op[2], tuple(op[3]) if isinstance(op[3], list) else op[3])
    elif k == "sscale":
        p.set_var_scale(op[1], op[2], op[3])
    elif k == "sadd":
        p.add_obj_from_var(op[1], op[2], op[3])
    elif k == "sdel":
        g, n, wt = settings["objs"][op[1]]
        p.delete_objective("%s.%s.weight=%s" % (g, n, wt))
    else:
        raise KeyError(k)


def on_settings(settings, op):
    s, k = copy.deepcopy(settings), op[0]
    if k == "track":
        s["track"] = op[1]
    elif k == "retrack":
        s["track"] = op[1]
        s["tracks"][int(op[1][1:])] = op[2]
    elif k == "param":
        s["params"][op[1]] = op[2]
    elif k in ("bounds", "bcs"):
        s[k] += op[1]
    elif k == "scales":
        s["scales"] = op[1]
    elif k == "mesh":
        s["ip"] = op[1]
    elif k == "sbound":
        s["bounds"].append(op[1:])
    elif k == "sscale":
        s["scales"].append(op[1:])
    elif k == "sadd":
        s["objs"].append(op[1:])
    elif k == "sdel":
        del s["objs"][op[1]]
    else:
        raise KeyError(k)
    return s


def applicable(settings, op):
    if op[0] == "sdel":
        return op[1] < len(settings["objs"]) and len(settings["objs"]) > 1
    if op[0] == "sadd":
        return op[1:] not in settings["objs"]
    return True


class Twin:
    """Live problem and settings, in the form that solves.solve needs"""

    def __init__(self, settings, root, problem=None, logging_config=None):
        self.settings, self.root = copy.deepcopy(settings), root
        if settings["kind"] == "ltc" and problem is None:
            write_tracks(root, settings)
        self.problem = build(self.settings, root, logging_config) if problem is None else problem
        self.spec = {"mesh_scale": 1.0, "hess": settings["hess"]}

    @property
    def num_dec(self):
        return self.problem.num_dec

    def apply(self, op):
        on_problem(self.problem, op, self.root, self.settings)
        self.settings = on_settings(self.settings, op)

    def fresh(self, logging_config=None):
        root = self.root
        if self.settings["kind"] == "ltc":
            # files of its own, so that nothing that is remembered for a path could be used
            self.num_fresh = getattr(self, "num_fresh", 0) + 1
            root = "%s/fresh_%d" % (self.root, self.num_fresh)
            sim.R["mkdir"](root)
            write_tracks(root, self.settings)
            name = self.settings["track"]
            if not sim.R["exists"](track_path(root, name)):
                with sim.R["fopen"](track_path(self.root, name)) as f:
                    write_track(root, name, f.read())
        return Twin(self.settings, root, problem=build(self.settings, root, logging_config))


def point(t, seed):
    """A point near the initial guess. The scaling is the same for both twins."""
    r = np.random.RandomState(seed % (2 ** 32))
    if t.settings["kind"] == "solver":
        return r.uniform(-1, 1, t.num_dec)
    return np.asarray(t.problem.get_init_guess()) * r.uniform(0.8, 1.2, t.num_dec) + 0.01 * r.normal(size=t.num_dec)


def same(name, a, b, tol=1e-8):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation(name, "shape %s instead of %s" % (a.shape, b.shape))
    scale = max(1.0, float(np.max(np.abs(b[np.isfinite(b)]), initial=0.0)))
    if not np.allclose(a, b, rtol=tol, atol=tol * min(scale, 1e4), equal_nan=True):
        i = np.argmax(np.where(np.isfinite(a - b), np.abs(a - b), np.inf * (a != b)))
        raise Violation(name, "%r instead of %r (entry %s)" % (a.ravel()[i], b.ravel()[i], i))


def compare(a, b, seed, ctx):
    """Everything observable of the problems"""
    p, q = a.problem, b.problem
    for k in ("num_dec", "num_con"):
        if getattr(p, k) != getattr(q, k):
            raise Violation(k, "%s instead of %s" % (getattr(p, k), getattr(q, k)))
    for k in ("lb", "ub", "cl", "cu"):
        same(k, getattr(p, k), getattr(q, k), 1e-10)
    for k in ("jacobianstructure", "hessianstructure"):
        for x, y in zip(getattr(p, k)(), getattr(q, k)()):
            if not np.array_equal(np.ravel(x), np.ravel(y)):
                raise Violation(k, "differs from a newly built problem")
    if a.settings["kind"] != "solver":
        same("init_guess", p.get_init_guess(), q.get_init_guess())
        if a.settings["kind"] == "ltc":
            same("mesh", p.get_mesh(), q.get_mesh())
            same("distance_mesh", p.distance_mesh, q.distance_mesh)
        else:
            same("mesh", p.get_mesh_from_scale(1.7), q.get_mesh_from_scale(1.7))
    x = point(b, seed)
    for fn in ("objective", "gradient", "constraints", "jacobian", "hessian"):
        if fn in ("objective", "gradient", "hessian") and not has_objective(a):
            continue
        same(fn, world.evaluate(p, fn, x.copy(), seed)[0], world.evaluate(q, fn, x.copy(), seed)[0])
        ctx.evals += 1
        ctx.value(fn, 0.0)
    ctx.probe("twin_" + a.settings["kind"])


def has_objective(t):
    return t.settings["kind"] != "solver" or bool(t.settings["objs"])


def compare_solves(a, b, call, ctx):
    """The same (simulated) solve of both"""
    outs = [solves.solve(t, call) for t in (a, b)]
    solves.compare_outcomes(*outs)
    if outs[0].error is not None:
        raise outs[0].error
    return outs
