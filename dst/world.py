"""A live lumos problem together with the specification it is supposed to fulfil."""
import copy

import numpy as np

import lumos.numpy as lnp
from lumos.models.tree_utils import ParameterTree
from lumos.optimal_control.config import (
    BoundaryConditionConfig, BoundConfig, LoggingConfig, ScaleConfig, SimConfig,
)
from lumos.optimal_control.fixed_mesh_ocp import FixedMeshOCP
from lumos.optimal_control.scaled_mesh_ocp import ScaledMeshOCP

from dst import models, reference


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls, detail=""):
        super().__init__("%s: %s" % (cls, detail))
        self.cls, self.detail = cls, str(detail)[:2000]


TRANSCRIPTIONS = [("ForwardEuler", 2), ("Trapezoidal", 2), ("LGR", 2), ("LGR", 3), ("LGR", 4),
                  ("LGRIntegral", 3)]


def gen_spec(r, backend=None, kinds=("flat", "nested", "mesh"), fixed=None, condensed=None,
             cyclic=None, small=False):
    """A random problem specification from the random.Random r."""
    kind = r.choice(kinds)
    if fixed is None:
        fixed = r.random() < 0.6
    if kind == "mesh":
        fixed = True
    if backend is None:
        backend = r.choices(["custom", "casadi", "jax"], [0.62, 0.33, 0.05])[0]
    if kind == "switch" and backend == "custom":
        backend = "casadi"
    tr = r.choice(TRANSCRIPTIONS)
    K = models.KINDS[kind]
    params = models.default_params(kind)
    for k in K["scalars"]:
        if r.random() < 0.3:
            params[k] = r.choice([1, 2]) if r.random() < 0.2 else round(r.uniform(0.5, 2.0), 3)
    ni = r.randint(1, 3 if small else 4) if tr[1] == 2 else r.randint(1, 2 if small else 3)
    if condensed is None:
        condensed = r.random() < 0.45
    if cyclic is None:
        cyclic = r.random() < 0.4
    con_outputs = [n for n in K["con_outputs"] if r.random() < 0.5]
    spec = {
        "kind": kind, "backend": backend, "params": params, "transcription": tr,
        "num_intervals": ni, "interval_points": gen_points(r, ni) if r.random() < 0.4 else None,
        "mesh_scale": round(r.uniform(0.3, 4), 3) if fixed else None,
        "con_outputs": con_outputs, "scales": [], "bound_log": [], "condensed": condensed,
        "cyclic": cyclic, "non_cyclic": [], "objectives": {"time": "time"}, "extra_cons": {},
        "hess": r.choice(["exact", "limited-memory"]),
    }
    if cyclic:
        spec["non_cyclic"] = [g + "." + n for g, n in _names(spec)[:5] if r.random() < 0.3][:4]
    spec["scales"] = gen_scales(r, spec)
    spec["bounds0"] = gen_bounds(r, spec)
    spec["bcs0"] = gen_bcs(r, spec)
    return spec


def _names(spec):
    out = ([("states", n) for n in models.STATES] + [("inputs", n) for n in models.INPUTS]
           + [("states_dot", n) for n in models.STATES]
           + [("con_outputs", n) for n in spec["con_outputs"]])
    return out


def num_stages(spec):
    return spec["num_intervals"] * (spec["transcription"][1] - 1) + 1


def gen_points(r, ni):
    w = [r.uniform(0.2, 1) for _ in range(ni)]
    pts = [0.0]
    for x in w:
        pts.append(pts[-1] + x / sum(w))
    pts[-1] = 1.0
    return [round(p, 6) for p in pts]


def gen_scales(r, spec, p=0.5):
    names = _names(spec)
    if spec["condensed"]:
        pass
    if spec["mesh_scale"] is None:
        names = names + [("global", "mesh_scale")]
    return [[g, n, round(r.choice([0.1, 0.5, 2.0, 10.0]) * r.uniform(0.8, 1.2), 4)]
            for g, n in names if r.random() < p]


INF = float("inf")


def gen_bounds(r, spec, p=0.4):
    names = [x for x in _names(spec) if not (spec["condensed"] and x[0] == "states_dot")]
    if spec["mesh_scale"] is None:
        names = names + [("global", "mesh_scale")]
    out = []
    for g, n in names:
        if r.random() < p:
            lo = round(r.uniform(-5, -1), 3)
            if r.random() < 0.25 and g != "global":
                m = num_stages(spec)
                lov = [round(lo - 0.1 * i, 3) for i in range(m)]
                hiv = [round(-lo + 0.2 * i, 3) for i in range(m)]
                for i in range(m):  # open or fixed at some of the stages
                    k = r.random()
                    if k < 0.1:
                        lov[i] = -INF
                    elif k < 0.2:
                        hiv[i] = INF
                    elif k < 0.25:
                        lov[i] = hiv[i]
                out.append([g, n, [lov, hiv]])
            else:
                hi = round(r.uniform(1, 5), 3)
                k = r.random() if g != "global" else 1
                out.append([g, n, [-INF, hi] if k < 0.07 else [lo, INF] if k < 0.14 else [lo, hi]])
    r.shuffle(out)
    return out


def gen_bcs(r, spec, p=0.25):
    names = [x for x in _names(spec) if x[0] in ("states", "inputs", "con_outputs")]
    m = num_stages(spec)
    out = []
    for g, n in names:
        if r.random() < p:
            out.append([g, n, r.choice([0, -1, r.randrange(m)]), round(r.uniform(-1, 1), 3)])
    return out


# ----------------------------------------------------------- settings -> lumos objects
def bound_value(v):
    if isinstance(v[0], (list, tuple)):
        return (np.array(v[0], float), np.array(v[1], float))
    return (v[0], v[1])


def bound_configs(entries):
    return tuple(BoundConfig(g, n, bound_value(v)) for g, n, v in entries)


def bc_configs(entries):
    return tuple(BoundaryConditionConfig(stage, g, n, v) for g, n, stage, v in entries)


def scale_configs(entries):
    return tuple(ScaleConfig(g, n, v) for g, n, v in entries)


def sim_config(spec, logging_config=None):
    tr = spec["transcription"]
    form = spec["num_intervals"] % 3
    if tr[1] == 2 and tr[0] in ("ForwardEuler", "Trapezoidal"):
        tr = (tr[0], {}) if form == 1 else (tr[0],)
    elif tr[1] == 3 and form < 2:  # the default of the library
        tr = (tr[0], {}) if form == 1 else (tr[0],)
    else:
        tr = (tr[0], {"num_stages": tr[1]})
    return SimConfig(
        num_intervals=spec["num_intervals"],
        interval_points=None if spec["interval_points"] is None else np.array(spec["interval_points"]),
        transcription=tr, is_cyclic=spec["cyclic"], non_cyclic_vars=list(spec["non_cyclic"]),
        is_condensed=spec["condensed"], backend=spec["backend"], hessian_approximation=spec["hess"],
        boundary_conditions=bc_configs(spec["bcs0"]), bounds=bound_configs(spec["bounds0"]),
        scales=scale_configs(spec["scales"]), con_output_names=tuple(spec["con_outputs"]),
        logging_config=logging_config,
    )


def build(spec, logging_config=None, config=None, model=None):
    if model is None:
        model = models.make_model(spec["kind"], spec["backend"], spec["params"])
    if config is None:
        config = sim_config(spec, logging_config)
    if spec["mesh_scale"] is None:
        return ScaledMeshOCP(model=model, sim_config=config)
    return FixedMeshOCP(model=model, sim_config=config, mesh_scale=spec["mesh_scale"])


def initial_log(spec):
    """The bound settings made by building the problem"""
    b = [list(x) for x in spec["bounds0"]]
    if spec["condensed"]:
        b += [["states_dot", n, [0, 0]] for n in models.STATES]
    return [["bounds", b], ["bcs", [list(x) for x in spec["bcs0"]]]]


def ref_spec(spec):
    s = copy.deepcopy(spec)
    s["scales"] = {(g, n): v for g, n, v in spec["scales"]}
    return s


def make_reference(spec):
    return reference.Reference(ref_spec(spec))


class World:
    """Live problem and its specification"""

    def __init__(self, spec, logging_config=None, problem=None):
        self.spec = copy.deepcopy(spec)
        self.spec["bound_log"] = initial_log(self.spec)
        self.logging_config = logging_config
        self.problem = build(self.spec, logging_config) if problem is None else problem
        self._ref = None
        self.objects = {}  # the objectives and constraints created so far

    @property
    def ref(self):
        if self._ref is None:
            self._ref = make_reference(self.spec)
        return self._ref

    def changed(self):
        self._ref = None

    # ------------------------------------------------------------------ settings
    def apply(self, op):
        """A valid change of settings, on the problem and then on the specification"""
        self.on_problem(op)
        self.on_spec(op)

    def on_problem(self, op):
        p, k = self.problem, op[0]
        if k == "param":
            p.modify_model_param(op[1], np.array(op[2]) if isinstance(op[2], list) else op[2])
        elif k == "bounds":
            p.update_bounds(bound_configs(op[1]))
        elif k == "bcs":
            p.update_boundary_conditions(bc_configs(op[1]))
        elif k == "direct":
            g, n, stage, v = op[1:]
            {"states": p.set_state_bounds, "inputs": p.set_input_bounds,
             "con_outputs": p.set_con_output_bounds}[g](
                n, stage, tuple(np.array(b, float) if isinstance(b, list) else b for b in v)
                if isinstance(v, (list, tuple)) else v)
        elif k == "scales":
            p.set_scales(scale_configs(op[1]))
        elif k == "mesh":
            p.set_normalized_mesh(None if op[1] is None else np.array(op[1], float))
        elif k == "mesh_scale":
            p.set_mesh_scale(op[1])
        elif k == "add_obj":
            p.add_objective(op[1], self.made(reference.make_quad_obj, op[2]))
        elif k == "del_obj":
            p.delete_objective(op[1])
        elif k == "add_con":
            p.add_constraints(op[1], self.made(reference.make_extra_con, op[2]))
            p.set_cons()
        elif k == "del_con":
            p.delete_constraints(op[1])
            p.set_cons()
        else:
            raise KeyError(k)

    def made(self, make, name):
        """A deleted object comes back as the same object"""
        if name not in self.objects:
            self.objects[name] = make(name, self.num_dec)
        return self.objects[name]

    def on_spec(self, op):
        s, k = self.spec, op[0]
        if k == "param":
            s["params"][op[1]] = op[2]
        elif k in ("bounds", "bcs"):
            s["bound_log"].append([k, op[1]])
        elif k == "direct":
            s["bound_log"].append(["direct", [list(op[1:])]])
        elif k == "scales":
            s["scales"] = [list(x) for x in op[1]]
        elif k == "mesh":
            s["interval_points"] = op[1]
        elif k == "mesh_scale":
            s["mesh_scale"] = op[1]
        elif k == "add_obj":
            s["objectives"][op[1]] = op[2]
        elif k == "del_obj":
            del s["objectives"][op[1]]
        elif k == "add_con":
            s["extra_cons"][op[1]] = op[2]
        elif k == "del_con":
            del s["extra_cons"][op[1]]
        else:
            raise KeyError(k)
        self.changed()

    @property
    def num_dec(self):
        nvs = 8 + len(self.spec["con_outputs"])
        return num_stages(self.spec) * nvs + (1 if self.spec["mesh_scale"] is None else 0)

    # ------------------------------------------------------------------- checks
    def point(self, seed):
        r = np.random.RandomState(int(seed) % (2 ** 32))
        x = r.uniform(-1.2, 1.2, self.num_dec)
        if self.spec["mesh_scale"] is None:
            x[-1] = r.uniform(0.3, 2)
        if self.spec["kind"] == "switch":  # stay away from the switching point
            nvs = 8 + len(self.spec["con_outputs"])
            idx = np.arange(num_stages(self.spec)) * nvs
            x[idx] = np.where(np.abs(x[idx] - 0.5) < 0.05, 0.7, x[idx])
        # in user's units of order one: scaled variables passed to the functions
        return x / self.ref.scale_vec()

    def check_function(self, fn, x, lam_seed=0, mutate=None):
        """Evaluate and compare with the oracle. mutate: callback on (args, result)."""
        got, args = evaluate(self.problem, fn, x, lam_seed)
        self.compare(fn, args[0].copy(), lam_seed, got)
        return got, args

    def expected(self, fn, x, lam_seed=0):
        """The oracle's value in the layout of the problem (constraint order is a
        presentation detail, so it is taken from the problem)."""
        ref = self.ref
        if fn == "objective":
            return ref.objective(x)
        if fn == "gradient":
            return ref.gradient(x)
        order = con_order(self.problem, ref, x)
        if fn == "constraints":
            return ref.constraints(x, order)
        if fn == "jacobian":
            return ref.jacobian(x, order)
        lam, sigma = multipliers(self.problem.num_con, lam_seed)
        return np.triu(ref.hessian(x, lam, sigma, order))

    def compare(self, fn, x, lam_seed, got):
        want = self.expected(fn, x, lam_seed)
        have = densify(self.problem, fn, got, self.num_dec)
        close(fn, have, want, 2e-5 if fn == "hessian" else 1e-6)

    def check_all(self, seed, hessian=True):
        x = self.point(seed)
        for fn in ("objective", "gradient", "constraints", "jacobian") + (
                ("hessian",) if hessian else ()):
            self.check_function(fn, x, seed)
        self.check_static()

    def check_static(self):
        p, ref = self.problem, self.ref
        lb, ub = ref.bounds()
        close("lb", np.asarray(p.lb), lb, 1e-12)
        close("ub", np.asarray(p.ub), ub, 1e-12)
        for g, n in ref.names:
            close("get_lb", p.get_lb(g, n), lb[ref.index(g, n)], 1e-12)
            close("get_ub", p.get_ub(g, n), ub[ref.index(g, n)], 1e-12)
        x = np.linspace(0.5, 2.5, self.num_dec)
        T = self.spec["mesh_scale"] if self.spec["mesh_scale"] is not None else x[-1]
        close("mesh_from_dec_var", np.asarray(p.get_mesh_from_dec_var(x)), ref.normalized_mesh() * T, 1e-9)
        m = p.num_con
        n_exp = len(ref.constraints(np.ones(self.num_dec) / ref.scale_vec(),
                                    list(ref.components(np.ones(self.num_dec)).keys())))
        if m != n_exp:
            raise Violation("num_con", "%s instead of %s" % (m, n_exp))
        if p.num_dec != self.num_dec:
            raise Violation("num_dec", "%s instead of %s" % (p.num_dec, self.num_dec))
        close("cl", np.asarray(p.cl), np.zeros(m), 0)
        close("cu", np.asarray(p.cu), np.zeros(m), 0)
        if self.spec["mesh_scale"] is not None:
            close("mesh", np.asarray(p.get_mesh()), ref.normalized_mesh() * self.spec["mesh_scale"], 1e-9)
        else:
            close("mesh", np.asarray(p.get_mesh_from_scale(1.7)), ref.normalized_mesh() * 1.7, 1e-9)


def multipliers(m, seed):
    r = np.random.RandomState((int(seed) * 7 + 1) % (2 ** 32))
    lam, sigma = r.uniform(-1, 1, m), float(r.uniform(0.5, 1.5))
    u = r.randint(12)  # some special values: restoration phase, inactive constraints
    if u == 0:
        sigma = 0.0
    elif u == 1:
        lam[:] = 0.0
    elif u == 2:
        lam[r.rand(m) < 0.5] = 0.0
    return lam, sigma


def evaluate(problem, fn, x, lam_seed=0):
    if fn == "hessian":
        lam, sigma = multipliers(problem.num_con, lam_seed)
        args = (x, lam, sigma)
    else:
        args = (x,)
    return getattr(problem, fn)(*args), args


def con_order(problem, ref, x):
    """Order of the constraint components in the problem"""
    parts = problem.split_constraints(np.arange(problem.num_con))
    comp = ref.components(np.asarray(x, float))
    if set(parts) != set(comp):
        raise Violation("components", "%s instead of %s" % (sorted(parts), sorted(comp)))
    order = sorted(parts, key=lambda k: (parts[k][0] if len(parts[k]) else -1))
    for k in order:
        if len(parts[k]) != comp[k].shape[-1]:
            raise Violation("component_size", "%s: %s instead of %s" % (
                k, len(parts[k]), comp[k].shape[-1]))
    return order


def densify(problem, fn, got, n):
    got = np.asarray(got, dtype=float)
    if fn in ("jacobian", "hessian"):
        rows, cols = getattr(problem, fn + "structure")()
        rows, cols = np.asarray(rows).ravel(), np.asarray(cols).ravel()
        if rows.shape != cols.shape or rows.shape != got.ravel().shape:
            raise Violation(fn + "_size", "%s values for %s entries" % (got.size, rows.size))
        shape = (problem.num_con, n) if fn == "jacobian" else (n, n)
        out = np.zeros(shape)
        if rows.size and (rows.min() < 0 or rows.max() >= shape[0] or cols.min() < 0
                          or cols.max() >= shape[1]):
            raise Violation(fn + "structure_range", "index out of range")
        np.add.at(out, (rows.astype(int), cols.astype(int)), got.ravel())
        return out
    return got


def close(name, have, want, tol):
    have, want = np.asarray(have, float), np.asarray(want, float)
    if have.shape != want.shape:
        raise Violation(name, "shape %s instead of %s" % (have.shape, want.shape))
    with np.errstate(invalid="ignore"):
        same = (have == want) | (np.isnan(have) & np.isnan(want))
        scale = 1 + np.abs(np.where(np.isfinite(want), want, 0))
        mx = np.max(scale) if scale.size else 1.0
        ok = same | (np.abs(have - want) <= tol * np.maximum(scale, 1e-3 * mx))
    if not np.all(ok):
        bad = np.argwhere(~ok)[0]
        i = tuple(bad) if have.ndim else ()
        raise Violation(name, "at %s: %r instead of %r (%d of %d wrong)" % (
            list(map(int, i)), float(have[i]), float(want[i]), int((~ok).sum()), have.size))
