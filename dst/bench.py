"""Operations on models and problems, each optionally with a fault, and their references.

Used by the checks of C04, C05, C06 and C15: the operations are the same, what is judged
is not.
"""
import copy
import os

import numpy as np

import lumos.numpy as lnp
from lumos.models.tree_utils import ParameterTree

from dst import lines, models, sim, solves, world
from dst.world import Violation, World, close

LINE_FILES = ("lumos/models/base.py", "lumos/models/composition.py", "lumos/models/tree_utils.py",
              "lumos/numpy/utils.py", "lumos/optimal_control/nlp.py",
              "lumos/optimal_control/convolution.py", "lumos/optimal_control/utils.py",
              "lumos/optimal_control/scaled_mesh_ocp.py", "lumos/optimal_control/fixed_mesh_ocp.py")
INJECTED = (sim.InjectedError, sim.InjectedInterrupt, FloatingPointError)
SUBMODELS = {"nested": ("body", "body.spring", "body.damper", "body.damper.coef")}
SUBMODELS["nestedb"] = SUBMODELS["nested"]
IO_COMPILE = ("spawn", "cc_start", "cc_create", "cc_write", "cc_exit", "open_w", "write",
              "replace", "mkdir", "dlopen", "rmdir", "remove", "cas_map")
FNS = ("objective", "gradient", "constraints", "jacobian", "hessian")


# ------------------------------------------------------------------------- generation
def gen_params(r, kind, p=0.6):
    out = models.default_params(kind)
    K = models.KINDS[kind]
    for k in K["scalars"]:
        if r.random() < p:
            out[k] = round(r.uniform(0.5, 2.0), 3)
    for k in K["arrays"]:
        if r.random() < p:
            out[k] = [round(r.uniform(0.1, 1.0), 3) for _ in range(2)]
    return out


def gen_fault(r, what, p=0.6):
    """A fault for an operation of a kind"""
    if r.random() > p:
        return None
    u = r.random()
    if what in ("build", "make", "export") and u < 0.45:
        on = r.choice(IO_COMPILE if what != "export" else ("open_w", "write"))
        kind = r.choice(["ENOSPC", "EIO", "fail", "interrupt"])
        if on == "spawn":
            kind = r.choice(["missing", "ENOMEM", "interrupt"])
        if kind == "fail" and not on.startswith(("cc_", "cas_", "dlopen")):
            kind = "EIO"
        return ["io", {"on": on, "nth": r.choice([1, 1, 2, 3]), "kind": kind}]
    if u < 0.72:
        return ["model", {"nth": r.choice([1, 1, 2, 3, 4, 5, 6, 8, 12, 20]),
                          "kind": r.choice(["error", "interrupt", "float"])}]
    return ["line", int(2 ** r.uniform(0, 8 if what != "build" else 10))]


def gen_ops(r, kind, i, mix, jax_p=0.04):
    """One operation on model i"""
    k = r.choice(mix)
    s = r.randrange(1 << 30)
    f = gen_fault(r, k)
    be = r.choices(["custom", "casadi", "jax"], [0.5, 0.5 - jax_p, jax_p])[0]
    if k == "sub":
        if kind not in SUBMODELS:
            k = "forward"
        else:
            return ["sub", i, r.choice(SUBMODELS[kind]), s, f]
    if k in ("forward", "arrays"):
        return [k, i, s, f]
    if k == "apply":
        return [k, i, gen_params(r, kind), s, f]
    if k == "batched":
        return [k, i, be, r.randint(1, 5), s, f]
    if k == "make":
        return [k, i, be, f]
    if k == "export":
        return [k, i, r.choice(["MX", "SX"]), f]
    if k == "build":
        return [k, i, f]
    if k == "eval":
        return [k, i, r.choice(FNS), s, f]
    if k == "solve":
        call = solves.gen_call(r)
        if f is not None and f[0] == "model":
            call["script"]["abort"] = {"at": r.randint(0, 30), "kind": r.choice(["error", "interrupt"])}
            if r.random() < 0.5:
                call["script"]["abort"]["inside"] = f[1]
            f = ["script"]
        elif r.random() < 0.1:
            call["script"]["status"] = -13
            f = ["script"]
        return [k, i, call, f]
    raise KeyError(k)


# -------------------------------------------------------------------------- reference
def ref_sub(path, P, X, kind="nested"):
    """Outputs (and states_dot) of a submodel. X: dictionary of its inputs"""
    g = lambda n: P["body." + n]
    spring = lambda x: dict(force=g("spring.k") * x + g("spring.h")[0] * x ** 3,
                            pot=0.5 * g("spring.k") * x * x + g("spring.h")[1])
    coef = lambda x: dict(val=g("damper.coef.a") + g("damper.coef.b") * x * x)
    if kind == "nestedb":
        coef = lambda x: dict(val=g("damper.coef.b") + g("damper.coef.a") * np.cos(x))

    def damper(dx):
        c = coef(dx)
        return {"force": g("damper.gain") * c["val"] * dx, "coef.val": c["val"]}

    if path == "body.spring":
        return {}, spring(X["x"])
    if path == "body.damper.coef":
        return {}, coef(X["x"])
    if path == "body.damper":
        return {}, damper(X["dx"])
    s, d = spring(X["p"]), damper(X["v"])
    acc = (X["u"] - s["force"] - d["force"]) / g("m")
    out = {"acc": acc, "rs": X["u"] * X["w"] - 0.2 * X["p"]}
    out.update({"spring." + k: v for k, v in s.items()})
    out.update({"damper." + k: v for k, v in d.items()})
    return {"p": X["v"], "v": acc}, out


def sub_inputs(path, seed):
    r = np.random.RandomState(seed % (2 ** 32))
    if path == "body":
        return {n: float(r.uniform(-1, 1)) for n in ("p", "v", "u", "w")}
    return {"dx" if path == "body.damper" else "x": float(r.uniform(-1, 1))}


def as_arrays(P):
    return {k: (np.asarray(v, float) if isinstance(v, (list, np.ndarray)) else v) for k, v in P.items()}


def compare_dicts(name, have, want):
    if set(have) != set(want):
        raise Violation(name + "_names", "%s instead of %s" % (sorted(have), sorted(want)))
    for k, v in want.items():
        close("%s.%s" % (name, k), np.asarray(have[k], float), np.asarray(v, float), 1e-9)


class Item:
    """A model, the parameters the user set last, and possibly a problem using it"""

    def __init__(self, spec):
        self.spec = copy.deepcopy(spec)
        self.kind = spec["kind"]
        self.model = models.make_model(self.kind, "custom", spec["params"])
        self.want = dict(self.spec["params"])
        self.world = None
        self.made = None


class Bench:
    def __init__(self, ctx, s, specs):
        self.ctx, self.s = ctx, s
        self.items = [Item(sp) for sp in specs]
        self.serial = 0
        self.check_values = True

    # ------------------------------------------------------------------ parameters
    def tree(self, it, P):
        """A parameter tree with these parameters, made by the user"""
        t = it.model.get_recursive_default_params()
        for k, v in P.items():
            t.set_param(k, np.array(v) if isinstance(v, list) else v)
        return t

    def check_params(self, tag=""):
        for n, it in enumerate(self.items):
            check_tree("params", it.model.get_recursive_params(), it.want, "model %d %s" % (n, tag))
            for path in SUBMODELS.get(it.kind, ()):
                sub = it.model.get_submodel(path).get_recursive_params()
                want = {k[len(path) + 1:]: v for k, v in it.want.items() if k.startswith(path + ".")}
                check_tree("submodel_params", sub, want, path)

    # ------------------------------------------------------------------ operations
    def point(self, seed, n=None):
        r = np.random.RandomState(seed % (2 ** 32))
        shape = () if n is None else (n,)
        return r.uniform(-1, 1, shape + (3,)), r.uniform(-1, 1, shape + (2,)), r.uniform(0, 2, shape)

    def forward(self, it, seed):
        S, U, mesh = self.point(seed)
        out = it.model.forward(dict(zip(models.STATES, S)), dict(zip(models.INPUTS, U)), float(mesh))
        return out.states_dot, out.outputs

    def check_forward(self, it, seed, got, P=None):
        S, U, mesh = self.point(seed)
        xdot, y = models.ref_forward(it.kind, as_arrays(it.want if P is None else P), S, U, mesh)
        compare_dicts("states_dot", got[0], dict(zip(models.STATES, xdot)))
        compare_dicts("outputs", got[1], y)
        self.ctx.evals += 1

    def check_models(self, seed):
        """Every model and submodel gives its true values"""
        for it in self.items:
            self.check_forward(it, seed, self.forward(it, seed))
            for path in SUBMODELS.get(it.kind, ()):
                self.perform(["sub", self.items.index(it), path, seed, None])

    def check_worlds(self, seed):
        for it in self.items:
            if it.world is not None:
                it.world.check_all(seed)
                self.ctx.evals += 5

    def perform(self, op):
        """Run an operation. Returns (fault that was really injected or None, error or None).
        Results of successful operations are compared with the reference."""
        k, it = op[0], self.items[op[1]]
        fault = op[-1]
        fn = getattr(self, "_op_" + k)
        n0 = models.fired()
        err = fired = None
        check = None
        around = io = None
        if fault is not None and fault[0] == "line":
            around = lines.LineInterrupt(fault[1], LINE_FILES)
        elif fault is not None and fault[0] == "io":
            io = dict(fault[1])
            self.s.faults.append(io)
        elif fault is not None and fault[0] == "model":
            models.arm(fault[1])
        try:
            if around is not None:
                with around:
                    check = fn(it, *op[2:-1])
            else:
                check = fn(it, *op[2:-1])
        except Violation:
            raise
        except sim.SimCrash:
            raise
        except (Exception, KeyboardInterrupt) as e:
            err = e
        finally:
            models.disarm()
            if io is not None:
                self.s.faults.remove(io)
        if models.fired() != n0:
            fired = "model"
        elif io is not None and io.get("_fired"):
            fired = "io"
        elif around is not None and around.fired:
            fired = "line"
            self.ctx.ev("line", around.fired)
        elif fault is not None and fault[0] == "script" and err is not None:
            fired = "script"
        if err is None and check is not None and self.check_values:
            check()
        if fired:
            self.ctx.fault("%s_fault_in_%s" % (fired, k))
        return fired, err

    def _op_forward(self, it, seed):
        got = self.forward(it, seed)
        return lambda: self.check_forward(it, seed, got)

    def _op_sub(self, it, path, seed):
        X = sub_inputs(path, seed)
        m = it.model.get_submodel(path)
        if path == "body":
            out = m.forward({"p": X["p"], "v": X["v"]}, {"u": X["u"], "w": X["w"]}, 0.3)
            xdot = out.states_dot
        else:
            out, xdot = m.forward(dict(X)), {}
        y = out.outputs

        def check():
            wd, wy = ref_sub(path, as_arrays(it.want), X, it.kind)
            compare_dicts("sub_states_dot", xdot, wd)
            compare_dicts("sub_outputs", y, wy)
            self.ctx.evals += 1
        return check

    def _arrays(self, it, out, seed, P):
        names = it.model.get_group_names("outputs")
        got = (dict(zip(models.STATES, np.ravel(out.states_dot))), dict(zip(names, np.ravel(out.outputs))))
        return lambda: self.check_forward(it, seed, got, P)

    def _op_arrays(self, it, seed):
        S, U, mesh = self.point(seed)
        out = it.model.forward_with_arrays(S, U, float(mesh))
        return lambda: self._arrays(it, out, seed, it.want)()

    def _op_apply(self, it, P, seed):
        S, U, mesh = self.point(seed)
        out = it.model.apply_and_forward_with_arrays(S, U, float(mesh), self.tree(it, P))
        return lambda: self._arrays(it, out, seed, P)()

    def _op_make(self, it, backend):
        it.model.make_model_algebra_cons(backend)
        it.made = backend

    def _op_batched(self, it, backend, n, seed):
        if it.made is None:
            self._op_make(it, backend)
        S, U, mesh = self.point(seed, n)
        out = it.model.batched_forward(S, U, mesh, it.model.get_recursive_params())

        def check():
            xdot, y = models.ref_forward(it.kind, as_arrays(it.want), S, U, mesh)
            names = it.model.get_group_names("outputs")
            close("batched_states_dot", np.asarray(out.states_dot), xdot, 1e-9)
            close("batched_outputs", np.asarray(out.outputs), np.stack([y[x] for x in names], -1), 1e-9)
            self.ctx.evals += 1
        return check

    def _op_export(self, it, castype):
        import casadi
        self.serial += 1
        name = "export_%d.c" % self.serial
        it.model.export_c_code(name, CasType=getattr(casadi, castype))

        def check():
            with sim.R["fopen"](name) as f:
                fns = sim.REGISTRY.get(sim._sha(f.read()))
            if not fns or "forward" not in fns:
                return
            S, U, mesh = self.point(self.serial)
            flat, _ = it.model.get_recursive_params().tree_ravel()
            xdot, y = models.ref_forward(it.kind, as_arrays(it.want), S, U, mesh)
            out = fns["forward"](S, U, float(mesh), np.asarray(flat, float))
            names = it.model.get_group_names("outputs")
            close("exported_states_dot", np.ravel(out[0]), xdot, 1e-9)
            close("exported_outputs", np.ravel(out[1]), np.array([y[x] for x in names]), 1e-9)
            self.ctx.evals += 1
        return check

    def _op_build(self, it, logging_config=None):
        spec = dict(it.spec, params=dict(it.want))
        p = world.build(spec, logging_config, model=it.model)
        it.made = spec["backend"]
        it.world = World(spec, logging_config, problem=p)

    def _op_eval(self, it, fn, seed):
        if it.world is None:
            self._op_build(it)
        w = it.world
        x = w.point(seed)
        got, _ = world.evaluate(w.problem, fn, x.copy(), seed)
        return lambda: w.compare(fn, x, seed, got)

    def _op_solve(self, it, call):
        if it.world is None:
            self._op_build(it)
        out = solves.solve(it.world, copy.deepcopy(call))
        if out.error is not None:
            raise out.error

        def check():
            solves.check_inputs(it.world, out)
            solves.check_result(it.world, out)
        return check


def check_tree(name, tree, want, where=""):
    flat, _ = tree.to_flat_dict()
    if set(flat) != set(want):
        raise Violation(name, "%s: names %s instead of %s" % (where, sorted(flat), sorted(want)))
    for k, v in want.items():
        have = flat[k]
        try:
            have = np.asarray(have, dtype=float)
            ok = np.array_equal(have, np.asarray(v, float))
        except Exception:
            ok = False
        if not ok:
            raise Violation(name, "%s: %s is %r instead of %r" % (where, k, flat[k], v))
