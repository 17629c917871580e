"""Models used as workload (real lumos models), and their independent numpy definition.

Every model has fault points inside of forward: arm(k) makes the k-th following fault
point raise.
"""
import numpy as np

import lumos.numpy as lnp
from lumos.models.base import (
    Model, ModelReturn, StateSpaceModel, StateSpaceModelReturn, model_io, state_space_io,
)
from lumos.models.composition import ModelMaker

from dst import sim as simmod

# -------------------------------------------------------------------- fault points
_ARMED = {"n": None, "kind": "error", "hits": 0, "fired": 0, "tag": None}


def arm(spec):
    """spec: {"nth": k, "kind": "error"|"interrupt", "tag": optional}"""
    _ARMED.update(n=spec.get("nth", 1), kind=spec.get("kind", "error"), hits=0,
                  tag=spec.get("tag"))


def disarm():
    fired = _ARMED["n"] is None
    _ARMED["n"] = None
    return fired


def fired():
    return _ARMED["fired"]


def fault_point(tag):
    if _ARMED["n"] is None:
        return
    if _ARMED["tag"] is not None and _ARMED["tag"] != tag:
        return
    _ARMED["hits"] += 1
    if _ARMED["hits"] >= _ARMED["n"]:
        _ARMED["n"] = None
        _ARMED["fired"] += 1
        if _ARMED["kind"] == "interrupt":
            raise simmod.InjectedInterrupt("interrupt in the model at " + tag)
        if _ARMED["kind"] == "float":
            raise FloatingPointError("numerical error in the model at " + tag)
        raise simmod.InjectedError("failure in the model at " + tag)


# -------------------------------------------------------------------------- models
STATES = ("p", "v", "time")
INPUTS = ("u", "w")


@state_space_io(states=STATES, inputs=INPUTS, outputs=("acc", "en", "rs"), residuals=("rs",))
class DstFlat(StateSpaceModel):
    mesh_dependent = False
    switch = False
    terms, level = 0, None

    def __init__(self, params={}, model_config={}):
        super().__init__(model_config=model_config, params=params)

    @classmethod
    def get_default_params(cls):
        return {"k": 1.3, "m": 2, "c": np.array([0.4, 0.7])}

    def late_terms(self, c, u, q):
        if self.level is None:
            return c[0] * q * q
        return self.level[0] * (c[0] * q * q) + self.level[1] * (c[1] * u * q)

    def forward(self, states, inputs, mesh):
        if not isinstance(states, dict):
            # The mapped forward of the custom backend works on arrays
            return self.forward_with_arrays(states, inputs, mesh)
        fault_point("start")
        P = self._params
        p, v, q = states["p"], states["v"], states["time"]
        u, w = inputs["u"], inputs["w"]
        k, m, c = P["k"], P["m"], P["c"]
        acc = (u - k * p - c[0] * v * v * v + c[1] * w * q) / m
        if self.mesh_dependent:
            acc = acc + 0.3 * lnp.cos(2.0 * mesh) * v
        if self.switch:
            acc = acc + lnp.where(p > 0.5, c[0] * p * p * u, 0.0)
        for i in range(self.terms):
            acc = acc + 0.01 * lnp.sin((0.1 * i + 0.3) * p) * lnp.cos((0.2 * i - 0.7) * v)
        fault_point("middle")
        states_dot = self.make_dict(
            "states_dot", p=v + 0.1 * k * lnp.sin(q), v=acc, time=w * p - lnp.sin(k * q) + 0.5)
        outputs = self.make_dict(
            "outputs", acc=acc, en=0.5 * m * v * v + 0.5 * k * p * p,
            rs=u * w - self.late_terms(c, u, q))
        fault_point("end")
        return StateSpaceModelReturn(states_dot=states_dot, outputs=outputs)


@state_space_io(states=STATES, inputs=INPUTS, outputs=("acc", "en", "rs"), residuals=("rs",))
class DstMesh(DstFlat):
    mesh_dependent = True


@state_space_io(states=STATES, inputs=INPUTS, outputs=("acc", "en", "rs"), residuals=("rs",))
class DstSwitch(DstFlat):
    switch = True


# Versions of one model with a lot of code, and a few different numbers near its end. Their
# classes have the same name, as a model has that was edited between two runs.
LEVELS = {"long1": (1.25, 1.75), "long2": (1.75, 1.25), "long3": (1.25, 1.5)}


def _long(level):
    @state_space_io(states=STATES, inputs=INPUTS, outputs=("acc", "en", "rs"), residuals=("rs",))
    class DstLong(DstFlat):
        pass

    DstLong.terms, DstLong.level = 70, level
    return DstLong


@model_io(inputs=("x",), outputs=("val",))
class DstCoef(Model):
    @classmethod
    def get_default_params(cls):
        return {"a": 0.6, "b": 0.2}

    def forward(self, inputs):
        fault_point("coef")
        P = self._params
        return ModelReturn(outputs=self.make_dict("outputs", val=P["a"] + P["b"] * inputs["x"] * inputs["x"]))


@model_io(inputs=("x",), outputs=("val",))
class DstCoefB(Model):
    """Can take the place of DstCoef, with the same names and numbers"""

    @classmethod
    def get_default_params(cls):
        return {"a": 0.6, "b": 0.2}

    def forward(self, inputs):
        fault_point("coef")
        P, x = self._params, inputs["x"]
        return ModelReturn(outputs=self.make_dict("outputs", val=P["b"] + P["a"] * lnp.cos(x)))


@model_io(inputs=("dx",), outputs=("force",))
class DstDamper(Model):
    @classmethod
    def get_default_submodel_config(cls):
        return {"coef": "DstCoef"}

    @classmethod
    def get_default_params(cls):
        return {"gain": 0.9}

    def forward(self, inputs):
        fault_point("damper_start")
        c = self.call_submodel("coef", inputs=dict(x=inputs["dx"]))
        fault_point("damper_middle")
        force = self._params["gain"] * c.outputs["val"] * inputs["dx"]
        out = self.make_outputs_dict(force=force)
        fault_point("damper_end")
        return ModelReturn(outputs=out)


@model_io(inputs=("x",), outputs=("force", "pot"))
class DstSpring(Model):
    @classmethod
    def get_default_params(cls):
        return {"k": 1.1, "h": np.array([0.3, 0.05])}

    def forward(self, inputs):
        fault_point("spring")
        P, x = self._params, inputs["x"]
        return ModelReturn(outputs=self.make_dict(
            "outputs", force=P["k"] * x + P["h"][0] * x * x * x, pot=0.5 * P["k"] * x * x + P["h"][1]))


@state_space_io(states=("p", "v"), inputs=INPUTS, outputs=("acc", "rs"), residuals=("rs",))
class DstBody(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(model_config=model_config, params=params)

    @classmethod
    def get_default_submodel_config(cls):
        return {"spring": "DstSpring", "damper": "DstDamper"}

    @classmethod
    def get_default_params(cls):
        return {"m": 1.7}

    def forward(self, states, inputs, mesh):
        fault_point("body_start")
        s = self.call_submodel("spring", inputs=dict(x=states["p"]))
        fault_point("body_between")
        d = self.call_submodel("damper", inputs=dict(dx=states["v"]))
        fault_point("body_after")
        acc = (inputs["u"] - s.outputs["force"] - d.outputs["force"]) / self._params["m"]
        states_dot = self.make_dict("states_dot", p=states["v"], v=acc)
        outputs = self.make_outputs_dict(acc=acc, rs=inputs["u"] * inputs["w"] - 0.2 * states["p"])
        fault_point("body_end")
        return StateSpaceModelReturn(states_dot=states_dot, outputs=outputs)


@state_space_io(states=STATES, inputs=INPUTS, outputs=("tot",))
class DstNested(StateSpaceModel):
    def __init__(self, params={}, model_config={}):
        super().__init__(model_config=model_config, params=params)

    @classmethod
    def get_default_submodel_config(cls):
        return {"body": "DstBody"}

    @classmethod
    def get_default_params(cls):
        return {"r": 0.8}

    def forward(self, states, inputs, mesh):
        if not isinstance(states, dict):
            return self.forward_with_arrays(states, inputs, mesh)
        fault_point("start")
        b = self.call_submodel(
            "body", states=dict(p=states["p"], v=states["v"]), inputs=inputs, mesh=mesh)
        fault_point("middle")
        q = states["time"]
        states_dot = self.make_dict(
            "states_dot", p=b.states_dot["p"] + 0.1 * q * q, v=b.states_dot["v"],
            time=self._params["r"] + inputs["w"] * states["p"] * q)
        outputs = self.make_outputs_dict(tot=b.outputs["acc"] * states["v"] + self._params["r"] * q)
        fault_point("end")
        return StateSpaceModelReturn(states_dot=states_dot, outputs=outputs)


# ------------------------------------------------------ independent numpy definition
def _ref_flat(P, S, U, mesh, mesh_dependent=False, switch=False, terms=0, level=None):
    p, v, q = S[..., 0], S[..., 1], S[..., 2]
    u, w = U[..., 0], U[..., 1]
    k, m, c = P["k"], P["m"], P["c"]
    acc = (u - k * p - c[0] * v ** 3 + c[1] * w * q) / m
    if mesh_dependent:
        acc = acc + 0.3 * np.cos(2.0 * mesh) * v
    if switch:
        acc = acc + np.where(p.real > 0.5, c[0] * p * p * u, 0.0)
    for i in range(terms):
        acc = acc + 0.01 * np.sin((0.1 * i + 0.3) * p) * np.cos((0.2 * i - 0.7) * v)
    xdot = np.stack([v + 0.1 * k * np.sin(q), acc, w * p - np.sin(k * q) + 0.5], axis=-1)
    late = c[0] * q ** 2 if level is None else level[0] * c[0] * q ** 2 + level[1] * c[1] * u * q
    return xdot, {"acc": acc, "en": 0.5 * m * v ** 2 + 0.5 * k * p ** 2, "rs": u * w - late}


def _ref_nested(P, S, U, mesh, variant=False):
    p, v, q = S[..., 0], S[..., 1], S[..., 2]
    u, w = U[..., 0], U[..., 1]
    force = P["body.spring.k"] * p + P["body.spring.h"][0] * p ** 3
    pot = 0.5 * P["body.spring.k"] * p ** 2 + P["body.spring.h"][1]
    val = P["body.damper.coef.a"] + P["body.damper.coef.b"] * v ** 2
    if variant:
        val = P["body.damper.coef.b"] + P["body.damper.coef.a"] * np.cos(v)
    df = P["body.damper.gain"] * val * v
    acc = (u - force - df) / P["body.m"]
    xdot = np.stack([v + 0.1 * q ** 2, acc, P["r"] + w * p * q], axis=-1)
    return xdot, {
        "tot": acc * v + P["r"] * q, "body.acc": acc, "body.rs": u * w - 0.2 * p,
        "body.spring.force": force, "body.spring.pot": pot, "body.damper.force": df,
        "body.damper.coef.val": val,
    }


KINDS = {
    "flat": dict(cls=DstFlat, ref=_ref_flat, con_outputs=("acc", "en"), residuals=("rs",),
                 outputs=("acc", "en", "rs"), scalars=("k", "m"), arrays=("c",)),
    "mesh": dict(cls=DstMesh, ref=lambda *a: _ref_flat(*a, mesh_dependent=True),
                 con_outputs=("acc", "en"), residuals=("rs",), outputs=("acc", "en", "rs"),
                 scalars=("k", "m"), arrays=("c",)),
    "switch": dict(cls=DstSwitch, ref=lambda *a: _ref_flat(*a, switch=True),
                   con_outputs=("acc", "en"), residuals=("rs",), outputs=("acc", "en", "rs"),
                   scalars=("k", "m"), arrays=("c",)),
    "nested": dict(cls=DstNested, ref=_ref_nested,
                   con_outputs=("tot", "body.spring.pot", "body.damper.coef.val"),
                   residuals=("body.rs",),
                   outputs=("tot", "body.acc", "body.rs", "body.spring.force", "body.spring.pot",
                            "body.damper.force", "body.damper.coef.val"),
                   scalars=("r", "body.m", "body.spring.k", "body.damper.gain",
                            "body.damper.coef.a", "body.damper.coef.b"),
                   arrays=("body.spring.h",)),
}


# The same class with another submodel
KINDS["nestedb"] = dict(KINDS["nested"], ref=lambda *a: _ref_nested(*a, variant=True),
                        replace=("body.damper.coef", "DstCoefB"))

for _k, _level in LEVELS.items():
    KINDS[_k] = dict(cls=_long(_level), ref=lambda *a, _l=_level: _ref_flat(*a, terms=70, level=_l),
                     con_outputs=("acc", "en"), residuals=("rs",), outputs=("acc", "en", "rs"),
                     scalars=("k", "m"), arrays=("c",))


def _ref_implicit(kind, P, con_outputs, z, mesh):
    """Residual of one stage, z = [states, inputs, states_dot, con_outputs]"""
    K = KINDS[kind]
    ns, nu = 3, 2
    xdot, out = K["ref"](P, z[..., :ns], z[..., ns:ns + nu], mesh)
    parts = [xdot - z[..., ns + nu:2 * ns + nu]]
    if con_outputs:
        parts.append(np.stack([out[n] for n in con_outputs], -1) - z[..., 2 * ns + nu:])
    parts.append(np.stack([out[n] for n in K["residuals"]], -1))
    return np.concatenate(parts, axis=-1)


class CustomDerivatives:
    """Mixin: derivatives supplied by the user (numerically exact, complex step)"""

    kind = None

    def _dst_res(self, z, mesh, params):
        P, _ = params.to_flat_dict()
        return _ref_implicit(self.kind, P, self.names.con_outputs, z, mesh)

    def _dst_perm(self, n):
        return np.random.RandomState(n).permutation(n)

    def _implicit_jacobianstructure(self):
        # the flat variables are: states, inputs, states_dot, con_outputs
        ns, ni, nc = (self.get_num_vars(g) for g in ("states", "inputs", "con_outputs"))
        nr = self.get_num_vars("residuals")
        rows, cols = np.nonzero(np.ones((ns + nc + nr, ns + ni)))
        rows = np.concatenate([rows, np.arange(ns + nc)])
        cols = np.concatenate([cols, ns + ni + np.arange(ns + nc)])
        order = self._dst_perm(len(rows))
        return rows[order], cols[order]

    def _implicit_hessianstructure(self):
        nx = self.get_num_vars("states") + self.get_num_vars("inputs")
        rows, cols = np.nonzero(np.ones((nx, nx)))
        order = self._dst_perm(len(rows))
        return rows[order], cols[order]

    def _implicit_jac(self, flat_vars, mesh, params):
        fault_point("jac")
        n = len(flat_vars)
        z = np.asarray(flat_vars)[None, :] + 1e-30j * np.eye(n)
        jac = self._dst_res(z, mesh, params).imag.T / 1e-30
        rows, cols = self._implicit_jacobianstructure()
        return jac[rows, cols]

    def _implicit_hess(self, flat_vars, mesh, params, mult):
        fault_point("hess")
        n = len(flat_vars)
        h = 1e-4
        z0 = np.asarray(flat_vars)
        grads = []
        for s in (1, -1):
            z = z0 + s * h * np.eye(n)[:, None, :] + 1e-30j * np.eye(n)[None, :, :]
            grads.append((self._dst_res(z, mesh, params) @ mult).imag / 1e-30)
        hess = (grads[0] - grads[1]) / (2 * h)
        rows, cols = self._implicit_hessianstructure()
        return hess[rows, cols]


# argument order of the hessian in ConvConstraints is (vars, mult, mesh, params)
def _fix_hess(cls):
    orig = cls._implicit_hess
    cls._implicit_hess = lambda self, z, mult, mesh, params: orig(self, z, mesh, params, mult)
    return cls


@_fix_hess
@state_space_io(states=STATES, inputs=INPUTS, outputs=("acc", "en", "rs"), residuals=("rs",))
class DstFlatCustom(CustomDerivatives, DstFlat):
    kind = "flat"


@_fix_hess
@state_space_io(states=STATES, inputs=INPUTS, outputs=("acc", "en", "rs"), residuals=("rs",))
class DstMeshCustom(CustomDerivatives, DstMesh):
    kind = "mesh"


@_fix_hess
@state_space_io(states=STATES, inputs=INPUTS, outputs=("tot",))
class DstNestedCustom(CustomDerivatives, DstNested):
    kind = "nested"


KINDS["flat"]["custom"] = DstFlatCustom
KINDS["mesh"]["custom"] = DstMeshCustom
KINDS["nested"]["custom"] = KINDS["nestedb"]["custom"] = DstNestedCustom

for _c in (DstCoef, DstCoefB, DstDamper, DstSpring, DstBody):
    ModelMaker.add_to_registry(_c)


def model_class(kind, backend):
    return KINDS[kind]["custom"] if backend == "custom" else KINDS[kind]["cls"]


def make_model(kind, backend, params=None):
    cls = model_class(kind, backend)
    if "replace" in KINDS[kind]:
        path, name = KINDS[kind]["replace"]
        config = cls.get_recursive_default_model_config()
        config.replace_subtree(path, ModelMaker.make_config(name))
        m = cls(model_config=config)
        m.kind = kind
    else:
        m = cls()
    if params:
        tree = m.get_recursive_params()
        for k, v in params.items():
            tree.set_param(k, np.array(v) if isinstance(v, list) else v)
        m.set_recursive_params(tree)
    return m


def default_params(kind):
    m = make_model(kind, None)
    flat, _ = m.get_recursive_params().to_flat_dict()
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in flat.items()}


def ref_forward(kind, P, S, U, mesh):
    P = {k: (np.asarray(v) if isinstance(v, list) else v) for k, v in P.items()}
    return KINDS[kind]["ref"](P, S, U, mesh)
