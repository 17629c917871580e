"""Independent numpy definition of the optimal control problem (the oracle).

Spec: a plain dictionary with the settings the problem is supposed to have.
"""
import numpy as np

from dst import models

NS, NU = 3, 2


def transcription(name, stages):
    """A, B and the stage points in [0, 1] of a scheme, computed independently."""
    if name == "ForwardEuler":
        return np.array([[-1.0, 1.0]]), np.array([[1.0, 0.0]]), np.array([0.0, 1.0])
    if name == "Trapezoidal":
        return np.array([[-1.0, 1.0]]), np.array([[0.5, 0.5]]), np.array([0.0, 1.0])
    n = stages - 1
    pts = lgr_points(n)  # in (0, 1], includes 1
    support = np.insert(pts, 0, 0.0)
    if name == "LGR":
        A = lagrange_diff(support, pts)
        B = np.hstack([np.zeros((n, 1)), np.eye(n)])
        return A, B, support
    if name == "LGRIntegral":
        A = np.hstack([-np.ones((n, 1)), np.eye(n)])
        return A, lagrange_int(support, pts), support
    raise ValueError(name)


def lgr_points(n):
    """Flipped Legendre-Gauss-Radau points mapped to (0, 1], with 1 included."""
    from numpy.polynomial import legendre as L
    c = np.zeros(n + 1)
    c[n] = 1.0
    c[n - 1] += 1.0
    r = np.sort(L.legroots(c).real)  # roots of P_{n-1} + P_n, includes -1
    # polish (numpy's roots are good to 1e-12 or so)
    for _ in range(3):
        r[1:] -= L.legval(r[1:], c) / L.legval(r[1:], L.legder(c))
    r[0] = -1.0
    flipped = np.sort(-r)
    return (flipped + 1) / 2


def _basis(support):
    polys = []
    for j in range(len(support)):
        p = np.poly1d([1.0])
        for i, s in enumerate(support):
            if i != j:
                p = p * np.poly1d([1.0, -s]) / (support[j] - s)
        polys.append(p)
    return polys


def lagrange_diff(support, pts):
    return np.array([[p.deriv()(t) for p in _basis(support)] for t in pts])


def lagrange_int(support, pts):
    return np.array([[p.integ()(t) - p.integ()(0.0) for p in _basis(support)] for t in pts])


class Reference:
    def __init__(self, spec):
        self.s = spec
        tname, tst = spec["transcription"]
        self.A, self.B, self.points = transcription(tname, tst)
        self.nspi = len(self.points)
        self.ni = spec["num_intervals"]
        self.nst = self.ni * (self.nspi - 1) + 1
        self.con_outputs = tuple(spec["con_outputs"])
        self.nc = len(self.con_outputs)
        self.nvs = NS + NU + NS + self.nc
        self.has_scale_var = spec["mesh_scale"] is None
        self.n = self.nst * self.nvs + (1 if self.has_scale_var else 0)
        self.names = ([("states", n) for n in models.STATES] + [("inputs", n) for n in models.INPUTS]
                      + [("states_dot", n) for n in models.STATES]
                      + [("con_outputs", n) for n in self.con_outputs])
        K = models.KINDS[spec["kind"]]
        self.residuals = K["residuals"]
        self.P = {k: (np.asarray(v, float) if isinstance(v, list) else v) for k, v in spec["params"].items()}

    # ------------------------------------------------------------------ settings
    def interval_points(self):
        ip = self.s.get("interval_points")
        return np.linspace(0, 1, self.ni + 1) if ip is None else np.asarray(ip, float)

    def normalized_mesh(self):
        ip = self.interval_points()
        out = [ip[0]]
        for i in range(self.ni):
            out.extend(ip[i] + self.points[1:] * (ip[i + 1] - ip[i]))
        return np.array(out)

    def interval_lengths(self):
        return np.diff(self.interval_points())

    def index(self, group, name, stage=None):
        if group == "global":
            return np.array([self.n - 1])
        k = self.names.index((group, name))
        idx = k + np.arange(self.nst) * self.nvs
        return idx if stage is None else np.array([idx[stage % self.nst]])

    def scale_vec(self):
        s = np.ones(self.n)
        for (g, n), v in self.s["scales"].items():
            s[self.index(g, n)] = v
        return s

    def bounds(self):
        """Bounds by replaying the accepted settings in order"""
        lb, ub = -np.inf * np.ones(self.n), np.inf * np.ones(self.n)
        bcs = []

        def set_one(g, n, stage, val):
            idx = self.index(g, n, stage)
            if isinstance(val, (tuple, list)):
                lo, hi = val
            else:
                lo = hi = val
            lb[idx], ub[idx] = lo, hi

        for entry in self.s["bound_log"]:
            if entry[0] == "bounds":
                for g, n, val in entry[1]:
                    set_one(g, n, None, val)
                for g, n, stage, val in bcs:
                    set_one(g, n, stage, val)
            elif entry[0] == "bcs":
                bcs.extend(entry[1])
                for g, n, stage, val in bcs:
                    set_one(g, n, stage, val)
            elif entry[0] == "direct":
                for g, n, stage, val in entry[1]:
                    set_one(g, n, stage, val)
        return lb, ub

    def cyclic_names(self):
        return [(g, n) for g, n in self.names[:NS + NU]
                if "%s.%s" % (g, n) not in self.s["non_cyclic"]]

    # --------------------------------------------------------------- functions
    def split(self, x):
        """x (..., n) unscaled -> states, inputs, states_dot, con_outputs, mesh scale"""
        body = x[..., :self.nst * self.nvs].reshape(x.shape[:-1] + (self.nst, self.nvs))
        S, U = body[..., :NS], body[..., NS:NS + NU]
        D, C = body[..., NS + NU:2 * NS + NU], body[..., 2 * NS + NU:]
        T = x[..., -1] if self.has_scale_var else np.full(x.shape[:-1], self.s["mesh_scale"])
        return S, U, D, C, T

    def model(self, S, U, T):
        mesh = self.normalized_mesh() * T[..., None]
        return models.KINDS[self.s["kind"]]["ref"](self.P, S, U, mesh)

    def components(self, xs):
        """Scaled constraints by component, xs (..., n) scaled decision variables"""
        sc = self.scale_vec()
        x = xs * sc
        S, U, D, C, T = self.split(x)
        xdot, out = self.model(S, U, T)
        scales = self.s["scales"]
        ss = np.array([scales.get(("states", n), 1.0) for n in models.STATES])
        cs = np.array([scales.get(("con_outputs", n), 1.0) for n in self.con_outputs])
        lead = x.shape[:-1]
        con = [np.stack([out[n] for n in self.con_outputs], -1) - C] if self.nc else []
        con = [c / cs for c in con]
        res = np.stack([out[n] for n in self.residuals], -1)
        h = self.interval_lengths() * T[..., None]

        def cont(deriv):
            blocks = []
            for i in range(self.ni):
                a = i * (self.nspi - 1)
                sl = slice(a, a + self.nspi)
                blk = (np.einsum("kl,...ls->...ks", self.A, S[..., sl, :])
                       - np.einsum("kl,...ls->...ks", self.B, deriv[..., sl, :]) * h[..., i, None, None])
                blocks.append((blk / ss).reshape(lead + (-1,)))
            return np.concatenate(blocks, -1)

        comp = {}
        if self.s["condensed"]:
            stage = np.concatenate(con + [res], -1).reshape(lead + (-1,))
            comp["model_algebra"] = np.concatenate([cont(xdot), stage], -1)
        else:
            stage = np.concatenate([(xdot - D) / ss] + con + [res], -1).reshape(lead + (-1,))
            comp["model_algebra"] = stage
            comp["continuity"] = cont(D)
        if self.s["cyclic"]:
            first = np.concatenate([x[..., self.index(g, n, 0)] for g, n in self.cyclic_names()], -1)
            last = np.concatenate([x[..., self.index(g, n, -1)] for g, n in self.cyclic_names()], -1)
            comp["cyclic"] = first - last
        for name, sd in self.s.get("extra_cons", {}).items():
            comp[name] = extra_con(sd, self.n)(x)
        return comp

    def constraints(self, xs, order):
        comp = self.components(xs)
        return np.concatenate([comp[k] for k in order], -1)

    def objective(self, xs):
        x = xs * self.scale_vec()
        tot = 0.0
        for name, kind in self.s["objectives"].items():
            if kind == "time":
                if self.has_scale_var:
                    tot = tot + x[..., -1]
                else:
                    tot = tot + (x[..., self.index("states", "time", -1)[0]]
                                 - x[..., self.index("states", "time", 0)[0]])
            elif kind == "const":
                tot = tot + 0.0 * x[..., 0]
            else:
                tot = tot + quad_obj(kind, self.n)[0](x)
        return tot

    def gradient(self, xs):
        n = self.n
        X = xs[None, :] + 1e-30j * np.eye(n)
        return self.objective(X).imag / 1e-30 * np.ones(n)

    def jacobian(self, xs, order):
        X = xs[None, :] + 1e-30j * np.eye(self.n)
        return self.constraints(X, order).imag.T / 1e-30

    def hessian(self, xs, lam, sigma, order, h=1e-4):
        """Hessian of the Lagrangian. Central differences of complex step gradients."""
        n = self.n
        E = np.eye(n)
        H = np.zeros((n, n))
        step = h / self.scale_vec()  # the same steps in user's units for all scales
        for i in range(n):
            g = []
            for sgn in (1, -1):
                X = xs + sgn * step[i] * E[i] + 1e-30j * E
                L = self.constraints(X, order) @ lam + sigma * self.objective(X)
                g.append(L.imag / 1e-30)
            H[i] = (g[0] - g[1]) / (2 * step[i])
        return (H + H.T) / 2


# ------------------------------------------------- additional objectives/constraints
def quad_obj(seed, n):
    """sum w x_i^2 + b x_i x_i+1 + c sin(x_i), with a sparse or a dense Hessian"""
    r = np.random.RandomState(int(str(seed).split(":")[1]))
    w = r.uniform(0.1, 1, n)
    b = r.uniform(-1, 1, n - 1)
    c = r.uniform(-0.5, 0.5, n)
    dense = r.rand() < 0.3 and n < 60

    def f(x):
        return ((w * x ** 2).sum(-1) + (b * x[..., :-1] * x[..., 1:]).sum(-1)
                + (c * np.sin(x)).sum(-1))

    def grad(x):
        g = 2 * w * x + c * np.cos(x)
        g[:-1] += b * x[1:]
        g[1:] += b * x[:-1]
        return g

    i = np.arange(n)
    rows = np.concatenate([i, i[:-1], i[1:]])
    cols = np.concatenate([i, i[1:], i[:-1]])

    def hess(x):
        vals = np.concatenate([2 * w - c * np.sin(x), b, b])
        if not dense:
            return vals
        full = np.zeros((n, n))
        full[rows, cols] = vals
        return full.ravel()

    return f, grad, hess, None if dense else (rows, cols)


def extra_con(seed, n):
    """A small nonlinear constraint: g_j(x) = x_a x_b + w x_a^2 + 0.3 sin(x_a) - x_c"""
    a, b, c, w = _extra(seed, n)

    def f(x):
        return (x[..., a] * x[..., b] + w * x[..., a] ** 2 + 0.3 * np.sin(x[..., a])
                - x[..., c])

    return f


def _extra(seed, n, m=3):
    r = np.random.RandomState(int(str(seed).split(":")[1]))
    a = r.randint(0, n, m)
    b = (a + 1 + r.randint(0, n - 2, m)) % n
    c = (b + 1) % n
    c = np.where(c == a, (c + 1) % n, c)
    c = np.where(c == b, (c + 1) % n, c)
    return a, b, c, r.uniform(0.1, 1, m)


def make_extra_con(seed, n):
    from lumos.optimal_control.nlp import BaseConstraints
    a, b, c, w = _extra(seed, n)
    m = len(a)
    j = np.arange(m)

    def jac(x):
        return np.concatenate([x[b] + 2 * w * x[a] + 0.3 * np.cos(x[a]), x[a], -np.ones(m)])

    def hess(x, lam):
        return np.concatenate([(2 * w - 0.3 * np.sin(x[a])) * lam, lam, lam])

    if int(str(seed).split(":")[1]) % 4 == 0 and n < 60:  # without structures
        def dense_jac(x):
            full = np.zeros((m, n))
            full[np.concatenate([j, j, j]), np.concatenate([a, b, c])] = jac(x)
            return full.ravel()

        def dense_hess(x, lam):
            full = np.zeros((n, n))
            np.add.at(full, (np.concatenate([a, a, b]), np.concatenate([a, b, a])), hess(x, lam))
            return full.ravel()

        return BaseConstraints(num_in=n, num_con=m, constraints=extra_con(seed, n),
                               jacobian=dense_jac, hessian=dense_hess)
    return BaseConstraints(
        num_in=n, num_con=m, constraints=extra_con(seed, n), jacobian=jac, hessian=hess,
        jacobian_structure=(np.concatenate([j, j, j]), np.concatenate([a, b, c])),
        hessian_structure=(np.concatenate([a, a, b]), np.concatenate([a, b, a])),
    )


def make_quad_obj(seed, n):
    from lumos.optimal_control.nlp import BaseObjective
    f, g, h, st = quad_obj(seed, n)
    return BaseObjective(num_in=n, objective=f, gradient=g, hessian=h, hessian_structure=st)
