"""A scripted stand-in for cyipopt.Problem / IPOPT.

It reproduces the callback protocol of IPOPT 3.11 behind cyipopt (recorded from the real
solver, see DESIGN.md): initial evaluations, trial points of the line search, accepted
points, restoration phase with its repeated iteration numbers, and the various ways to
end.  The script of each solve comes from the plan of the run, so that the simulator
decides which points are visited, which trials are rejected, where a callback is
interrupted, and how the solve ends.
"""
import os
import threading

import numpy as np

import cyipopt as _cy

_REAL = _cy.Problem

_LOCAL = threading.local()  # every simulated process (thread) has its own


def get_controller():
    """callable(problem) -> script, set by the run"""
    return getattr(_LOCAL, "controller", None)


def set_controller(fn):
    """Returns the previous one"""
    before = get_controller()
    _LOCAL.controller = fn
    return before


def make_problem(*args, **kwargs):
    if get_controller() is None:
        return _REAL(*args, **kwargs)
    return SimProblem(*args, **kwargs)


STATUS_MSG = {
    0: b"Algorithm terminated successfully at a locally optimal point, satisfying the convergence tolerances (can be specified by options).",
    1: b"Algorithm stopped at a point that was converged, not to \"desired\" tolerances, but to \"acceptable\" tolerances (see the acceptable-... options).",
    2: b"Algorithm converged to a point of local infeasibility. Problem may be infeasible.",
    -1: b"Maximum number of iterations exceeded (can be specified by an option).",
    -2: b"Restoration phase failed, algorithm doesn't know how to proceed.",
    -4: b"Maximum CPU time exceeded.",
    5: b"The user call-back function intermediate_callback (see Section 3.3.4) returned FALSE, i.e., the user code requested a premature termination of the optimization.",
    -10: b"Not enough degrees of freedom",
    -13: b"Algorithm received an invalid number (such as NaN or Inf) from the NLP; see also option check_derivatives_for_naninf.",
}


class SimProblem:
    def __init__(self, n, m, problem_obj=None, lb=None, ub=None, cl=None, cu=None):
        if not isinstance(n, int) or not n > 0:
            raise TypeError("n must be a positive integer")
        if not isinstance(m, int) or m < 0:
            raise TypeError("m must be zero or a positive integer")
        self.n, self.m, self.obj = n, m, problem_obj
        self.lb = np.array(lb, dtype=float).copy()
        self.ub = np.array(ub, dtype=float).copy()
        self.cl = np.array(cl, dtype=float).copy()
        self.cu = np.array(cu, dtype=float).copy()
        for a, k in ((self.lb, n), (self.ub, n), (self.cl, m), (self.cu, m)):
            if a.shape != (k,):
                raise ValueError("wrong size of the bounds")
        self.options = {}
        # as the real one, which asks for the structures on construction
        self.jac_struct = tuple(np.array(a) for a in problem_obj.jacobianstructure())
        self.hess_struct = tuple(np.array(a) for a in problem_obj.hessianstructure())
        self.script = get_controller()(self)
        self.calls = []  # record of (kind, x)
        self.accepted = []  # (iter_count, x)
        self.metrics = []

    def add_option(self, name, val):
        if not isinstance(name, str) or not isinstance(val, (str, int, float, np.integer, np.floating)):
            raise TypeError("Invalid option type")
        if name.startswith("invalid"):
            raise TypeError("Error while assigning an option")
        self.options[name] = val

    addOption = add_option

    # ----------------------------------------------------------------- callbacks
    def _point(self, rng, base):
        lo = np.where(np.isfinite(self.lb), self.lb, -np.inf)
        hi = np.where(np.isfinite(self.ub), self.ub, np.inf)
        step = rng.standard_normal(self.n) * self.script.get("step", 0.3) * (1 + np.abs(base)) * 0.2
        x = np.clip(base + step, lo, hi)
        return np.where(self.lb == self.ub, self.lb, x)

    def _call(self, kind, x):
        """One callback, on a fresh copy of the point, as cyipopt does."""
        idx = len(self.calls)
        self.calls.append((kind, x))
        abort = self.script.get("abort")
        if abort is not None and abort["at"] == idx and not abort.get("_done"):
            abort["_done"] = True
            hook = self.script.get("on_abort")
            if hook is not None:
                hook(abort)
            if abort.get("inside"):
                # raise from inside of the callback: the model fails (see models.FAIL)
                from dst import models
                models.arm(abort["inside"])
            else:
                from dst import sim
                if abort["kind"] == "interrupt":
                    raise sim.InjectedInterrupt("interrupt in %s" % kind)
                raise sim.InjectedError("error in %s" % kind)
        xc = np.array(x, dtype=float)
        o = self.obj
        if kind == "f":
            out = o.objective(xc)
            np.asarray(out, dtype=float).reshape(())
        elif kind == "g":
            out = np.asarray(o.gradient(xc), dtype=float)
            assert out.shape == (self.n,)
        elif kind == "c":
            out = np.asarray(o.constraints(xc), dtype=float)
            assert out.shape == (self.m,)
        elif kind == "J":
            out = np.asarray(o.jacobian(xc), dtype=float)
            assert out.shape == self.jac_struct[0].shape, "jacobian size"
        elif kind == "H":
            lam = self._rng.standard_normal(self.m)
            out = np.asarray(o.hessian(xc, lam, 1.0), dtype=float)
            assert out.shape == self.hess_struct[0].shape, "hessian size"
        else:
            raise AssertionError(kind)
        if self.script.get("on_call") is not None:
            self.script["on_call"](self, kind, x, out)
        return out

    def _intermediate(self, mode, it, x, ls):
        r = self._rng
        f = float(self.obj_value)
        args = (mode, it, f, float(abs(r.normal())), float(abs(r.normal())),
                float(10 ** r.uniform(-8, 0)), float(abs(r.normal())), 0.0,
                float(r.uniform(0, 1)), float(r.uniform(0, 1)), ls)
        if mode == 0 and self.metrics and self.metrics[-1][1] == it:
            pass  # repeated call at the end of the restoration phase
        else:
            self.metrics.append(args)
            self.accepted.append((it, np.array(x)))
        self.calls.append(("I", x))
        idx = len(self.calls) - 1
        abort = self.script.get("abort")
        if abort is not None and abort["at"] == idx and not abort.get("_done"):
            abort["_done"] = True
            if abort.get("inside"):
                from dst import models
                models.arm(abort["inside"])
            else:
                from dst import sim
                if abort["kind"] == "interrupt":
                    raise sim.InjectedInterrupt("interrupt in intermediate")
                raise sim.InjectedError("error in intermediate")
        ret = self.obj.intermediate(*args)
        if self.script.get("on_iter") is not None:
            self.script["on_iter"](self, args)
        return ret is None or bool(ret)

    # --------------------------------------------------------------------- solve
    def solve(self, x, lagrange=[], zl=[], zu=[]):
        s = self.script
        self.x0 = np.array(x, dtype=float).copy()
        self.lagrange0 = np.array(lagrange, dtype=float).copy()
        self.zl0 = np.array(zl, dtype=float).copy()
        self.zu0 = np.array(zu, dtype=float).copy()
        if self.x0.shape != (self.n,):
            raise ValueError("wrong size of the initial guess")
        for a, k in ((self.lagrange0, self.m), (self.zl0, self.n), (self.zu0, self.n)):
            if a.size not in (0, k):
                raise ValueError("wrong length of the multipliers")
        self._rng = np.random.default_rng(s.get("seed", 0))
        # solver's start point is moved inside of the bounds
        cur = np.clip(self.x0, self.lb, self.ub)
        self.final = cur
        status = s.get("status", 0)
        out_file = self.options.get("output_file")
        printing = int(self.options.get("print_level", 5)) >= 0 and out_file
        if printing:
            with open(out_file, "w") as fh:
                fh.write("This is Ipopt version 3.11.9\n")
        exact = self.options.get("hessian_approximation", "exact") == "exact"
        iters = s.get("iters", [])
        pending = None
        try:
            if not s.get("no_iter"):
                status = self._iterate(cur, iters, exact, status)
        except BaseException as e:  # cyipopt stores the exception and stops the solve
            pending = e
            status = 5
        if s.get("return") == "earlier" and pending is None and len(self.accepted) > 1:
            # acceptable point restored at the end
            k = s.get("return_idx", 0) % len(self.accepted)
            self.final = self.accepted[k][1]
        if printing and s.get("timing", True):
            t = s.get("times", (1.25, 0.5))
            with open(out_file, "a") as fh:
                fh.write("\nNumber of Iterations....: %d\n" % max(0, len(self.metrics) - 1))
                if self.options.get("print_timing_statistics", "no") == "yes":
                    fh.write("Total seconds in IPOPT (w/o function evaluations)  = %10.3f\n" % t[0])
                    fh.write("Total seconds in NLP function evaluations            = %10.3f\n" % t[1])
                fh.write("EXIT: done\n")
        if pending is not None:
            raise pending
        sol = np.array(self.final)
        self.solution = sol.copy()
        r = np.random.default_rng(s.get("seed", 0) + 1)
        info = {
            "x": sol, "g": np.zeros(self.m), "obj_val": s.get("obj_val", 1.5),
            "mult_g": r.standard_normal(self.m), "mult_x_L": r.standard_normal(self.n),
            "mult_x_U": r.standard_normal(self.n), "status": status,
            "status_msg": STATUS_MSG.get(status, b"?"),
        }
        self.info = dict(info)
        return sol, info

    def _iterate(self, cur, iters, exact, status):
        rng = self._rng
        # start
        self._call("g", cur)
        self._call("J", cur)
        self._call("c", cur)
        self._call("g", cur)
        self._call("J", cur)
        self.obj_value = self._call("f", cur)
        it = 0
        if not self._intermediate(0, 0, cur, 0):
            return 5
        for step in iters:
            it += 1
            if exact:
                self._call("H", cur)
            resto = step.get("resto", 0)
            if resto:
                # failing line search, then the restoration phase starts at the current
                # point, with metrics of the same point
                for _ in range(step.get("ls", 1)):
                    trial = self._point(rng, cur)
                    self._call("c", trial)
                    self._call("f", trial)
                self.obj_value = self._call("f", cur)
                self._call("c", cur)
                self._call("g", cur)
                self._call("J", cur)
                self._call("c", cur)
                self._call("J", cur)
                self.obj_value = self._call("f", cur)
                if not self._intermediate(1, it, cur, step.get("ls", 1)):
                    return 5
                for k in range(resto):
                    it += 1
                    n_trial = 1 + (k + step.get("ls", 1)) % 2
                    for j in range(n_trial):
                        trial = self._point(rng, cur)
                        self._call("c", trial)
                        self.obj_value = self._call("f", trial)
                    cur = self.final = trial
                    self._call("J", cur)
                    if not self._intermediate(1, it, cur, n_trial):
                        return 5
                # back to the regular mode, with the same iteration number
                self._call("g", cur)
                if not self._intermediate(0, it, cur, 0):
                    return 5
                continue
            n_trial = max(1, step.get("ls", 1))
            for j in range(n_trial):
                trial = self._point(rng, cur)
                self._call("c", trial)
                self.obj_value = self._call("f", trial)
                if step.get("soc") and j == 0 and n_trial > 1:
                    soc = self._point(rng, cur)
                    self._call("c", soc)
                    self._call("f", soc)
            cur = self.final = trial
            self._call("g", cur)
            self._call("J", cur)
            if not self._intermediate(0, it, cur, n_trial):
                return 5
        return status
