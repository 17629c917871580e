"""C13: an aborted solve leaves the problem usable."""
import copy
import os

import numpy as np

from dst import changes, lines, models, sim, solves, world
from dst.checks.c01 import LINE_FILES
from dst.world import Violation, World

ID = "C13"
RUNS_QUICK = 700
RULE = ("Each run solves a problem, with one or more of the solves ended early by an error or "
        "interrupt in a callback, inside of the model, at a random line of the library, by a "
        "failing read, write or removal of a log file, by a solver error or by invalid "
        "arguments. Afterwards the problem is compared with the reference, and the following "
        "solve with the same solve of a control problem that never had the aborted one (solver "
        "calls and results, options, solution, report and log files). A run is non-trivial when "
        "a solve was really ended early.")
REAL = ["lumos problems, logging and solve", "models", "pandas and pyarrow",
        "file system (scratch directory, with injected faults)"]
STUB = ["IPOPT (scripted solver with its callback protocol)", "gcc for casadi problems"]
ASSUMPTIONS = ["the scripted solver follows the callback protocol recorded from IPOPT 3.11"]
MUST_HIT = ("callback_error", "callback_interrupt", "model_error", "line_interrupt", "solver_error",
            "log_fault", "bad_arguments", "followup_checked", "user_stop")

HOW = ["callback", "callback", "model", "line", "log", "log", "solver", "args", "stop"]


def gen(r, index, tier):
    spec = world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.85, 0.13, 0.02])[0],
                          small=True)
    cur = copy.deepcopy(spec)
    ops = []
    for _ in range(r.randint(0, 2)):
        op = changes.gen_change(r, cur)
        cur = changes.apply_to_spec(cur, op)
        ops.append(["change", op])
    for k in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.25:
            ops.append(["solve", solves.gen_call(r)])
        how = r.choice(HOW)
        call = solves.gen_call(r)
        sc = call["script"]
        while len(sc["iters"]) < 2:
            sc["iters"].append({"ls": r.choice([1, 2])})
        extra = None
        if how in ("callback", "model"):
            sc["abort"] = {"at": int(r.triangular(0, 45, 5)), "kind": r.choice(["error", "interrupt"])}
            if how == "model":
                sc["abort"]["inside"] = {"nth": r.randint(1, 6),
                                         "kind": r.choice(["error", "interrupt", "float"])}
        elif how == "line":
            extra = int(2 ** r.uniform(0, 11))
        elif how == "log":
            extra = {"on": r.choice(["open_w", "write", "write", "read", "open_r", "remove", "scandir"]),
                     "nth": r.randint(1, 6), "path": "results/",
                     "kind": r.choice(["ENOSPC", "EIO", "EMFILE", "interrupt"])}
        elif how == "solver":
            sc["status"] = -13
        elif how == "stop":
            sc["status"] = 5
        else:
            extra = r.choice(["guess_size", "lagrange_size", "option", "option_type"])
        ops.append(["abort", how, call, extra])
        if r.random() < 0.3:
            op = changes.gen_change(r, cur)
            cur = changes.apply_to_spec(cur, op)
            ops.append(["change", op])
    final = solves.gen_call(r)
    return {"spec": spec, "ops": ops, "final": final, "nth": r.choice([0, 1, 1, 2, 3]),
            "log": r.random() < 0.9, "feas": r.random() < 0.08, "seed": r.randrange(1 << 30)}


def lists(plan):
    return [("ops",), ("final", "script", "iters")]


def make(plan, ctx, name):
    from lumos.optimal_control.config import LoggingConfig
    lc = LoggingConfig(name, ctx.root + "/results", plan["nth"]) if plan["log"] else None
    w = World(plan["spec"], lc)
    if plan["feas"]:
        w.problem.delete_objective("time")
    return w


def params_of(p):
    flat, _ = p.model.get_recursive_params().to_flat_dict()
    return {k: np.array(v, dtype=float) for k, v in flat.items()}


def check_unchanged(plan, w, seed, ctx):
    have = params_of(w.problem)
    for k, v in w.spec["params"].items():
        if k not in have:
            raise Violation("params", "%s is gone" % k)
        close_param(k, have[k], v)
    if not plan["feas"]:
        w.check_all(seed)
        ctx.evals += 5


def close_param(k, have, want):
    if not np.array_equal(np.asarray(have, float), np.asarray(want, float)):
        raise Violation("params", "%s is %r instead of %r" % (k, have, want))


def abort(plan, w, s, how, call, extra, ctx):
    """Returns True if the solve was really ended early"""
    import lumos.numpy as lnp
    if how == "line":
        li = lines.LineInterrupt(extra, LINE_FILES)
        out = solves.solve(w, call, around=li)
        if li.fired is None:
            return False
        ctx.ev("line", li.fired)
        if not isinstance(out.error, sim.InjectedInterrupt):
            raise Violation("error_lost", "interrupt in %s: %r" % (li.fired, out.error))
        ctx.fault("line_interrupt")
        return True
    if how == "log":
        f = dict(extra)
        s.faults.append(f)
        try:
            out = solves.solve(w, call)
        finally:
            s.faults.remove(f)
        if not f.get("_fired"):
            return False
        ctx.fault("log_fault")
        if f["on"] in ("open_w", "write") or f["kind"] == "interrupt":
            if out.error is None:
                raise Violation("error_lost", "failing %s of the log" % f["on"])
        return True
    if how == "args":
        if extra == "option":
            call["options"]["invalid_option"] = 1
        elif extra == "option_type":
            call["options"]["tol"] = [1, 2]
        n = w.problem.num_dec if extra == "guess_size" else w.problem.num_con
        saved = w.problem.get_init_guess
        kw = {}
        out = None
        before = solves.simipopt.set_controller(lambda p: dict(call["script"]))
        try:
            if extra == "guess_size":
                kw["init_guess"] = np.zeros(n + 1)
            elif extra == "lagrange_size":
                kw["lagrange"] = np.zeros(n + 1)
            if "init_guess" not in kw:
                kw["init_guess"] = solves.guess_for(w, 1)
            w.problem.solve(**kw, **call["options"])
            raise Violation("bad_arguments_accepted", extra)
        except (TypeError, ValueError, AssertionError, KeyError, IndexError) as e:
            ctx.ev("refused", type(e).__name__)
        finally:
            solves.simipopt.set_controller(before)
        ctx.fault("bad_arguments")
        return True
    n0 = models.fired()
    out = solves.solve(w, call)
    if out.nlp is None:
        raise out.error
    if how == "solver":
        ctx.fault("solver_error")
        if out.error is None:
            raise Violation("error_lost", "solver status -13")
        return True
    if how == "stop":
        ctx.fault("user_stop")
        if out.error is not None:
            raise out.error
        return True
    ab = out.nlp.script.get("abort", {})
    if how == "model":
        if models.fired() == n0:
            if out.error is not None:
                raise out.error
            return False
        ctx.fault("model_" + ab["inside"]["kind"])
        ok = (sim.InjectedError, sim.InjectedInterrupt, FloatingPointError)
        if not isinstance(out.error, ok):
            raise Violation("error_lost", "failure of the model: %r" % out.error)
        return True
    if not ab.get("_done"):
        return False
    ctx.fault("callback_" + ab["kind"])
    if not isinstance(out.error, (sim.InjectedError, sim.InjectedInterrupt)):
        raise Violation("error_lost", "%s in callback %d: %r" % (ab["kind"], ab["at"], out.error))
    return True


def run(plan, ctx):
    import lumos.numpy as lnp
    with ctx.inline() as s:
        w = make(plan, ctx, "subject")
        real = False
        for op in plan["ops"]:
            ctx.ev(*op)
            if op[0] == "change":
                if changes.applicable(w.spec, op[1]):
                    w.apply(op[1])
            elif op[0] == "solve":
                out = solves.solve(w, op[1])
                if out.error is not None:
                    raise out.error
            else:
                ended = abort(plan, w, s, op[1], copy.deepcopy(op[2]), op[3], ctx)
                if lnp.get_backend() != "numpy":
                    raise Violation("backend", "%s after an aborted solve" % lnp.get_backend())
                if ended:
                    ctx.nontrivial = real = True
                    check_unchanged(plan, w, plan["seed"], ctx)
        control = make(plan, ctx, "control")
        for op in plan["ops"]:
            if op[0] == "change" and changes.applicable(control.spec, op[1]):
                control.apply(op[1])
        outs = []
        for x in (w, control):
            np.random.seed(7)
            outs.append(solves.solve(x, plan["final"]))
        solves.compare_outcomes(*outs)
        if outs[0].error is not None:
            raise outs[0].error
        if plan["log"]:
            solves.compare_logs(solves.frames(w.problem.logging_dir),
                                solves.frames(control.problem.logging_dir))
            if not plan["feas"]:
                solves.check_log(w, outs[0], w.problem.logging_dir, plan["nth"], ctx)
        if not plan["feas"]:
            solves.check_inputs(w, outs[0])
            solves.check_result(w, outs[0])
        check_unchanged(plan, w, plan["seed"] + 1, ctx)
        ctx.probe("followup_checked", int(real))
        ctx.value("sol", outs[0].sol)
