"""C12: every solve is independent and in the user's units."""
import copy

import numpy as np

from dst import changes, solves, world
from dst.world import Violation, World

ID = "C12"
RUNS_QUICK = 1300
RULE = ("Each run performs a random sequence of solves (different options, multipliers, initial "
        "guesses, ends of the solver, also solves of a second problem nested in a callback and "
        "solves that the solver fails) and changes of settings on one or two problems; the "
        "bounds, initial guess, multipliers and options the solver received, and the solution "
        "and report returned, are compared with the current settings and with the solver's own "
        "record. A run is non-trivial when a solve was checked after another solve.")
REAL = ["lumos problems and solve", "file system (scratch directory)"]
STUB = ["IPOPT (scripted solver with its callback protocol)", "gcc for casadi problems"]
ASSUMPTIONS = ["the scripted solver follows the callback protocol recorded from IPOPT 3.11"]
MUST_HIT = ("solver_error", "nested_solve", "no_iteration", "aborted", "no_objective")


def gen(r, index, tier):
    specs = [world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.8, 0.18, 0.02])[0],
                            small=True) for _ in range(r.choice([1, 1, 2]))]
    cur = [copy.deepcopy(s) for s in specs]
    ops = []
    for _ in range(r.randint(3, 8 if tier == "quick" else 16)):
        i = r.randrange(len(specs))
        u = r.random()
        if u < 0.35:
            op = changes.gen_change(r, cur[i])
            cur[i] = changes.apply_to_spec(cur[i], op)
            ops.append(["change", i, op])
            continue
        if r.random() < 0.06:  # a feasibility problem
            for name in sorted(cur[i]["objectives"]):
                op = ["del_obj", name, True]
                cur[i] = changes.apply_to_spec(cur[i], op)
                ops.append(["change", i, op])
        call = solves.gen_call(r)
        kind = "solve"
        if u < 0.42:
            call["script"]["status"] = -13
        elif u < 0.47:
            call["script"].update(no_iter=True, iters=[], status=-10)
        elif u < 0.54:
            call["script"]["abort"] = {"at": r.randint(0, 25), "kind": r.choice(["error", "interrupt"])}
        elif u < 0.64 and len(specs) > 1:
            kind = "nested"
            call["script"]["iters"] = call["script"]["iters"] or [{"ls": 1}]
            ops.append([kind, i, call, r.randint(0, 3), solves.gen_call(r)])
            continue
        ops.append([kind, i, call])
    ops.append(["solve", 0, solves.gen_call(r)])
    return {"specs": specs, "ops": ops, "log": r.random() < 0.3, "nth": r.choice([0, 1, 2]),
            "seed": r.randrange(1 << 30)}


def baseline(spec):
    """Options of a first solve without any user's options"""
    w = World(spec)
    call = {"script": {"seed": 1, "iters": []}, "options": {}, "guess": "given", "lagrange": False,
            "zl": False, "zu": False, "pos": False, "seed": 1}
    out = solves.solve(w, call)
    if out.error is not None:
        raise out.error
    return dict(out.nlp.options)


def check_options(base, out):
    for k, v in out.nlp.options.items():
        if k not in out.options and (k not in base or base[k] != v):
            raise Violation("option_leak", "%s is %r, default %r" % (k, v, base.get(k)))
    for k in base:
        if k not in out.nlp.options:
            raise Violation("option_missing", k)


def check_solve(w, base, out, ctx):
    script = out.nlp.script if out.nlp is not None else {}
    if out.nlp is None:
        raise out.error
    solves.check_inputs(w, out)
    check_options(base, out)
    if not w.spec["objectives"]:
        ctx.fault("no_objective")
        for kind, v in out.values:
            if kind in ("f", "g") and np.any(v):
                raise Violation("no_objective", "callback %s returned %r" % (kind, v))
    ctx.evals += 1
    if script.get("abort", {}).get("_done"):
        if out.error is None:
            raise Violation("error_swallowed", "an error in a callback didn't reach the caller")
        if not isinstance(out.error, (solves.sim.InjectedError, solves.sim.InjectedInterrupt)):
            raise Violation("error_replaced", "%r" % out.error)
        ctx.fault("aborted")
        return
    if script.get("status", 0) == -13:
        ctx.fault("solver_error")
        if out.error is None:
            raise Violation("solver_error_returned", "status -13 was returned as a solution")
        return
    if out.error is not None:
        raise out.error
    if script.get("no_iter"):
        ctx.fault("no_iteration")
    solves.check_result(w, out)
    ctx.value("sol", out.sol)


def run(plan, ctx):
    from lumos.optimal_control.config import LoggingConfig
    with ctx.inline() as s:
        base = baseline(plan["specs"][0])
        worlds = []
        for k, spec in enumerate(plan["specs"]):
            lc = LoggingConfig("run%d" % k, ctx.root + "/results", plan["nth"]) if plan["log"] else None
            worlds.append(World(spec, lc))
        bases = [dict(base, hessian_approximation=sp["hess"]) for sp in plan["specs"]]
        done = 0
        for op in plan["ops"]:
            w = worlds[op[1]] if op[1] < len(worlds) else None
            if w is None:
                continue
            ctx.ev(op[0], op[1], op[2])
            if op[0] == "change":
                if changes.applicable(w.spec, op[2]):
                    w.apply(op[2])
                continue
            hooks = {}
            if op[0] == "nested":
                other = worlds[(op[1] + 1) % len(worlds)]
                state = {"n": 0}

                def on_iter(nlp, args, other=other, op=op, state=state):
                    if state["n"] == op[3]:
                        state["n"] += 1
                        inner = solves.solve(other, op[4])
                        check_solve(other, bases[worlds.index(other)], inner, ctx)
                        ctx.fault("nested_solve")
                    state["n"] += 1

                if other is not w:
                    hooks["on_iter"] = on_iter
                    # both would write the same file: the solver's own, not lumos'
                    op[4]["options"]["output_file"] = "inner.txt"
            out = solves.solve(w, op[2], hooks)
            check_solve(w, bases[op[1]], out, ctx)
            if done:
                ctx.nontrivial = True
            done += 1
            if plan["log"] and out.error is None:
                solves.check_log(w, out, w.problem.logging_dir, plan["nth"], ctx)
