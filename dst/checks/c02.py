"""C02: a reconfigured problem equals a freshly built one."""
import copy

import numpy as np

from dst import changes, solves, twins, world
from dst.world import Violation, World

ID = "C02"
RUNS_QUICK = 900
TIMEOUT = 200
RULE = ("Each run changes the settings of a live problem in a random sequence (parameters, bounds, "
        "boundary conditions, scales, mesh, mesh scale, track, objectives, constraints), with "
        "evaluations, structure queries, profiling and simulated logged solves in between, and "
        "compares functions, structures, bounds, mesh and log with an independent definition of "
        "the resulting settings, and with a newly built problem. A run is non-trivial when at "
        "least one change was followed by a comparison after an evaluation before it.")
REAL = ["lumos problems, constraints, objectives, logging, models", "casadi code generation",
        "laptime and drone simulations, model solver, tracks (twin runs)"]
STUB = ["IPOPT (scripted solver)", "gcc (the library holds the functions the code was generated from)"]
ASSUMPTIONS = ["changed constraints are followed by set_cons(), as the library requires"]
MUST_HIT = ("twin_ltc", "twin_drone", "twin_solver", "twin_spec", "log_checked",
            "change_retrack")


FUNCTIONS = ("objective", "gradient", "constraints", "jacobian", "hessian")


def gen(r, index, tier):
    fam = r.choices(["spec", "ltc", "drone", "solver"], [0.82, 0.04, 0.06, 0.08])[0]
    ops = []
    n = r.randint(2, 8 if tier == "quick" else 20)
    if fam == "spec":
        spec = world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.75, 0.21, 0.04])[0],
                              kinds=("flat", "nested", "mesh", "switch"), small=tier == "quick")
        cur = copy.deepcopy(spec)
        for _ in range(n):
            u = r.random()
            if u < 0.15:
                for op in gen_back(r, cur):
                    cur = changes.apply_to_spec(cur, op)
                    ops.append(["change", op])
            elif u < 0.6:
                op = changes.gen_change(r, cur)
                cur = changes.apply_to_spec(cur, op)
                ops.append(["change", op])
            else:
                ops.append(gen_use(r))
        op = changes.gen_change(r, cur)
        ops.append(["change", op])
        return {"fam": fam, "spec": spec, "ops": ops, "final": solves.gen_call(r),
                "log": r.random() < 0.3, "nth": r.choice([0, 1, 2]), "seed": r.randrange(1 << 30)}
    s = twins.gen_settings(r, fam)
    cur = copy.deepcopy(s)
    for _ in range(n):
        if r.random() < 0.7:
            op = twins.gen_op(r, cur)
            cur = twins.on_settings(cur, op)
            ops.append(["change", op])
        else:
            ops.append(gen_use(r))
    call = solves.gen_call(r, status=False)
    if fam != "solver":
        call["guess"] = r.choice(["own", "given"])
    call["script"]["step"] = 0.03
    return {"fam": fam, "settings": s, "ops": ops, "final": call, "log": r.random() < 0.4,
            "nth": r.choice([0, 1, 2]), "seed": r.randrange(1 << 30)}


def gen_back(r, cur):
    """A part is replaced by another one of the same name, or comes back after the scales
    changed"""
    parts = ([("obj", n) for n in cur["objectives"] if n != "time" and len(cur["objectives"]) > 1]
             + [("con", n) for n in cur["extra_cons"]])
    if not parts:
        if len(cur["objectives"]) == 1:
            return [["add_obj", "extra", "quad:%d" % r.randrange(1000)]]
        return [["add_con", "con_a", "con:%d" % r.randrange(1000)]]
    k, n = r.choice(parts)
    old = cur["objectives"][n] if k == "obj" else cur["extra_cons"][n]
    if r.random() < 0.4:
        return [["del_" + k, n], ["add_" + k, n, "%s:%d" % (old.split(":")[0], r.randrange(1000))]]
    sc = ["scales", world.gen_scales(r, cur, r.choice([0.0, 0.0, 0.6]))]
    return [["del_" + k, n], sc, ["add_" + k, n, old]]


def gen_use(r):
    k = r.choice(["eval", "eval", "all", "struct", "solve", "profile", "again", "again"])
    if k == "again":
        return [k, r.choice(["physical", "scaled"]), r.choice(FUNCTIONS), r.randrange(1 << 30)]
    if k == "eval":
        return [k, r.choice(FUNCTIONS),
                r.randrange(1 << 30)]
    if k == "solve":
        return [k, solves.gen_call(r, status=False)]
    return [k, r.randrange(1 << 30)]


def lists(plan):
    return [("ops",), ("final", "script", "iters")]


def use(t, op, ctx, check):
    p, k = t.problem, op[0]
    if k == "eval":
        x = t.point(op[2]) if check else twins.point(t, op[2])
        if check:
            t.check_function(op[1], x, op[2])
            t.last = (x.copy(), x * t.ref.scale_vec())
        elif twins.has_objective(t):
            world.evaluate(p, op[1], x, op[2])
    elif k == "all":
        if check:
            t.check_all(op[1])
            t.last = (t.point(op[1]), t.point(op[1]) * t.ref.scale_vec())
        elif twins.has_objective(t):
            for fn in ("constraints", "jacobian", "hessian"):
                world.evaluate(p, fn, twins.point(t, op[1]), op[1])
    elif k == "again":
        if check:
            again(t, op[1], [op[2]], op[3])
    elif k == "struct":
        p.jacobianstructure()
        p.hessianstructure()
    elif k == "profile":
        if twins_ok(t, check):
            p.profile(t.point(op[1]) if check else twins.point(t, op[1]), repeat=1, hessian=op[1] % 2 == 0)
    elif k == "solve":
        if twins_ok(t, check):
            call = copy.deepcopy(op[1])
            call["script"]["step"] = min(call["script"]["step"], 1.0 if check else 0.03)
            out = solves.solve(t, call)
            if out.error is not None:
                raise out.error


def again(t, how, fns, seed):
    """At the same point as before the latest changes"""
    if getattr(t, "last", None) is None or (how == "scaled" and t.spec["kind"] == "switch"):
        return
    x = t.last[0].copy() if how == "scaled" else t.last[1] / t.ref.scale_vec()
    for fn in fns:
        t.check_function(fn, x, seed)


def twins_ok(t, check):
    return check or twins.has_objective(t)


def run(plan, ctx):
    from lumos.optimal_control.config import LoggingConfig
    with ctx.inline() as s:
        lc = LoggingConfig("live", ctx.root + "/results", plan["nth"]) if plan["log"] else None
        spec = plan["fam"] == "spec"
        if spec:
            w = World(plan["spec"], lc)
        else:
            w = twins.Twin(plan["settings"], ctx.root,
                           logging_config=lc if plan["fam"] != "solver" else None)
        used = False
        for op in plan["ops"]:
            ctx.ev(*op)
            if op[0] == "change":
                ok = changes.applicable(w.spec, op[1]) if spec else twins.applicable(w.settings, op[1])
                if ok:
                    w.apply(op[1])
                    ctx.probe("change_" + op[1][0])
                    ctx.nontrivial = ctx.nontrivial or used
            else:
                use(w, op, ctx, spec)
                used = True
        if spec:
            final_spec(plan, w, ctx)
        else:
            final_twin(plan, w, ctx)


def final_spec(plan, w, ctx):
    for how in ("physical", "scaled"):
        again(w, how, FUNCTIONS, plan["seed"])
    w.check_all(plan["seed"])
    ctx.evals += 5
    out = solves.solve(w, plan["final"])
    if out.error is not None:
        raise out.error
    solves.check_inputs(w, out)
    solves.check_result(w, out)
    if plan["log"]:
        solves.check_log(w, out, w.problem.logging_dir, plan["nth"], ctx)
    if w.spec["backend"] == "custom":
        fresh = fresh_world(w.spec)
        compare_fresh(w, fresh, plan["seed"])
        ctx.probe("twin_spec")
    ctx.value("sol", out.sol)


def fresh_world(spec):
    base = copy.deepcopy(spec)
    base["extra_cons"], base["objectives"] = {}, {"time": "time"}
    f = World(base)
    for n, sd in spec["extra_cons"].items():
        f.apply(["add_con", n, sd])
    for n, sd in spec["objectives"].items():
        if n != "time":
            f.apply(["add_obj", n, sd])
    if "time" not in spec["objectives"]:
        f.apply(["del_obj", "time"])
    elif spec["objectives"]["time"] != "time":
        f.apply(["del_obj", "time"])
        f.apply(["add_obj", "time", spec["objectives"]["time"]])
    return f


def compare_fresh(w, f, seed):
    """Structures (as sets, per component)"""
    a, b = w.problem, f.problem
    for k in ("jacobianstructure", "hessianstructure"):
        sets = []
        for p in (a, b):
            rows, cols = getattr(p, k)()
            rows, cols = np.ravel(rows).astype(int), np.ravel(cols).astype(int)
            if k == "jacobianstructure":
                names = [None] * p.num_con
                for n, idx in p.split_constraints(np.arange(p.num_con)).items():
                    for j, i in enumerate(idx):
                        names[i] = (n, j)
                sets.append({(names[i], j) for i, j in zip(rows, cols)})
            else:
                sets.append(set(zip(rows, cols)))
        if sets[0] != sets[1]:
            raise Violation(k, "differs from a newly built problem: %s" % sorted(
                sets[0] ^ sets[1], key=str)[:5])


def final_twin(plan, w, ctx):
    from lumos.optimal_control.config import LoggingConfig
    lc = (LoggingConfig("fresh", ctx.root + "/results", plan["nth"])
          if plan["log"] and plan["fam"] != "solver" else None)
    f = w.fresh(lc)
    twins.compare(w, f, plan["seed"], ctx)
    if twins.has_objective(w):
        twins.compare_solves(w, f, plan["final"], ctx)
        if lc is not None:
            solves.compare_logs(solves.frames(w.problem.logging_dir),
                                solves.frames(f.problem.logging_dir))
