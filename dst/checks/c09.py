"""C09: the iteration log says what the solver did."""
import copy

from dst import changes, solves, world
from dst.world import World

ID = "C09"
RUNS_QUICK = 1200
RULE = ("Each run solves a logged problem one or more times with random line searches, rejected "
        "trial points, second order corrections, restoration phases, ends of the solver and "
        "returned points, random logging periods, random order of directory listings and "
        "changes of settings in between. All records of metrics_history.csv, all_iters.parquet "
        "and results.csv are compared with the solver's own history and an independent "
        "definition of the problem. A run is non-trivial when at least three iterations with a "
        "rejected trial point or a restoration phase were checked.")
REAL = ["lumos problems, logging and solve", "pandas and pyarrow", "file system (scratch directory)"]
STUB = ["IPOPT (scripted solver with its callback protocol)", "gcc for casadi problems",
        "order of directory listings (chosen by the simulator)"]
ASSUMPTIONS = ["the scripted solver follows the callback protocol recorded from IPOPT 3.11"]
MUST_HIT = ("restoration", "rejected_trials", "earlier_point_returned", "log_checked", "ten_iterations",
            "hundred_iterations")


def gen(r, index, tier):
    spec = world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.85, 0.13, 0.02])[0],
                          small=True)
    cur = copy.deepcopy(spec)
    ops = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if ops and r.random() < 0.6:
            op = changes.gen_change(r, cur)
            cur = changes.apply_to_spec(cur, op)
            ops.append(["change", op])
        call = solves.gen_call(r, long=True, resto_p=r.choice([0, 0.3, 0.8]))
        if r.random() < 0.3:  # two-digit iteration numbers
            call["script"]["iters"] += [{"ls": r.choice([1, 2])} for _ in range(r.randint(4, 9))]
        ops.append(["solve", call])
    if index % 40 == 23:  # three-digit iteration numbers
        ops = [op for op in ops if op[0] == "solve"][:1]
        ops[0][1]["script"]["iters"] += [{"ls": 1} for _ in range(r.randint(95, 115))]
        return {"spec": world.gen_spec(r, backend="custom", small=True), "ops": ops,
                "nth": r.choice([0, 1, 1, 2, 7, 10, 50, 100]), "shuffle": True, "name": "c09",
                "seed": r.randrange(1 << 30), "clock": {"step": 1000}}
    return {"spec": spec, "ops": ops, "nth": r.choice([0, 1, 1, 2, 3, 5, 100]), "shuffle": True,
            "name": r.choice(["c09", "c09", "lap [1]", "a*b?", "x.csv", "iter_1"]),
            "seed": r.randrange(1 << 30), "clock": {"step": r.choice([0, 1000, 700000])}}


def lists(plan):
    out = [("ops",)]
    for i, op in enumerate(plan["ops"]):
        if op[0] == "solve":
            out.append(("ops", i, 1, "script", "iters"))
    return out


def run(plan, ctx):
    from lumos.optimal_control.config import LoggingConfig
    with ctx.inline():
        w = World(plan["spec"], LoggingConfig(plan["name"], ctx.root + "/results", plan["nth"]))
        for op in plan["ops"]:
            ctx.ev(*op)
            if op[0] == "change":
                if changes.applicable(w.spec, op[1]):
                    w.apply(op[1])
                continue
            out = solves.solve(w, op[1])
            if out.error is not None:
                raise out.error
            solves.check_log(w, out, w.problem.logging_dir, plan["nth"], ctx)
            its = op[1]["script"]["iters"]
            n = sum(1 for x in its if x.get("resto"))
            k = sum(1 for x in its if x.get("ls", 1) > 1)
            ctx.fault("restoration", n)
            ctx.fault("rejected_trials", k)
            ctx.fault("earlier_point_returned", int(op[1]["script"].get("return") == "earlier"))
            if len(out.nlp.accepted) > 10:
                ctx.probe("ten_iterations")
            if len(out.nlp.accepted) > 100:
                ctx.probe("hundred_iterations")
            if n + k > 0 and len(out.nlp.accepted) > 2:
                ctx.nontrivial = True
            ctx.value("sol", out.sol)
