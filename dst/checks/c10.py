"""C10: each run and each solve has a log of its own."""
import copy
import os

from dst import changes, cluster, sim, solves, world
from dst.world import Violation, World

ID = "C10"
RUNS_QUICK = 700
RULE = ("Each run starts 1-4 simulated processes which create problems with the same or different "
        "log names in the same results directory, while the clock stands still, runs, or jumps "
        "back and forth, and solve them several times: completed, aborted in a callback, ended by "
        "the solver, by a failing write of the log or by the death of the process, with settings "
        "changed in between, under a random schedule of all file operations. All directories have "
        "to be different, and the log of every completed solve has to be exactly that of this "
        "solve, right away and at the end of the run. A run is non-trivial when two problems "
        "were created with the same name in the same second, or a solve followed another one.")
REAL = ["lumos problems, logging and solve", "pandas and pyarrow",
        "file system (scratch directory, with injected faults)"]
STUB = ["clock", "IPOPT (scripted solver with its callback protocol)"]
ASSUMPTIONS = ["processes are interleaved at system calls",
               "the file of the solver itself (output_file) is set by the user, one per process"]
MUST_HIT = ("same_name_same_second", "solve_after_completed", "solve_after_aborted", "crash_run",
            "solve_after_solver_error", "solve_after_log_fault", "two_problems_in_process", "interleaved",
            "clock_jump")


def gen_node(r, specs, names, tier):
    steps, cur = [], []
    for _ in range(r.choice([1, 1, 2, 3])):
        i = r.randrange(len(specs))
        steps.append(["create", i, r.choice(names), r.choice([0, 1, 1, 2])])
        cur.append(copy.deepcopy(specs[i]))
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.randrange(len(cur))
            if r.random() < 0.25:
                op = changes.gen_change(r, cur[k])
                cur[k] = changes.apply_to_spec(cur[k], op)
                steps.append(["change", k, op])
                continue
            call = solves.gen_call(r)
            call["options"]["output_file"] = ""
            u = r.random()
            if u < 0.2:
                call["script"]["abort"] = {"at": int(r.triangular(5, 40, 10)), "kind": r.choice(["error", "interrupt"])}
            elif u < 0.3:
                call["script"]["status"] = -13
            fault = None
            if r.random() < 0.2:
                fault = {"on": r.choice(["open_w", "write", "write", "remove", "read"]), "nth": r.randint(1, 8),
                         "path": "results", "kind": r.choice(["ENOSPC", "EIO", "interrupt", "crash"])}
            steps.append(["solve", k, call, fault])
    return steps


def gen(r, index, tier):
    specs = [world.gen_spec(r, backend="custom", small=True) for _ in range(r.choice([1, 2]))]
    names = r.choice([["lap"], ["lap"], ["lap", "lap_1"], ["a", "b"], ["x [1]", "x"]])
    n = r.choice([1, 2, 2, 3, 4])
    if index % 40 == 7:  # many logs of one name in one second
        names, many = names[:1], r.randint(12, 24)
        nodes = [{"steps": [["create", 0, names[0], 1] for _ in range(many // n + 1)], "after": []}
                 for k in range(n)]
        return {"specs": specs, "nodes": nodes, "clock": {"step": 0}, "faults": [], "switch_p": r.choice([0.1, 0.6]),
                "same_pid": r.random() < 0.4, "exists": r.random() < 0.5, "shuffle": True, "bufsize": 8192,
                "seed": r.randrange(1 << 30)}
    nodes = [{"steps": gen_node(r, specs, names, tier), "after": [j for j in range(k) if r.random() < 0.25]}
             for k in range(n)]
    clock = {"step": r.choice([0, 0, 0, 100, 30000, 400000])}
    if r.random() < 0.4:
        clock["jumps"] = {str(r.randint(1, 200)): r.choice([-1, 1]) * r.choice([500000, 1000000, 2000000, 3600000000])
                          for _ in range(3)}
    return {"specs": specs, "nodes": nodes, "clock": clock, "faults": [], "switch_p": r.choice([0.1, 0.3, 0.6, 0.9]),
            "same_pid": r.random() < 0.4, "exists": r.random() < 0.5, "shuffle": True, "bufsize": 8192,
            "seed": r.randrange(1 << 30)}


def lists(plan):
    return [("nodes",)] + [("nodes", k, "steps") for k in range(len(plan["nodes"]))] + [
        ("nodes", k, "steps", j, 2, "script", "iters") for k, nd in enumerate(plan["nodes"])
        for j, st in enumerate(nd["steps"]) if st[0] == "solve"]


def run(plan, ctx):
    from lumos.optimal_control.config import LoggingConfig
    sm = ctx.cluster(max_steps=20000)
    res = os.path.join(ctx.root, "results")
    if plan["exists"]:
        sim.R["mkdir"](res)
    created = []  # (directory, name, second, node)
    logs = {}  # directory -> (world copy, outcome, nth) of the last completed solve

    def body(k):
        def fn():
            mine = []
            for st in plan["nodes"][k]["steps"]:
                if st[0] == "create":
                    w = World(plan["specs"][st[1]], LoggingConfig(st[2], res, st[3]))
                    d = os.path.realpath(w.problem.logging_dir)
                    for other in created:
                        if other[0] == d:
                            raise Violation("shared_directory", "%s of processes %d and %d" % (
                                os.path.basename(d), other[3], k))
                        if other[1:3] == (st[2], sm.now_us // 1000000):
                            ctx.probe("same_name_same_second")
                            ctx.nontrivial = True
                    if not os.path.isdir(d):
                        raise Violation("no_directory", d)
                    if solves.log_files(d):
                        raise Violation("not_empty", "%s: %s" % (d, solves.log_files(d)))
                    created.append((d, st[2], sm.now_us // 1000000, k))
                    if mine:
                        ctx.probe("two_problems_in_process")
                    mine.append([w, d, st[3], None])
                    ctx.ev("create", k, os.path.basename(d))
                    continue
                if st[1] >= len(mine):
                    continue
                w, d, nth, before = mine[st[1]]
                if st[0] == "change":
                    if changes.applicable(w.spec, st[2]):
                        w.apply(st[2])
                        logs.pop(d, None)
                    continue
                f = None
                if st[3] is not None:
                    f = dict(st[3], node=k)
                    sm.faults.append(f)
                logs.pop(d, None)
                n_log = len(sm.log)
                call = copy.deepcopy(st[2])
                try:
                    out = solves.solve(w, call)
                finally:
                    if f is not None:
                        sm.faults.remove(f)
                fired = f is not None and f.get("_fired")
                ended = call["script"].get("abort", {}).get("_done")
                if before is not None:
                    ctx.probe("solve_after_" + before)
                    ctx.nontrivial = True
                if any(e[0] != k for e in sm.log[n_log:]):
                    ctx.probe("interleaved")
                how = ("log_fault" if fired else "solver_error" if call["script"].get("status") == -13
                       else "aborted" if out.error is not None else "completed")
                mine[st[1]][3] = how
                ctx.ev("solve", k, st[1], how)
                if out.error is not None:
                    if not (fired or how != "aborted" or ended or
                            isinstance(out.error, (sim.InjectedError, sim.InjectedInterrupt))):
                        raise out.error
                    continue
                frozen = World(w.spec, problem=w.problem)
                frozen.spec = copy.deepcopy(w.spec)
                solves.check_log(frozen, out, d, nth, ctx)
                logs[d] = (frozen, out, nth)
                ctx.value("sol", out.sol)
            return "done"
        return fn

    for k, nd in enumerate(plan["nodes"]):
        sm.add_node("p%d" % k, body(k), after=[a for a in nd["after"] if a < k],
                    pid=1000 if plan["same_pid"] else None)
    cluster.run_nodes(sm)
    for k, nd in enumerate(sm.nodes):
        ctx.ev("node", k, "crash" if nd.dead else nd.result)
        if nd.dead:
            ctx.probe("crash_run")
        elif nd.error is not None:
            raise nd.error
    # whatever the others did since, the logs are still those of their own solves
    for d, (w, out, nth) in sorted(logs.items()):
        solves.check_log(w, out, d, nth, ctx)
