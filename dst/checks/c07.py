"""C07: a model always runs the code compiled from itself."""
import copy

from dst import cluster, models, sim
from dst.world import Violation

ID = "C07"
RUNS_QUICK = 450
TIMEOUT = 240
RULE = ("Each run starts 2-5 simulated processes in one working directory, each building, using, "
        "rebuilding and exporting problems of the same or of different models, model versions, "
        "output selections and model solvers (most with the same function names and sizes), under "
        "a random schedule of all file operations, compiler steps and library loads, with "
        "colliding or distinct temporary names, a directory with files of earlier runs, and "
        "crashes or failures of some processes. Every function a process loads is compared with "
        "the independent definition of the model it was loaded for, right away and again later. "
        "A run is non-trivial when two processes compiled or loaded at interleaved times.")
REAL = ["lumos models, problems and model solver", "casadi (symbolic functions and evaluation)",
        "file system (scratch directory)", "a few runs: gcc and dlopen"]
STUB = ["gcc and dlopen: a library holds exactly the source it was compiled from, incomplete files "
        "cannot be loaded, a path already loaded by the process is not loaded again"]
ASSUMPTIONS = ["processes are interleaved at system calls, compiler steps and library loads"]
MUST_HIT = ("late_difference", "same_model_twice", "other_model_same_size", "crash_run", "export", "solver", "real_cc")


LONG = ("long1", "long2", "long3")


def gen_member(r, pool):
    """A model of the pool, as it is or in another version"""
    s = copy.deepcopy(r.choice(pool))
    u = r.random()
    if u < 0.25:
        K = models.KINDS[s["kind"]]
        s["con_outputs"] = r.sample(list(K["con_outputs"]), r.randint(0, 2))
    elif u < 0.5 and s["kind"] in ("flat", "mesh", "switch"):
        s["kind"] = r.choice(["flat", "mesh", "switch"])
        if s["kind"] == "mesh" and s["mesh_scale"] is None:
            s["mesh_scale"] = 1.5
    elif u < 0.5 and s["kind"] in ("nested", "nestedb"):
        s["kind"] = r.choice(["nested", "nestedb"])
    elif u < 0.6:
        s["condensed"] = not s["condensed"]
    elif s["kind"] in LONG:
        s["kind"] = r.choice(LONG)
    return s


def gen(r, index, tier):
    pool = [cluster.gen_model(r) for _ in range(r.choice([1, 1, 2]))]
    if index % 9 == 4:  # versions that differ in a single number, far into the code
        pool = [cluster.gen_model(r, LONG)]
    nodes, n = [], r.choice([2, 2, 3, 3, 4, 5])
    for k in range(n):
        steps = []
        for _ in range(r.choice([1, 1, 2, 3])):
            u = r.random()
            if u < 0.74:
                steps.append(["build", gen_member(r, pool), r.randrange(1 << 30)])
            elif u < 0.84:
                kind = r.choice(["flat", "mesh", "switch", "nested", "nestedb"])
                steps.append(["solver", kind, models.default_params(kind), r.randrange(1 << 30)])
            else:
                s = r.choice(pool)
                steps.append(["export", s["kind"], r.choice(["nlpfunctions.c", "model.c"])])
        steps.append(["again", r.randrange(1 << 30)])
        nodes.append({"steps": steps, "after": [j for j in range(k) if r.random() < 0.12]})
    faults = []
    if r.random() < 0.35:
        f = {"node": r.randrange(n), "kind": r.choice(["crash", "crash", "crash_after", "EIO", "interrupt"]),
             "at": int(r.triangular(1, 60, 10))}
        faults.append(f)
        if r.random() < 0.5:
            faults.append({"on": r.choice(["cc_start", "cc_create", "cc_write"]), "nth": r.randint(1, 3),
                           "kind": r.choice(["crash", "fail"])})
    return {"nodes": nodes, "faults": faults, "switch_p": r.choice([0.1, 0.3, 0.6, 0.9]),
            "tmp_collide": r.random() < 0.3, "real_cc": index % 60 == 7, "cc_cut": r.choice([0.2, 0.5, 0.95]),
            "bufsize": r.choice([512, 8192]), "garbage": r.random() < 0.3, "same_pid": r.random() < 0.2,
            "seed": r.randrange(1 << 30)}


def lists(plan):
    return [("nodes",), ("faults",)] + [("nodes", k, "steps") for k in range(len(plan["nodes"]))]


def run(plan, ctx):
    if plan["garbage"]:
        for name, text in (("nlpfunctions.c", "garbage"), ("nlpfunctions.so", "garbage"), ("libnlp.so", "x"),
                           ("tmp.c", ""), ("a.out", "")):
            with sim.R["fopen"](name, "w") as f:
                f.write(text)
    sm = ctx.cluster(max_steps=6000)
    kinds = [st[1]["kind"] for nd in plan["nodes"] for st in nd["steps"] if st[0] == "build"]
    if len(kinds) != len(set(kinds)):
        ctx.probe("same_model_twice")
    if len({"flat", "mesh", "switch"} & set(kinds)) > 1:
        ctx.probe("other_model_same_size")
    if len(set(LONG) & set(kinds)) > 1:
        ctx.probe("late_difference")
    if plan["real_cc"]:
        ctx.probe("real_cc")

    def body(k):
        def fn():
            live = []
            for st in plan["nodes"][k]["steps"]:
                me = sm.current
                if st[0] == "build":
                    w = cluster.build(st[1])
                    live.append(w)
                    cluster.check_values(w, st[2], ctx)
                elif st[0] == "solver":
                    ctx.probe("solver")
                    cluster.solver_values(st[1], st[2], st[3], ctx)
                elif st[0] == "export":
                    ctx.probe("export")
                    models.make_model(st[1], "casadi").export_c_code(st[2])
                else:
                    for j, w in enumerate(live):
                        cluster.check_values(w, st[1] + j, ctx)
            return "done"
        return fn

    for k, nd in enumerate(plan["nodes"]):
        sm.add_node("p%d" % k, body(k), after=[a for a in nd["after"] if a < k],
                    pid=1000 if plan["same_pid"] else None)
    cluster.run_nodes(sm)
    hit = {e[0] for e in sm.log if e[1] == "FAULT"}
    cc_hit = any(sm.nodes[i].name.startswith("cc") for i in hit)
    for k in range(len(plan["nodes"])):
        nd = sm.nodes[k]
        ctx.ev("node", k, "crash" if nd.dead else type(nd.error).__name__ if nd.error else nd.result)
        if nd.error is not None and not nd.dead and k not in hit and not cc_hit:
            raise Violation("failed_without_fault", "process %d: %r" % (k, nd.error))
    if any(nd.dead for nd in sm.nodes):
        ctx.probe("crash_run")
    builders = {e[0] for e in sm.log if e[1] in ("dlopen", "cc_start", "open_w")}
    switches = sum(1 for e in sm.log if e[1] == "->")
    ctx.nontrivial = len(builders) > 1 and switches > 1
