"""C06: a failed model evaluation leaves no residue."""
from dst import bench, shipped, sim, world
from dst.world import Violation

ID = "C06"
RUNS_QUICK = 2000
TIMEOUT = 200
RULE = ("Each run evaluates composite models and their submodels, traces, compiles and exports "
        "them, builds problems with them, evaluates and solves these, with an error or interrupt "
        "injected at a random point inside of the models (before, between and after the calls of "
        "submodels), on entry of a random library function, or in the compilation. Every result "
        "of a successful operation, and after each failure the values of all models, submodels "
        "and problems, are compared with independent definitions. A run is non-trivial when an "
        "operation really failed before such a comparison.")
REAL = ["lumos models, problems and backends", "casadi and jax tracing", "file system (scratch directory)"]
STUB = ["IPOPT (scripted solver)", "gcc (the library holds the functions the code was generated from)"]
ASSUMPTIONS = []
MUST_HIT = ("model_fault_in_forward", "model_fault_in_sub", "model_fault_in_apply", "model_fault_in_make",
            "model_fault_in_export", "model_fault_in_build", "model_fault_in_eval",
            "model_fault_in_batched", "line_fault_in_forward", "line_fault_in_build", "io_fault_in_build",
            "shipped", "shipped_interrupt", "shipped_missing_input")
MIX = ["forward"] * 4 + ["sub"] * 3 + ["arrays"] * 2 + ["apply", "apply", "batched", "make", "export",
                                                       "build", "eval", "eval", "solve"]


def gen(r, index, tier):
    if index % 20 == 7:
        return shipped.gen(r, 0.5)
    specs = []
    for _ in range(r.choice([1, 1, 2])):
        specs.append(world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.6, 0.37, 0.03])[0],
                                    kinds=("nested", "nested", "nestedb", "flat", "mesh"), small=True))
    ops = []
    for _ in range(r.randint(3, 12 if tier == "quick" else 30)):
        i = r.randrange(len(specs))
        ops.append(bench.gen_ops(r, specs[i]["kind"], i, MIX, 0.02))
    return {"specs": specs, "ops": ops, "seed": r.randrange(1 << 30)}


def run(plan, ctx):
    if plan.get("kind") == "shipped":
        return shipped.run(plan, ctx)
    with ctx.inline() as s:
        b = bench.Bench(ctx, s, plan["specs"])
        for k, op in enumerate(plan["ops"]):
            if op[1] >= len(b.items):
                continue
            ctx.ev(*op)
            fired, err = b.perform(op)
            if err is not None:
                if not fired:
                    raise err
                ctx.ev("failed", fired, type(err).__name__)
                ctx.nontrivial = True
                # directly, without anything that could tidy up
                seed = plan["seed"] + k
                it = b.items[op[1]]
                if it.world is not None and seed % 3 == 0:
                    it.world.check_function("constraints", it.world.point(seed), seed)
                if seed % 2 == 0:
                    b.check_models(seed)
        b.check_worlds(plan["seed"])
        b.check_models(plan["seed"])
