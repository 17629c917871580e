"""C01: NLP evaluations depend only on the point, never on what happened before."""
import numpy as np

from dst import lines, models, sim, simipopt, twins, world
from dst.world import Violation, World

ID = "C01"
RUNS_QUICK = 1400
RULE = ("Each run builds one to three random problems (backend custom, casadi or jax; full or "
        "condensed; fixed or variable mesh; cyclic or not) and performs a random history of "
        "evaluations, caller-side modifications of arrays, failing, interrupted, malformed and "
        "NaN evaluations, profiling, evaluations of the other problems and of the batched "
        "model; every evaluation is compared with an independent numpy definition. A run is "
        "non-trivial when a valid evaluation was checked after a disturbance.")
REAL = ["lumos problems, constraints, objectives, condensing, mapped functions, models",
        "casadi code generation and virtual machine", "jax tracing and jit"]
STUB = ["gcc (the library holds the functions the code was generated from)"]
ASSUMPTIONS = ["models are smooth and deterministic", "one thread evaluates at a time"]
MUST_HIT = ("model_error", "model_interrupt", "line_interrupt", "cas_map_fault", "nan", "malformed",
            "twin_ltc", "twin_drone", "twin_solver")
FNS = ("objective", "gradient", "constraints", "jacobian", "hessian")
LINE_FILES = ("lumos/numpy/utils.py", "lumos/optimal_control/nlp.py",
              "lumos/optimal_control/convolution.py", "lumos/optimal_control/utils.py",
              "lumos/optimal_control/scaled_mesh_ocp.py", "lumos/optimal_control/fixed_mesh_ocp.py")


SIM_FILES = LINE_FILES + ("lumos/simulations/laptime_simulation.py",
                          "lumos/simulations/drone_simulation.py", "lumos/models/tracks.py",
                          "lumos/optimal_control/model_solver.py", "lumos/models/composition.py")


def gen(r, index, tier):
    if index % 14 == 5:
        return gen_twin(r, tier)
    nprob = r.choices([1, 2, 3], [0.6, 0.3, 0.1])[0]
    probs = []
    for k in range(nprob):
        if k and r.random() < 0.3:
            base = probs[r.randrange(k)]["spec"]
            probs.append({"spec": base, "share": r.random() < 0.5})
        else:
            kinds = ("flat", "nested", "mesh", "switch")
            probs.append({"spec": world.gen_spec(r, kinds=kinds, small=tier == "quick"), "share": False})
        adds = []
        while r.random() < 0.4 and len(adds) < 3:
            kind = r.choice(["obj", "con"])
            adds.append(["add_" + kind, "extra_%d" % len(adds), "%s:%d" % (
                "quad" if kind == "obj" else "con", r.randrange(1000))])
        probs[-1]["adds"] = adds
    ops = []
    mix = r.sample(["fail", "line", "map_fault", "nan", "malformed", "profile", "struct",
                    "batched", "buf", "repeat", "rebuild", "near", "near"], r.randint(2, 8))
    n = r.randint(4, 14 if tier == "quick" else 30)
    for _ in range(n):
        i = r.randrange(nprob)
        k = "eval" if r.random() < 0.45 else r.choice(mix)
        fn = r.choice(FNS)
        s = r.randrange(1 << 30)
        if k == "eval":
            ops.append(["eval", i, fn, s, r.choice(["", "", "arg", "ret", "both"])])
        elif k == "fail":
            ops.append(["fail", i, r.choice(FNS[2:]), s,
                        {"nth": r.randint(1, 12), "kind": r.choice(["error", "interrupt", "float"])}])
        elif k == "line":
            ops.append(["line", i, fn, s, int(2 ** r.uniform(0, 7.5))])
        elif k == "map_fault":
            ops.append(["map_fault", i, r.choice(FNS[2:] + ("batched",)), s,
                        r.choice(["cas_map", "cas_call"]), r.choice(["ENOMEM", "fail"])])
        elif k == "nan":
            ops.append(["nan", i, fn, s, r.choice(["nan", "inf", "huge"])])
        elif k == "malformed":
            ops.append(["malformed", i, fn, s, r.choice(["short", "long", "empty", "lam"])])
        elif k == "profile":
            ops.append(["profile", i, r.random() < 0.5, s])
        elif k == "struct":
            ops.append(["struct", i, r.choice(["jacobianstructure", "hessianstructure"])])
        elif k == "batched":
            ops.append(["batched", i, r.randint(1, 7), s])
        elif k == "rebuild":
            ops.append(["rebuild", i, r.random() < 0.5])
        elif k == "near":
            ops.append(["near", i, fn, s, r.choice(["all", "one", "last", "swap", "sign", "lam", "sigma"]),
                        r.choice([1e-9, 1e-7, 1e-6, 9e-6, 1e-4, 0.05, 0.4])])
        else:
            ops.append([k, i, fn, s])
    ops.append(["eval", 0, r.choice(FNS), r.randrange(1 << 30), ""])
    return {"probs": probs, "ops": ops, "seed": r.randrange(1 << 30), "cas_faults": True}


def gen_twin(r, tier):
    """The example simulations"""
    fams = r.choices([["ltc"], ["drone"], ["solver"], ["ltc", "ltc"], ["drone", "drone"],
                      ["ltc", "drone"], ["solver", "drone"]], [3, 3, 2, 1, 1, 1, 1])[0]
    probs = []
    for f in fams:
        s = twins.gen_settings(r, f)
        if f == "solver":
            s["objs"].append(["states", "v", 1.1])
        probs.append(s)
    mix = r.sample(["line", "map_fault", "nan", "malformed", "profile", "struct", "buf", "near",
                    "near", "rebuild"], r.randint(2, 6))
    ops = []
    for _ in range(r.randint(4, 12 if tier == "quick" else 30)):
        i, k = r.randrange(len(fams)), "eval" if r.random() < 0.5 else r.choice(mix)
        fn, s = r.choice(FNS), r.randrange(1 << 30)
        if k == "eval":
            ops.append([k, i, fn, s, r.choice(["", "", "arg", "ret", "both"])])
        elif k == "line":
            ops.append([k, i, fn, s, int(2 ** r.uniform(0, 7.5))])
        elif k == "map_fault":
            ops.append([k, i, r.choice(FNS[2:]), s, r.choice(["cas_map", "cas_call"]),
                        r.choice(["ENOMEM", "fail"])])
        elif k == "nan":
            ops.append([k, i, fn, s, r.choice(["nan", "inf", "huge"])])
        elif k == "malformed":
            ops.append([k, i, fn, s, r.choice(["short", "long", "empty", "lam"])])
        elif k == "profile":
            ops.append([k, i, r.random() < 0.5, s])
        elif k == "struct":
            ops.append([k, i, r.choice(["jacobianstructure", "hessianstructure"])])
        elif k == "near":
            ops.append([k, i, fn, s, r.choice(["all", "one", "last", "swap"]),
                        r.choice([1e-9, 1e-7, 1e-6, 9e-6, 1e-4, 0.05])])
        else:
            ops.append([k, i, fn, s])
    return {"twins": probs, "ops": ops, "seed": r.randrange(1 << 30), "cas_faults": True}


def simplify(plan):
    out = []
    if "twins" in plan:
        return out
    for k in range(len(plan["probs"])):
        for key, val in (("scales", []), ("bounds0", []), ("bcs0", []), ("interval_points", None),
                         ("cyclic", False), ("non_cyclic", []), ("con_outputs", [])):
            spec = plan["probs"][k]["spec"]
            if spec[key] != val and not plan["probs"][k]["share"]:
                import copy
                c = copy.deepcopy(plan)
                c["probs"][k]["spec"][key] = val
                if key == "con_outputs":
                    for kk in ("bounds0", "bcs0", "scales"):
                        c["probs"][k]["spec"][kk] = [e for e in spec[kk] if e[0] != "con_outputs"]
                if key == "cyclic":
                    c["probs"][k]["spec"]["non_cyclic"] = []
                out.append(c)
    return out


def make_worlds(plan, ctx):
    worlds = []
    for d in plan["probs"]:
        w = None
        if d["share"]:
            for o, od in zip(worlds, plan["probs"]):
                if od["spec"] == d["spec"]:
                    w = World(d["spec"], problem=world.build(
                        d["spec"], model=o.problem.model))
                    ctx.probe("shared_model")
                    break
        worlds.append(w or World(d["spec"]))
        for op in d.get("adds", []):
            worlds[-1].apply(op)
    return worlds


def hold(ctx, fn, got):
    """A result that the caller keeps must not change when something else is evaluated"""
    if isinstance(got, np.ndarray) and got.ndim:
        if not hasattr(ctx, "held"):
            ctx.held = []
        ctx.held.append((fn, got, got.copy()))


def drop_held(ctx, got):
    ctx.held = [h for h in getattr(ctx, "held", []) if h[1] is not got]


def check_held(ctx):
    for fn, got, keep in getattr(ctx, "held", []):
        if not np.array_equal(got, keep, equal_nan=True):
            raise Violation("result_changed_later", "a result of %s that was returned before" % fn)


def check_eval(w, fn, x, s, ctx, tag=""):
    keep = x.copy()
    got, args = world.evaluate(w.problem, fn, x, s)
    if not np.array_equal(x, keep, equal_nan=True):
        raise Violation("argument_modified", "%s modified the point it was given" % fn)
    ctx.value(fn, got)
    ctx.evals += 1
    w.compare(fn, keep, s, got)
    hold(ctx, fn, got)
    return got, args


def run_twins(plan, ctx):
    """The values of a history are those that a newly built problem gives in another order"""
    seen = []
    with ctx.inline() as s:
        roots = ["%s/t%d" % (ctx.root, i) for i in range(len(plan["twins"]))]
        for d in roots:
            sim.R["mkdir"](d)
        live = [twins.Twin(d, root) for d, root in zip(plan["twins"], roots)]
        base = [np.array(twins.point(t, 0)) for t in live]
        bufs = [None] * len(live)
        disturbed = False

        def record(i, fn, x, seed):
            keep = x.copy()
            got, args = world.evaluate(live[i].problem, fn, x, seed)
            if not np.array_equal(x, keep, equal_nan=True):
                raise Violation("argument_modified", "%s modified the point it was given" % fn)
            seen.append((i, fn, keep, seed, np.array(got, dtype=float, copy=True)))
            ctx.value(fn, 0.0)
            ctx.evals += 1
            hold(ctx, fn, got)
            return got, args

        for op in plan["ops"]:
            k, i = op[0], op[1]
            if i >= len(live):
                continue
            t, p = live[i], live[i].problem
            ctx.ev(*op)
            x = twins.point(t, op[3]) if len(op) > 3 else base[i].copy()
            if k == "eval":
                got, args = record(i, op[2], x, op[3])
                if disturbed:
                    ctx.nontrivial = True
                if op[4] in ("arg", "both"):
                    for a in args:
                        if isinstance(a, np.ndarray):
                            a[...] = 17.0
                    disturbed = True
                if op[4] in ("ret", "both") and isinstance(got, np.ndarray) and got.ndim:
                    try:
                        got[...] = -5.0
                        disturbed = True
                    except ValueError:
                        pass
                    drop_held(ctx, got)
            elif k == "buf":
                if bufs[i] is None:
                    bufs[i] = np.zeros(t.num_dec)
                for j in range(2):
                    bufs[i][:] = twins.point(t, op[3] + j)
                    record(i, op[2], bufs[i], op[3] + j)
                ctx.nontrivial = True
            elif k == "near":
                record(i, op[2], x.copy(), op[3])
                r = np.random.RandomState(op[3] % (2 ** 31))
                j, l = r.randint(len(x), size=2)
                if op[4] == "all":
                    x *= 1 + op[5]
                elif op[4] == "one":
                    x[j] += op[5]
                elif op[4] == "last":
                    x[-1] += op[5]
                else:
                    x[j], x[l] = x[j] + op[5], x[l] - op[5]
                record(i, op[2], x, op[3])
                ctx.nontrivial = True
            elif k == "line":
                li = lines.LineInterrupt(op[4], SIM_FILES)
                try:
                    with li:
                        world.evaluate(p, op[2], x, op[3])
                except sim.InjectedInterrupt:
                    pass
                if li.fired:
                    ctx.fault("line_interrupt")
                    disturbed = True
            elif k == "map_fault":
                f = {"on": op[4], "nth": 1, "kind": op[5]}
                s.faults.append(f)
                try:
                    world.evaluate(p, op[2], x, op[3])
                except (MemoryError, RuntimeError):
                    pass
                s.faults.remove(f)
                if f.get("_fired"):
                    ctx.fault(op[4] + "_fault")
                    disturbed = True
            elif k == "nan":
                x[op[3] % len(x)] = {"nan": np.nan, "inf": np.inf, "huge": 1e200}[op[4]]
                with np.errstate(all="ignore"):
                    try:
                        world.evaluate(p, op[2], x, op[3])
                    except Exception as e:
                        ctx.ev("refused", type(e).__name__)
                ctx.fault("nan")
                disturbed = True
            elif k == "malformed":
                malformed(p, op, x, ctx)
                disturbed = True
            elif k == "profile":
                keep = x.copy()
                p.profile(x, repeat=1, hessian=op[2])
                if not np.array_equal(x, keep):
                    raise Violation("argument_modified", "profile modified the point it was given")
                disturbed = True
            elif k == "struct":
                rows, cols = getattr(p, op[2])()
                try:
                    rows[...] = 0
                    cols[...] = 0
                    disturbed = True
                except ValueError:
                    pass
            elif k == "rebuild":
                other = t.fresh()
                world.evaluate(other.problem, op[2], twins.point(other, op[3]), op[3])
                disturbed = True
            else:
                raise KeyError(k)
            check_held(ctx)
        for i in range(len(live)):
            for fn in FNS:
                record(i, fn, twins.point(live[i], plan["seed"]), plan["seed"])
        fresh = [t.fresh() for t in live]
        for i, fn, x, seed, got in reversed(seen):
            want = world.evaluate(fresh[i].problem, fn, x.copy(), seed)[0]
            twins.same(fn, got, want, 1e-9)
        for i, (t, f) in enumerate(zip(live, fresh)):
            twins.compare(t, f, plan["seed"] + 1 + i, ctx)


def malformed(p, op, x, ctx):
    lam, sg = world.multipliers(p.num_con, op[3])
    fn = op[2]
    if op[4] == "short":
        x = x[:-1]
    elif op[4] == "long":
        x = np.append(x, 1.0)
    elif op[4] == "empty":
        x = x[:0]
    else:
        fn, lam = "hessian", lam[:-1]
    try:
        getattr(p, fn)(*((x, lam, sg) if fn == "hessian" else (x,)))
    except Exception as e:
        ctx.ev("refused", type(e).__name__)
    ctx.fault("malformed")


def run(plan, ctx):
    simipopt.set_controller(None)
    if "twins" in plan:
        return run_twins(plan, ctx)
    with ctx.inline() as s:
        worlds = make_worlds(plan, ctx)
        bufs = [None] * len(worlds)
        disturbed = False
        for op in plan["ops"]:
            k, i = op[0], op[1]
            if i >= len(worlds):
                continue
            w = worlds[i]
            ctx.ev(*op)
            if k == "eval":
                x = w.point(op[3])
                got, args = check_eval(w, op[2], x, op[3], ctx)
                if disturbed:
                    ctx.nontrivial = True
                if op[4] in ("arg", "both"):
                    for a in args:
                        if isinstance(a, np.ndarray):
                            a[...] = 17.0
                    disturbed = True
                if op[4] in ("ret", "both") and isinstance(got, np.ndarray) and got.ndim:
                    try:
                        got[...] = -5.0
                        disturbed = True
                    except ValueError:
                        pass
                    drop_held(ctx, got)
            elif k == "buf":  # the same array object with a new content
                if bufs[i] is None:
                    bufs[i] = np.zeros(w.num_dec)
                for j in range(2):
                    bufs[i][:] = w.point(op[3] + j)
                    check_eval(w, op[2], bufs[i], op[3] + j, ctx)
                ctx.nontrivial = True
            elif k == "repeat":
                x = w.point(op[3])
                a, _ = check_eval(w, op[2], x, op[3], ctx)
                a = np.array(a, dtype=float)
                check_eval(w, FNS[op[3] % 5], w.point(op[3] + 1), op[3], ctx)
                b, _ = check_eval(w, op[2], x, op[3], ctx)
                if not np.allclose(a, np.array(b, dtype=float), rtol=1e-10, atol=1e-10):
                    raise Violation("not_repeatable", "%s at the same point" % op[2])
                ctx.nontrivial = True
            elif k == "near":  # points (or multipliers) that differ only a little
                check_near(w, op, ctx)
                ctx.nontrivial = True
            elif k == "fail":
                models.arm(op[4])
                n0 = models.fired()
                try:
                    world.evaluate(w.problem, op[2], w.point(op[3]), op[3])
                    models.disarm()
                    if models.fired() != n0:
                        raise Violation("error_swallowed", "%s hides a failure of the model" % op[2])
                except (sim.InjectedError, sim.InjectedInterrupt, FloatingPointError):
                    models.disarm()
                    ctx.fault("model_" + op[4]["kind"])
                    disturbed = True
            elif k == "line":
                li = lines.LineInterrupt(op[4], LINE_FILES)
                try:
                    with li:
                        world.evaluate(w.problem, op[2], w.point(op[3]), op[3])
                except sim.InjectedInterrupt:
                    pass
                if li.fired:
                    ctx.fault("line_interrupt")
                    ctx.ev("interrupted", li.fired)
                    disturbed = True
            elif k == "map_fault":
                if w.spec["backend"] != "casadi":
                    continue
                f = {"on": op[4], "nth": 1, "kind": op[5]}
                s.faults.append(f)
                try:
                    if op[2] == "batched":
                        batched(w, 5, op[3])
                    else:
                        world.evaluate(w.problem, op[2], w.point(op[3]), op[3])
                except (MemoryError, RuntimeError):
                    pass
                s.faults.remove(f)
                if f.get("_fired"):
                    ctx.fault(op[4] + "_fault")
                    disturbed = True
            elif k == "nan":
                x = w.point(op[3])
                j = op[3] % len(x)
                x[j] = {"nan": np.nan, "inf": np.inf, "huge": 1e200}[op[4]]
                with np.errstate(all="ignore"):
                    try:
                        world.evaluate(w.problem, op[2], x, op[3])
                    except Exception as e:  # an evaluation may refuse such a point
                        ctx.ev("refused", type(e).__name__)
                ctx.fault("nan")
                disturbed = True
            elif k == "malformed":
                malformed(w.problem, op, w.point(op[3]), ctx)
                disturbed = True
            elif k == "profile":
                x = w.point(op[3])
                w.problem.profile(x, repeat=1, hessian=op[2])
                if not np.array_equal(x, w.point(op[3])):
                    raise Violation("argument_modified", "profile modified the point it was given")
                disturbed = True
            elif k == "struct":
                rows, cols = getattr(w.problem, op[2])()
                try:
                    rows[...] = 0
                    cols[...] = 0
                    disturbed = True
                except ValueError:
                    pass
            elif k == "batched":
                check_batched(w, op[2], op[3], ctx)
                disturbed = True
            elif k == "rebuild":
                # another problem of the same model class, built and thrown away
                extra = World(plan["probs"][i]["spec"])
                if op[2]:
                    check_eval(extra, "jacobian", extra.point(3), 3, ctx)
                del extra
                disturbed = True
            else:
                raise KeyError(k)
            if w.problem.num_dec != w.num_dec:
                raise Violation("num_dec", w.problem.num_dec)
            check_held(ctx)
        for i, w in enumerate(worlds):
            w.check_all(plan["seed"] + i)
            ctx.evals += 5


def check_near(w, op, ctx):
    fn, seed, how, eps = op[2:]
    r = np.random.RandomState(seed % (2 ** 31))
    x = w.point(seed)
    a, _ = check_eval(w, fn, x, seed, ctx)
    a = np.array(a, dtype=float, copy=True)
    x2, seed2 = x.copy(), seed
    j = r.randint(len(x))
    if how == "all":
        x2 *= 1 + eps
    elif how == "one":
        x2[j] += eps
    elif how == "last":
        x2[-1 if eps > 1e-5 else 0] += eps
    elif how == "swap":
        k = r.randint(len(x) - (w.spec["mesh_scale"] is None))
        j = r.randint(len(x) - (w.spec["mesh_scale"] is None))
        x2[j], x2[k] = x[k], x[j]
    elif how == "sign":
        if not (w.spec["mesh_scale"] is None and j == len(x) - 1):
            x2[j] = -x2[j]
    else:
        lam, sigma = world.multipliers(w.problem.num_con, seed)
        if how == "lam" and len(lam):
            lam = lam.copy()
            lam[r.randint(len(lam))] += 0.5 + eps
        else:
            sigma += 0.5 + eps
        got = w.problem.hessian(x, lam, sigma)
        ctx.evals += 1
        want = np.triu(w.ref.hessian(x, lam, sigma, world.con_order(w.problem, w.ref, x)))
        world.close("hessian", world.densify(w.problem, "hessian", got, w.num_dec), want, 2e-5)
        return
    if w.spec["kind"] == "switch":
        nvs = 8 + len(w.spec["con_outputs"])
        idx = np.arange(world.num_stages(w.spec)) * nvs
        if np.any(np.abs((x2 * w.ref.scale_vec())[idx] - 0.5) < 0.02):
            return
    b, _ = check_eval(w, fn, x2, seed2, ctx)
    b = np.array(b, dtype=float)
    if fn in ("objective", "constraints") and how in ("all", "one", "last") and eps >= 1e-9:
        # the difference has to be the true one
        dw = w.expected(fn, x2, seed2) - w.expected(fn, x, seed)
        world.close(fn + "_difference", b - a, dw, 1e-11)


def batched(w, n, seed):
    r = np.random.RandomState(seed % (2 ** 31))
    S, U = r.uniform(-1, 1, (n, 3)), r.uniform(-1, 1, (n, 2))
    mesh = r.uniform(0, 2, n)
    params = w.problem.model.get_recursive_params()
    return S, U, mesh, w.problem.model.batched_forward(S, U, mesh, params)


def check_batched(w, n, seed, ctx):
    S, U, mesh, out = batched(w, n, seed)
    xdot, y = models.ref_forward(w.spec["kind"], w.spec["params"], S, U, mesh)
    names = w.problem.model.get_group_names("outputs")
    world.close("batched_states_dot", np.asarray(out.states_dot), xdot, 1e-9)
    world.close("batched_outputs", np.asarray(out.outputs), np.stack([y[n] for n in names], -1), 1e-9)
    ctx.evals += 1
    ctx.value("batched", out.states_dot)
