"""C03: a rejected or failed change leaves the problem exactly as it was."""
import copy
import os

import numpy as np

from dst import changes, sim, solves, twins, world
from dst.world import Violation, World

ID = "C03"
RUNS_QUICK = 1000
TIMEOUT = 200
RULE = ("Each run mixes valid changes, evaluations and changes that have to fail: invalid or "
        "interrupting entries at a random position of a list of valid bounds, boundary conditions "
        "or scales, unknown parameters, invalid meshes, unknown or duplicate objectives and "
        "constraints, tracks that are missing, damaged, or whose reading fails or is interrupted. "
        "After every failure settings and functions are compared with the specification (or with "
        "a snapshot, and at the end with a newly built simulation). A run is non-trivial when a "
        "failed change was followed by such a comparison.")
REAL = ["lumos problems, constraints, objectives, logging, models", "laptime simulation and tracks",
        "model solver", "file system (scratch directory, with injected faults)"]
STUB = ["IPOPT (scripted solver)", "gcc (the library holds the functions the code was generated from)"]
ASSUMPTIONS = []
MUST_HIT = ("refused_bounds", "refused_bcs", "refused_scales", "refused_param", "refused_mesh",
            "refused_add_con", "refused_track", "refused_solver", "track_fault", "damaged_accepted")

BAD_TRACKS = ("missing", "empty", "header", "no_column", "text", "nan", "one_row", "cut", "flip",
              "directory")


def gen(r, index, tier):
    fam = r.choices(["spec", "ltc", "solver"], [0.87, 0.05, 0.08])[0]
    n = r.randint(2, 6 if tier == "quick" else 16)
    ops = []
    if fam == "spec":
        spec = world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.82, 0.15, 0.03])[0],
                              small=tier == "quick")
        cur = copy.deepcopy(spec)
        for k in range(n):
            u = r.random()
            if u < 0.6 or k == n - 1:
                ops.append(["invalid", changes.gen_invalid(r, cur)])
            elif u < 0.9:
                op = changes.gen_change(r, cur)
                cur = changes.apply_to_spec(cur, op)
                ops.append(["change", op])
            else:
                ops.append(["all", r.randrange(1 << 30)])
        if r.random() < 0.7:
            ops.append(["change", changes.gen_change(r, cur)])
        return {"fam": fam, "spec": spec, "ops": ops, "seed": r.randrange(1 << 30),
                "final": solves.gen_call(r), "solve": r.random() < 0.35, "nth": r.choice([0, 1])}
    s = twins.gen_settings(r, fam)
    cur = copy.deepcopy(s)
    for k in range(n):
        if r.random() < 0.35:
            op = twins.gen_op(r, cur)
            cur = twins.on_settings(cur, op)
            ops.append(["change", op])
        elif fam == "ltc":
            if r.random() < 0.5:
                f = {"on": r.choice(["open_r", "read"]), "nth": 1, "path": "tracks/",
                     "kind": r.choice(["EIO", "ENOENT", "EMFILE", "interrupt", "EACCES"])}
                ops.append(["track_fault", "t%d" % r.randrange(3), f])
            else:
                ops.append(["bad_track", r.choice(BAD_TRACKS), r.randrange(1 << 20)])
        else:
            ops.append(["bad_solver", r.choice(["order", "group", "name", "scale", "neg_scale", "scale_name",
                                                "scale_group", "dup_obj", "del_obj", "obj_name"])])
    if r.random() < 0.6:
        ops.append(["change", twins.gen_op(r, cur)])
    return {"fam": fam, "settings": s, "ops": ops, "seed": r.randrange(1 << 30)}


def run(plan, ctx):
    with ctx.inline() as s:
        if plan["fam"] == "spec":
            run_spec(plan, ctx)
        else:
            run_twin(plan, ctx, s)


def run_spec(plan, ctx):
    from lumos.optimal_control.config import LoggingConfig
    lc = LoggingConfig("live", ctx.root + "/results", plan["nth"]) if plan["solve"] else None
    w = World(plan["spec"], lc)
    for k, op in enumerate(plan["ops"]):
        ctx.ev(*op)
        if op[0] == "change":
            if changes.applicable(w.spec, op[1]):
                w.apply(op[1])
        elif op[0] == "all":
            w.check_all(op[1])
        else:
            inv = op[1]
            if inv[0] == "add_obj" and inv[1] not in w.spec["objectives"]:
                continue
            err = changes.attempt(w, inv)
            if err is None:
                raise Violation("invalid_accepted", "%s" % inv)
            ctx.ev("refused", type(err).__name__)
            ctx.fault("refused_" + inv[0])
            ctx.nontrivial = True
            w.check_all(plan["seed"] + k)
            ctx.evals += 5
    w.check_all(plan["seed"])
    if plan["solve"]:
        out = solves.solve(w, plan["final"])
        if out.error is not None:
            raise out.error
        solves.check_inputs(w, out)
        solves.check_result(w, out)
        solves.check_log(w, out, w.problem.logging_dir, plan["nth"], ctx)


# ------------------------------------------------------------------ example simulations
def snapshot(t, seed):
    p = t.problem
    x = twins.point(t, seed)
    out = {k: np.array(getattr(p, k)) for k in ("lb", "ub", "cl", "cu")}
    for fn in ("objective", "gradient", "constraints", "jacobian", "hessian"):
        if fn in ("constraints", "jacobian") or twins.has_objective(t):
            out[fn] = np.array(world.evaluate(p, fn, x.copy(), seed)[0], dtype=float)
    for k in ("jacobianstructure", "hessianstructure"):
        out[k] = np.concatenate([np.ravel(a) for a in getattr(p, k)()])
    if t.settings["kind"] == "ltc":
        out["init_guess"] = np.array(p.get_init_guess())
        out["mesh"] = np.array(p.get_mesh())
    return x, out


def check_same(t, before, seed):
    x, old = before
    p = t.problem
    for k, v in old.items():
        if k in ("objective", "gradient", "constraints", "jacobian", "hessian"):
            new = world.evaluate(p, k, x.copy(), seed)[0]
        elif k.endswith("structure"):
            new = np.concatenate([np.ravel(a) for a in getattr(p, k)()])
        elif k == "init_guess":
            new = p.get_init_guess()
        elif k == "mesh":
            new = p.get_mesh()
        else:
            new = getattr(p, k)
        twins.same("changed_" + k, new, v, 1e-10)


def damaged(kind, seed, root):
    """Write a damaged track. Returns its name."""
    r = np.random.RandomState(seed)
    text = twins.track_text(seed)
    lines = text.split("\n")
    name = "bad%d" % seed
    if kind == "missing":
        return name
    if kind == "directory":
        sim.R["mkdir"](os.path.join(root, "tracks", name + ".csv"))
        return name
    if kind == "empty":
        text = ""
    elif kind == "header":
        text = lines[0] + "\n"
    elif kind == "one_row":
        text = "\n".join(lines[:2]) + "\n"
    elif kind == "no_column":
        text = "\n".join(",".join(x.split(",")[:3]) for x in lines)
    elif kind in ("text", "nan"):
        i = r.randint(1, len(lines) - 1)
        f = lines[i].split(",")
        f[r.randint(0, 4)] = "abc" if kind == "text" else ""
        lines[i] = ",".join(f)
        text = "\n".join(lines)
    elif kind == "cut":
        text = text[:r.randint(40, len(text))]
    elif kind == "flip":
        i = r.randint(0, len(text))
        text = text[:i] + chr(33 + r.randint(0, 90)) + text[i + 1:]
    twins.write_track(root, name, text)
    return name


def finite_track(t):
    p = t.problem
    return all(np.all(np.isfinite(p.get_lb("inputs", n))) for n in ("track_curvature", "track_heading"))


def run_twin(plan, ctx, s):
    t = twins.Twin(plan["settings"], ctx.root)
    for k, op in enumerate(plan["ops"]):
        ctx.ev(*op)
        seed = plan["seed"] + k
        if op[0] == "change":
            if twins.applicable(t.settings, op[1]):
                t.apply(op[1])
            continue
        before = snapshot(t, seed)
        try:
            if op[0] == "track_fault":
                s.faults.append(dict(op[2]))
                try:
                    twins.on_problem(t.problem, ["track", op[1]], ctx.root, t.settings)
                finally:
                    f = s.faults.pop()
                if f.get("_fired"):
                    raise Violation("error_lost", "a failing %s of a track was ignored" % f["on"])
                t.settings = twins.on_settings(t.settings, ["track", op[1]])
                continue
            if op[0] == "bad_track":
                name = damaged(op[1], op[2], ctx.root)
                with np.errstate(all="ignore"):
                    twins.on_problem(t.problem, ["track", name], ctx.root, t.settings)
                # a damaged track may still be a valid (other) one
                ctx.probe("damaged_accepted")
                t.settings = twins.on_settings(t.settings, ["track", name])
                if not finite_track(t):
                    return
                continue
            bad_solver(t, op[1])
            raise Violation("invalid_accepted", op)
        except Violation:
            raise
        except (Exception, KeyboardInterrupt) as e:
            ctx.ev("refused", type(e).__name__)
            ctx.fault("track_fault" if op[0] == "track_fault" else
                      "refused_track" if op[0] == "bad_track" else "refused_solver")
            ctx.nontrivial = True
        check_same(t, before, seed)
        ctx.evals += 5
    twins.compare(t, t.fresh(), plan["seed"], ctx)


def bad_solver(t, kind):
    p = t.problem
    if kind == "order":
        p.set_bounds("states", "p", (1.0, -1.0))
    elif kind == "group":
        p.set_bounds("nogroup", "p", (-1.0, 1.0))
    elif kind == "name":
        p.set_bounds("states", "nothing", 0.5)
    elif kind == "scale":
        p.set_var_scale("states", "p", 0.0)
    elif kind == "neg_scale":
        p.set_var_scale("inputs", "u", -2.0)
    elif kind == "scale_name":
        p.set_var_scale("states", "nothing", 2.0)
    elif kind == "scale_group":
        p.set_var_scale("states_dot", "p", 2.0)
    elif kind == "dup_obj":
        if not t.settings["objs"]:
            raise KeyError("nothing to duplicate")
        p.add_obj_from_var(*t.settings["objs"][0])
    elif kind == "del_obj":
        p.delete_objective("no_such_objective")
    else:
        p.add_obj_from_var("states", "nothing", 1.0)
