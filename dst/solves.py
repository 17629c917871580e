"""Simulated solves: scripts, running them, and the checks of what they pass, return and log."""
import contextlib
import os

import numpy as np

from dst import models, sim, simipopt
from dst.world import Violation, close, con_order

CALLBACKS = ("f", "g", "c", "J", "H", "I")


# ------------------------------------------------------------------------- generation
def gen_script(r, long=False, resto_p=0.35, status=True):
    """What the solver does in one solve (JSON-able)."""
    iters = []
    for _ in range(r.randint(0, 9 if long else 5)):
        if r.random() < resto_p * 0.4:
            iters.append({"resto": r.randint(1, 3), "ls": r.randint(1, 3)})
        else:
            iters.append({"ls": r.choice([1, 1, 2, 3]), "soc": r.random() < 0.2})
    s = {"seed": r.randrange(1 << 30), "iters": iters, "step": r.choice([0.1, 0.3, 1.0])}
    if status:
        s["status"] = r.choices([0, 1, -1, -2, 2], [0.7, 0.1, 0.1, 0.05, 0.05])[0]
    if r.random() < 0.2:
        s["return"], s["return_idx"] = "earlier", r.randrange(10)
    if r.random() < 0.3:
        s["times"] = [round(r.uniform(0, 5), 3), round(r.uniform(0, 9), 3)]
    if r.random() < 0.15:
        s["timing"] = False
    return s


def gen_options(r):
    opts = {}
    if r.random() < 0.5:
        opts["max_iter"] = r.randint(1, 500)
    if r.random() < 0.3:
        opts["tol"] = round(10 ** r.uniform(-8, -2), 12)
    if r.random() < 0.2:
        opts["print_level"] = r.choice([0, 3, 5])
    if r.random() < 0.2:
        opts["print_timing_statistics"] = "no"
    if r.random() < 0.3:
        opts["mu_strategy"] = "monotone"
    if r.random() < 0.2:
        opts["output_file"] = r.choice(["out_a.txt", "out_b.txt", ""])
    if r.random() < 0.15:
        opts["hessian_approximation"] = r.choice(["limited-memory", "exact"])
    if r.random() < 0.1:
        opts["acceptable_iter"] = r.randint(1, 9)
    return opts


def gen_call(r, script=None, **kw):
    """Arguments of one call of solve"""
    return {"script": gen_script(r, **kw) if script is None else script,
            "options": gen_options(r), "guess": r.choice(["given", "given", "none"]),
            "lagrange": r.random() < 0.4, "zl": r.random() < 0.4, "zu": r.random() < 0.4,
            "pos": r.random() < 0.2, "seed": r.randrange(1 << 30)}


def count_calls(world, script, exact=True):
    """Number of callbacks of the script, to place an abort"""
    n = 7
    for step in script["iters"]:
        n += 12
    return n


# --------------------------------------------------------------------------- running
class Outcome:
    def __init__(self):
        self.nlp = self.sol = self.info = self.error = None
        self.kwargs = {}
        self.args = ()
        self.options = {}
        self.guess = None


def guess_for(world, seed):
    r = np.random.RandomState(seed % (2 ** 32))
    x = r.uniform(-0.9, 0.9, world.num_dec)
    if world.spec["mesh_scale"] is None:
        x[-1] = r.uniform(0.5, 1.5)
    return x


LAST = {}  # the solver of the last solve, for solves that don't return (crash)


def solve(world, call, hooks=None, around=None):
    """One solve. The error (if any) is in the outcome, the simulated crash passes through."""
    out = Outcome()
    script = dict(call["script"])
    if hooks:
        script.update(hooks)
    out.values = []
    if "on_call" not in script:
        script["on_call"] = lambda nlp, kind, x, v: out.values.append(
            (kind, np.array(v, dtype=float)))
    if script.get("abort"):
        script["abort"] = dict(script["abort"])

    def controller(problem):
        out.nlp = LAST["nlp"] = problem
        return script

    p = world.problem
    m = p.num_con
    r = np.random.RandomState(call["seed"] % (2 ** 32))
    out.guess = guess_for(world, call["seed"])
    if call["guess"] != "own":  # the initial guess of the base class is random
        own = guess_for(world, call["seed"] + 1)
        p.get_init_guess = lambda: own.copy()
    if call["guess"] == "own":
        pass
    elif call["guess"] == "none":
        out.guess = own
    elif call["pos"]:
        out.args = (out.guess.copy(),)
    else:
        out.kwargs["init_guess"] = out.guess.copy()
    if call["lagrange"]:
        out.kwargs["lagrange"] = r.uniform(-1, 1, m)
    if call["zl"]:
        out.kwargs["zl"] = r.uniform(0, 1, world.num_dec)
    if call["zu"]:
        out.kwargs["zu"] = r.uniform(0, 1, world.num_dec)
    out.options = dict(call["options"])
    passed = {k: np.array(v) for k, v in out.kwargs.items()}
    LAST.clear()
    before = simipopt.set_controller(controller)
    try:
        with around or contextlib.nullcontext():
            out.sol, out.info = p.solve(*out.args, **out.kwargs, **out.options)
    except sim.SimCrash:
        raise
    except (Exception, KeyboardInterrupt) as e:
        out.error = e
    finally:
        simipopt.set_controller(before)
        models.disarm()
        p.__dict__.pop("get_init_guess", None)
    for k, v in passed.items():
        if not np.array_equal(v, out.kwargs[k]):
            raise Violation("argument_modified", "solve modified the %s it was given" % k)
    if out.args and not np.array_equal(out.args[0], out.guess):
        raise Violation("argument_modified", "solve modified the initial guess it was given")
    return out


# --------------------------------------------------------------------- checks (C12)
def check_inputs(world, out):
    """What was passed to the solver in this solve"""
    nlp, ref = out.nlp, world.ref
    sc = ref.scale_vec()
    lb, ub = ref.bounds()
    close("solver_n", nlp.n, world.num_dec, 0)
    close("solver_lb", nlp.lb * sc, lb, 1e-9)
    close("solver_ub", nlp.ub * sc, ub, 1e-9)
    n_con = world.problem.num_con
    close("solver_m", nlp.m, n_con, 0)
    close("solver_cl", nlp.cl, np.zeros(n_con), 0)
    close("solver_cu", nlp.cu, np.zeros(n_con), 0)
    close("solver_x0", nlp.x0 * sc, out.guess, 1e-9)
    for name, attr in (("lagrange", "lagrange0"), ("zl", "zl0"), ("zu", "zu0")):
        want = out.kwargs.get(name, np.zeros(0))
        have = getattr(nlp, attr)
        if len(want) == 0 and have.size and not np.any(have):
            continue
        close("solver_" + name, have, want, 1e-12)
    for k, v in out.options.items():
        if nlp.options.get(k) != v:
            raise Violation("option", "%s is %r instead of %r" % (k, nlp.options.get(k), v))
    want = out.options.get("hessian_approximation", world.spec["hess"])
    if nlp.options.get("hessian_approximation") != want:
        raise Violation("option", "hessian_approximation %r instead of %r" % (
            nlp.options.get("hessian_approximation"), want))


def check_result(world, out):
    """What the solve returned"""
    nlp = out.nlp
    sc = world.ref.scale_vec()
    close("solution", np.asarray(out.sol), nlp.solution * sc, 1e-9)
    info = out.info
    for k in ("status", "status_msg", "obj_val"):
        if info[k] != nlp.info[k]:
            raise Violation("info", "%s is %r instead of %r" % (k, info[k], nlp.info[k]))
    for k in ("mult_g", "mult_x_L", "mult_x_U"):
        close("info_" + k, info[k], nlp.info[k], 1e-12)
    last = nlp.accepted[-1][0] if nlp.accepted else None
    if info.get("num_iter") != last:
        raise Violation("info", "num_iter is %r instead of %r" % (info.get("num_iter"), last))
    opt = nlp.options
    printed = (opt.get("print_timing_statistics") == "yes" and opt.get("print_level", 5) >= 4
               and opt.get("output_file") and nlp.script.get("timing", True))
    t = nlp.script.get("times", (1.25, 0.5))
    for k, v in (("ipopt_time", t[0]), ("nlp_time", t[1])):
        if printed:
            if abs(info.get(k, np.nan) - v) > 1e-9 or k not in info:
                raise Violation("info", "%s is %r instead of %r" % (k, info.get(k), v))
        elif k in info:
            raise Violation("info", "%s is %r although this solve reported none" % (k, info[k]))


# ---------------------------------------------------------------------- checks (logs)
def record(world, x, it):
    """Reference record of one iteration: column -> values. x is in user's units."""
    ref = world.ref
    spec = world.spec
    S, U, D, C, T = ref.split(x)
    _, outs = ref.model(S, U, T)
    rec = {}
    for j, n in enumerate(models.STATES):
        rec["states." + n] = S[:, j]
        rec["states_dot." + n] = D[:, j]
    for j, n in enumerate(models.INPUTS):
        rec["inputs." + n] = U[:, j]
    for j, n in enumerate(spec["con_outputs"]):
        rec["con_outputs." + n] = C[:, j]
    for n in world.problem.model.get_group_names("outputs"):
        rec["outputs." + n] = outs[n]
    comp = ref.components(x / ref.scale_vec())
    ns, nc = 3, len(spec["con_outputs"])
    nst = ref.nst
    if spec["condensed"]:
        cont, stage = np.split(comp["model_algebra"], [(nst - 1) * ns])
        cols = []
    else:
        cont, stage = comp["continuity"], comp["model_algebra"]
        cols = ["stage_con." + n for n in models.STATES]
    cols += ["stage_con." + n for n in spec["con_outputs"]]
    cols += ["stage_con." + n for n in ref.residuals]
    stage = stage.reshape(nst, -1)
    cont = np.vstack([np.zeros(ns), cont.reshape(nst - 1, ns)])
    for j, n in enumerate(cols):
        rec[n] = stage[:, j]
    for j, n in enumerate(models.STATES):
        rec["interval_con." + n] = cont[:, j]
    if spec["cyclic"]:
        for j, (g, n) in enumerate(ref.cyclic_names()):
            v = np.zeros(nst)
            v[-1] = comp["cyclic"][j]
            rec["cyclic_con.%s.%s" % (g, n)] = v
    rec["mesh"] = ref.normalized_mesh() * float(T)
    rec["iter"] = np.full(nst, it)
    return rec


def compare_record(name, df, rec):
    for k, v in rec.items():
        if k not in df.columns:
            raise Violation(name + "_column", "%s is missing" % k)
        close("%s:%s" % (name, k.split(".")[0]), df[k].to_numpy(), v, 1e-7)


def read_frame(path):
    import pandas as pd
    from pyarrow import parquet as pq
    with sim.R["fopen"](path, "rb") as f:
        if path.endswith(".parquet"):
            return pq.read_table(f).to_pandas()
        return pd.read_csv(f)


def log_files(d):
    return sorted(sim.R["listdir"](d))


def logged_iterations(nlp, nth):
    """Iterations that have to be in the log: the requested period, and the last one"""
    its = [i for i, _ in nlp.accepted]
    want = [i for i in its if i % nth == 0]
    if its and its[-1] not in want:
        want.append(its[-1])
    return want


def check_log(world, out, d, nth, ctx=None):
    """The log of a completed solve"""
    nlp = out.nlp
    if not nlp.accepted:
        return
    sc = world.ref.scale_vec()
    points = {}
    for it, x in nlp.accepted:
        points[it] = x * sc
    last = nlp.accepted[-1][0]
    final = nlp.solution * sc
    files = log_files(d)
    left = [f for f in files if f.startswith("iter_")]
    if left:
        raise Violation("leftover_files", left)
    for f in ["results.csv", "metrics_history.csv"] + (["all_iters.parquet"] if nth else []):
        if f not in files:
            raise Violation("missing_file", f)
    res = read_frame(os.path.join(d, "results.csv"))
    if len(res) != world.ref.nst:
        raise Violation("results_rows", "%d instead of %d" % (len(res), world.ref.nst))
    final_rec = record(world, final, last)
    compare_record("results", res, final_rec)

    met = read_frame(os.path.join(d, "metrics_history.csv"))
    names = ("alg_mod", "iter_count", "obj_value", "inf_pr", "inf_du", "mu", "d_norm",
             "regularization_size", "alpha_du", "alpha_pr", "ls_trials")
    if len(met) != len(nlp.metrics):
        raise Violation("metrics_rows", "%d instead of %d" % (len(met), len(nlp.metrics)))
    want = np.array(nlp.metrics, dtype=float)
    for j, n in enumerate(names):
        if n not in met.columns:
            raise Violation("metrics_column", n)
        close("metrics:" + n, met[n].to_numpy(), want[:, j], 1e-9)
    if not nth:
        return
    want_its = logged_iterations(nlp, nth)
    df = read_frame(os.path.join(d, "all_iters.parquet"))
    have = df["iter"].to_numpy()
    nst = world.ref.nst
    its, counts = np.unique(have, return_counts=True)
    if sorted(its.tolist()) != sorted(want_its):
        raise Violation("logged_iterations", "%s instead of %s" % (its.tolist(), sorted(want_its)))
    if np.any(counts != nst):
        raise Violation("records_per_iteration", dict(zip(its.tolist(), counts.tolist())))
    if np.any(np.diff(have) < 0):
        raise Violation("record_order", have.tolist())
    earlier = nlp.script.get("return") == "earlier"
    con_w = None
    for it in want_its:
        sub = df[df["iter"] == it]
        rec = final_rec if it == last else record(world, points[it], it)
        order = np.argsort(rec["mesh"], kind="stable")  # the log is sorted by mesh
        rec = {k: v[order] for k, v in rec.items()}
        compare_record("all_iters", sub, rec)
        if it == last and earlier:
            continue
        cols = [c for c in rec if "_con." in c]
        vals = np.abs(np.stack([rec[c] for c in cols], -1))
        row = met[met["iter_count"] == it].iloc[0]
        if "max_violation_con_name" in met.columns:
            n = row["max_violation_con_name"]
            if n not in cols:
                raise Violation("max_violation", "%r at iteration %d" % (n, it))
            k = int(np.argmin(np.abs(rec["mesh"] - row["max_violation_mesh"])))
            close("max_violation", vals[k, cols.index(n)], vals.max(), 1e-7)
            close("max_violation_mesh", row["max_violation_mesh"], rec["mesh"][k], 1e-9)
    if "max_violation_con_name" in met.columns:
        other = met[~met["iter_count"].isin(want_its)]
        if len(other) and not (other["max_violation_con_name"] == "NotRecorded").all():
            raise Violation("max_violation", "of an iteration that was not recorded")
    if ctx is not None:
        ctx.probe("log_checked")
        ctx.probe("logged_records", len(want_its))
        ctx.evals += len(want_its)


def compare_outcomes(a, b):
    """Two solves have to be the same in everything observable. Values are compared with a
    tolerance: rounding may depend on the alignment of arrays."""
    def differ(what, detail=""):
        raise Violation("following_solve", "%s differs from the control %s" % (what, detail))

    def arr(what, x, y):
        x, y = np.asarray(x, float), np.asarray(y, float)
        if x.shape != y.shape or not np.allclose(x, y, rtol=1e-8, atol=1e-8, equal_nan=True):
            differ(what)

    ea, eb = (None if o.error is None else type(o.error).__name__ for o in (a, b))
    if ea != eb:
        differ("error", "%r instead of %r" % (a.error, b.error))
    if (a.nlp is None) != (b.nlp is None):
        differ("solver")
    if a.nlp is not None:
        if a.nlp.options != b.nlp.options:
            differ("options")
        if [k for k, _ in a.nlp.calls] != [k for k, _ in b.nlp.calls]:
            differ("sequence of callbacks")
        for (k, x), (_, y) in zip(a.nlp.calls, b.nlp.calls):
            arr("point", x, y)
        for at in ("lb", "ub", "cl", "cu", "x0", "lagrange0", "zl0", "zu0"):
            if hasattr(a.nlp, at) and hasattr(b.nlp, at):
                arr(at, getattr(a.nlp, at), getattr(b.nlp, at))
        arr("metrics", a.nlp.metrics, b.nlp.metrics)
    if [k for k, _ in a.values] != [k for k, _ in b.values]:
        differ("callbacks")
    for (k, x), (_, y) in zip(a.values, b.values):
        arr("value of callback " + k, x, y)
    if (a.sol is None) != (b.sol is None):
        differ("solution")
    if a.sol is not None:
        arr("solution", a.sol, b.sol)
        if set(a.info) != set(b.info):
            differ("report", "%s instead of %s" % (sorted(a.info), sorted(b.info)))
        for k, v in a.info.items():
            if isinstance(v, (np.ndarray, float)):
                arr("report " + k, v, b.info[k])
            elif v != b.info[k]:
                differ("report " + k, "%r instead of %r" % (v, b.info[k]))


def frames(d):
    return {f: read_frame(os.path.join(d, f)) for f in log_files(d)}


def compare_logs(a, b):
    if sorted(a) != sorted(b):
        raise Violation("log_files", "%s instead of %s" % (sorted(a), sorted(b)))
    for f in a:
        if list(a[f].columns) != list(b[f].columns):
            raise Violation("log_columns", f)
        for c in a[f].columns:
            x, y = a[f][c].to_numpy(), b[f][c].to_numpy()
            if c.startswith("max_violation"):
                continue  # rounding may decide between equal ones (checked by check_log)
            if x.dtype == object or y.dtype == object:
                same = list(x) == list(y)
            else:
                same = x.shape == y.shape and np.allclose(x, y, 1e-8, 1e-8, equal_nan=True)
            if not same:
                raise Violation("log_content", "%s of %s differs from the control" % (c, f))


# ------------------------------------------------------------- reading a damaged log
def readable_records(d):
    """Everything a user can still read from the directory: iteration -> list of frames.
    Files may be incomplete or damaged."""
    import pandas as pd
    out = {}
    for f in log_files(d):
        try:
            df = read_frame(os.path.join(d, f))
            its = pd.to_numeric(df["iter"], errors="coerce").dropna().to_numpy()
        except Exception:
            continue
        for it in np.unique(its):
            if it == int(it):
                out.setdefault(int(it), []).append((f, df[df["iter"] == it]))
    return out


def find_record(records, it, recs):
    """Is one of the expected records of an iteration readable? Returns the file or None"""
    for f, df in records.get(it, []):
        for rec in recs:
            try:
                order = np.argsort(df["mesh"].to_numpy(dtype=float), kind="stable")
                want = np.argsort(rec["mesh"], kind="stable")
                compare_record("record", df.iloc[order], {k: np.asarray(v)[want] for k, v in rec.items()})
                return f
            except (Violation, KeyError, ValueError, TypeError):
                continue
    return None


def check_readable(world, d, written, final=None, ctx=None):
    """written: iteration -> point (user's units) whose record was completely written.
    final: (iteration, solution) of a solve the solver completed."""
    records = readable_records(d)
    for it, x in written.items():
        recs = [record(world, x, it)]
        if final is not None and final[0] == it:
            # the record of the last iteration is that of the returned solution
            recs.append(record(world, final[1], it))
        if find_record(records, it, recs) is None:
            raise Violation("lost_record", "iteration %d of %s: %s (files %s)" % (
                it, sorted(written), "only with another content in %s" % [f for f, _ in records[it]]
                if it in records else "not in the log", log_files(d)))
        if ctx is not None:
            ctx.evals += 1
