"""C11: a crash while logging loses no recorded iteration."""
from dst import lines, sim, solves, world
from dst.checks.c01 import LINE_FILES
from dst.world import Violation, World

ID = "C11"
RUNS_QUICK = 900
RULE = ("Each run solves a logged problem with one fault (sometimes several) at a chosen event of "
        "the logging or of the combination of the logs: death of the process before, after or in "
        "the middle of a write, a full disk, failing writes, reads, removals and listings, an "
        "interrupt at a file operation, in a callback or at a function of the library. Runs go "
        "through the events and kinds of faults in turn, then at random. Afterwards another "
        "process reads the directory: every iteration whose callback had returned before the fault "
        "has to be there with the values of the point the solver accepted. Logs of other problems "
        "and, after an error, the following solve and its log are checked too. A run is "
        "non-trivial when the fault hit with at least one record written.")
REAL = ["lumos problems, logging and solve", "pandas and pyarrow",
        "file system (scratch directory, with injected faults)"]
STUB = ["IPOPT (scripted solver with its callback protocol)"]
ASSUMPTIONS = ["a crash is the death of a process: what it wrote before stays (no power failure)",
               "the scripted solver follows the callback protocol recorded from IPOPT 3.11"]
MUST_HIT = ("hit_crash", "hit_torn", "hit_error", "hit_interrupt", "hit_while_combining",
            "hit_while_logging", "hit_after_combining", "followup_checked", "callback_abort", "line_interrupt")

KINDS = ("crash", "torn", "crash_after", "ENOSPC", "EIO", "interrupt", "interrupt_after", "EACCES")
DEPTH = 72


def gen(r, index, tier):
    spec = world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.93, 0.06, 0.01])[0], small=True)
    call = solves.gen_call(r, long=True)
    call["script"]["iters"] += [{"ls": 1} for _ in range(max(0, 3 - len(call["script"]["iters"])))]
    call["script"]["status"] = r.choice([0, 0, 0, 1, -1])
    how, faults = "io", []
    if index < DEPTH * len(KINDS):
        # the events from the end (the combination) and from the start of the solve in turn
        k = index // len(KINDS)
        faults.append({"rel": k // 2, "end": k % 2 == 0, "kind": KINDS[index % len(KINDS)],
                       "frac": r.choice([0.0, 0.2, 0.6, 0.95])})
    else:
        how = r.choices(["io", "line", "callback"], [0.7, 0.2, 0.1])[0]
        if how == "io":
            for _ in range(r.choice([1, 1, 2])):
                faults.append({"rel": int(r.triangular(0, 60, 4)), "end": r.random() < 0.6, "kind": r.choice(KINDS),
                               "frac": r.choice([0.0, 0.2, 0.6, 0.95])})
        elif how == "callback":
            call["script"]["abort"] = {"at": int(r.triangular(2, 40, 15)), "kind": r.choice(["error", "interrupt"])}
    return {"spec": spec, "call": call, "faults_at": faults, "how": how,
            "line": int(2 ** r.uniform(6, 13)), "nth": r.choice([1, 1, 1, 2, 3]),
            "earlier": r.choices([0, 1, 2], [0.6, 0.3, 0.1])[0],
            "neighbour": r.random() < 0.3, "bufsize": r.choice([64, 256, 8192]),
            "after": solves.gen_call(r), "seed": r.randrange(1 << 30), "shuffle": True}


def lists(plan):
    return [("faults_at",), ("call", "script", "iters")]


def simplify(plan):
    for k, v in (("earlier", 0), ("neighbour", False)):
        if plan[k] != v:
            yield dict(plan, **{k: v})


def run(plan, ctx):
    from lumos.optimal_control.config import LoggingConfig
    res = ctx.root + "/results"
    # how many events the solve has without a fault (the same solve of a control problem)
    length = 0
    if any(f["end"] for f in plan["faults_at"]):
        with sim.Inline(dict(plan, faults=[]), ctx.root) as s0:
            c = World(plan["spec"], LoggingConfig("control", res, plan["nth"]))
            n0 = s0.current.n
            out = solves.solve(c, plan["call"])
            length = s0.current.n - n0
    written, state = {}, {}
    try:
        with ctx.inline() as s:
            w = World(plan["spec"], LoggingConfig("subject", res, plan["nth"]))
            d = w.problem.logging_dir
            neighbour = None
            if plan["neighbour"]:
                n = World(plan["spec"], LoggingConfig("subject", res, 1))
                nout = solves.solve(n, plan["after"])
                if nout.error is not None:
                    raise nout.error
                neighbour = (n, nout, n.problem.logging_dir)
            state.update(w=w, d=d, neighbour=neighbour)
            for k in range(plan["earlier"]):
                o = solves.solve(w, dict(plan["after"], seed=k))
                if o.error is not None:
                    raise o.error
            sc = w.ref.scale_vec()
            n0 = s.current.n
            for f in plan["faults_at"]:
                at = n0 + 1 + (max(0, length - 1 - f["rel"]) if f["end"] else f["rel"])
                s.faults.append({"at": at, "kind": f["kind"], "frac": f["frac"]})

            def on_iter(nlp, args):
                it, x = nlp.accepted[-1]
                if args[1] % plan["nth"] == 0:
                    written[it] = x * sc

            hooks = {"on_iter": on_iter}
            state["solving"] = True
            around = lines.LineInterrupt(plan["line"], LINE_FILES) if plan["how"] == "line" else None
            out = solves.solve(w, plan["call"], hooks, around=around)
            state["out"] = out
            if around is not None and around.fired:
                ctx.fault("line_interrupt")
                ctx.ev("line", around.fired)
    except sim.SimCrash:
        ctx.ev("crash")
    s = ctx.sims[-1]
    fired = [e for e in s.log if e[1] == "FAULT"]
    w, d, out = state["w"], state["d"], state.get("out")
    hit = bool(fired) or plan["how"] != "io" and out is not None and out.error is not None
    if out is not None and out.error is not None and not hit:
        raise out.error
    final = None
    # the solver may have ended before the fault
    nlp = solves.LAST.get("nlp") if out is None else out.nlp
    if nlp is not None and hasattr(nlp, "solution") and nlp.accepted:
        final = (nlp.accepted[-1][0], nlp.solution * w.ref.scale_vec())
    if hit:
        ctx.ev("hit", [e[2] for e in fired], sorted(written))
        ctx.nontrivial = bool(written)
        for e in fired:
            ctx.probe("hit_crash" if e[2].startswith("crash") else "hit_torn" if e[2] == "torn" else
                      "hit_interrupt" if e[2].startswith("interrupt") else "hit_error")
        if plan["how"] == "callback":
            ctx.probe("callback_abort")
        ctx.probe("hit_while_combining" if final is not None else "hit_while_logging")
    files = solves.log_files(d)
    ctx.ev("files", files)
    if hit and final is not None and not any(f.startswith("iter_") for f in files):
        ctx.probe("hit_after_combining")
    solves.check_readable(w, d, written, final, ctx)
    if state.get("neighbour"):
        n, nout, nd = state["neighbour"]
        solves.check_log(n, nout, nd, 1, ctx)
    if out is None:  # the process is dead, another one starts in the same place
        with ctx.inline(dict(plan, faults=[])):
            w2 = World(plan["spec"], LoggingConfig("subject", res, plan["nth"]))
            if w2.problem.logging_dir == d:
                raise Violation("shared_directory", d)
            o = solves.solve(w2, plan["after"])
            if o.error is not None:
                raise o.error
            solves.check_log(w2, o, w2.problem.logging_dir, plan["nth"], ctx)
        solves.check_readable(w, d, written, final, ctx)
    elif out.error is None:
        solves.check_log(w, out, d, plan["nth"], ctx)
    else:
        with ctx.inline(dict(plan, faults=[])):
            o = solves.solve(w, plan["after"])
            if o.error is not None:
                raise o.error
            solves.check_log(w, o, d, plan["nth"], ctx)
            ctx.probe("followup_checked")
    ctx.value("n", len(written))
