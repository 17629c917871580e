"""C08: compilation recovers from crashes and failed compilers."""
from dst import bench, cluster, models, sim, world
from dst.world import Violation

ID = "C08"
RUNS_QUICK = 500
TIMEOUT = 240
RULE = ("Each run injects one fault (or a lasting one, or two) into the compilation of a model by "
        "one of 1-3 simulated processes: crash before or after, failing, interrupted or torn at "
        "a chosen file operation, at a chosen step of the compiler, or a missing or killed "
        "compiler. Runs go through all events of a compilation and all kinds of faults in turn, "
        "then at random. The attempt has to end with an error or with correct functions; "
        "afterwards the faults are gone, and the same process (if it survived) and new processes "
        "have to build the same and other models in the same directory correctly within a "
        "bounded number of events. A run is non-trivial when the fault really hit.")
REAL = ["lumos models and problems", "casadi (symbolic functions and evaluation)",
        "file system (scratch directory, with injected faults)"]
STUB = ["gcc and dlopen: a library holds exactly the source it was compiled from, incomplete files "
        "cannot be loaded"]
ASSUMPTIONS = ["a crash is the death of a process: what it wrote before stays (no power failure)",
               "the faulted process and its compiler may be left in any state, other processes keep running"]
MUST_HIT = ("hit_crash", "hit_error", "hit_compiler", "hit_torn", "hit_lasting", "recovered_in_process",
            "recovered_new_process", "attempt_failed", "attempt_succeeded")
BUDGET = 600  # events for one build without faults (about 25 are needed)

OPS = ("exists", "mkdir", "open_w", "write", "spawn", "waited", "replace", "rmdir", "remove", "dlopen",
       "cas_map", "scandir", "os_open", "read", "open_r")
KINDS = ("crash", "crash_after", "torn", "EIO", "ENOSPC", "interrupt", "interrupt_after", "EACCES", "EROFS")
CC = ("cc_start", "cc_create", "cc_write", "cc_exit")
CC_KINDS = ("crash", "fail", "ENOSPC", "torn")
SYSTEMATIC = ([("at", k, kind) for k in range(1, 31) for kind in KINDS]
              + [("cc", on, kind) for on in CC for kind in CC_KINDS]
              + [("cc2", on, kind) for on in CC for kind in CC_KINDS]
              + [("spawn", 0, k) for k in ("missing", "ENOMEM", "EAGAIN", "EACCES")]
              + [("dlopen", n, "fail") for n in (1, 2, 3, 4)])


def gen(r, index, tier):
    spec = cluster.gen_model(r)
    other = cluster.gen_model(r)
    how = SYSTEMATIC[index % len(SYSTEMATIC)]
    faults = []
    if how[0] == "at":
        faults.append({"node": 0, "at": how[1], "kind": how[2], "frac": r.choice([0.0, 0.3, 0.9])})
    elif how[0] == "cc":
        faults.append({"on": how[1], "nth": 1, "kind": how[2]})
    elif how[0] == "cc2":  # the compiler fails and the process dies while it cleans up
        faults.append({"on": how[1], "nth": 1, "kind": how[2]})
        faults.append({"node": 0, "on": r.choice(["waited", "remove", "scandir", "rmdir", "os_open"]), "nth": 1,
                       "kind": r.choice(["crash", "EIO", "interrupt"])})
    elif how[0] == "spawn":
        faults.append({"on": "spawn", "nth": 1, "kind": how[2]})
    else:
        faults.append({"on": "dlopen", "nth": how[1], "kind": "fail"})
    if r.random() < 0.2:  # the fault lasts for a while (eg: a full disk)
        for n in range(2, 7):
            faults.append({"node": 0, "on": r.choice(["open_w", "write", "mkdir"]), "nth": n, "kind": "ENOSPC"})
        faults.append({"on": "cc_write", "nth": 1, "kind": "ENOSPC", "leave": r.random() < 0.5})
    return {"spec": spec, "other": other, "faults": faults,
            "peers": r.choices([0, 1, 2], [0.55, 0.3, 0.15])[0], "peer_other": r.random() < 0.3,
            "recover": r.choice([1, 1, 2]), "retry_how": r.choice(["build", "make", "batched"]),
            "what": r.choices(["build", "solver"], [0.85, 0.15])[0],
            "switch_p": r.choice([0.1, 0.4, 0.8]),
            "tmp_collide": r.random() < 0.4, "cc_cut": r.choice([0.0, 0.3, 0.7, 1.0]),
            "bufsize": r.choice([512, 4096]), "seed": r.randrange(1 << 30)}


def simplify(plan):
    out = []
    for k, v in (("peers", 0), ("recover", 1), ("tmp_collide", False)):
        if plan[k] != v:
            out.append(dict(plan, **{k: v}))
    return out


class Attempt:
    """Use of a model by one process, again and again"""

    def __init__(self, plan, spec, ctx):
        self.plan, self.spec, self.ctx = plan, spec, ctx
        self.model = None

    def __call__(self, seed, how="build"):
        if self.plan["what"] == "solver":
            cluster.solver_values(self.spec["kind"], self.spec["params"], seed, self.ctx)
            return
        if self.model is None or how == "build":
            self.model = models.make_model(self.spec["kind"], "casadi", self.spec["params"])
        if how == "make":  # the model object of the failed attempt is used again
            self.model.make_model_algebra_cons("casadi")
        w = world.World(self.spec, problem=world.build(self.spec, model=self.model))
        cluster.check_values(w, seed, self.ctx)


def run(plan, ctx):
    sm = ctx.cluster(max_steps=12000)
    seed = plan["seed"]
    outcome = {}

    def limited(fn, what):
        """Run without faults and within the budget of events"""
        node = sm.current
        n0 = node.n
        fn()
        if node.n - n0 > BUDGET:
            raise Violation("too_many_steps", "%s needed %d events" % (what, node.n - n0))
        ctx.ev(what, "events", (node.n - n0) // 50)

    def faulted():
        node = sm.current
        a = Attempt(plan, plan["spec"], ctx)
        try:
            a(seed)
            outcome["first"] = "succeeded"
        except (Violation, sim.SimCrash, sim.SimStuck):
            raise
        except (Exception, KeyboardInterrupt) as e:
            if not any(f.get("_fired") for f in sm.faults):
                raise Violation("failed_without_fault", repr(e))
            outcome["first"] = "failed"
            ctx.ev("attempt", type(e).__name__)
        sm.faults[:] = [f for f in sm.faults if f.get("_fired")]  # the faults are over
        limited(lambda: a(seed + 1, "make" if plan["retry_how"] == "make" else "build"), "same process again")
        ctx.probe("recovered_in_process")

    def peer(k):
        def fn():
            spec = plan["other"] if plan["peer_other"] else plan["spec"]
            try:
                Attempt(plan, spec, ctx)(seed + 10 + k)
            except (Violation, sim.SimCrash, sim.SimStuck):
                raise
            except (Exception, KeyboardInterrupt) as e:
                # a fault of the compiler or of a library load may have hit this process
                if not any(f.get("_fired") and "node" not in f for f in sm.faults):
                    raise Violation("peer_failed", "process %d: %r" % (k, e))
        return fn

    def recovery(k):
        def fn():
            sm.faults[:] = [f for f in sm.faults if f.get("_fired")]
            limited(lambda: Attempt(plan, plan["spec"], ctx)(seed + 20 + k), "new process")
            limited(lambda: Attempt(plan, plan["other"], ctx)(seed + 30 + k), "other model")
            ctx.probe("recovered_new_process")
        return fn

    first = sm.add_node("faulted", faulted)
    n = 1 + plan["peers"]
    for k in range(plan["peers"]):
        sm.add_node("peer%d" % k, peer(k))
    for k in range(plan["recover"]):
        sm.add_node("recovery%d" % k, recovery(k), after=list(range(n)))
    cluster.run_nodes(sm)
    fired = [f for f in sm.faults if f.get("_fired")]
    for nd in sm.nodes[1:n + plan["recover"]]:
        if nd.dead and not any("node" not in f for f in fired):
            raise Violation("died", "process %s died without a fault" % nd.name)
        if nd.error is not None and not nd.dead:
            raise Violation("no_recovery", "%s: %r" % (nd.name, nd.error))
        if nd.dead and nd.name.startswith("recovery"):
            raise Violation("no_recovery", "%s died" % nd.name)
    if first.error is not None and not first.dead:
        raise Violation("no_recovery", "same process: %r" % first.error)
    for f in fired:
        ctx.nontrivial = True
        on, kind = f.get("on", ""), f["kind"]
        ctx.probe("hit_compiler" if on.startswith("cc_") or on == "spawn" else
                  "hit_crash" if kind in ("crash", "crash_after") else
                  "hit_torn" if kind == "torn" else "hit_error")
    if len(fired) > 1:
        ctx.probe("hit_lasting")
    if "first" in outcome:
        ctx.probe("attempt_" + outcome["first"])
    ctx.ev("end", outcome.get("first", "crashed"))
