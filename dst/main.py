"""Runner of the simulated runs.

  main.py check ID [--tier quick|thorough] [--runs N] [--workers N]
  main.py replay FILE            replay a violation (exit 1 if it shows again)
  main.py one ID INDEX           one run of a check, verbose
  main.py selftest [ID ...]      determinism of the simulator
  main.py digests ID N WORKERS   trace digests of the first N runs
"""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
sys.path.insert(0, REPO)
sys.path.insert(0, VERIF)

LEVEL = {"C08": "fault_enumeration", "C11": "fault_enumeration"}


def real_time():
    from dst import sim
    return sim.R["time"]()


class Ctx:
    """What a run reports to the runner"""

    def __init__(self, plan, root):
        self.plan, self.root = plan, root
        self.events, self.faults, self.probes = [], {}, {}
        self.sims = []
        self.evals = 0
        self.nontrivial = False
        self.verbose = False

    def ev(self, *a):
        s = " ".join(str(x) for x in a)
        self.events.append(s)
        if self.verbose:
            print("   ", s[:300], file=sys.stderr)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def value(self, name, arr):
        """Record a numerical result in the trace"""
        import numpy as np
        # rounded: the last bits may depend on the alignment of arrays in memory
        a = np.ascontiguousarray(np.round(np.asarray(arr, dtype=float), 6) + 0.0)
        self.ev(name, hashlib.sha1(a.tobytes()).hexdigest()[:12], a.shape)

    def inline(self, plan=None, max_steps=100000):
        from dst import sim
        s = sim.Inline(self.plan if plan is None else plan, self.root, max_steps)
        self.sims.append(s.sim)
        return s

    def cluster(self, plan=None, max_steps=4000):
        from dst import sim
        s = sim.Sim(self.plan if plan is None else plan, self.root, max_steps)
        self.sims.append(s)
        return s


def load_check(cid):
    return importlib.import_module("dst.checks.%s" % cid.lower())


def make_plan(mod, seed, index, tier):
    r = random.Random("%s/%s/%s" % (mod.ID, seed, index))
    try:
        plan = mod.gen(r, index, tier)
    except Exception as e:
        if lumos_frame(e) is None:
            raise
        # the library's own models can't be made: the run shows it
        return {"seed": 0, "generate": [seed, index, tier]}
    plan.setdefault("seed", r.randrange(1 << 30))
    return json.loads(json.dumps(plan))


def lumos_frame(e):
    """Innermost frame of the library in the traceback, or None"""
    where = None
    tb = e.__traceback__
    marker = os.sep + "lumos" + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if marker in fn and "/dst/" not in fn:
            where = "%s:%s" % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return where


def execute(mod, plan, root, verbose=False):
    """One simulated run in this process. Returns a JSON-able result."""
    from dst import sim, simipopt
    from dst.world import Violation
    import lumos.numpy as lnp
    import numpy as np

    os.chdir(root)
    np.random.seed(plan["seed"] % (2 ** 32))
    random.seed(plan["seed"])
    plan = copy.deepcopy(plan)
    ctx = Ctx(plan, root)
    ctx.verbose = verbose
    res = {"outcome": "ok"}
    try:
        if "generate" in plan:
            mod.gen(random.Random("%s/%s/%s" % ((mod.ID,) + tuple(plan["generate"][:2]))), *plan["generate"][1:])
            return {"outcome": "error", "detail": "the plan could be made this time"}
        mod.run(plan, ctx)
    except Violation as e:
        res = {"outcome": "violation", "cls": e.cls, "detail": e.detail}
    except sim.SimStuck as e:
        res = {"outcome": "violation", "cls": "no_progress", "detail": str(e)}
    except BaseException as e:  # noqa
        where = lumos_frame(e)
        tb = traceback.format_exc()[-3000:]
        if where is not None:
            res = {"outcome": "violation", "cls": "exception:%s" % type(e).__name__,
                   "detail": "%s in %s\n%s" % (e, where, tb)}
        elif isinstance(e, (ValueError, TypeError, LookupError, AttributeError, ArithmeticError)):
            # What the library gave can't be used as it can be on the unchanged tree, eg: an
            # array of another shape. (The replay has to confirm it, as for all violations.)
            res = {"outcome": "violation", "cls": "unusable:%s" % type(e).__name__,
                   "detail": "%s\n%s" % (e, tb)}
        else:
            res = {"outcome": "error", "detail": tb}
        if verbose:
            print(tb, file=sys.stderr)
    simipopt.set_controller(None)
    sim.stop()
    lnp.set_backend("numpy")
    if res["outcome"] == "ok" and any(s.stuck for s in ctx.sims):
        res = {"outcome": "violation", "cls": "no_progress", "detail": "step budget used up"}
    h = hashlib.sha256()
    for s in ctx.events:
        h.update(s.encode() + b"\n")
    inter = hashlib.sha256()
    for s in ctx.sims:
        for item in s.log:
            h.update(repr(item).encode())
            inter.update(repr(item[:2]).encode())
    res["digest"] = h.hexdigest()[:24]
    shape = hashlib.sha256(repr([e.split(" ")[0] for e in ctx.events]).encode())
    shape.update(inter.digest())
    res["shape"] = shape.hexdigest()[:16]
    res["inter"] = inter.hexdigest()[:16]
    faults = dict(ctx.faults)
    probes = dict(ctx.probes)
    for s in ctx.sims:
        for k, v in s.fault_counts.items():
            faults[k] = faults.get(k, 0) + v
        for k, v in s.probes.items():
            probes[k] = probes.get(k, 0) + v
    res.update(faults=faults, probes=probes, steps=sum(s.steps for s in ctx.sims),
               sim_us=sum(s.elapsed_us for s in ctx.sims), nontrivial=bool(ctx.nontrivial),
               checks=ctx.evals, choices=[c for s in ctx.sims for c in s.choices][:5000],
               events=ctx.events[-60:])
    return res


# ------------------------------------------------------------------------ processes
class Child:
    def __init__(self, mod, plan, key, timeout):
        self.key, self.plan = key, plan
        self.root = tempfile.mkdtemp(prefix="dst_", dir=BASE)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        if not gc.get_freeze_count():
            gc.collect()
            gc.freeze()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.close(r)
                os.setsid()
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                err = os.open(self.root + ".err", os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
                os.dup2(err, 2)
                res = execute(mod, plan, self.root)
                data = json.dumps(res).encode()
                off = 0
                while off < len(data):
                    off += os.write(w, data[off:off + 65536])
            except BaseException:  # noqa
                code = 3
                try:
                    traceback.print_exc()
                    sys.stderr.flush()
                except BaseException:  # noqa
                    pass
            os._exit(code)
        os.close(w)
        self.fd = r
        self.data = b""
        self.deadline = time.monotonic() + timeout
        self.timed_out = False

    def feed(self):
        chunk = os.read(self.fd, 1 << 16)
        if chunk:
            self.data += chunk
            return False
        return True

    def kill(self):
        for sig in (signal.SIGKILL,):
            try:
                os.killpg(self.pid, sig)
            except OSError:
                try:
                    os.kill(self.pid, sig)
                except OSError:
                    pass

    def finish(self):
        _, status = os.waitpid(self.pid, 0)
        os.close(self.fd)
        err = ""
        try:
            with open(self.root + ".err", errors="replace") as f:
                err = f.read()[-2000:]
            os.unlink(self.root + ".err")
        except OSError:
            pass
        shutil.rmtree(self.root, ignore_errors=True)
        if self.timed_out:
            return {"outcome": "timeout", "detail": err}
        try:
            return json.loads(self.data)
        except ValueError:
            if os.WIFSIGNALED(status):
                return {"outcome": "died", "detail": "signal %d\n%s" % (os.WTERMSIG(status), err)}
            return {"outcome": "error", "detail": err}


BASE = None


def make_base():
    global BASE
    BASE = tempfile.mkdtemp(prefix="dst_base_")
    return BASE


def run_many(mod, plans, workers, timeout, on_result, stop):
    """Run the plans ((key, plan) iterator) in forked processes."""
    active = {}
    plans = iter(plans)
    exhausted = False
    while True:
        while not exhausted and len(active) < workers and not stop():
            try:
                key, plan = next(plans)
            except StopIteration:
                exhausted = True
                break
            c = Child(mod, plan, key, timeout)
            active[c.fd] = c
        if not active:
            break
        if stop() and not exhausted:
            exhausted = True
        ready, _, _ = select.select(list(active), [], [], 0.5)
        for fd in ready:
            c = active[fd]
            if c.feed():
                del active[fd]
                on_result(c.key, c.plan, c.finish())
        now = time.monotonic()
        for fd, c in list(active.items()):
            if now > c.deadline:
                c.timed_out = True
                c.kill()
                del active[fd]
                on_result(c.key, c.plan, c.finish())


def run_one(mod, plan, timeout):
    out = []
    run_many(mod, [(0, plan)], 1, timeout, lambda k, p, r: out.append(r), lambda: False)
    return settle(mod, plan, out[0], timeout, again=False)


def settle(mod, plan, res, timeout, again=True):
    """A run that hung or died counts as a violation only if it does so again, alone."""
    if res["outcome"] in ("timeout", "died"):
        if again:
            out = []
            run_many(mod, [(0, plan)], 1, 2 * timeout, lambda k, p, r: out.append(r), lambda: False)
            if out[0]["outcome"] != res["outcome"]:
                return out[0]
        name = "hang" if res["outcome"] == "timeout" else "process_died"
        return {"outcome": "violation", "cls": name, "detail": res["detail"], "digest": name,
                "shape": name, "inter": name, "faults": {}, "probes": {}, "steps": 0,
                "sim_us": 0, "nontrivial": True, "checks": 0, "choices": [], "events": []}
    return res


# ---------------------------------------------------------------------- minimisation
def _get(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def _set(plan, path, value):
    plan = copy.deepcopy(plan)
    tgt = plan
    for k in path[:-1]:
        tgt = tgt[k]
    tgt[path[-1]] = value
    return plan


def list_paths(mod, plan):
    if hasattr(mod, "lists"):
        return mod.lists(plan)
    return [(k,) for k in ("ops", "faults") if isinstance(plan.get(k), list)]


def minimise(mod, plan, res, timeout, budget):
    t0 = time.monotonic()
    cls = res["cls"]
    state = {"plan": plan, "res": res, "tries": 0}

    def fails(cand):
        if time.monotonic() - t0 > budget:
            return False
        state["tries"] += 1
        try:
            r = run_one(mod, cand, timeout)
        except Exception:
            return False
        if r["outcome"] == "violation" and r["cls"] == cls:
            state["plan"], state["res"] = cand, r
            return True
        return False

    if cls in ("hang", "process_died"):
        return plan, res, 0
    # make the schedule explicit, so that it no longer depends on the random stream
    if res.get("choices") and "nodes" in plan:
        cand = copy.deepcopy(plan)
        cand["schedule"], cand["sched_default"] = list(res["choices"]), "stay"
        fails(cand)
    for _ in range(3):
        before = json.dumps(state["plan"], sort_keys=True)
        for path in list_paths(mod, state["plan"]):
            try:
                items = _get(state["plan"], path)
            except (IndexError, KeyError, TypeError):  # its parent was removed
                continue
            size = max(1, len(items) // 2)
            while size >= 1 and items:
                i, changed = 0, False
                while i < len(items):
                    cand = items[:i] + items[i + size:]
                    if fails(_set(state["plan"], path, cand)):
                        items, changed = cand, True
                    else:
                        i += size
                if size == 1 and not changed:
                    break
                size = max(1, size // 2) if size > 1 else (1 if changed else 0)
        if state["plan"].get("sched_default") == "stay":
            sch = state["plan"]["schedule"]
            lo = len(sch)
            while lo > 0:  # shortest prefix (by halving)
                if fails(_set(state["plan"], ("schedule",), sch[:lo // 2])):
                    sch = sch[:lo // 2]
                    lo = len(sch)
                else:
                    break
            size = max(1, len(sch) // 2)
            while size >= 1:
                for i in range(0, len(sch), size):
                    if any(sch[i:i + size]):
                        cand = sch[:i] + [0] * len(sch[i:i + size]) + sch[i + size:]
                        if fails(_set(state["plan"], ("schedule",), cand)):
                            sch = cand
                size //= 2
            while sch and sch[-1] == 0:
                sch = sch[:-1]
            fails(_set(state["plan"], ("schedule",), sch))
        if hasattr(mod, "simplify"):
            for cand in mod.simplify(copy.deepcopy(state["plan"])):
                if cand != state["plan"]:
                    fails(json.loads(json.dumps(cand)))
        if json.dumps(state["plan"], sort_keys=True) == before or time.monotonic() - t0 > budget:
            break
    return state["plan"], state["res"], state["tries"]


# --------------------------------------------------------------------------- findings
def known_findings():
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                fields = dict(f.split("=", 1) for f in line.split(" ")[1:] if "=" in f)
                out.append((fields.get("property"), fields.get("signature"), line))
    return out


def signature(res):
    return hashlib.sha1(res["cls"].encode()).hexdigest()[:10]


# ------------------------------------------------------------------------------ check
def check(cid, tier, runs=None, workers=None, budget=None, quiet=False):
    t_start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = load_check(cid)
    from dst import sim  # noqa
    workers = workers or int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    runs = runs or int(os.environ.get("DST_RUNS", "0")) or (
        mod.RUNS_QUICK if tier == "quick" else 10 ** 7)
    budget = budget or float(os.environ.get("DST_BUDGET", "0")) or (
        300.0 if tier == "quick" else 780.0)
    timeout = getattr(mod, "TIMEOUT", 120)
    make_base()
    agg = {"runs": 0, "ok": 0, "faults": {}, "probes": {}, "steps": 0, "sim_us": 0, "checks": 0}
    shapes, inters, digests = set(), set(), set()
    nontrivial = set()
    errors, violations, samples = [], [], []
    findings = [f for f in known_findings() if f[0] == cid]
    found = {}

    def plans():
        for i in range(runs):
            yield i, make_plan(mod, seed, i, tier)

    def on_result(key, plan, res):
        if res["outcome"] in ("timeout", "died"):
            res = settle(mod, plan, res, timeout)
        if res["outcome"] == "error":
            errors.append((key, res["detail"]))
            return
        agg["runs"] += 1
        for k in ("faults", "probes"):
            for n, v in res[k].items():
                agg[k][n] = agg[k].get(n, 0) + v
        for k in ("steps", "sim_us", "checks"):
            agg[k] += res[k]
        shapes.add(res["shape"])
        inters.add(res["inter"])
        digests.add(res["digest"])
        if res["nontrivial"]:
            nontrivial.add(res["digest"])
        if res["outcome"] == "violation":
            sig = signature(res)
            hit = [f for f in findings if f[1] == sig]
            if hit:
                found[sig] = hit[0][2]
            else:
                violations.append((key, plan, res))
        else:
            agg["ok"] += 1
        if len(samples) < 3 and res["nontrivial"] and key >= 3:
            samples.append({"run": key, "plan": plan, "trace_digest": res["digest"],
                            "events": res["events"][-25:]})

    def stop():
        el = time.monotonic() - t_start
        return bool(violations) or len(errors) > 5 or el > budget

    run_many(mod, plans(), workers, timeout, on_result, stop)
    explore_s = time.monotonic() - t_start

    reports = []
    if violations:
        violations.sort(key=lambda v: v[0])
        by_cls = {}
        for key, plan, res in violations:
            by_cls.setdefault(res["cls"], (key, plan, res))
        for cls, (key, plan, res) in list(by_cls.items())[:2]:
            mplan, mres, tries = minimise(mod, plan, res, timeout, 60.0)
            rdir = os.environ.get("DST_REPLAYS", os.path.join(VERIF, "replays"))
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%s.json" % (cid, seed, key))
            with open(path, "w") as f:
                json.dump({"property": cid, "seed": seed, "run": key, "hash_seed": os.environ.get("PYTHONHASHSEED"), "cls": mres["cls"],
                           "detail": mres["detail"], "digest": mres["digest"],
                           "minimise_tries": tries, "plan": mplan, "events": mres["events"],
                           "original_plan": plan}, f, indent=1)
            env = dict(os.environ, PYTHONHASHSEED="123")
            p = subprocess.run([sys.executable, os.path.join(HERE, "main.py"), "replay", path],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            confirmed = p.returncode == 1
            reports.append({"replay": path, "class": mres["cls"], "detail": mres["detail"],
                            "run": key, "confirmed_in_fresh_process": confirmed})
            print("VIOLATION property=%s replay=%s" % (cid, path))
            print("  %s: %s" % (mres["cls"], mres["detail"][:1500]))
            print("  seed %s run %s, minimised in %d runs, replay %s" % (
                seed, key, tries, "confirmed" if confirmed else "NOT CONFIRMED: " +
                p.stdout.decode(errors="replace")[-500:]))
            for e in mres["events"][-15:]:
                print("    " + e[:200])
    shutil.rmtree(BASE, ignore_errors=True)

    wall = time.monotonic() - t_start
    for line in found.values():
        print("KNOWN-FINDING: property=%s %s" % (cid, line.split("what=", 1)[-1]))
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(nontrivial),
        "rule": mod.RULE + " Two runs are distinct when the digests of their full traces "
                "(operations, intercepted events, injected faults, numerical results) differ.",
        "samples": samples,
        "simulated_runs": agg["runs"],
        "runs_per_hour": int(agg["runs"] / max(explore_s, 1e-9) * 3600),
        "seeds_per_hour": int(agg["runs"] / max(explore_s, 1e-9) * 3600),
        "workers": workers,
        "oracle_comparisons": agg["checks"],
        "intercepted_events": agg["steps"],
        "simulated_seconds": round(agg["sim_us"] / 1e6, 3),
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "distinct_traces": len(digests),
        "distinct_event_sequences": len(shapes),
        "distinct_interleavings": len(inters),
        "real_components": mod.REAL,
        "stubbed_components": mod.STUB,
        "harness_errors": len(errors),
        "known_findings_seen": len(found),
        "violation_reports": reports,
    }
    ev = {"property": cid, "tier": tier, "seed": seed, "level": LEVEL.get(cid, "exploration"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "violations": len(reports)}
    edir = os.environ.get("DST_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, ".%s.tmp" % cid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(edir, cid + ".json"))
    if not quiet:
        print("%s %s seed=%s runs=%d distinct=%d interleavings=%d faults=%d events=%d wall=%.1fs" % (
            cid, tier, seed, agg["runs"], len(nontrivial), len(inters),
            sum(agg["faults"].values()), agg["steps"], wall))
        print("  faults: " + ", ".join("%s=%d" % kv for kv in sorted(agg["faults"].items())))
        print("  probes: " + ", ".join("%s=%d" % kv for kv in sorted(agg["probes"].items())))
    if reports:
        return 1
    if errors:
        print("HARNESS ERROR in run %s:\n%s" % errors[0])
        return 2
    if agg["runs"] < min(runs, getattr(mod, "MIN_RUNS", 20)):
        print("HARNESS ERROR: only %d runs within the time budget" % agg["runs"])
        return 2
    need = [p for p in getattr(mod, "MUST_HIT", ()) if not agg["probes"].get(p)
            and not agg["faults"].get(p)]
    if need and agg["runs"] >= mod.RUNS_QUICK:
        print("NOTE: probes never hit: %s" % ", ".join(need))
    return 0


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    seed = rec.get("hash_seed")
    if seed is not None and seed != os.environ.get("PYTHONHASHSEED"):
        sys.stdout.flush()  # the order of sets is a part of the run
        os.execve(sys.executable, [sys.executable, os.path.join(HERE, "main.py"), "replay", path],
                  dict(os.environ, PYTHONHASHSEED=seed))
    mod = load_check(rec["property"])
    make_base()
    try:
        res = run_one(mod, rec["plan"], getattr(mod, "TIMEOUT", 120))
    finally:
        shutil.rmtree(BASE, ignore_errors=True)
    print(json.dumps({k: res.get(k) for k in ("outcome", "cls", "detail", "digest")}, indent=1))
    for e in res.get("events", []):
        print("   ", e)
    if res["outcome"] == "violation":
        same = res["cls"] == rec["cls"] and res["digest"] == rec["digest"]
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        print("same violation and trace" if same else "trace differs: %s %s, recorded %s %s" % (
            res["cls"], res["digest"], rec["cls"], rec["digest"]))
        return 1 if same else 4
    return 0 if res["outcome"] == "ok" else 2


def one(cid, index):
    mod = load_check(cid)
    make_base()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = make_plan(mod, seed, index, os.environ.get("VERIF_TIER", "quick"))
    print(json.dumps(plan))
    root = os.path.join(BASE, "run")
    os.mkdir(root)
    try:
        res = execute(mod, plan, root, verbose=True)
    finally:
        os.chdir("/")
        shutil.rmtree(BASE, ignore_errors=True)
    res.pop("events")
    res.pop("choices")
    for k, v in res.items():
        print(k, ":", v)


def digests(cid, n, workers, first=0):
    mod = load_check(cid)
    make_base()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out = {}
    run_many(mod, ((i, make_plan(mod, seed, i, "quick")) for i in range(first, first + n)), workers,
             getattr(mod, "TIMEOUT", 120),
             lambda k, p, r: out.__setitem__(k, (r.get("outcome"), r.get("digest"))), lambda: False)
    shutil.rmtree(BASE, ignore_errors=True)
    for k in sorted(out):
        print("DIGEST", cid, k, *out[k])


def main(argv):
    cmd = argv[0]
    args = [a for a in argv[1:] if not a.startswith("--")]
    opts = dict(a[2:].split("=", 1) for a in argv[1:] if a.startswith("--") and "=" in a)
    from dst import env  # noqa
    if cmd == "check":
        tier = opts.get("tier") or os.environ.get("VERIF_TIER", "quick")
        return check(args[0], tier, int(opts.get("runs", 0)) or None,
                     int(opts.get("workers", 0)) or None, float(opts.get("budget", 0)) or None)
    if cmd == "replay":
        return replay(args[0])
    if cmd == "one":
        one(args[0], int(args[1]))
        return 0
    if cmd == "child":  # part of a run, in a process of its own
        mod = load_check(args[0])
        with open(args[1]) as f:
            plan = json.load(f)
        os.chdir(args[2])
        try:
            out = mod.child(plan, Ctx(plan, args[2]))
        except Exception as e:
            out = {"error": type(e).__name__, "where": lumos_frame(e), "detail": traceback.format_exc()[-3000:]}
        with open(args[3], "w") as f:
            json.dump(out, f)
        return 0
    if cmd == "digests":
        digests(args[0], int(args[1]), int(args[2]))
        return 0
    raise SystemExit("unknown command")


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # noqa
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code or 0)
