"""C05: the numerical backend active before an operation is active after it."""
import lumos.numpy as lnp

from dst import bench, sim, world
from dst.world import Violation

ID = "C05"
RUNS_QUICK = 1500
TIMEOUT = 200
RULE = ("Each run is a random program of backend contexts (new, shared and re-entered instances, "
        "with statements and decorated functions, nested, recursive, left by errors, interrupts and "
        "return), of explicit changes of the backend, and of library operations (evaluating, "
        "tracing, compiling, exporting, building, solving, logging) started under whatever "
        "backend is active, with failures injected. The active backend is compared with a "
        "reference stack after every step. A run is non-trivial when a context was left by an "
        "exception or a library operation failed.")
REAL = ["lumos backends, models and problems", "casadi and jax tracing", "file system (scratch directory)"]
STUB = ["IPOPT (scripted solver)", "gcc (the library holds the functions the code was generated from)"]
ASSUMPTIONS = ["the backend is one global of the process: contexts are not interleaved by threads"]
MUST_HIT = ("left_by_exception", "reentered", "decorated", "model_fault_in_build", "model_fault_in_eval",
            "model_fault_in_batched", "model_fault_in_export", "io_fault_in_build", "line_fault_in_build",
            "script_fault_in_solve", "op_under_casadi", "op_under_jax")
BACKENDS = ("numpy", "casadi", "jax")
MIX = ["forward", "sub", "arrays", "apply"] + ["batched"] * 3 + ["make"] * 2 + ["export"] * 2 + [
    "build"] * 3 + ["eval"] * 3 + ["solve"] * 2


class Leave(Exception):
    pass


class LeaveInterrupt(KeyboardInterrupt):
    pass


def gen_block(r, specs, depth, budget, inst):
    out = []
    for _ in range(r.randint(1, 4)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        u = r.random()
        if u < 0.34 and depth < 5:
            how = r.choice(["new", "shared", "shared", "decorated", "decorated", "method"])
            which = r.randrange(inst) if how != "new" else r.choice(BACKENDS)
            out.append([how, which, gen_block(r, specs, depth + 1, budget, inst)])
        elif u < 0.42:
            out.append(["raise", r.choice(["error", "interrupt"])])
            break
        elif u < 0.52 and depth < 5:
            out.append(["try", gen_block(r, specs, depth + 1, budget, inst)])
        elif u < 0.59:
            out.append(["set", r.choice(BACKENDS)])
        elif u < 0.61:
            out.append(["unknown", r.choice(["set", "with", "decorated"])])
        elif u < 0.66:
            out.append(["create", r.randrange(inst), r.choice(BACKENDS)])
        else:
            i = r.randrange(len(specs))
            out.append(["lib", bench.gen_ops(r, specs[i]["kind"], i, MIX, 0.04)])
    return out


def gen(r, index, tier):
    specs = [world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.5, 0.44, 0.06])[0],
                            kinds=("nested", "flat", "mesh"), small=True) for _ in range(r.choice([1, 1, 2]))]
    inst = r.randint(1, 3)
    ops = []
    for _ in range(r.randint(1, 3 if tier == "quick" else 8)):
        ops += gen_block(r, specs, 0, [14 if tier == "quick" else 30], inst)
    return {"specs": specs, "inst": [r.choice(BACKENDS) for _ in range(inst)], "ops": ops,
            "start": r.choices(BACKENDS, [0.8, 0.1, 0.1])[0], "log": r.random() < 0.4,
            "nth": r.choice([0, 1]), "seed": r.randrange(1 << 30)}


def run(plan, ctx):
    with ctx.inline() as s:
        Program(plan, ctx, s).main()


class Program:
    def __init__(self, plan, ctx, s):
        self.plan, self.ctx = plan, ctx
        self.b = bench.Bench(ctx, s, plan["specs"])
        self.b.check_values = False
        if plan["log"]:
            from lumos.optimal_control.config import LoggingConfig
            lc = LoggingConfig("c05", ctx.root + "/results", plan["nth"])
            build = self.b._op_build
            self.b._op_build = lambda it: build(it, lc)
        lnp.set_backend(plan["start"])
        self.active = plan["start"]
        self.shared = [lnp.use_backend(x) for x in plan["inst"]]
        self.target = list(plan["inst"])
        self.funcs = [self.decorate(k) for k in range(len(self.shared))]
        self.inside = [0] * len(self.shared)

    def decorate(self, k):
        """A decorated function, made now and called later, possibly recursively"""
        @lnp.use_backend(self.target[k])
        def fn(block):
            self.expect(self.target_of_fn[k], "in a decorated function")
            return self.block(block)
        if not hasattr(self, "target_of_fn"):
            self.target_of_fn = {}
        self.target_of_fn[k] = self.target[k]
        return fn

    def expect(self, want, where):
        self.active = want
        have = lnp.get_backend()
        self.ctx.evals += 1
        if have != want:
            raise Violation("backend", "%s instead of %s %s" % (have, want, where))

    def check(self, where):
        self.expect(self.active, where)

    def main(self):
        for op in self.plan["ops"]:
            try:
                self.step(op)
            except (Leave, LeaveInterrupt):
                pass
        self.check("at the end")
        lnp.set_backend("numpy")

    def block(self, ops):
        for op in ops:
            self.step(op)

    def scoped(self, target, enter, where):
        """Run enter() (which opens the context and runs the block in it)"""
        before = self.active
        try:
            enter()
        except (Leave, LeaveInterrupt):
            self.ctx.fault("left_by_exception")
            self.ctx.nontrivial = True
            self.expect(before, "after %s left by an exception" % where)
            raise
        self.expect(before, "after " + where)

    def step(self, op):
        k, ctx = op[0], self.ctx
        ctx.ev(k, *op[1:2])
        if k == "set":
            lnp.set_backend(op[1])
            self.expect(op[1], "after set_backend")
        elif k == "unknown":  # a backend that doesn't exist: refused or ignored
            try:
                if op[1] == "set":
                    lnp.set_backend("no_such_backend")
                elif op[1] == "with":
                    with lnp.use_backend("no_such_backend"):
                        self.check("in a context of an unknown backend")
                else:
                    lnp.use_backend("no_such_backend")(lambda: self.check("in a function"))()
            except Violation:
                raise
            except Exception:
                pass
            ctx.probe("unknown_backend")
            self.check("after asking for an unknown backend")
        elif k == "create":  # another instance, made under the backend active now
            if op[1] < len(self.shared) and not self.inside[op[1]]:
                self.target[op[1]] = op[2]
                self.shared[op[1]] = lnp.use_backend(op[2])
                self.funcs[op[1]] = self.decorate(op[1])
                self.check("after creating a context")
        elif k == "raise":
            raise (Leave if op[1] == "error" else LeaveInterrupt)()
        elif k == "try":
            try:
                self.block(op[1])
            except (Leave, LeaveInterrupt):
                pass
            self.check("after a handled exception")
        elif k == "new":
            def enter():
                with lnp.use_backend(op[1]):
                    self.expect(op[1], "in a context")
                    self.block(op[2])
            self.scoped(op[1], enter, "a context")
        elif op[0] in ("shared", "decorated", "method"):
            if op[1] >= len(self.shared):
                return
            j = op[1]
            if self.inside[j]:
                ctx.probe("reentered")
            self.inside[j] += 1

            def enter():
                if k == "shared":
                    with self.shared[j]:
                        self.expect(self.target[j], "in a context")
                        self.block(op[2])
                elif k == "decorated":
                    ctx.probe("decorated")
                    self.funcs[j](op[2])
                else:
                    # the same instance used as a decorator
                    def body(block):
                        self.expect(self.target[j], "in a decorated function")
                        self.block(block)
                    self.shared[j](body)(op[2])
            try:
                self.scoped(self.target[j], enter, "a %s context" % k)
            finally:
                self.inside[j] -= 1
        elif k == "lib":
            if op[1][1] >= len(self.b.items):
                return
            ctx.ev(*op[1])
            fired, err = self.b.perform(op[1])
            if self.active != "numpy":
                ctx.probe("op_under_" + self.active)
            if err is not None:
                # an operation may not support the backend that is active
                if not fired and self.active == "numpy":
                    raise err
                ctx.nontrivial = True
                ctx.ev("failed", fired, type(err).__name__)
            self.check("after %s (%s)" % (op[1][0], "failed" if err is not None else "succeeded"))
        else:
            raise KeyError(k)
