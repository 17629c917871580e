"""C16: exported code is the model."""
import numpy as np

import casadi

from dst import bench, models, sim, world
from dst.world import Violation, close

ID = "C16"
RUNS_QUICK = 1500
TIMEOUT = 200
RULE = ("Each run exports models as C code in between other operations of the library (evaluating, "
        "tracing, compiling, building, solving, other exports, failing or interrupted ones) and "
        "changes of the parameters and constraint outputs. The functions of every exported file "
        "are called at once and again later, with parameters of their own, and compared with the "
        "definition of the model as it was when it was exported. A run is non-trivial when "
        "an export was checked after a failed operation or after a change of the model.")
REAL = ["lumos models, parameter trees, problems and backends", "casadi's tracing and code generation",
        "file system (scratch directory)", "gcc and dlopen in a part of the runs"]
STUB = ["gcc (the functions of a file are those its text was generated from)", "IPOPT (scripted solver)"]
ASSUMPTIONS = ["two exports into the same file at the same time are not considered",
               "an incomplete header file (option with_header) is not judged, only the C file"]
MUST_HIT = ("model_fault_in_export", "io_fault_in_export", "line_fault_in_export", "export_again",
            "export_after_failure", "late_call", "kept_file", "con_outputs", "real_cc", "real_codegen", "mex", "other_name", "shipped")
MIX = ["forward", "arrays", "apply", "batched", "make", "make", "build", "build", "eval", "solve"]
NAMES = ("export_a.c", "export_b.c", "model.c", "nlpfunctions.c")
SHIPPED = ("DroneModel", "SimpleVehicle", "SimpleVehicleOnTrack")


def gen(r, index, tier):
    specs = []
    for _ in range(r.choice([1, 1, 2])):
        specs.append(world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.5, 0.48, 0.02])[0],
                                    kinds=("nested", "nestedb", "flat", "mesh"), small=True))
    ops = []
    for _ in range(r.randint(3, 10 if tier == "quick" else 30)):
        i = r.randrange(len(specs))
        kind = specs[i]["kind"]
        u = r.random()
        if u < 0.3:
            ops.append(["lib", bench.gen_ops(r, kind, i, MIX, 0.01)])
        elif u < 0.68:
            ops.append(gen_export(r, i, bench.gen_fault(r, "export", 0.4)))
        elif u < 0.76:
            ops.append(["set", i, bench.gen_params(r, kind)])
        elif u < 0.86:
            names = list(models.KINDS[kind]["outputs"])
            ops.append(["con", i, r.sample(names, r.randint(0, min(3, len(names)))), r.random() < 0.3])
        else:
            ops.append(["call", r.randrange(64), r.randrange(1 << 30)])
    ops.append(gen_export(r, r.randrange(len(specs)), None))
    plan = {"specs": specs, "ops": ops, "real_gcc": index % 50 == 13, "seed": r.randrange(1 << 30)}
    if index % 25 == 6:
        plan["shipped"] = [SHIPPED[(index // 25) % 3], r.choice(["MX", "MX", "SX"]), r.randrange(1 << 20)]
    return plan


def gen_export(r, i, fault):
    opts = r.choice([None, None, None, {}, {"mex": True}, {"main": True}, {"with_header": True}])
    includes = r.choice([None, None, None, [], ["dst_a.h"], ["dst_a.h", "dst_b.h"]])
    return ["export", i, r.choice(NAMES), r.choice(["MX", "SX"]), opts, includes, r.randrange(1 << 30), fault]


class Export:
    """A file as it has to be"""

    def __init__(self, it, name, tree, con, seed):
        self.it, self.name, self.seed = it, name, seed
        self.kind = it.kind
        self.tree, self.con = tree, con
        self.fns = None

    def read(self):
        try:
            with sim.R["fopen"](self.name, "rb") as f:
                return f.read()
        except FileNotFoundError:
            raise Violation("export_missing", self.name)

    def load(self, s, real):
        text = self.text = self.read()
        if not sim._complete_c(text):
            raise Violation("export_incomplete", self.name)
        if real:
            # the compiled file itself
            sim.REGISTRY.pop(sim._sha(text), None)
        lib = sim.MAGIC + sim._sha(text).encode() + b"\n" + text + b"\nEND\n"
        try:
            self.fn = sim._load_function(s, lib, "forward", self.name)
        except RuntimeError as e:
            raise Violation("export_unusable", str(e))
        return text.decode()

    def call(self, b, seed):
        r = np.random.RandomState(seed % (2 ** 32))
        P = {k: (r.uniform(0.2, 2.0, np.shape(v)).tolist() if np.ndim(v) else float(r.uniform(0.5, 2)))
             for k, v in models.default_params(self.kind).items()}
        S, U, mesh = b.point(seed)
        flat, _ = b.tree(self.it, P).tree_ravel()
        out = self.fn(S, U, float(mesh), np.asarray(flat, float))
        xdot, y = models.ref_forward(self.kind, bench.as_arrays(P), S, U, mesh)
        if len(out) != 4:
            raise Violation("export_outputs", "%d outputs" % len(out))
        K = models.KINDS[self.kind]
        names = self.it.model.get_group_names("outputs")
        close("exported_states_dot", np.ravel(out[0]), xdot, 1e-9)
        for n, got, want in (("outputs", out[1], names), ("con_outputs", out[2], self.con),
                             ("residuals", out[3], K["residuals"])):
            close("exported_" + n, np.ravel(np.asarray(got, float)), np.array([y[k] for k in want], float), 1e-9)
        b.ctx.evals += 1


def run(plan, ctx):
    with ctx.inline() as s:
        s.real_codegen = plan["real_gcc"]
        b = bench.Bench(ctx, s, plan["specs"])
        live, failed, cons = [], False, {}

        def fresh_con(it):
            return cons.get(id(it), ())

        for op in plan["ops"]:
            k = op[0]
            ctx.ev(*op[:6])
            if k == "call":
                if live:
                    ctx.probe("late_call")
                    live[op[1] % len(live)].call(b, op[2])
                continue
            n = op[1][1] if k == "lib" else op[1]
            if n >= len(b.items):
                continue
            it = b.items[n]
            if k == "lib":
                fired, err = b.perform(op[1])
                if err is not None and not fired:
                    raise err
                failed = failed or err is not None
                if op[1][0] in ("build", "eval", "solve"):
                    # a problem tells the model its own constraint outputs
                    cons[id(it)] = tuple(it.model.names.con_outputs)
                    allowed = (tuple(it.spec["con_outputs"]), fresh_con(it))
                    if cons[id(it)] not in allowed:
                        raise Violation("con_outputs", "%s" % (cons[id(it)],))
            elif k == "set":
                it.model.set_recursive_params(b.tree(it, op[2]))
                it.want = dict(op[2])
                it.world = None
                ctx.nontrivial = True
            elif k == "con":
                names = list(op[2])
                it.model.set_con_outputs(names)
                cons[id(it)] = tuple(op[2])
                it.world = None
                it.made = None
                if op[3]:
                    names.append("gone")
                ctx.probe("con_outputs")
                ctx.nontrivial = True
            elif k == "export":
                failed |= do_export(b, it, op, live, fresh_con(it), plan, failed)
            b.check_params(k)
        for e in live:
            e.call(b, plan["seed"])
        if plan.get("shipped"):
            shipped(plan["shipped"], s, ctx)


def do_export(b, it, op, live, con, plan, failed):
    _, _, name, castype, opts, includes, seed, fault = op
    ctx = b.ctx
    before = None if includes is None else list(includes)
    given = None if opts is None else dict(opts)

    def export(it):
        it.model.export_c_code(name, CasType=getattr(casadi, castype), options=opts, includes=includes)

    b._op_export = export
    known = {e.name for e in live}
    old = [e for e in live if e.name == name]
    fired, err = b.perform(["export", op[1], fault])
    if opts != given or includes != before:
        raise Violation("arguments", "the options or includes given were changed")
    # whatever was in this file before is not there any more (or perhaps not)
    live[:] = [e for e in live if e.name != name]
    if err is not None:
        if not fired:
            raise err
        if old:
            text = old[0].read()
            if text == old[0].text:
                live.append(old[0])
                ctx.probe("kept_file")
            elif not sim._complete_c(text):
                raise Violation("export_damaged", "a failed export left an incomplete file")
        return True
    if fired == "model" or fired == "io" and not (opts and opts.get("with_header")):
        raise Violation("error_swallowed", "a failed export returned without an error")
    e = Export(it, name, None, con, seed)
    text = e.load(b.s, plan["real_gcc"] and castype == "MX" and not opts and not includes)
    for h in includes or ():
        if h not in text:
            raise Violation("includes", h)
    if bool(opts and opts.get("mex")) != ("mexFunction(" in text):
        raise Violation("options", "mex: %s" % opts)
    if bool(opts and opts.get("main")) != ("int main(" in text):
        raise Violation("options", "main: %s" % opts)
    if b.items.index(it) == 1:
        ctx.probe("other_name")
    e.call(b, seed)
    live.append(e)
    if opts and opts.get("mex"):
        ctx.probe("mex")
    if name in known:
        ctx.probe("export_again")
    if failed:
        ctx.probe("export_after_failure")
        ctx.nontrivial = True
    if plan["real_gcc"]:
        ctx.probe("real_codegen")
        ctx.probe("real_cc")
    return False


def shipped(what, s, ctx):
    """A model of the library: another instance is the reference"""
    name, castype, seed = what
    from lumos.models.drone_model import DroneModel
    from lumos.models.simple_vehicle_on_track import SimpleVehicleOnTrack
    from lumos.models.vehicles.simple_vehicle import SimpleVehicle
    make = {c.__name__: c for c in (DroneModel, SimpleVehicle, SimpleVehicleOnTrack)}[name]
    m, other = make(), make()
    r = np.random.RandomState(seed)

    def values():
        S = r.uniform(0.2, 1.0, m.num_states)
        names = m.get_group_names("states")
        for i, n in enumerate(names):
            if n in ("vx", "wfl", "wfr", "wrl", "wrr"):
                S[i] = r.uniform(20, 60) / (0.3 if n.startswith("w") else 1)
            else:
                S[i] *= 0.1
        U = r.uniform(-0.1, 0.1, m.num_inputs)
        return S, U, float(r.uniform(0, 1))

    S, U, mesh = values()
    m.forward_with_arrays(S, U, mesh)
    con = list(m.get_group_names("outputs"))[:2]
    m.set_con_outputs(con)
    other.set_con_outputs(con)
    m.export_c_code("shipped.c", CasType=getattr(casadi, castype))
    e = Export.__new__(Export)
    e.name = "shipped.c"
    e.load(s, False)
    for _ in range(3):
        S, U, mesh = values()
        t = other.get_recursive_params()
        flat, unravel = t.tree_ravel()
        flat = np.asarray(flat, float) * r.uniform(0.97, 1.03, len(flat))
        out = e.fn(S, U, mesh, flat)
        want = other.apply_and_forward_with_arrays(S, U, mesh, unravel(flat))
        for g, a, w in zip(("states_dot", "outputs", "con_outputs", "residuals"), out, want):
            close("shipped_" + g, np.ravel(np.asarray(a, float)), np.ravel(np.asarray(w, float)), 1e-7)
        ctx.evals += 1
    ctx.probe("shipped")
