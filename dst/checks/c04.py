"""C04: model parameters change only when the user changes them."""
import numpy as np

from dst import bench, models, shipped, sim, world
from dst.bench import check_tree
from dst.world import Violation

ID = "C04"
RUNS_QUICK = 2000
TIMEOUT = 200
RULE = ("Each run sets parameters of models and submodels, keeps the parameter trees and "
        "dictionaries it gave or got, changes these later (new values and in-place changes of "
        "arrays), and lets the library evaluate, trace, compile, export, build and solve with "
        "the models, with errors, interrupts and compilation faults injected. After every step "
        "the parameters of all models and submodels are compared with what was set last, and "
        "all kept trees with their content. A run is non-trivial when a library operation failed "
        "or a kept tree was changed before a comparison.")
REAL = ["lumos models, parameter trees, problems and backends", "casadi and jax tracing",
        "file system (scratch directory)"]
STUB = ["IPOPT (scripted solver)", "gcc (the library holds the functions the code was generated from)"]
ASSUMPTIONS = ["apply_and_forward (the variant without arrays) is left out: it sets the parameters by design"]
MUST_HIT = ("model_fault_in_apply", "model_fault_in_make", "model_fault_in_export", "model_fault_in_build",
            "line_fault_in_make", "line_fault_in_apply", "io_fault_in_build", "io_fault_in_export",
            "mutate_in_place", "mutate_set", "sub_set", "modify_param", "new_from_tree",
            "shipped", "result_scribbled", "shipped_tree_edited")
MIX = ["forward", "arrays"] + ["apply"] * 3 + ["batched", "make", "make", "export", "export", "build",
                                              "build", "eval", "solve"]


def gen(r, index, tier):
    if index % 20 == 7:
        return shipped.gen(r, 0.15)
    specs = []
    for _ in range(r.choice([1, 1, 2])):
        specs.append(world.gen_spec(r, backend=r.choices(["custom", "casadi", "jax"], [0.5, 0.47, 0.03])[0],
                                    kinds=("nested", "nested", "flat", "mesh"), small=True))
    ops = []
    for _ in range(r.randint(4, 14 if tier == "quick" else 40)):
        i = r.randrange(len(specs))
        kind = specs[i]["kind"]
        u = r.random()
        if u < 0.42:
            ops.append(["lib", bench.gen_ops(r, kind, i, MIX, 0.02)])
        elif u < 0.52:
            ops.append(["set", i, bench.gen_params(r, kind), r.choice(["tree", "dict", "flat", "same", "held"])])
        elif u < 0.58 and kind == "nested":
            ops.append(["sub_set", i, r.choice(bench.SUBMODELS["nested"]), r.randrange(1 << 20)])
        elif u < 0.68:
            ops.append(["hold", i, r.choice(["tree", "tree", "sub", "dict", "flat", "default"]), r.randrange(1 << 20)])
        elif u < 0.86:
            ops.append(["mutate", r.randrange(64), r.choice(["set", "place", "place", "data"]), r.randrange(1 << 20)])
        elif u < 0.93:
            ops.append(["modify", i, r.randrange(1 << 20), r.random() < 0.5])
        else:
            ops.append(["new", i, bench.gen_params(r, kind)])
    return {"specs": specs, "ops": ops, "seed": r.randrange(1 << 30)}


class Held:
    """A tree or dictionary kept by the user, and what it has to contain"""

    def __init__(self, obj, content, style="tree"):
        self.obj, self.content, self.style = obj, {k: np.array(v, float) for k, v in content.items()}, style

    def leaves(self):
        if self.style == "tree":
            return self.obj.to_flat_dict()[0]
        return self.obj if self.style == "flat" else flatten(self.obj)

    def check(self):
        have = self.leaves()
        if set(have) != set(self.content):
            raise Violation("held_tree", "names %s instead of %s" % (sorted(have), sorted(self.content)))
        for k, v in self.content.items():
            try:
                same = np.array_equal(np.asarray(have[k], float), v)
            except Exception:
                same = False
            if not same:
                raise Violation("held_tree", "%s became %r, was %r" % (k, have[k], v))

    def mutate(self, how, seed):
        r = np.random.RandomState(seed)
        names = sorted(self.content)
        arrays = [n for n in names if self.content[n].ndim]
        name = names[seed % len(names)]
        if how == "place":
            if not arrays:
                return False
            name = arrays[seed % len(arrays)]
            arr = self.raw(name)
            try:
                arr[seed % len(arr)] = v = float(r.uniform(3, 4))
            except (ValueError, TypeError):  # a read-only array is fine, too
                return False
            self.content[name][seed % len(self.content[name])] = v
            return True
        v = r.uniform(3, 4, self.content[name].shape)
        v = float(v) if v.ndim == 0 else v
        if self.style == "tree":
            self.obj.set_param(name, v)
        elif self.style == "flat":
            self.obj[name] = v
        else:
            *path, leaf = name.split(".")
            d = self.obj
            for p in path:
                d = d["children"][p]
            d["data"][leaf] = v
        self.content[name] = np.array(v, float)
        return True

    def raw(self, name):
        """The array object itself"""
        if self.style == "tree":
            return self.obj.get_param(name)
        if self.style == "flat":
            return self.obj[name]
        *path, leaf = name.split(".")
        d = self.obj
        for p in path:
            d = d["children"][p]
        return d["data"][leaf]


def flatten(d, prefix=""):
    out = {prefix + k: v for k, v in d["data"].items()}
    for n, c in d["children"].items():
        out.update(flatten(c, prefix + n + "."))
    return out


def run(plan, ctx):
    if plan.get("kind") == "shipped":
        return shipped.run(plan, ctx)
    with ctx.inline() as s:
        b = bench.Bench(ctx, s, plan["specs"])
        held = []

        def check(tag):
            b.check_params(tag)
            for h in held:
                h.check()
            ctx.evals += 1

        check("start")
        for op in plan["ops"]:
            k = op[0]
            ctx.ev(*op)
            if k == "lib":
                if op[1][1] >= len(b.items):
                    continue
                fired, err = b.perform(op[1])
                if err is not None and not fired:
                    raise err
                if err is not None:
                    ctx.nontrivial = True
                    ctx.ev("failed", fired, type(err).__name__)
            elif k == "mutate":
                if held:
                    h = held[op[1] % len(held)]
                    if h.mutate("set" if op[2] == "data" else op[2], op[3]):
                        ctx.fault("mutate_in_place" if op[2] == "place" else "mutate_set")
                        ctx.nontrivial = True
            else:
                if op[1] >= len(b.items):
                    continue
                user_op(b, b.items[op[1]], op, held, ctx)
            check(k)
        b.check_models(plan["seed"])
        b.check_worlds(plan["seed"])
        check("end")


def user_op(b, it, op, held, ctx):
    k = op[0]
    if k == "set":
        if op[3] == "same":  # what is set is what was just got
            t = it.model.get_recursive_params()
            content = dict(it.want)
        elif op[3] == "held":
            trees = [h for h in held if h.style == "tree" and set(h.content) == set(it.want)]
            if not trees:
                return
            t, content = trees[-1].obj, {k: v.copy() for k, v in trees[-1].content.items()}
        else:
            t, content = b.tree(it, op[2]), dict(op[2])
            if op[3] == "dict":
                d = t.to_dict()
                t = type(t).from_dict(d)
                held.append(Held(d, content, "dict"))
            elif op[3] == "flat":
                flat, tree_def = t.to_flat_dict()
                t = type(t).from_flat_dict(tree_def, flat)
                held.append(Held(flat, content, "flat"))
        it.model.set_recursive_params(t)
        if op[3] != "held":
            held.append(Held(t, content))
        it.want = {n: (v.tolist() if isinstance(v, np.ndarray) else v) for n, v in content.items()}
        it.world = None  # its parameters are its own matter now
    elif k == "sub_set":
        sub = it.model.get_submodel(op[2])
        t = sub.get_recursive_params()
        flat, _ = t.to_flat_dict()
        name = sorted(flat)[op[3] % len(flat)]
        r = np.random.RandomState(op[3])
        v = r.uniform(0.5, 1.5, np.shape(flat[name]))
        v = float(v) if v.ndim == 0 else v
        t.set_param(name, v)
        sub.set_recursive_params(t)
        it.want[op[2] + "." + name] = v.tolist() if isinstance(v, np.ndarray) else v
        content = {n[len(op[2]) + 1:]: w for n, w in it.want.items() if n.startswith(op[2] + ".")}
        held.append(Held(t, content))
        it.world = None
        ctx.probe("sub_set")
    elif k == "hold":
        if op[2] == "default":
            t = it.model.get_recursive_default_params()
            held.append(Held(t, models.default_params(it.kind)))
        elif op[2] == "sub":
            if it.kind not in bench.SUBMODELS:
                return
            path = bench.SUBMODELS[it.kind][op[3] % 4]
            content = {n[len(path) + 1:]: w for n, w in it.want.items() if n.startswith(path + ".")}
            held.append(Held(it.model.get_submodel(path).get_recursive_params(), content))
        else:
            t = it.model.get_recursive_params()
            if op[2] == "dict":
                held.append(Held(t.to_dict(), it.want, "dict"))
            elif op[2] == "flat":
                held.append(Held(t.to_flat_dict()[0], it.want, "flat"))
            held.append(Held(t, it.want))
    elif k == "modify":
        if it.world is None:
            b._op_build(it)
        names = sorted(it.want)
        arrays = [n for n in names if isinstance(it.want[n], list)]
        name = arrays[op[2] % len(arrays)] if op[3] else names[op[2] % len(names)]
        r = np.random.RandomState(op[2])
        v = r.uniform(0.5, 1.5, np.shape(it.want[name]))
        v = float(v) if v.ndim == 0 else v
        it.world.problem.modify_model_param(name, v)
        it.want[name] = v.tolist() if isinstance(v, np.ndarray) else v
        it.world.spec["params"][name] = it.want[name]
        it.world.changed()
        if isinstance(v, np.ndarray):
            v[...] = 99.0  # the user's array
            ctx.fault("mutate_in_place")
        ctx.probe("modify_param")
    elif k == "new":
        t = b.tree(it, op[2])
        new = bench.Item(dict(it.spec, params=op[2]))
        new.model = models.model_class(it.kind, "custom")(params=t)
        held.append(Held(t, op[2]))
        if len(b.items) < 5:
            b.items.append(new)
        ctx.probe("new_from_tree")
