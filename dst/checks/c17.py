"""C17: model trees are built as configured."""
import copy

import numpy as np

from lumos.models.base import Model, ModelReturn, model_io
from lumos.models.composition import ModelMaker
from lumos.models.tree_utils import ConfigTree, ParameterTree

from dst import lines, models, sim
from dst.world import Violation, close

ID = "C17"
RUNS_QUICK = 6000
TIMEOUT = 120
RULE = ("Each run has a random set of model types (several versions of some of them, with the same "
        "name), registers and removes them, makes and edits configurations, builds models from "
        "them, changes their parameters and evaluates them, in random order and with unknown names, "
        "misfitting trees, errors raised by the types and interrupts. After every operation the "
        "registry, all configurations, and types, names, parameters and values of all models are compared "
        "with a small reference of what the operations mean. A run is non-trivial when an operation "
        "was refused or failed while configurations or models existed.")
REAL = ["registry, configuration and parameter trees, models"]
STUB = []
ASSUMPTIONS = ["a configuration put into another one is not changed by the user afterwards"]
MUST_HIT = ("refused_reg", "refused_unreg", "refused_make", "refused_edit", "refused_build", "refused_set",
            "refused_sub", "new_version", "deep_edit", "model_fault_in_build", "line_fault_in_build",
            "line_fault_in_edit", "same_subtree", "line_fault_in_reg", "line_fault_in_set", "shipped")
LINE_FILES = ("lumos/models/base.py", "lumos/models/composition.py", "lumos/models/tree_utils.py")
LETTERS = ("a", "b", "c")
VARIANTS = {"tire": ("MF52", "PerantoniTire"), "aero": ("ConstAero", "GPAero", "MLPAero")}


# ------------------------------------------------------------------------- generation
def gen_type(r, level, levels):
    lower = list(range(level + 1, levels))
    children = []
    if lower and r.random() < 0.75:
        for c in r.sample(LETTERS, r.randint(1, 3)):
            children.append([c, "DstT%d" % r.choice(lower)])
    return {"name": "DstT%d" % level, "children": children, "c": round(r.uniform(-2, 2), 3),
            "p": round(r.uniform(0.5, 2), 3) if r.random() < 0.8 else None,
            "arr": [round(r.uniform(0.1, 1), 3) for _ in range(r.randint(1, 3))] if r.random() < 0.5 else None}


def paths_of(types, t, depth=0):
    """Some paths (as the default configurations have them)"""
    out = []
    for c, n in types[t]["children"]:
        out.append(c)
        later = [i for i, x in enumerate(types) if x["name"] == n]
        if later and depth < 3:
            out += [c + "." + p for p in paths_of(types, later[0], depth + 1)]
    return out


def gen_fault(r, p):
    if r.random() > p:
        return None
    if r.random() < 0.5:
        return ["model", {"nth": r.choice([1, 1, 2, 3, 4, 6, 9, 14]), "kind": r.choice(["error", "interrupt"])}]
    return ["line", int(2 ** r.uniform(0, 6))]


def gen(r, index, tier):
    levels = r.randint(2, 5)
    types = [gen_type(r, i, levels) for i in range(levels)]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        types.append(gen_type(r, r.randrange(levels), levels))
    names = ["DstT%d" % i for i in range(levels)]
    paths = sorted({p for t in range(levels) for p in paths_of(types, t)} | set(LETTERS)) + ["a.z", "b.a.c"]
    order = list(range(levels))
    r.shuffle(order)
    ops = [["reg", t, None] for t in order if r.random() < 0.93]
    for _ in range(r.randint(5, 24 if tier == "quick" else 60)):
        f = gen_fault(r, 0.3)
        u = r.random()
        t, n, s = r.randrange(len(types)), r.choice(names), r.randrange(1 << 30)
        if u < 0.10:
            ops.append(["reg", t, f])
        elif u < 0.16:
            ops.append(["unreg", t, f])
        elif u < 0.18:  # a new version of a type
            ops += [["unreg", t, None], ["reg", r.choice([i for i, x in enumerate(types)
                                                          if x["name"] == types[t]["name"]]), f]]
        elif u < 0.28:
            ops.append(["make", r.choice(names + ["DstNone"]), f])
        elif u < 0.32:
            ops.append(["clsmake", t, f])
        elif u < 0.46:
            ops.append(["edit", s, r.choice(paths + [None] * 20), r.choice(names + ["DstNone"] if r.random() < 0.1 else names),
                        r.random() < 0.08, f])
        elif u < 0.51:
            ops.append(["copy", s, r.choice(["dict", "deep", "flat"]), f])
        elif u < 0.66:
            ops.append(["build", s, r.choice(["maker", "maker", "class", "other"]), t,
                        r.choice([None, None, None, "good", "bad"]), f])
        elif u < 0.71:
            ops.append(["name", n, f])
        elif u < 0.74:
            ops.append(["direct", t, f])
        elif u < 0.82:
            ops.append(["set", s, r.choice(["good", "good", "bad"]), f])
        elif u < 0.86:
            ops.append(["get", s, f])
        elif u < 0.90:
            ops.append(["sub", s, r.choice(paths + [None] * 10), f])
        elif u < 0.93:
            ops.append(["copymodel", s, f])
        else:
            ops.append(["forward", s, r.choice(["dict", "arrays", "apply", "apply_arrays"]), f])
    plan = {"types": types, "ops": ops, "seed": r.randrange(1 << 30)}
    if index % 40 == 9:
        plan["shipped"] = r.randrange(1 << 20)
    return plan


# --------------------------------------------------------------------- types and values
def make_class(t):
    @model_io(inputs=("x",), outputs=("y", "s"))
    class Dst(Model):
        def __init__(self, model_config={}, params={}):
            models.fault_point("init")
            super().__init__(model_config=model_config, params=params)
            models.fault_point("init_end")

        @classmethod
        def get_default_submodel_config(cls):
            models.fault_point("submodels")
            return {c: n for c, n in t["children"]}

        @classmethod
        def get_default_params(cls):
            models.fault_point("params")
            return own_params(t)

        def forward(self, inputs):
            models.fault_point("forward")
            x, P = inputs["x"], self._params
            y = value(t, P, x)
            for n, (c, _) in enumerate(t["children"]):
                y = y + (n + 1) * self.call_submodel(c, inputs=dict(x=x + n)).outputs["y"]
            out = self.make_outputs_dict(y=y, s=2.0 * y + x)
            models.fault_point("forward_end")
            return ModelReturn(outputs=out)

    Dst.__name__ = Dst.__qualname__ = t["name"]
    return Dst


def own_params(t):
    P = {}
    if t["p"] is not None:
        P["p"] = t["p"]
    if t["arr"] is not None:
        P["arr"] = np.array(t["arr"])
    return P


def value(t, P, x):
    y = t["c"] + P.get("p", 0.0) * x
    if "arr" in P:
        for i in range(len(t["arr"])):
            y = y + P["arr"][i] * x ** (i + 2)
    return y


class Refused(Exception):
    pass


class Ref:
    """What the operations mean"""

    def __init__(self, types):
        self.types = types
        self.reg = {}

    def make(self, name):
        if name not in self.reg:
            raise Refused(KeyError)
        return self.make_type(self.reg[name])

    def make_type(self, t):
        t = self.types[t]
        return {"data": t["name"], "children": {c: self.make(n) for c, n in t["children"]}}

    def build(self, cfg):
        if cfg["data"] not in self.reg:
            raise Refused(KeyError)
        return self.build_type(self.reg[cfg["data"]], cfg)

    def build_type(self, t, cfg):
        if cfg["data"] != self.types[t]["name"]:
            raise Refused(TypeError)
        children = {}
        for c, _ in self.types[t]["children"]:
            if c not in cfg["children"]:
                raise Refused(KeyError)
            children[c] = self.build(cfg["children"][c])
        return {"t": t, "params": own_params(self.types[t]), "children": children}

    def forward(self, m, x):
        t = self.types[m["t"]]
        y, out = value(t, m["params"], x), {}
        for n, (c, _) in enumerate(t["children"]):
            sub = self.forward(m["children"][c], x + n)
            y = y + (n + 1) * sub["y"]
            out.update({c + "." + k: v for k, v in sub.items()})
        return dict(out, y=y, s=2.0 * y + x)


def find(cfg, path):
    for n in path:
        if n not in cfg["children"]:
            return None
        cfg = cfg["children"][n]
    return cfg


def some_path(cfg, seed):
    """A path that exists, or any"""
    out = []

    def walk(x, prefix):
        for c, y in x["children"].items():
            out.append(prefix + c)
            walk(y, prefix + c + ".")
    walk(cfg, "")
    return out[seed % len(out)] if out else "a"


def params_dict(m):
    return {"data": dict(m["params"]), "children": {c: params_dict(x) for c, x in m["children"].items()}}


def same_params(have, want):
    if set(have) != {"data", "children"} or set(have["data"]) != set(want["data"]):
        return False
    if list(have["children"]) != list(want["children"]):
        return False
    for k, v in want["data"].items():
        if not np.array_equal(np.asarray(have["data"][k], float), np.asarray(v, float)):
            return False
    return all(same_params(have["children"][c], want["children"][c]) for c in want["children"])


def new_values(m, r):
    """Other values for all parameters of a model"""
    P = {k: (np.round(r.uniform(0.1, 1, np.shape(v)), 3) if np.ndim(v) else round(float(r.uniform(0.5, 2)), 3))
         for k, v in m["params"].items()}
    return dict(m, params=P, children={c: new_values(x, r) for c, x in m["children"].items()})


def tree_of(m):
    return ParameterTree({k: np.array(v) if np.ndim(v) else v for k, v in m["params"].items()},
                         {c: tree_of(x) for c, x in m["children"].items()})


def user_tree(m, new, r):
    """A tree with these values as a user makes one: (tree, what was used on the way)"""
    how = r.randint(5)
    if how == 0:
        return tree_of(new), []
    if how == 1:  # from what the model has now, value by value
        t = m.get_recursive_params()
        set_all(t, new)
        return t, []
    if how == 2:
        d = tree_of(new).to_dict()
        return ParameterTree.from_dict(d), [d]
    if how == 3:
        flat, treedef = tree_of(new).to_flat_dict()
        return ParameterTree.from_flat_dict(treedef, flat), [flat, treedef]
    t = m.get_recursive_default_params()
    subs = []
    for c, x in new["children"].items():
        subs.append(tree_of(x))
        t.replace_subtree(c, subs[-1])
    for k, v in new["params"].items():
        t.set_param(k, np.array(v) if np.ndim(v) else v)
    return t, []


def set_all(t, want, path=""):
    for k, v in want["params"].items():
        t.set_param(path + k, np.array(v) if np.ndim(v) else v)
    for c, x in want["children"].items():
        set_all(t, x, path + c + ".")


def spoil(d):
    """Overwrite everything in a dictionary"""
    for k, v in list(d.items()):
        if isinstance(v, dict):
            spoil(v)
        elif isinstance(v, np.ndarray):
            v[...] = -9.0
        d[k] = None


def bad_tree(m, r):
    """A tree without one of the children of the model, or None"""
    inner = []

    def walk(x, path):
        for c, y in x["children"].items():
            inner.append(path + [c])
            walk(y, path + [c])
    walk(m, [])
    if not inner:
        return None
    path = inner[r.randint(len(inner))]

    def make(x, path):
        t = ParameterTree({k: np.array(v) if np.ndim(v) else v for k, v in x["params"].items()})
        for c, y in x["children"].items():
            if path and c == path[0]:
                if len(path) > 1:
                    t.add_child(c, make(y, path[1:]))
            else:
                t.add_child(c, make(y, []))
        return t
    return make(new_values(m, r), path)


def edit_tree(t, m):
    """The user changes a tree, in place and by key"""
    for k in m["params"]:
        if np.ndim(m["params"][k]):
            t.get_param(k)[:] = -7.0
        t.set_param(k, -3.0 * np.ones(np.shape(m["params"][k])))
    for c, x in m["children"].items():
        edit_tree(t.get_child(c), x)


# ----------------------------------------------------------------------------- the run
class Bench:
    def __init__(self, ctx, plan):
        self.ctx = ctx
        self.ref = Ref(plan["types"])
        self.classes = [make_class(t) for t in plan["types"]]
        self.names = sorted({t["name"] for t in plan["types"]} | {"DstNone"})
        self.cfgs = []    # [configuration, reference]
        self.models = []  # [model, reference]
        self.seen = {}
        self.donors = {}
        self.after = None

    # -------------------------------------------------------------------- judging
    def registered(self, name):
        try:
            return ModelMaker.get_model_class(name)
        except KeyError:
            return None

    def check_registry(self):
        for n in self.names:
            have = self.registered(n)
            want = self.ref.reg.get(n)
            if have is not (None if want is None else self.classes[want]):
                raise Violation("registry", "%s is %s" % (n, have))

    def check_model(self, m, want, where="", deep=True):
        if type(m) is not self.classes[want["t"]]:
            raise Violation("model_type", "%s is %s" % (where, type(m)))
        t = self.ref.types[want["t"]]
        names = [c for c, _ in t["children"]]
        if list(m.get_submodel_names()) != names or m.is_leaf() != (not names):
            raise Violation("submodel_names", "%s %s" % (where, list(m.get_submodel_names())))
        for c in names:
            self.check_model(m.get_submodel(c), want["children"][c], where + "." + c)

    def check_values(self, m, want, x):
        y = self.ref.forward(want, x)
        if set(m.get_group_names("outputs")) != set(y) or len(m.get_group_names("outputs")) != len(y):
            raise Violation("output_names", "%s" % (m.get_group_names("outputs"),))
        out = m.forward({"x": x}).outputs
        self.compare(out, y)

    def compare(self, out, y):
        if set(out) != set(y):
            raise Violation("outputs", "%s" % sorted(out))
        for k, v in y.items():
            close("output", float(out[k]), float(v), 1e-12)
        self.ctx.evals += 1

    def check_params(self, m, want):
        if not same_params(m.get_recursive_params().to_dict(), params_dict(want)):
            raise Violation("params", "%s instead of %s" % (m.get_recursive_params(), params_dict(want)))

    def check(self, seed):
        self.check_registry()
        for c, want in self.cfgs:
            if c.to_dict() != want:
                raise Violation("config", "%s instead of %s" % (c, want))
        x = round(((seed % 1999) - 999) / 1000.0, 3)
        for m, want in self.models:
            self.check_model(m, want)
            self.check_params(m, want)
            self.check_values(m, want, x)

    # ------------------------------------------------------------------ operations
    def perform(self, op):
        """(the error or None, fault that was really injected or None)"""
        k, fault = op[0], op[-1]
        err = around = None
        n0 = models.fired()
        if fault is not None and fault[0] == "line":
            around = lines.LineInterrupt(fault[1], LINE_FILES)
        call, commit = getattr(self, "_op_" + k)(*op[1:-1])
        if call is None:
            return None, None
        if fault is not None and fault[0] == "model":
            models.arm(fault[1])
        try:
            if around is not None:
                with around:
                    got = call()
            else:
                got = call()
        except (Exception, KeyboardInterrupt) as e:
            err = e
        finally:
            models.disarm()
        if self.after is not None:
            self.after, after = None, self.after
            after()
        fired = "model" if models.fired() != n0 else "line" if around is not None and around.fired else None
        if fired:
            self.ctx.fault("%s_fault_in_%s" % (fired, k))
        want = None
        if isinstance(commit, Refused):
            want, commit = commit.args[0], None
        if err is None:
            if fired == "model":
                raise Violation("error_swallowed", k)
            if want is not None:
                raise Violation("not_refused", "%s" % op)
            commit(got)
        elif fired:
            if not isinstance(err, (sim.InjectedError, sim.InjectedInterrupt)) and want is None:
                raise Violation("other_error", "%s: %s" % (k, err))
            self.maybe(op, commit)
        elif want is not None:
            if not isinstance(err, want):
                raise Violation("refused_with", "%s: %s" % (type(err).__name__, err))
            self.ctx.probe("refused_" + k)
        else:
            raise err
        return err, fired

    def maybe(self, op, commit):
        """An interrupted change has been made completely or not at all"""
        if commit is None:
            return
        k = op[0]
        if k in ("reg", "unreg"):
            n = self.ref.types[op[1]]["name"]
            if (self.registered(n) is not None) == (k == "reg"):
                commit(None)
        elif k == "edit":
            c, want = self.cfgs[op[1] % len(self.cfgs)]
            if c.to_dict() != want:
                commit(None)
        elif k == "set":
            m, want = self.models[op[1] % len(self.models)]
            if not same_params(m.get_recursive_params().to_dict(), params_dict(want)):
                commit(None)

    def _op_reg(self, t):
        n = self.ref.types[t]["name"]
        call = lambda: ModelMaker.add_to_registry(self.classes[t])
        if n in self.ref.reg:
            return call, Refused(ValueError)

        def commit(_):
            if n in self.seen and self.seen[n] != t:
                self.ctx.probe("new_version")
            self.seen[n] = t
            self.ref.reg[n] = t
        return call, commit

    def _op_unreg(self, t):
        n = self.ref.types[t]["name"]
        have = self.ref.reg.get(n)
        if have is None:
            return (lambda: ModelMaker.remove_from_registry(self.classes[t])), Refused(KeyError)
        return (lambda: ModelMaker.remove_from_registry(self.classes[have])), lambda _: self.ref.reg.pop(n)

    def _expect(self, fn):
        try:
            return fn(), None
        except Refused as e:
            return None, e

    def _new_cfg(self, want):
        def commit(c):
            if type(c) is not ConfigTree:
                raise Violation("config_type", str(type(c)))
            if len(self.cfgs) >= 6:
                self.cfgs.pop(0)
            self.cfgs.append([c, want])
        return commit

    def _op_make(self, name):
        want, no = self._expect(lambda: self.ref.make(name))
        return (lambda: ModelMaker.make_config(name)), no or self._new_cfg(want)

    def _op_clsmake(self, t):
        want, no = self._expect(lambda: self.ref.make_type(t))
        return self.classes[t].get_recursive_default_model_config, no or self._new_cfg(want)

    def _op_edit(self, s, path, name, bad):
        if not self.cfgs:
            return None, None
        c, want = self.cfgs[s % len(self.cfgs)]
        path = path or some_path(want, s // 7)
        if name in self.donors and s % 3:  # once more the same one (without children)
            donor = self.donors[name]
            self.ctx.probe("same_subtree")
        else:
            try:
                donor = ModelMaker.make_config(name)
            except KeyError:
                donor = ConfigTree(name)
        new = donor.to_dict()
        if not new["children"]:
            self.donors[name] = donor
        steps = path.split(".")
        parent = find(want, steps[:-1])
        call = lambda: c.replace_subtree(path, new if bad else donor)
        if bad:
            return call, Refused(TypeError)
        if parent is None or steps[-1] not in parent["children"]:
            return call, Refused(KeyError)

        def commit(_):
            parent["children"][steps[-1]] = new
            if len(steps) > 1:
                self.ctx.probe("deep_edit")
        return call, commit

    def _op_copy(self, s, how):
        if not self.cfgs:
            return None, None
        c, want = self.cfgs[s % len(self.cfgs)]
        if how == "deep":
            return (lambda: copy.deepcopy(c)), self._new_cfg(copy.deepcopy(want))

        def call():
            if how == "flat":
                flat, treedef = c.to_flat_dict()
                new = ConfigTree.from_flat_dict(treedef, flat)
                flat.clear()
                treedef["children"].clear()
                return new
            d = c.to_dict()
            new = ConfigTree.from_dict(d)
            d["data"] = "gone"
            d["children"].clear()
            return new
        return call, self._new_cfg(copy.deepcopy(want))

    def _new_model(self, want):
        def commit(m):
            if len(self.models) >= 5:
                self.models.pop(0)
            self.models.append([m, want])
        return commit

    def _op_build(self, s, how, t, params):
        if not self.cfgs:
            return None, None
        c, cfg = self.cfgs[s % len(self.cfgs)]
        r = np.random.RandomState(s % (2 ** 32))
        if how == "maker":
            want, no = self._expect(lambda: self.ref.build(cfg))
            return (lambda: ModelMaker.make_model_from_config(c)), no or self._new_model(want)
        if how == "class":  # the right one, if there is one
            t = self.ref.reg.get(cfg["data"], t)
        want, no = self._expect(lambda: self.ref.build_type(t, cfg))
        cls = self.classes[t]
        if no is not None or params is None:
            return (lambda: cls(model_config=c)), no or self._new_model(want)
        if params == "good":
            want = new_values(want, r)
            tree = tree_of(want)
        else:
            tree = bad_tree(want, r)
            if tree is None:
                return None, None
            return (lambda: cls(model_config=c, params=tree)), Refused(KeyError)

        def call():
            m = cls(model_config=c, params=tree)
            edit_tree(tree, want)
            return m
        return call, self._new_model(want)

    def _op_name(self, n):
        want, no = self._expect(lambda: self.ref.build(self.ref.make(n)))
        return (lambda: ModelMaker.make_model_from_name(n)), no or self._new_model(want)

    def _op_direct(self, t):
        want, no = self._expect(lambda: self.ref.build_type(t, self.ref.make_type(t)))
        return self.classes[t], no or self._new_model(want)

    def _op_set(self, s, how):
        if not self.models:
            return None, None
        m, want = self.models[s % len(self.models)]
        r = np.random.RandomState(s % (2 ** 32))
        if how == "bad":
            tree = bad_tree(want, r)
            if tree is None:
                return None, None
            return (lambda: m.set_recursive_params(tree)), Refused(KeyError)
        new = new_values(want, r)
        tree, used = user_tree(m, new, r)
        first, rest = tree.to_dict(), tree.to_flat_dict()
        if not same_params(first, params_dict(new)):
            raise Violation("tree", "%s instead of %s" % (tree, params_dict(new)))
        for d in used + [first, rest[0], rest[1]]:
            spoil(d)

        def commit(_):
            want.update(new)
            edit_tree(tree, new)
        return (lambda: m.set_recursive_params(tree)), commit

    def _op_get(self, s):
        if not self.models:
            return None, None
        m, want = self.models[s % len(self.models)]
        which = m.get_recursive_params if s % 2 else m.get_recursive_default_params

        def commit(tree):
            if s % 2 == 0:
                defaults = copy.deepcopy(want)

                def reset(x):
                    x["params"] = own_params(self.ref.types[x["t"]])
                    for y in x["children"].values():
                        reset(y)
                reset(defaults)
                if not same_params(tree.to_dict(), params_dict(defaults)):
                    raise Violation("default_params", str(tree))
            edit_tree(tree, want)
        return which, commit

    def _op_sub(self, s, path):
        if not self.models:
            return None, None
        m, want = self.models[s % len(self.models)]
        path = path or some_path(want, s // 7)
        sub = find(want, path.split("."))

        def commit(got):
            self.check_model(got, sub, path)
            self.check_params(got, sub)
            self.check_values(got, sub, 0.25)
        return (lambda: m.get_submodel(path)), Refused(KeyError) if sub is None else commit

    def _op_copymodel(self, s):
        if not self.models:
            return None, None
        m, want = self.models[s % len(self.models)]
        return (lambda: copy.deepcopy(m)), self._new_model(copy.deepcopy(want))

    def _op_forward(self, s, how):
        if not self.models:
            return None, None
        m, want = self.models[s % len(self.models)]
        x = (s % 1777) / 1777.0 - 0.5
        names = m.get_group_names("outputs")
        if how == "dict":
            return (lambda: m.forward({"x": x})), lambda out: self.compare(out.outputs, self.ref.forward(want, x))
        if how == "arrays":
            return (lambda: m.forward_with_arrays(np.array([x]))), lambda out: self.compare(
                dict(zip(names, np.ravel(out.outputs))), self.ref.forward(want, x))
        new = new_values(want, np.random.RandomState(s % (2 ** 32)))
        tree, old = tree_of(new), tree_of(want)

        def call():
            # (whether it keeps the parameters is not judged here)
            self.after = lambda: m.set_recursive_params(old)
            if how == "apply":
                return m.apply_and_forward({"x": x}, tree).outputs
            return dict(zip(names, np.ravel(m.apply_and_forward_with_arrays(np.array([x]), tree).outputs)))
        return call, lambda out: self.compare(out, self.ref.forward(new, x))


def run(plan, ctx):
    with ctx.inline():
        b = Bench(ctx, plan)
        before = shipped_state() if plan.get("shipped") is not None else None
        for k, op in enumerate(plan["ops"]):
            ctx.ev(*op)
            err, fired = b.perform(op)
            if err is not None:
                ctx.ev("failed", fired, type(err).__name__)
                if b.cfgs or b.models:
                    ctx.nontrivial = True
            b.check(plan["seed"] + k)
        if before is not None:
            shipped(before, plan["shipped"], ctx)


# ------------------------------------------------------------- the models of the library
def shipped_state():
    """The default configurations and parameters the library has"""
    out = {}
    for n in ("SimpleVehicleOnTrack", "SimpleVehicle", "MF52", "PerantoniTire", "ConstAero", "TrackPosition2D"):
        out[n] = (ModelMaker.make_config(n).to_dict(),
                  ModelMaker.make_model_from_name(n).get_recursive_params().to_dict())
    return out


def shipped(before, seed, ctx):
    r = np.random.RandomState(seed)
    built = []
    for _ in range(3):
        c = ModelMaker.make_config("SimpleVehicleOnTrack")
        want = copy.deepcopy(before["SimpleVehicleOnTrack"][0])
        for pos in ("tire_fl", "tire_fr", "tire_rl", "tire_rr", "aero"):
            if r.rand() < 0.5:
                v = VARIANTS[pos.split("_")[0]]
                n = v[r.randint(len(v))]
                c.replace_subtree("vehicle." + pos, ModelMaker.make_config(n))
                want["children"]["vehicle"]["children"][pos] = {"data": n, "children": {}}
        m = ModelMaker.make_model_from_config(c)
        built.append((m, c, want, m.get_recursive_params().to_dict()))
        for _ in range(3):  # the parameters of a type, edited in the one just made
            t = m.get_recursive_default_params()
            flat, _ = t.to_flat_dict()
            k = sorted(flat)[r.randint(len(flat))]
            if np.ndim(flat[k]):
                t.get_param(k)[...] = -1.0
            t.set_param(k, -1.0 * np.ones(np.shape(flat[k])))
    for m, c, want, P in built:
        if c.to_dict() != want:
            raise Violation("shipped_config", str(c))
        for pos, sub in want["children"]["vehicle"]["children"].items():
            have = type(m.get_submodel("vehicle." + pos))
            if have is not ModelMaker.get_model_class(sub["data"]):
                raise Violation("shipped_type", "%s is %s" % (pos, have))
        if not same_params(m.get_recursive_params().to_dict(), P):
            raise Violation("shipped_params", "")
    after = shipped_state()
    for n in before:
        if before[n][0] != after[n][0] or not same_params(after[n][1], before[n][1]):
            raise Violation("shipped_defaults", n)
    ctx.probe("shipped")
