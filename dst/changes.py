"""Generators of valid and invalid changes of settings (plain JSON-able operations)."""
import copy

import numpy as np

from dst import models, world


def gen_change(r, spec):
    """One valid change of a problem with the given (current) specification."""
    K = models.KINDS[spec["kind"]]
    kinds = ["param"] * 3 + ["bounds"] * 2 + ["bcs", "direct", "scales", "scales", "mesh",
                                             "add_obj", "add_con", "add_con"]
    if spec["mesh_scale"] is not None:
        kinds += ["mesh_scale"] * 2
    if len(spec["objectives"]) > 1:
        kinds += ["del_obj"] * 3
    if spec["extra_cons"]:
        kinds += ["del_con"] * 4
    k = r.choice(kinds)
    if k == "param":
        if r.random() < 0.25:
            name = r.choice(K["arrays"])
            return ["param", name, [round(r.uniform(0.1, 1.0), 3) for _ in range(2)]]
        return ["param", r.choice(K["scalars"]),
                r.choice([1, 2]) if r.random() < 0.15 else round(r.uniform(0.5, 2.0), 3)]
    if k == "bounds":
        return ["bounds", world.gen_bounds(r, spec, 0.3)]
    if k == "bcs":
        return ["bcs", world.gen_bcs(r, spec, 0.3)]
    if k == "direct":
        g = r.choice(["states", "inputs"] + (["con_outputs"] if spec["con_outputs"] else []))
        n = r.choice({"states": models.STATES, "inputs": models.INPUTS,
                      "con_outputs": spec["con_outputs"]}[g])
        m = world.num_stages(spec)
        stage = r.choice([0, m - 1, r.randrange(m), -1])
        v = round(r.uniform(-1, 1), 3)
        if r.random() < 0.3:  # the whole variable
            stage = None
            if r.random() < 0.5:
                lo = [round(v - 1 - 0.1 * i, 3) for i in range(m)]
                return ["direct", g, n, None, [lo, [round(v + 1 + 0.2 * i, 3) for i in range(m)]]]
        return ["direct", g, n, stage, v if r.random() < 0.4 else [v - 1, v + 1]]
    if k == "scales":
        old = [x for x in spec["scales"] if x[0] in ("states", "inputs")]
        if len(old) > 1 and r.random() < 0.3:
            # the same values for other variables
            vals = [x[2] for x in old]
            vals = vals[1:] + vals[:1]
            return ["scales", [[g, n, v] for (g, n, _), v in zip(old, vals)]
                    + [x for x in spec["scales"] if x not in old]]
        return ["scales", world.gen_scales(r, spec, r.choice([0.0, 0.3, 0.8]))]
    if k == "mesh":
        return ["mesh", None if r.random() < 0.3 else world.gen_points(r, spec["num_intervals"])]
    if k == "mesh_scale":
        return ["mesh_scale", round(r.uniform(0.3, 4), 3)]
    if k == "add_obj":
        free = [n for n in ("extra", "penalty", "third") if n not in spec["objectives"]]
        if not free:
            return ["param", K["scalars"][0], 1.0]
        return ["add_obj", r.choice(free), "quad:%d" % r.randrange(1000)]
    if k == "del_obj":
        return ["del_obj", r.choice(sorted(spec["objectives"]))]
    if k == "add_con":
        free = [n for n in ("con_a", "con_b") if n not in spec["extra_cons"]]
        if not free:
            return ["param", K["scalars"][0], 1.1]
        return ["add_con", r.choice(free), "con:%d" % r.randrange(1000)]
    return ["del_con", r.choice(sorted(spec["extra_cons"]))]


def apply_to_spec(spec, op):
    """The specification after the change, without a problem (used by the generators)."""
    s = copy.deepcopy(spec)
    w = object.__new__(world.World)
    w.spec, w._ref = s, None
    s.setdefault("bound_log", [])
    w.on_spec(op)
    return s


def applicable(spec, op):
    """Shrinking may remove the operation another one relies on"""
    k = op[0]
    if k == "del_obj":
        return op[1] in spec["objectives"] and (len(spec["objectives"]) > 1 or op[2:] == [True])
    if k == "add_obj":
        return op[1] not in spec["objectives"]
    if k == "del_con":
        return op[1] in spec["extra_cons"]
    if k == "add_con":
        return op[1] not in spec["extra_cons"]
    # the number of stages may have changed since the operation was generated
    m = world.num_stages(spec)
    if k == "bounds":
        return all(len(b) == m for _, _, v in op[1] if isinstance(v, list)
                   for b in v if isinstance(b, list))
    if k == "bcs":
        return all(-m <= e[2] < m for e in op[1])
    if k == "direct":
        if op[3] is None:
            return not (isinstance(op[4], list) and isinstance(op[4][0], list)) or len(op[4][0]) == m
        return -m <= op[3] < m
    return True


BAD = 12345.5


def gen_invalid(r, spec):
    """A change that has to be refused, with valid entries around the invalid one."""
    m = world.num_stages(spec)
    k = r.choice(["bounds", "bounds", "bcs", "bcs", "scales", "param", "mesh", "mesh", "direct",
                  "add_obj", "add_con", "del_obj", "del_con", "param_tree"])
    if k == "bounds":
        good = world.gen_bounds(r, spec, 0.4)
        bad = r.choice([
            ["states", "nothing", [-1, 1]], ["nogroup", "p", [-1, 1]], ["inputs", "p", [-1, 1]],
            ["con_outputs", "unknown.out", [-1, 1]],
            ["states", "p", [[-1.0] * (m + 1), [1.0] * (m + 1)]],
            ["inputs", "u", [[-1.0] * (m + 3), [1.0] * (m + 3)]],
            ["states", "v", "inverted"], ["inputs", "w", "inverted_array"],
            ["states", "time", "mixed"], ["states", "p", [float("nan"), 1.0]], None, "raise",
        ])
        return ["bounds", insert(r, good, bad)]
    if k == "bcs":
        good = world.gen_bcs(r, spec, 0.5)
        bad = r.choice([["states", "nothing", 0, 0.5], ["nogroup", "p", 0, 0.5],
                        ["states", "p", m, 0.5], ["inputs", "u", m + 5, 0.1],
                        ["con_outputs", "acc_unknown", 0, 0.0], None, "raise"])
        return ["bcs", insert(r, good, bad)]
    if k == "scales":
        good = world.gen_scales(r, spec, 0.5)
        bad = r.choice([["states", "nothing", 2.0], ["nogroup", "p", 2.0], ["inputs", "v", 3.0],
                        ["con_outputs", "acc_unknown", 2.0], ["states", "v", "text"], None, "raise"])
        return ["scales", insert(r, good, bad)]
    if k == "param":
        return ["param", r.choice(["unknown", "no.such.path", "body.unknown", "k.deeper",
                                   "spring.k", ""]), round(r.uniform(1, 2), 2)]
    if k == "param_tree":
        return ["param", r.choice(["unknown", "m.n.o"]), [1.0, 2.0]]
    if k == "mesh":
        n = spec["num_intervals"]
        good = world.gen_points(r, n)
        bad = r.choice(["short", "long", "order", "start", "end", "flat", "nan"])
        if bad == "short":
            pts = good[:-2] + [1.0] if n > 1 else [1.0]
        elif bad == "long":
            pts = good[:-1] + [(good[-2] + 1) / 2, 1.0]
        elif bad == "order":
            pts = [0.0] + good[1:-1][::-1] + [1.0] if n > 2 else [1.0, 0.5, 0.0][:n + 1]
        elif bad == "start":
            pts = [0.01] + good[1:]
        elif bad == "flat":
            pts = [0.0, 0.0] + good[2:] if n > 1 else [1.0, 1.0]
        elif bad == "nan":
            pts = good[:1] + [float("nan")] * (n - 1) + good[-1:] if n > 1 else [0.0, float("nan")]
        else:
            pts = good[:-1] + [1.2]
        return ["mesh", pts]
    if k == "direct":
        return r.choice([
            ["direct", "states", "nothing", 0, 0.5], ["direct", "inputs", "p", 0, 0.5],
            ["direct", "states", "p", m, 0.5], ["direct", "con_outputs", "unknown", 0, 0.5],
            ["direct", "states", "v", 0, [1.0, -1.0]], ["direct", "inputs", "u", m - 1, [0.5, 0.2]],
            ["direct", "states", "v", None, [[-9.0] * m, [9.0] * (m + 1)]],
            ["direct", "inputs", "w", None, [-8.0, [8.0] * (m + 2)]],
            ["direct", "states", "p", None, [[-7.0] * (m + 1), 7.0]],
            ["direct", "states", "time", 0, [-6.0, [6.0, 6.5]]],
            ["direct", "inputs", "u", None, [[0.0] * m, [-1.0] + [1.0] * (m - 1)]],
        ])
    if k == "add_obj":
        return ["add_obj", r.choice(sorted(spec["objectives"])), "quad:5"]
    if k == "add_con":
        return ["add_con", "model_algebra", "con:5"] if r.random() < 0.5 else [
            "bad_con", "misfit", "con:7"]
    if k == "del_obj":
        return ["del_obj", "no_such_objective"]
    return ["del_con", "no_such_constraint"]


def insert(r, good, bad):
    i = r.randint(0, len(good))
    return good[:i] + [bad] + good[i:]


class RaisingConfig:
    """An entry that fails (or is interrupted) when it is used"""

    def __getattr__(self, name):
        from dst import sim
        raise sim.InjectedInterrupt("interrupt while an entry is read")


def invalid_configs(kind, entries):
    """Entries of an invalid list of bounds, boundary conditions or scales"""
    out = []
    for e in entries:
        if e is None:
            out.append(None)
        elif e == "raise":
            out.append(RaisingConfig())
        elif kind == "bounds":
            v = e[2]
            if v == "inverted":
                v = [1.0, -1.0]
            elif v == "inverted_array":
                v = [[1.0, 2.0], [-1.0, 3.0]]
            elif v == "mixed":
                v = [0.5, [1.0, 1.0, 1.0]]
            if isinstance(v[1], list) and not isinstance(v[0], list):
                v = (v[0], np.array(v[1]))
                out.append(world.BoundConfig(e[0], e[1], v))
            else:
                out.append(world.BoundConfig(e[0], e[1], world.bound_value(v)))
        elif kind == "bcs":
            out += world.bc_configs([e])
        else:
            out += world.scale_configs([e])
    return tuple(out)


def attempt(w, op):
    """Perform an invalid change. Returns the error, None if it was accepted."""
    from lumos.optimal_control.nlp import BaseConstraints, BaseObjective  # noqa
    from dst import reference
    p = w.problem
    try:
        if op[0] == "bounds":
            p.update_bounds(invalid_configs("bounds", op[1]))
        elif op[0] == "bcs":
            p.update_boundary_conditions(invalid_configs("bcs", op[1]))
        elif op[0] == "scales":
            p.set_scales(invalid_configs("scales", op[1]))
        elif op[0] == "bad_con":
            p.add_constraints(op[1], reference.make_extra_con(op[2], w.num_dec + 1))
        elif op[0] == "del_con":
            p.delete_constraints(op[1])
        elif op[0] == "add_con":
            p.add_constraints(op[1], reference.make_extra_con(op[2], w.num_dec))
        else:
            w.on_problem(op)
    except (Exception, KeyboardInterrupt) as e:
        return e
    return None
