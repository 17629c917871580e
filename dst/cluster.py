"""Simulated processes that build and use compiled problems in one working directory."""
import numpy as np

from dst import bench, models, sim, world
from dst.world import Violation, World, close


def gen_model(r, pool=None):
    """Specification of a casadi problem. Models of a pool have the same sizes, so that
    the library of one could be used by another without an error."""
    kinds = ("flat", "mesh", "switch", "nested")
    s = world.gen_spec(r, backend="casadi", kinds=kinds if pool is None else pool, small=True)
    s["num_intervals"] = 1
    s["interval_points"] = None
    s["transcription"] = ["Trapezoidal", 2]
    s["bounds0"], s["bcs0"], s["scales"] = [], [], []
    return s


def check_values(w, seed, ctx, fns=("constraints", "jacobian", "hessian")):
    x = w.point(seed)
    for fn in fns:
        w.check_function(fn, x, seed)
        ctx.evals += 1
    r = np.random.RandomState(seed % (2 ** 32))
    n = 1 + seed % 4
    S, U, mesh = r.uniform(-1, 1, (n, 3)), r.uniform(-1, 1, (n, 2)), r.uniform(0, 2, n)
    m = w.problem.model
    out = m.batched_forward(S, U, mesh, m.get_recursive_params())
    xdot, y = models.ref_forward(w.spec["kind"], w.spec["params"], S, U, mesh)
    names = m.get_group_names("outputs")
    close("batched_states_dot", np.asarray(out.states_dot), xdot, 1e-9)
    close("batched_outputs", np.asarray(out.outputs), np.stack([y[k] for k in names], -1), 1e-9)
    con = w.spec["con_outputs"]
    if con:
        close("batched_con_outputs", np.asarray(out.con_outputs), np.stack([y[k] for k in con], -1), 1e-9)


def build(spec):
    return World(spec, problem=world.build(spec))


def solver_values(kind, params, seed, ctx):
    """A model solver (the other user of compiled functions)"""
    from lumos.optimal_control.model_solver import ModelSolver
    from dst import reference
    K = models.KINDS[kind]
    con = list(K["con_outputs"][:2])
    p = ModelSolver(models.make_model(kind, "casadi", params), "casadi", con_outputs=con)
    r = np.random.RandomState(seed % (2 ** 32))
    z = r.uniform(-1, 1, 8 + len(con))
    P = bench.as_arrays(params)
    close("solver_constraints", np.ravel(np.array(p.constraints(z), dtype=float)),
          models._ref_implicit(kind, P, con, z, 0.0), 1e-9)
    J = np.array([models._ref_implicit(kind, P, con, z + 1e-30j * e, 0.0).imag / 1e-30
                  for e in np.eye(len(z))]).T
    rows, cols = p.jacobianstructure()
    D = np.zeros(J.shape)
    np.add.at(D, (np.asarray(rows, int), np.asarray(cols, int)), np.asarray(p.jacobian(z), float))
    close("solver_jacobian", D, J, 1e-9)
    ctx.evals += 2


def run_nodes(sm):
    """Run the cluster; a violation found inside of a node is a violation of the run"""
    sim.start(sm)
    try:
        sm.run()
    finally:
        sim.stop()
    for nd in sm.nodes:
        if isinstance(nd.error, (Violation, sim.SimStuck)):
            raise nd.error
