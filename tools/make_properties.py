#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to keep in step)."""
import json, os

P = []

def add(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })

OCP = "lumos/optimal_control/scaled_mesh_ocp.py"
FIX = "lumos/optimal_control/fixed_mesh_ocp.py"
NLP = "lumos/optimal_control/nlp.py"
BASE = "lumos/models/base.py"
COMP = "lumos/models/composition.py"
CONV = "lumos/optimal_control/convolution.py"
MS = "lumos/optimal_control/model_solver.py"
CFG = "lumos/optimal_control/config.py"
LTS = "lumos/simulations/laptime_simulation.py"
UT = "lumos/numpy/utils.py"
LNP = "lumos/numpy/__init__.py"
TREE = "lumos/models/tree_utils.py"
OUT = "lumos/optimal_control/utils.py"

add("C01", "NLP evaluations depend only on the point, never on what happened before",
    "For a problem whose settings are unchanged, the objective, gradient, constraints, Jacobian and Hessian returned at a point (and multipliers) are always the true values for that point. They do not depend on the order or number of earlier evaluations, on evaluations that failed or were interrupted, on profiling, on other problems evaluated in between, or on what the caller does to the arrays it passed in or got back.",
    ["histories", "schedules", "fault_sequences", "configurations"],
    "every interleaving of evaluations (of one or several live problems, all backends and transcriptions, condensed or not), every position of a failing or interrupted evaluation among them",
    "The tests evaluate each function once on a fresh problem at one point; an IPOPT run is a long adversarial history of interleaved, repeated and failing evaluations.",
    [NLP, OCP, FIX, CONV, BASE, UT, OUT],
    [("composite evaluation", NLP), ("mapped (batched) model functions and their caches", UT), ("condensing", OCP)],
    ["objective/gradient/constraints/jacobian/hessian and the two structures of a problem object"])

add("C02", "A reconfigured problem equals a freshly built one",
    "After any sequence of accepted changes to a live problem (parameters, bounds, boundary conditions, scales, mesh, mesh scale, track, objectives and constraints added or removed, with evaluations and solves in between), its functions, sparsity structures, bounds and logged quantities are those of a problem newly built with the resulting settings. Nothing of the earlier settings survives in a cache or in one of the components.",
    ["histories", "configurations"],
    "every sequence of setting changes and evaluations, over fixed and scaled meshes, condensed or not, cyclic or not, all backends",
    "The tests change one setting once on a fresh problem; stale caches appear only after evaluate-change-evaluate histories and for particular combinations of features.",
    [OCP, FIX, NLP, CONV, LTS, MS],
    [("propagation of parameters, scales and mesh to the components", OCP), ("cached Jacobians and Hessian index sets", NLP), ("boundary conditions re-applied on bounds", OCP)],
    ["evaluations, lb/ub, get_mesh, get_init_guess, jacobianstructure, hessianstructure"])

add("C03", "A rejected or failed change leaves the problem exactly as it was",
    "When a change of settings is refused or fails part-way (an invalid entry anywhere in a list of bounds, boundary conditions or scales, an unknown parameter, an invalid mesh, a track file that cannot be read or is damaged), the problem behaves exactly as before the attempt: same bounds, scales, mesh, parameters and function values. A later valid change works as if the failed one had never been tried.",
    ["fault_sequences", "histories", "inputs"],
    "every kind of failing change, every position of the failing entry in the list, every I/O fault while reading a track, and every history of valid changes around them",
    "The tests at most assert that an exception is raised; none looks at the problem afterwards.",
    [OCP, FIX, LTS, NLP, MS],
    [("validation before the state is changed, restore on error", OCP), ("track set only when complete", LTS)],
    ["lb/ub, evaluations, get_mesh, logged columns after the failed call"])

add("C04", "Model parameters change only when the user changes them",
    "The parameters of a model (recursively) are what the user set last, whatever the library did with the model since: evaluating, tracing, compiling, exporting, building and solving problems, successfully or not. Parameter trees handed to or obtained from a model or a problem are never aliased, so changing one later does not change the other.",
    ["histories", "fault_sequences"],
    "every sequence of operations on (nested) models and problems, with failures at any point of a model evaluation",
    "The tests check parameters right after setting them; backends swap in tracers and symbols temporarily, and the damage shows only after a failure or in a later operation.",
    [BASE, COMP, TREE, OCP],
    [("temporary parameters during evaluation and code generation", BASE), ("copies of the parameter data", COMP)],
    ["get_recursive_params, forward results, problem evaluations"])

add("C05", "The numerical backend active before an operation is active after it",
    "Entering and leaving a backend context (as a context manager or as a decorator, nested, re-entered, or left by an exception) always restores the backend that was active on entry. No operation of the library (evaluation, building, compiling, exporting, solving, logging), whether it succeeds or fails, changes the active backend.",
    ["histories", "fault_sequences", "programs"],
    "every nesting of contexts, decorated functions and library calls, with an exception at any point",
    "The tests use one context at a time and never leave it by an exception; the active backend is global state, so a wrong one silently changes the meaning of later calls.",
    [LNP, UT, BASE, NLP, OUT],
    [("use_backend", UT), ("decorated jitted functions", NLP)],
    ["lumos.numpy.get_backend(), type of arrays produced"])

add("C06", "A failed model evaluation leaves no residue",
    "When evaluating a composite model fails at any point (in any submodel, before or after any submodel call, by an error or an interrupt), the next evaluation of the same model, of its submodels and of problems that use it gives exactly the result it would give had the failed evaluation never happened. It neither raises because of the earlier failure nor mixes in outputs collected by it.",
    ["fault_sequences", "histories"],
    "every point of failure in nested models, any number of failures, any later evaluation (direct, mapped, traced, exported)",
    "The tests evaluate models only successfully; the automatic collection of submodel outputs is state kept across the calls.",
    [BASE, COMP],
    [("buffer of submodel returns", BASE)],
    ["forward results and outputs of the model after the failure"])

add("C07", "A model always runs the code compiled from itself",
    "Whatever other models, versions of the model or processes compile in the same working directory at the same time or before, the compiled functions a problem loads are those of its own model and options. No process ever executes an incomplete library or one made from another model's code.",
    ["schedules", "histories", "configurations"],
    "every interleaving of any number of processes building problems in one directory, any content left there by earlier runs",
    "The tests compile in one process at a time; two simultaneous runs sharing intermediate files need a particular interleaving to go wrong.",
    [BASE],
    [("library cache named by the hash of the generated code", BASE), ("compilation in a private directory and atomic move", BASE)],
    ["values returned by the compiled functions of each problem"])

add("C08", "Compilation recovers from crashes and failed compilers",
    "If a process dies, the compiler fails or is missing, or the disk is full at any point of a compilation, that attempt either reports an error or ends with a correct library. Once the fault is gone, the next attempt in the same directory, by any process, succeeds without manual clean-up and within a bounded number of steps.",
    ["crash_points", "fault_sequences"],
    "every crash point and I/O or compiler fault during any number of compilations in a shared directory",
    "The tests never interrupt a compilation; a half written library with a valid name would be used by every later run.",
    [BASE],
    [("library moved to its final name only when complete", BASE), ("compiler exit status checked", BASE)],
    ["problem construction after the fault, values of the compiled functions"])

add("C09", "The iteration log says what the solver did",
    "For every iteration the solver reports, the metrics history holds its metrics once and in order, and for every logged iteration the log holds the decision variables (in user units), mesh, outputs, constraint values and iteration number of the point accepted at that iteration, each at the requested period and exactly once; the final record is the returned solution. This holds whatever line searches, rejected trial points, restoration phases or file listing order occur.",
    ["histories", "schedules", "configurations"],
    "every sequence of solver callbacks IPOPT can produce (trial points, restoration, repeated iteration numbers, early or acceptable termination), every logging period, every directory listing order",
    "The tests count files and columns after one short solve; which point belongs to which iteration depends on the order of the solver callbacks.",
    [OCP, NLP],
    [("last evaluated point remembered for the iteration callback", NLP), ("combination of the per-iteration files", OCP)],
    ["all_iters.parquet, metrics_history.csv, results.csv"])

add("C10", "Each run and each solve has a log of its own",
    "Two simulations never write into the same logging directory, even when they are created with the same name in the same second or by concurrent processes. The log left by a completed solve contains records of that solve only, whatever earlier solves of the same problem, completed, failed or aborted, left behind.",
    ["schedules", "histories", "crash_points"],
    "every interleaving of processes creating simulations, every sequence of completed and aborted solves, any behaviour of the clock (stopped, jumping back)",
    "The tests create one simulation per directory and solve it once.",
    [OCP],
    [("unique logging directory", OCP), ("logging reset at the start of a solve", OCP)],
    ["logging_dir of the problems, contents of the directory"])

add("C11", "A crash while logging loses no recorded iteration",
    "If the process dies or a write fails at any point while iterations are logged or the logs are combined, every iteration whose record had been completely written is still readable from the directory, with the same content (until another solve of that problem starts a new log). Records are deleted only after their content is durably in the combined file.",
    ["crash_points", "fault_sequences"],
    "every file-system operation of a logged solve as a crash point, torn and failing writes",
    "The tests never stop a run; the order of combining and removing matters only for a crash in between.",
    [OCP],
    [("iteration files removed after the combined file is written", OCP)],
    ["iter_*.csv, all_iters.parquet, results.csv after the crash"])

add("C12", "Every solve is independent and in the user's units",
    "Each solve passes to the solver exactly the current bounds, initial guess, multipliers and options of that call (scaled by the current scales), and returns the solver's solution in the user's units with the solver's own report for this solve. Options, iteration counts and timings of other solves never leak into it, and a solve that the solver ends with its error status (an invalid number from the problem, status -13) is raised as an error, never returned as a solution.",
    ["histories", "fault_sequences", "configurations"],
    "every sequence of solves on one or more problems with changing settings, every solver outcome and output file content",
    "The tests solve once per problem with the installed solver and cannot control its outcome.",
    [NLP, OCP, FIX, MS],
    [("construction of the solver problem with scaled bounds", NLP), ("unscaling of the solution", NLP), ("reading of the timing report", NLP)],
    ["arguments received by the solver, return value of solve"])

add("C13", "An aborted solve leaves the problem usable",
    "When a solve ends early (an error or interrupt raised in any callback, a failing write of the log, a solver error, a user stop), the error reaches the caller, and the problem's settings, parameters and function values are unchanged. A following solve of the same problem behaves, reports and logs exactly like the same solve on a problem that never had the aborted one.",
    ["fault_sequences", "histories"],
    "every callback of a solve as the point of failure, every kind of failure, any number of aborted solves in a row",
    "The tests never abort a solve.",
    [NLP, OCP, BASE],
    [("solve with reset of the logging and iteration state", OCP)],
    ["settings and evaluations after the abort, second solve and its log"])

add("C14", "The problem definition does not depend on random numbers or hash seeds",
    "Two problems built with the same settings, in the same process or in two processes, have identical dimensions, order of variables and constraints, sparsity structures, bounds and function values, whatever the state of the random number generators and the hash seed of the process were when they were built. The sparsity structures cover every entry that can become non-zero at any point.",
    ["schedules", "inputs", "configurations"],
    "every state of (and any values drawn from) the random number generator during construction, every hash seed of the process, any later evaluation point, models with switching branches",
    "The tests check the structure at random points drawn once; a structure estimated at an unlucky point loses entries only for models that switch.",
    [OCP, BASE, NLP],
    [("structure of the condensed Jacobian", OCP), ("structure estimates of the model algebra", BASE)],
    ["jacobianstructure, hessianstructure, jacobian, hessian"])

add("C15", "Configurations and instances are isolated from each other",
    "Building, changing and solving a problem never modifies the configuration, parameters or lists the user passed in, so the same objects can be used again for another problem with the same result. Problems, models and configurations never share mutable state: changing one, or any order of building them, has no effect on another.",
    ["histories", "schedules", "configurations"],
    "every interleaving of building, changing and evaluating several problems from shared configuration objects",
    "The tests build each problem from a fresh configuration.",
    [CFG, OCP, LTS, COMP, TREE, FIX],
    [("copies of configuration fields", OCP), ("per-instance state", NLP)],
    ["the configuration objects, other problems' settings and values"])

add("C16", "Exported C code is the model",
    "The function in an exported C file returns, for all states, inputs, mesh points and parameters it is called with, the state derivatives, outputs, constraint outputs and residuals that the model defines with these parameters. Constraint outputs are those configured when the file was exported. What the library did before the export (evaluations, builds, solves, parameter changes, other exports, failed or interrupted exports), and what happens to the model afterwards, has no effect. A failed or incomplete export raises an error and exporting again succeeds; an earlier file of that name stays complete. The options and includes given take effect and are not modified; exporting does not change the model.",
    ["histories", "fault_sequences", "inputs", "configurations"],
    "every sequence of library operations, exports and changes of the model, every failure or interrupt within them, all points and parameters the exported function is called with",
    "The tests compile the exported code of a few fresh models and call it with the parameters the model has.",
    [BASE, UT, COMP, LNP],
    [("export of a model as C code", BASE), ("tracing with parameters as inputs", BASE)],
    ["the functions in the exported file, the parameters of the model afterwards"])

add("C17", "Models are built exactly as configured",
    "A model built from a configuration consists, at every level, of the classes registered under the names in it, with their own default parameters or exactly those given, and evaluates accordingly. This holds whatever was registered, removed, replaced by a new version, configured, built, changed or failed before. Unknown names, duplicate registrations, misfitting configurations or parameter trees and invalid paths are refused with an error. A refused or failed operation leaves the registry, all configurations and all models as they were. Configurations and models made from the same names or objects share no state, and building does not modify the configuration.",
    ["histories", "fault_sequences", "inputs"],
    "every sequence of registering, removing, configuring, replacing, building, copying, changing and evaluating, every refused operation and every failure or interrupt within them, all type hierarchies",
    "The tests build a few fixed compositions from a fresh registry.",
    [COMP, TREE, BASE],
    [("registry and configuration trees", COMP), ("replacing subtrees", TREE), ("collected names of submodels", BASE)],
    ["ModelMaker, ConfigTree.to_dict, get_submodel, get_recursive_params, forward"])

# Properties that deterministic simulation cannot address
add("N01", "Jacobian and Hessian are the derivatives of the constraints and objective",
    "At every point where the model is differentiable, the Jacobian, gradient and Hessian of a problem equal the exact first and second derivatives of its scaled constraints, objective and Lagrangian.",
    ["inputs", "configurations"], "all points, multipliers, scales, transcriptions and models",
    "Tests compare at a few random points and for a few models only.",
    [NLP, OCP, CONV, BASE], [("automatic differentiation, chain rule of the condensed problem", OCP)], ["jacobian, gradient, hessian"])
add("N02", "Condensed and full problems describe the same optimal control problem",
    "Eliminating the state derivatives changes neither the feasible trajectories nor the objective: a point is feasible for the condensed problem exactly if its completion is feasible for the full one.",
    ["inputs", "configurations"], "all points and configurations", "Tests compare solutions of a few examples.",
    [OCP], [("condensing", OCP)], ["constraints"])
add("N03", "Transcription schemes have their nominal accuracy",
    "Forward Euler, trapezoidal and LGR schemes integrate polynomials up to their nominal order exactly on every interval.",
    ["inputs", "configurations"], "all polynomials up to the order, all stage counts and interval lengths", "Tests use a few polynomials and stage counts.",
    ["lumos/optimal_control/transcription.py", "lumos/optimal_control/collocation.py"], [("interpolation matrices", "lumos/optimal_control/collocation.py")], ["continuity constraints"])
add("N04", "casadi_numpy operations agree with numpy",
    "Each array operation gives the same value on the casadi backend as on numpy and jax for all supported shapes and values.",
    ["inputs"], "all operations, shapes and values", "Tests use a few values per operation.",
    ["lumos/numpy/casadi_numpy"], [("casadi implementation of the numpy API", "lumos/numpy/casadi_numpy")], ["return values"])
add("N05", "Trees and decision vectors survive a round trip",
    "Flattening a parameter tree or a set of decision variables and unflattening the result gives back the original.",
    ["inputs"], "all tree shapes, values and problem sizes", "Tests use a few examples.",
    [TREE, OUT], [("flatten and unflatten", TREE)], ["return values"])
add("N06", "Track coordinates are consistent",
    "Converting a track between cartesian and curvilinear coordinates keeps its shape within the discretisation error.",
    ["inputs"], "all tracks", "Tests use a few tracks.",
    ["lumos/models/tracks.py"], [("coordinate conversion", "lumos/models/tracks.py")], ["return values"])
add("N07", "Tyre and vehicle models satisfy their symmetry and consistency relations",
    "Equivalent formulations of the tyre models agree and left-right symmetric inputs give mirrored forces.",
    ["inputs"], "all operating points and parameter sets", "Tests use a few operating points.",
    ["lumos/models/tires", "lumos/models/vehicles"], [("model equations", "lumos/models/tires")], ["forward results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
