"""Writes MANIFEST.json from the properties and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection"
LEVEL = {"C08": "fault_enumeration", "C11": "fault_enumeration"}
NOTES = {
    "C01": "Seeded search over histories of evaluations, failures and interrupts on real problems; every value compared with an independent numpy definition. Trusts that definition and the stub compiler.",
    "C02": "Seeded search over sequences of setting changes, evaluations and simulated solves; the problem is compared with an independent reference of the resulting settings and, for the example simulations, with a freshly built twin.",
    "C03": "Seeded search over failing changes (invalid entries at random positions, I/O faults while a track is read, interrupts); the problem is compared before and after, and with the reference.",
    "C04": "Seeded search over operations on models and problems with injected failures; parameters are compared with what the user set last, and trees are checked for aliasing in both directions.",
    "C05": "Seeded search over programs of nested contexts, decorated functions and library operations with failures injected; the active backend is compared with a reference stack.",
    "C06": "Seeded search over failure points in nested models (errors and interrupts) and later evaluations, compared with an independent definition.",
    "C07": "Simulated processes build problems in one directory under a controlled scheduler, with the compiler, the file system and library loading intercepted; values of every compiled problem are compared with the reference. The compiler is a stub that binds a library to the exact source it was given.",
    "C08": "Crash, disk and compiler faults at chosen events of compilations by several simulated processes, then recovery without faults within a step budget, values compared with the reference.",
    "C09": "A scripted solver following IPOPT's callback protocol drives real logged solves; files are compared with the solver's own record and an independent definition of all logged quantities.",
    "C10": "Simulated processes create and solve logged problems under a controlled scheduler and clock; directories and contents are checked per solve.",
    "C11": "Crash, torn and failing writes at chosen file operations of logged solves; all completely written records have to be readable afterwards.",
    "C12": "Seeded search over sequences of solves; everything passed to and returned by the scripted solver is compared with the current settings and the solver's own record.",
    "C13": "Solves ended early by injected failures; the following solve is compared with a control problem that never had the aborted one, settings and values with the reference.",
    "C14": "Problems are built under several (also adversarial) states of the random number generator and in processes with different hash seeds, and compared; structures are compared with the reference's non-zero pattern.",
    "C16": "Exports in between random library operations, failures and changes of the model; the exported functions are called later with parameters of their own and compared with an independent definition. The file's functions are those its text was generated from, or, in some runs, those of the library gcc makes of it.",
    "C17": "Seeded histories of registry, configuration and model operations over random type hierarchies, with refused operations, errors raised by the types and interrupts; compared after every operation with a small reference of what they mean.",
    "C15": "Seeded interleavings of building, changing, evaluating and solving problems from shared configuration objects, compared with deep copies and references.",
}
NA = {
    "N01": "A pointwise mathematical statement about one call: no schedule, history, clock, I/O or fault can change whether it holds. (The histories and faults around derivatives are decided under C01 and C02.)",
    "N02": "An algebraic equivalence of two formulations at each point; nothing nondeterministic for a simulator to control.",
    "N03": "A property of constant matrices computed once from the scheme; pure numerical analysis.",
    "N04": "Pure functions of their arguments; input generation without any schedule or fault is property-based testing, not simulation.",
    "N05": "Pure functions of their arguments, without state, time or I/O.",
    "N06": "Geometry computed by pure functions. (Faults while track files are read are decided under C03.)",
    "N07": "Physics relations between pure model functions; no history, schedule or fault is involved.",
}
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "dst", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./run_check.sh check %s --tier=quick" % i,
            "thorough_cmd": "./run_check.sh check %s --tier=thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH, "level": LEVEL.get(i, "exploration"), "level_note": NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams are installed from /verif (see DESIGN.md)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
