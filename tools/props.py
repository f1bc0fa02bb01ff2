"""The properties, and the manifest entries of their checks.  `python tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

SWEEP = ("All ~280 optimizers are executed by a symbolic interpreter over the real Python code: random draws and objective values are solver variables, "
         "branches are followed concolically and flipped by the solver, and on every explored path z3 decides the assertion for all values that follow it. "
         "Bounded: the first 2 epochs and, where stated, epochs 7 and 13 of a longer run (reached on concrete draws, then symbolic), populations of 8-10 (plus the minimum sizes some classes require), "
         "1-3 variables, documented parameter ranges; path coverage is partial and reported. "
         "Counterexamples are replayed on the unmodified code before they are reported. Real arithmetic in the solver; numpy/scipy are modelled.")
KERNEL = ("The real function runs with symbolic inputs and symbolic random draws; every feasible path is enumerated by flipping each branch with the solver "
          "(evidence says whether the enumeration was exhaustive) and z3 decides the assertion for all values on each path. Bounded by the stated sizes. "
          "Counterexamples are replayed on the unmodified code. Real arithmetic in the solver; numpy is modelled.")


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking", note=SWEEP,
         technique="concolic symbolic execution of the real code, assertions decided by z3"):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": list(observe), "hook_needed": None},
              "_note": note, "_tech": technique, "_level": level})


OPT = "mealpy/optimizer.py"
ALG = ["mealpy/optimizer.py", "mealpy/swarm_based/", "mealpy/evolutionary_based/", "mealpy/human_based/", "mealpy/math_based/", "mealpy/physics_based/",
       "mealpy/bio_based/", "mealpy/system_based/", "mealpy/music_based/", "mealpy/sota_based/"]

prop("C01", "The objective only ever sees finite points inside the bounds",
     "Whatever the random draws and the objective's values, every point an optimizer passes to the objective function has the problem's number of variables, "
     "is finite, and lies within the lower and upper bounds. The same holds for the solution of every agent the caller can reach after the run: the returned best, "
     "the final population and the agents kept in the history.",
     ["inputs", "configurations", "histories"],
     "every optimizer, every legal configuration, every random stream, every objective function on a continuous box; bounded to 2 symbolic epochs (or one after a concrete prefix) and small populations",
     "tests run each optimizer once or twice with one seed and only look at the returned best, never at the points that were evaluated",
     ALG, [("correct_solution clips to the box", OPT), ("amend_solution overrides per algorithm", "mealpy/*_based/*.py")],
     observe=["points received by the objective callback", "Optimizer.solve result", "Optimizer.history", "Optimizer.pop"])
prop("C02", "A solution's stored fitness is the objective value at that solution",
     "For every agent the caller can reach after a run (the returned best, the final population, every recorded best, worst and population of the history), the objective "
     "was evaluated at exactly that agent's solution and the agent carries that value.",
     ["inputs", "configurations", "histories"],
     "every optimizer, legal configuration, random stream and objective function; bounded to 2 symbolic epochs (or one after a concrete prefix) and small populations",
     "tests check types and shapes of the result; a position that is moved in place after its evaluation, or stored in an uncorrected form, gives plausible numbers",
     ALG + ["mealpy/utils/agent.py", "mealpy/utils/history.py"], [("generate_agent / get_target pair solution and target", OPT), ("Agent.copy isolates positions", "mealpy/utils/agent.py")],
     observe=["Optimizer.solve result", "Optimizer.history", "Optimizer.pop"])
prop("C03", "The best-so-far never gets worse and bounds every population",
     "From epoch to epoch the recorded best-so-far fitness never gets worse in the problem's direction (minimise or maximise), it is at least as good as every agent of that epoch's recorded "
     "population, and each epoch's recorded current best is at least as good as every agent of that population. The returned best is the last recorded best-so-far and at least as good as "
     "every agent of the final population.",
     ["inputs", "configurations", "histories"],
     "every optimizer, legal configuration, minimisation and maximisation, random stream and objective function; bounded to 2 symbolic epochs (or one after a concrete prefix) and small populations",
     "tests look at one run of one convex function; wrong comparison directions show up only for maximisation or for particular fitness orders",
     ALG + ["mealpy/utils/history.py"], [("update_global_best_agent", OPT), ("get_special_agents / get_sorted_population", OPT)],
     observe=["history.list_global_best", "history.list_global_best_fit", "history.list_current_best", "history.list_population"])
prop("C04", "The evaluation counter counts every objective evaluation exactly once",
     "After any run the optimizer's number of function evaluations equals the number of times the objective function was called during that run. "
     "This holds in every mode, with and without a termination condition, and when an optimizer object is reused for another run.",
     ["inputs", "configurations", "histories"],
     "every optimizer, legal configuration, random stream, objective, first and later runs; bounded to 2 symbolic epochs (or one after a concrete prefix) and small populations",
     "no test compares the counter with the calls that were really made; the budget of a max_fe termination depends on it",
     ALG, [("get_target increments", OPT), ("update_target_for_population increments", OPT)], observe=["Optimizer.nfe_counter", "calls of the objective callback"])
prop("C05", "A seed determines the whole run",
     "Two runs of the same optimizer configuration on the same problem with the same seed in sequential mode evaluate the same points in the same order and return the same best solution, fitness and "
     "convergence history. This holds whatever the global random state and the clock do, and also when the second run reuses an optimizer object that has already solved another problem.",
     ["inputs", "configurations", "histories"],
     "every optimizer and legal configuration, any objective, any state of the global random generators and clocks, fresh and reused optimizer objects; bounded to 2 symbolic epochs (or one after a concrete prefix) and small populations",
     "tests never run the same optimizer twice; a draw from a global generator or state left from an earlier run still gives a good result",
     ALG, [("self.generator seeded in before_initialization / check_problem", OPT), ("initialize_variables resets per-run state", "mealpy/*_based/*.py")],
     observe=["points received by the objective callback", "Optimizer.solve result", "history.list_global_best_fit"])
prop("C06", "A legal configuration never makes a run fail",
     "With parameters inside their documented ranges, a problem with finite bounds and an objective that returns finite numbers, running an optimizer never raises an exception, "
     "whatever the random draws and the objective's values.",
     ["inputs", "configurations"],
     "every optimizer; default, extreme legal and categorical parameter values; population 10 (the minimum of the class where larger); any draws and any finite objective values (including ties, constants, zeros, negatives); one to three variables; the first two epochs, and epochs 7 and 13 after concrete earlier ones",
     "tests use default parameters, one positive objective and a few seeds; failures hide behind rare draws and fitness patterns",
     ALG, [("algorithm update rules", "mealpy/*_based/*.py")], observe=["Optimizer.solve"])
prop("C07", "User supplied starting points are the initial population",
     "When starting solutions are given, the optimizer evaluates exactly those points, in the given order, as its initial population, and does so before any other search step other than evaluating their opposites. "
     "They may come as a list or tuple of lists, tuples or arrays or as a matrix, with integer or float coordinates, in every mode. "
     "The result is at least as good as every starting point, and the caller's arrays are left unmodified by the whole run.",
     ["inputs", "configurations"],
     "every optimizer and legal configuration, any starting points inside the bounds, any draws and objective values; bounded to 2 symbolic epochs (or one after a concrete prefix) and small populations",
     "tests check at most that a run with an array of starting solutions succeeds",
     ALG, [("before_initialization", OPT), ("generate_agent(solution)", OPT)], observe=["points received by the objective callback", "the caller's arrays"])
prop("C09", "The population keeps the size the user asked for",
     "In every epoch and at the end of a run the population has exactly the configured number of agents, for every optimizer except those documented as single-solution methods or as resizing their "
     "population, and up to the documented archive or party multiples.",
     ["inputs", "configurations", "histories"],
     "every population based optimizer, legal configuration, random stream and objective; 2 epochs, population 10",
     "tests do not look at the population; an off-by-one in a split or trim only shows for some fitness orders",
     ALG, [("get_sorted_and_trimmed_population", OPT), ("per algorithm group handling", "mealpy/*_based/*.py")], observe=["history.list_population", "Optimizer.pop"])
prop("C38", "Maximising is minimising the negative",
     "An optimizer that maximises and is told -v1, -v2, -v3, ... makes the same search as one with the same seed and configuration that minimises and is told v1, v2, v3, ...: it evaluates the same points in the same order, returns the same "
     "solution with the negated fitness, and its histories of global and current best and worst hold the negated values. The answers v1, v2, ... are pairwise different and at least 1. "
     "For OriginalAPO, OriginalCrayfishOA, OriginalESOA, OriginalEVO, OriginalFLA, OriginalHGSO, OriginalSMA, DevSMA and OriginalSSpiderO, which add a small constant to fitness values, they are at least 1e7, and points agree to six digits. "
     "Excepted are the optimizers whose formulas use the size or the sign of the fitness values: OriginalGTO, Matlab101GTO, Matlab102GTO, OriginalBFO, OriginalBSA, OriginalDMOA, DevDMOA, OriginalFDO, OriginalRIME, DevSMO, OriginalQSA, DevQSA, OppoQSA, LevyQSA, "
     "ImprovedQSA, OriginalFA, OriginalMVO, WMQIMRFO, OriginalGJA, OriginalINFO, OriginalKLA and OriginalSBO.",
     ["inputs", "configurations"],
     "every other optimizer and legal configuration, any random stream, any such answers of the objective; bounded to 2 symbolic epochs (or one after a concrete prefix), population 8 or the smallest legal one",
     "the tests only minimise; a comparison, a ranking or a sign that forgets the direction still runs, and still returns the best point it met",
     ALG, [("compare_target / compare_fitness / get_better_agent / get_sorted_population with minmax", OPT), ("every use of problem.minmax in the update rules", "mealpy/*_based/*.py")],
     observe=["points received by the objective callback", "Optimizer.solve result", "history"])
prop("C10", "Parallel modes give the sequential batch result under every schedule",
     "For an optimizer that supports parallel execution, running with a thread pool or a process pool and the same seed returns the same best solution and fitness, the same convergence history, the same final population "
     "and the same evaluation count as the sequential batch mode, in whatever order the workers run and finish their tasks.",
     ["schedules", "inputs", "configurations"],
     "every parallelizable optimizer, every order in which tasks start and complete (tasks are atomic), any draws and objective values; population 10, 2 epochs, all task orders reachable by flipping schedule choices",
     "tests start real pools on a fast objective, where tasks finish in submission order, and never compare with the sequential result",
     ALG, [("generate_population / update_target_for_population", OPT)], observe=["Optimizer.solve result", "Optimizer.history", "Optimizer.pop", "Optimizer.nfe_counter"])

# --- more properties are appended by tools/props_kernels.py
try:
    import props_kernels
    props_kernels.add(prop, NA, KERNEL, SWEEP)
except ImportError:
    pass


def main():
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    na = {x["property"] for x in NA}
    checks = []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in na:
            continue
        checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python run.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {p['id']}",
                       "technique": p["_tech"], "level": p["_level"], "level_note": p["_note"]})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py", "checks": checks, "not_applicable": NA,
         "notes": "See DESIGN.md. Known findings and repaired defects: known_findings.txt."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
