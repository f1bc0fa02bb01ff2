"""Properties decided by kernels: one function (or a small scenario) of the real code, every path, every input within the bounds."""
TECH = "exhaustive symbolic execution of the real functions (every branch flipped by the solver), assertions decided by z3"
OPT = "mealpy/optimizer.py"
SP = "mealpy/utils/space.py"


def add(prop, NA, KERNEL, SWEEP):
    from props import ALG as ALG_
    def k(id, title, statement, over, text, why, files, mech, observe=(), state=()):
        prop(id, title, statement, over, text, why, files, mech, state=state, observe=observe, note=KERNEL, technique=TECH)

    k("C11", "Decoding any vector inside the box gives legal values",
      "For every variable type (float, integer, boolean, string, categorical, sequence, permutation, binary, transfer-function boolean and binary), decoding any real vector inside the variable's bounds gives exactly the variable's number of "
      "values, each legal for the variable: inside [lb, ub] (floats and integers, integers being the nearest whole number), one of the declared labels, categories, sequences (of the declared kind) or 0/1 values (not all zero where that is excluded), or a permutation that contains every declared item exactly once. "
      "Vectors outside the bounds decode to legal values as well.",
      ["inputs"], "every vector of reals (1-3 variables per decision variable, symbolic coordinates in and beyond the bounds), symbolic float bounds and symbolic integer bounds, a fixed set of label sets; every path",
      "tests decode one or two hand-picked vectors; ties, bounds and vectors at the very edge of the box are never tried",
      [SP, "mealpy/utils/encoder.py"], [("<Var>.decode / <Var>.correct", SP), ("LabelEncoder", "mealpy/utils/encoder.py")], observe=["return value of decode"])
    k("C12", "Encoding a legal value and decoding it gives it back",
      "For every variable type, encoding a legal value gives a vector with the variable's number of coordinates, and decoding that vector returns the same value.",
      ["inputs"], "every legal value of the variables used (symbolic floats and integers, every label, category, 0/1 vector and permutation), 1-3 variables per decision variable",
      "tests encode one value per type; repeated labels, tuple categories and permutations with unusual items are not tried",
      [SP, "mealpy/utils/encoder.py"], [("<Var>.encode / <Var>.decode", SP)], observe=["decode(encode(value))"])
    k("C13", "Correction is idempotent and changes nothing that is already legal",
      "For every variable type, correcting any real vector gives a vector of the variable's size inside its box (0/1 for the transfer-function variables) without modifying its argument; correcting again changes nothing; the encoding of a legal value is left as it is; "
      "a corrected vector decodes to the same value each time.",
      ["inputs"], "every vector of reals, inside and outside the bounds; 1-3 variables per decision variable; for transfer-function variables any draw",
      "optimizers correct positions again and again; a drift by repeated correction, or a decode that disagrees with what was evaluated, is not visible in a single call",
      [SP], [("<Var>.correct", SP)], observe=["return value of correct"])
    k("C14", "Randomly generated values are legal and cover the declared range",
      "For every variable type and any random draw, a generated value is legal, encodes into the variable's box, and decodes back to itself. Every declared label, category, 0/1 value and every integer up to and including the upper bound can be generated for every component, every item of a permutation at every position, and floats near both ends of their range.",
      ["inputs"], "any random draws; the declared sets and bounds used (symbolic draws, integer bounds with signs and zero), 1-3 variables per decision variable",
      "a generator that never reaches the upper bound or a label, or that fails for one rare draw, passes any sample of draws with high probability",
      [SP, "mealpy/utils/problem.py"], [("<Var>.generate", SP)], observe=["return value of generate"])
    k("C15", "A problem's variables each work on their own slice of the solution vector",
      "For a problem built from any sequence of decision variables, the number of dimensions and the bounds are those of the variables one after another, and cover exactly the declared values (the declared bounds of floats and transfer-function variables, whole numbers within half a step, one unit per label or item); decoding and correcting a full vector give for every variable exactly what that variable gives on its own slice; "
      "decoded results are named after the variables; a generated solution encodes and decodes to itself.",
      ["inputs"], "all vectors of reals; problems of up to 4 variables drawn from all types and sizes, in different orders",
      "tests use at most one mixed problem and one vector; an off-by-one in slicing shows up only for particular sizes and orders",
      ["mealpy/utils/problem.py", SP], [("decode_solution / encode_solution / correct_solution / set_bounds", "mealpy/utils/problem.py")], observe=["Problem.decode_solution", "Problem.correct_solution", "Problem.encode_solution"])
    k("C16", "Fitness is the weighted sum of the objectives",
      "A target's fitness is the sum of its objectives times their weights, for lists, arrays and single numbers; without weights every weight is one and a single weight is applied to all objectives; nested objectives are flattened; the problem's obj_weights decide the fitness of every evaluated point, "
      "with exactly one call of the objective per evaluation; the objectives are kept unchanged; a copy has the same fitness, objectives and weights; a run returns the point whose weighted sum is the best. A problem's n_objs is the number of values its objective returns, whatever was evaluated before, and asking for it leaves given weights as they are and raises ValueError when their number is another. Objectives or weights of a wrong type are refused with ValueError.",
      ["inputs"], "all real objectives and weights; 1-4 objectives; list, tuple and array forms",
      "tests use two objectives and one weight vector with positive values",
      ["mealpy/utils/target.py", "mealpy/utils/problem.py", OPT], [("Target.calculate_fitness / set_weights / copy", "mealpy/utils/target.py"), ("Problem.get_target", "mealpy/utils/problem.py")], observe=["Target.fitness", "Target.objectives", "Target.weights"])
    k("C17", "Agents copy completely and independently, and compare in the problem's direction",
      "A copy of an agent has the same position, target and every other attribute, another identity, and shares no mutable position or target with the original: changing either leaves the other unchanged. Better-than comparisons follow the problem's direction and are never true both ways; "
      "the better of several agents is the one with the best fitness; equality is by position; a duplicate takes over the target of the equal agent. Copies of a population keep order, fitness and independence.",
      ["inputs"], "any fitness values, positions of 1-3 coordinates, minimisation and maximisation",
      "aliasing between an agent and its copy only shows when one of them is changed later in place",
      ["mealpy/utils/agent.py", OPT], [("Agent.copy / is_better_than / get_better_solution / sync_if_duplicate", "mealpy/utils/agent.py"), ("duplicate_pop", OPT)], observe=["Agent.copy", "Agent.is_better_than"])
    k("C18", "Rankings and greedy selection are right for every fitness pattern",
      "For every fitness pattern including ties, and for minimisation and maximisation: a sorted population is a permutation of the population, best first, with indices that name the sorted agents, and leaves the population itself unchanged; best, worst, special agents and special fitness are the best, the worst, the n best and n worst, in order and as copies; "
      "greedy selection keeps the better of the two agents of each slot, and refuses populations of different sizes; sort-and-trim cuts no agent better than one it keeps; compare functions accept strictly better, refuse strictly worse ones; updating the global best keeps the best and worst ever seen and records copies.",
      ["inputs", "histories"], "all fitness values, populations of 1-4 agents, both directions, every option combination",
      "there are n! orders of the fitness values and ties between them; tests use one",
      [OPT, "mealpy/utils/history.py"], [("get_sorted_population / get_special_agents / get_best_agent / get_worst_agent / greedy_selection_population / update_global_best_agent", OPT)], observe=["return values of the ranking functions", "Optimizer.history"])
    k("C19", "Index sampling never returns an excluded or repeated index",
      "get_random_integers-style sampling of population indices returns the requested number of indices, all inside the population, none of them excluded, pairwise different unless replacement is asked for, and a single index as a number; every allowed index can be sampled.",
      ["inputs"], "any random draws, populations of up to 5, any excluded index or list of indices, 1-3 indices, with and without replacement",
      "a wrong exclusion shows for one index in n",
      [OPT], [("Optimizer index sampling helpers", OPT)], observe=["return values"])
    k("C20", "Roulette and tournament selection choose valid agents and prefer better ones",
      "For every fitness pattern (negative values, ties, zeros; minimisation and maximisation) the roulette wheel returns an index inside the population, leaves the fitness values unchanged, can select the agents other than the strictly worst, and gives a better fitness a higher probability; "
      "a tournament returns the requested number of different indices, the best (or, reversed, the worst) ones of those that took part, and every agent can take part.",
      ["inputs"], "all fitness values and draws, populations of 2-5 agents",
      "signs, ties and directions interact; tests use positive values and minimisation",
      [OPT], [("get_index_roulette_wheel_selection / get_index_kway_tournament_selection", OPT)], observe=["return values"])
    k("C21", "The shared search operators respect bounds, shapes and agents",
      "Arithmetic crossover children lie between their parents and add up to the parents' sum; the opposite of an agent lies inside the bounds and is corrected for its variables; Levy steps have the requested shape, are finite and scale with the multiplier; groups contain copies of the agents in order, m per group; "
      "improved mutation and search keeps the population size and the bounds, pairs each agent with the fitness of its own point and never loses the best. The operators do not modify the agents they are given.",
      ["inputs"], "all positions, fitness values and draws; 1-3 variables, populations of up to 6",
      "each operator is used by several optimizers whose tests only look at the final result",
      [OPT], [("crossover_arithmetic / generate_opposition_solution / get_levy_flight_step / generate_group_population / improved_ms", OPT)], observe=["return values", "the given agents"])
    k("C22", "Termination conditions stop a run exactly when they should",
      "A run stops after the first epoch in which one of its conditions holds, and not before: the epoch limit, the evaluation budget, the time limit, or as many successive epochs as given without an improvement larger than epsilon, in both directions; without reaching one it runs all epochs. "
      "Limits below their minimum and empty conditions are refused; conditions may come as keywords, a dictionary or an object; one Termination object can serve several runs.",
      ["inputs", "configurations", "histories"], "symbolic limits, clock readings and improvements; every subset of the conditions; up to 6 epochs and every pattern of improvement over 4 epochs",
      "tests check that a run with a termination finishes, not when; off-by-one errors in counting epochs are invisible",
      ["mealpy/utils/termination.py", OPT], [("Termination.should_terminate", "mealpy/utils/termination.py"), ("check_termination / solve", OPT), ("get_global_repeated_times", "mealpy/utils/history.py")], observe=["number of epochs and evaluations of a run", "Termination.should_terminate"])
    k("C23", "The history records each epoch as it was",
      "After a run every record of the history has one entry per epoch; each epoch's current best and worst are those of that epoch's population, the global best and worst those of everything seen so far; fitness lists agree with the agents; recorded populations are the populations at the end of the epoch (none when saving is off); runtimes are not negative; "
      "diversity is the mean distance to the population's median, exploration and exploitation percentages add up to 100; the repetition count of the best is the length of its unchanged tail.",
      ["inputs", "histories"], "all objective values and positions; 2 epochs, populations of 2-3, with and without saved populations, both directions",
      "tests only check that charts can be drawn from it",
      ["mealpy/utils/history.py", OPT], [("track_optimize_step / track_optimize_process", OPT), ("store_initial_best_worst / get_global_repeated_times", "mealpy/utils/history.py")], observe=["Optimizer.history"])
    k("C24", "Parameter validators accept exactly what is legal",
      "The validators accept a number exactly when it has an accepted type and lies within the bound (closed brackets include the ends, open ones do not, infinite ends do not restrict), a string exactly when it is one of the allowed ones, booleans only when they are booleans, tuples only when they have the right length and every entry is legal, values that may be an integer or a float by the bound of their own kind; they return the given value and otherwise raise ValueError.",
      ["inputs"], "all numbers and symbolic bounds of each bracket form; a set of wrong types",
      "tests try a few values per parameter, never the ends of open intervals",
      ["mealpy/utils/validator.py"], [("Validator.check_* / is_in_bound / is_str_in_list", "mealpy/utils/validator.py")], observe=["return value or ValueError"])
    k("C28", "Transfer functions are probabilities with their documented shape",
      "Every V-shaped and S-shaped transfer function maps every real number to a probability. V-shaped ones are zero at zero, symmetric and increase with the distance from zero; S-shaped ones are one half at zero, increasing, and s(x) + s(-x) = 1; both approach one for large arguments (S-shaped ones zero for large negative ones).",
      ["inputs"], "all reals in [-50, 50] (monotony and symmetry: [-8, 8])",
      "a sign or constant slip in one of eight formulas still gives plausible bits",
      ["mealpy/utils/transfer.py"], [("vstf_01..04, sstf_01..04", "mealpy/utils/transfer.py")], observe=["return values"])
    k("C29", "Chaotic maps and fuzzy weights stay in their intervals",
      "Each chaotic map sends its interval into itself (the singer map exceeds one by at most 8 per cent and may undershoot zero by its rounded coefficients); triangular membership is 0 outside the triangle, 1 at its peak and linear in between; fuzzy weights are three numbers in [25, 75].",
      ["inputs"], "all arguments in the maps' intervals, all arguments of membership functions, all iterations up to 1000",
      "an iterate that leaves the interval once diverges later; tests do not iterate them",
      ["mealpy/utils/chaotic.py", "mealpy/utils/fuzzy.py"], [("ChaoticMap.*_map", "mealpy/utils/chaotic.py"), ("FuzzySystem.get_fuzzy_weights", "mealpy/utils/fuzzy.py")], observe=["return values"])
    k("C30", "Parameters are what was set",
      "get_parameters returns exactly the declared parameters with the values given to the constructor or later to set_parameters; set_parameters changes the named ones and leaves the others; an unknown name is refused with ValueError and changes nothing; the attributes agree with the dictionary.",
      ["inputs"], "any subset of the parameters of an optimizer with any values",
      "the tuner relies on it for every trial; tests check the constructor only",
      [OPT], [("set_parameters / get_parameters", OPT)], observe=["Optimizer.parameters", "attributes"])

    TUN, MT = "mealpy/tuner.py", "mealpy/multitask.py"
    k("C08", "Constructors accept exactly the legal hyper-parameters",
      "Every optimizer's constructor accepts a value of a hyper-parameter exactly when it lies within that hyper-parameter's range (closed ranges include their ends, open ones do not; ranges stated in terms of pop_size, epoch or another parameter move with it) or is one of its allowed strings or booleans, whatever the other parameters are; it refuses everything else, and wrong types, with ValueError. Accepted values are stored unchanged (integers and floats alike) in the attribute and in get_parameters, where parameters that were not given keep their defaults; the defaults themselves are accepted.",
      ["inputs", "configurations"], "all 282 optimizers, every validated hyper-parameter (1103), every integer or real within the range widened by 30 per cent on both sides; pairs of parameters whose ranges depend on each other jointly; the other parameters at their defaults. The ranges are listed in params.json",
      "tests construct each optimizer with one or two values per parameter and never at the ends of a range",
      ALG_ + ["mealpy/utils/validator.py"], [("__init__", "every optimizer module"), ("check_int / check_float / check_str / check_bool", "mealpy/utils/validator.py"), ("set_parameters", OPT)],
      observe=["the constructor's ValueError", "attributes", "get_parameters()"])
    k("C25", "A parameter grid is the full product, in one order",
      "A parameter grid contains every combination of the listed values exactly once; its length is the number of combinations, indexing gives the same combination as iterating, an index at or beyond the length raises IndexError; lists of grids are their concatenation; what is not a grid raises TypeError, empty or two-dimensional value lists ValueError.",
      ["inputs"], "grids of 1-3 parameters with 1-3 values each (symbolic values), lists of grids, any index up to 12",
      "tests never index a grid and never use lists of grids with different sizes",
      [TUN], [("ParameterGrid.__iter__ / __getitem__ / __len__", TUN)], observe=["ParameterGrid"])
    k("C26", "The tuner runs every grid point and picks the best",
      "The tuner runs each combination of the grid n_trials times with that combination's parameters and with the mode and termination of the search; the results table holds each trial's final fitness, their mean and their sample deviation; the best parameters are those with the best mean fitness in the problem's direction (ties: smallest deviation), best_score is that mean; the best algorithm has the best parameters, and resolve solves with them and with the starting solutions, termination, mode and workers it is given; parallel trials give the same result. What cannot be tuned is refused.",
      ["inputs", "histories"], "grids of 2-3 points, 1-3 trials, any fitness values, both directions, sequential and parallel trials; pandas is replaced by a small model on symbolic runs (replays use the real one)",
      "tests run one random search and cannot know which point should win",
      [TUN], [("Tuner.execute / __run__ / resolve", TUN)], observe=["Tuner.best_params", "best_score", "df_fit", "df_loss", "best_algorithm"])
    k("C27", "Multitask runs every algorithm on every problem",
      "Multitask solves every problem with every algorithm n_trials times; each run gets the given number of workers, each pair the mode and termination documented for the list's length (1: all; number of algorithms: per algorithm; number of problems: per problem; their product: per pair), other lengths are refused; the written tables hold each trial's best fitness and convergence, shorter convergences padded; parallel trials give the same tables.",
      ["inputs", "configurations"], "1-3 algorithms and problems, all list lengths up to 7, 1-3 trials, any fitness values, each file format (pandas replaced by a model on symbolic runs)",
      "tests use one shape; swapping the two indices goes unnoticed on square cases",
      [MT], [("Multitask.__init__ / execute / __run__", MT)], observe=["written best-fitness and convergence tables", "the problems' objective functions"])
    prop("C33", "The caller's objects come back unchanged",
      "Solving, tuning and multitasking leave what the caller passed in as it was: the problem dictionary, bounds, variables, weights, starting points, termination dictionary, parameter grid and lists. The run does not change the problem's bounds or direction nor the optimizer's epoch and pop_size, and a problem object can be solved again with the same meaning.",
      ["inputs", "histories"], "every optimizer (2 epochs, population 10, any draws and objective values); the tuner and multitask with small grids",
      "an optimizer that shrinks the bounds array in place gives right results on the first run only; tests build a new problem each time",
      ALG_ + [TUN, MT, "mealpy/utils/problem.py"], [("Optimizer.solve / check_problem", OPT), ("set_bounds / __set_keyword_arguments", "mealpy/utils/problem.py"), ("Tuner.execute", TUN), ("Multitask.execute", MT)],
      observe=["the passed objects after the call", "Optimizer.problem", "Optimizer.epoch", "Optimizer.pop_size"], note=SWEEP)
    prop("C34", "Mixed-variable problems only see corrected points",
      "On problems mixing float, integer, permutation, categorical, binary, boolean and transfer-function variables every point an optimizer evaluates has been corrected for its variables: integers and labels inside their box, permutations as ranks, transfer-function variables as bits; it decodes to legal values; agents' stored fitness is the objective value of their solution; and no run fails.",
      ["inputs", "configurations", "histories"], "every optimizer on two mixes of variables, any draws and objective values; 2 epochs, population 10",
      "tests run every optimizer on float problems only",
      ALG_ + ["mealpy/utils/space.py", "mealpy/utils/problem.py"], [("correct_solution / generate_agent / get_target", OPT), ("correct_solution_with_bounds", "mealpy/utils/problem.py"), ("*.correct", "mealpy/utils/space.py")],
      observe=["argument of obj_func", "Optimizer.pop", "Optimizer.g_best", "Optimizer.history"], note=SWEEP)

    VIS = "mealpy/utils/visualize/linechart.py"
    prop("C31", "A saved model loads as an equal model",
         "A solved optimizer can be saved with save_model and loaded with load_model. The loaded optimizer has the same class, name, parameters, problem bounds and direction, best and worst agents, population, evaluation count and history "
         "as the saved one; saving changes nothing, and the two share no agents, problem or history afterwards; solving again with the same seed gives the same result with either. Problems' variables and agents survive as well. "
         "Files get the .pkl ending unless the name already has it, no name means model.pkl, load_model finds what save_model wrote under the same name, and saving again replaces the file.",
         ["inputs", "configurations", "histories"],
         "every optimizer after 2 epochs on a float problem and on a mixed one, any draws and objective values; a small optimizer with any objective values, start positions and step; all pairs of nine kinds of file name. "
         "The pickle module itself is the real one: symbolic values pass through it by reference",
         "tests never save a model; an attribute that cannot be pickled, or that is left out of the saved state, is noticed only when an expensive run is loaded again",
         ["mealpy/utils/io.py", OPT, "mealpy/utils/history.py", "mealpy/utils/agent.py", "mealpy/utils/target.py", "mealpy/utils/problem.py"] + ALG_,
         [("save_model / load_model", "mealpy/utils/io.py"), ("attributes set by the optimizers", "mealpy/*_based/*.py")],
         observe=["load_model's result", "files written"], note=SWEEP,
         technique="concolic symbolic execution of the real code (pickle passes symbolic values by reference), assertions decided by z3")
    k("C32", "Charts show the recorded values",
      "Each chart drawn from a history shows exactly the recorded series, one point per epoch: global best fitness, current best fitness, runtime, diversity, exploration and exploitation percentages (labelled so), each objective of the global or current best on axes of its own, and for trajectories the "
      "chosen coordinates of the chosen agents (both counted from one, duplicates ignored, labelled by agent) in every recorded population. The given title and labels appear, the chart is written once per requested file ending under exactly the given name, missing parent folders are created, "
      "and the history is not changed. Trajectories that cannot be drawn (fewer than two recorded populations, no or more than ten agents, other than one or two dimensions, indices outside the population or the problem) raise ValueError and write nothing.",
      ["inputs", "histories"], "all recorded values; 1-3 epochs, up to 3 objectives, up to 12 agents and 3 dimensions, every choice of agents, dimensions, file names and endings listed in the kernels; matplotlib is replaced by a recorder with pyplot's interface (drawing itself is outside)",
      "tests at most check that a file appears; a chart of the wrong series, or shifted by one agent, looks plausible",
      ["mealpy/utils/history.py", VIS], [("save_*_chart", "mealpy/utils/history.py"), ("export_* / _draw_*", VIS), ("__check_filepath__ / __clean_filename__", VIS)], observe=["curves passed to pyplot", "files written"])
    k("C35", "solve refuses what it cannot run, before doing anything",
      "solve accepts exactly the documented modes (single, swarm, thread, process) and, in the pool modes, worker counts from 2 to the smaller of 61 and one less than the number of cores (process) or of 32 and four more than the number of cores (thread), no count meaning 4, and a pool of exactly that size is used; optimizers that are not parallelizable "
      "run one by one instead. Anything else (other modes and worker counts, something that is no problem, bounds that are not variables, starting solutions whose number is not the population size or whose length is not the number of dimensions, terminations without a usable condition, objectives that return no number) raises ValueError (TypeError for a missing "
      "or unusable bounds entry). Apart from the last case a refused call has not evaluated the objective, and the same optimizer solves the next legal call as usual.",
      ["inputs", "configurations"], "worker counts -3..70 on machines with 1..128 cores, 9 modes, up to 3 starting solutions of up to 3 coordinates (any reals), the listed objects that are no problem, bounds, termination, starting solution or objective value; a small optimizer on two dimensions; pools are replaced by stand-ins with the same interface",
      "tests try no wrong input of solve, and whether a worker count is legal depends on the machine the tests run on",
      [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py", "mealpy/utils/validator.py", "mealpy/utils/termination.py"], [("check_mode_and_workers / check_problem / initialization / check_termination", OPT), ("Problem.set_bounds", "mealpy/utils/problem.py")],
      observe=["exceptions of solve", "calls of obj_func", "size of the pool"])
    k("C36", "Different ways of describing a run give the same run",
      "With the same seed, a problem given as dict, as Problem object or as a user's subclass (with or without data of its own), bounds given as a variable or as a list, tuple or array of it, an objective returning a number or a sequence or array of one, weights of one or none, starting solutions as lists, tuples or matrix, parameters given to the "
      "constructor by name, by position, as numpy numbers or later by set_parameters, a mode named or left out, worker counts in sequential mode, names, logging to the console, kept populations, limits that are never reached, an optimizer or a Problem object that was used before: each leads to the same evaluations in the same order and to the same best, worst, population and history. "
      "Every optimizer is found by its name, its module and its class, and its text shows its parameters.",
      ["inputs", "configurations", "histories"], "25 variants of one run of a small optimizer (population 2, 1-2 epochs) with any objective values, steps and draws; every optimizer's name",
      "tests describe each run in one way; a seed, weight or direction that is lost on one of the ways goes unnoticed",
      [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py", "mealpy/__init__.py", "mealpy/utils/target.py"], [("solve / check_problem / initialization / set_parameters", OPT), ("Problem.__init__", "mealpy/utils/problem.py"), ("get_optimizer_by_class / get_optimizer_by_name", "mealpy/__init__.py")],
      observe=["arguments of obj_func", "Optimizer.g_best", "Optimizer.pop", "Optimizer.history"])
    k("C37", "The tuner's files hold what the tuner found",
      "export_results writes the table of results and export_figures the convergence table, in the format the given file name asks for (csv, json, or a pickled dataframe), into the given folder (created with its parents when missing; history/<optimizer> otherwise), and reading the file gives the same columns and values. export_figures also draws, for each trial, each parameter "
      "and each combination of the other parameters for which several values of it were tried, one chart with one curve per value, labelled with it and showing the global best fitness after each epoch of exactly that run, with the given axis labels and colours, saved once per requested ending in the trial's folder under names that do not overwrite each other, also when the grid has a single parameter. "
      "Neither changes the tuner's tables or best parameters, and exporting again replaces the earlier files. A file name that is no text, or a wrong number of colours, raises ValueError.",
      ["inputs", "configurations"], "grids of 1-3 parameters with up to 4 points, 1-2 trials, 1-3 epochs, any objective values in disjoint ranges per run, all formats, folders and endings listed in the kernels; pyplot and DataFrame.plot are replaced by a recorder; tables are read back from the written file when a counterexample is replayed",
      "tests never export figures; a curve of another setting or trial looks plausible",
      [TUN], [("Tuner.export_results", TUN), ("Tuner.export_figures", TUN), ("Tuner.execute", TUN)],
      observe=["files written", "curves passed to pyplot", "Tuner.df_fit", "Tuner.df_loss"])
