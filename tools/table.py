D = "skdecide/builders/domain/"
prop("C01", "Stepping a domain follows its own model with its memory discipline",
     "Resetting, stepping or sampling a domain draws the next state from its transition model for exactly the current "
     "memory and applied action, and returns the model's value and termination for that transition and an observation "
     "of the reached state given that action. The memory then holds exactly what the domain's memory level promises: all "
     "past states, the last k states, the last state, or nothing; sampling another memory changes nothing, and setting "
     "the memory or resetting restarts from there.",
     ["inputs", "histories", "configurations"],
     "all state/action/cost values, all random draws, all memory levels (unbounded, last k, last, none), all transition, "
     "observation and initialisation levels, episodes of several steps", NOTEST,
     [D + "dynamics.py", D + "memory.py", D + "initialization.py", D + "observability.py", "skdecide/core.py"],
     [("step/sample boilerplate", D + "dynamics.py"), ("memory initialisation and length", D + "memory.py"),
      ("reset boilerplate", D + "initialization.py"), ("observation chain", D + "observability.py")],
     ["reset, step, sample, set_memory, get_next_state_distribution, get_observation_distribution"])
prop("C02", "Membership queries agree with the spaces a domain declares",
     "Asking whether an action is applicable, an event enabled, an observation possible, a goal reached or a value "
     "admissible gives the same answer as the corresponding declared space or commitment, agent by agent, for the memory "
     "given or, when none is given, for the current memory of the domain. A domain with only controllable actions has no "
     "enabled event, and an unrestricted one can apply every action; positive-cost domains accept exactly the "
     "non-negative costs.",
     ["inputs", "configurations", "histories"], "all spaces, elements, values, memories; one or several agents", NOTEST,
     [D + "events.py", D + "goals.py", D + "observability.py", D + "value.py", D + "renderability.py", "skdecide/core.py"],
     [("default membership queries", D + "events.py"), ("goal test", D + "goals.py"), ("value check", D + "value.py"),
      ("generic spaces", "skdecide/core.py")],
     ["is_applicable_action, is_enabled_event, is_action, is_goal, is_observation, check_value, render"])
prop("C03", "Wrapped spaces enumerate, sample, test and convert consistently",
     "A space wrapping a gym space contains exactly the elements it was declared with, enumerates them in order, and its "
     "samples belong to it. Converting elements to the wrapped or JSON form and back gives the same elements, and every "
     "converted element belongs to the wrapped space.",
     ["inputs"], "all element lists, enumerations and records of the modelled sizes, all batches", NOTEST,
     ["skdecide/hub/space/gym/gym.py"], [("space wrappers", "skdecide/hub/space/gym/gym.py")],
     ["contains, get_elements, sample, to_unwrapped, from_unwrapped, to_jsonable, from_jsonable"])
prop("C04", "Automatic level adaptation reshapes but never changes content",
     "When a solver written for one level of agents, concurrency or memory uses a domain of another level, or the other "
     "way round, every argument and result crossing the boundary has the receiver's shape and the sender's content, "
     "including inside distributions, outcomes and constraints. Several agents, concurrent events or remembered states "
     "are all kept when both levels have them.",
     ["inputs", "configurations"], "all 64 pairs of levels, all contents, positional/keyword/omitted arguments",
     "The tests sample a few literal values on the two extreme levels and never adapt a domain, a solver, a constraint, "
     "a distribution with several values or an intermediate level.",
     ["skdecide/core.py", "skdecide/domains.py", "skdecide/solvers.py"],
     [("cast table and recursive casting", "skdecide/core.py"), ("adaptation of the domain", "skdecide/solvers.py"),
      ("adaptation of the solver", "skdecide/domains.py")],
     ["a domain received by a solver; a solver returned by solve_with"])
prop("C05", "Distributions, values, outcomes and constraints mean what they say",
     "A discrete distribution lists the values and probabilities it was given and samples only values of positive "
     "probability, proportionally; a reward is always the opposite of its cost, absent values count as zero for each "
     "agent; a bound constraint holds exactly when its inequality does; a deterministic policy gives its action with "
     "probability one.",
     ["inputs"], "all values, weights, costs, bounds and inequalities within small sizes", NOTEST,
     ["skdecide/core.py", "skdecide/builders/solver/policy.py"],
     [("distributions, values, outcomes, constraints", "skdecide/core.py"), ("policies",
                                                                             "skdecide/builders/solver/policy.py")],
     ["sample, get_values, TransitionValue, EnvironmentOutcome, Constraint.check, sample_action"])
prop("C06", "A rollout faithfully executes the policy in the domain",
     "Each episode starts from a reset or from the given memory (left unchanged), asks the policy for an action on the "
     "latest observation, steps the domain from the state just reached, and stops at termination or at the step limit, "
     "never later. Returned observations, actions and values are exactly those of the episode; without a policy, the "
     "actions are applicable ones for every agent.",
     ["inputs", "histories", "configurations"],
     "all policies, transition outcomes, termination patterns, step limits, starting memories, domain levels", NOTEST,
     ["skdecide/utils.py"], [("rollout loops and default random policy", "skdecide/utils.py")],
     ["rollout, rollout_episode"])
H = "skdecide/hub/"
prop("C07", "Solvers are matched exactly with the domains they can handle",
     "A solver accepts a domain exactly when every characteristic of the domain is at least as specialised as the level "
     "the solver asks for and the solver's own additional check passes. The listed requirements are those levels, and "
     "matching returns exactly the accepting solvers among the loadable candidates, in their order.",
     ["configurations", "inputs"], "all levels of every characteristic on both sides, all answers of additional checks", NOTEST,
     ["skdecide/solvers.py", "skdecide/utils.py"], [("requirements and check", "skdecide/solvers.py"),
                                                    ("matching", "skdecide/utils.py")],
     ["check_domain, get_domain_requirements, match_solvers"])
prop("C08", "Heuristic planners return valid plans, optimal ones for LazyAstar",
     "LazyAstar finds a plan to a goal from the initial (or given) state exactly when one exists, through applicable "
     "actions only, of minimal cost for a consistent heuristic (within the weight otherwise), with the utility of each "
     "planned state being the cost still to pay. LRTAstar finds a plan exactly when one exists and an optimal one when "
     "the domain has no cycle. Planning again forgets previous plans.",
     ["inputs", "histories", "configurations"], "all costs, heuristics, graph topologies within the modelled shapes, starts and goal sets",
     NOTEST, [H + "solver/lazy_astar/lazy_astar.py", H + "solver/lrtastar/lrtastar.py"],
     [("search", H + "solver/lazy_astar/lazy_astar.py"), ("trials", H + "solver/lrtastar/lrtastar.py")],
     ["get_next_action, is_policy_defined_for, get_utility after solve"])
prop("C09", "Greedy, sampling and evaluation policies agree with the model",
     "SimpleGreedy picks an applicable action of highest expected reward. The expected cost computed for a policy is the "
     "exact expectation for the states that surely reach the goal, and only those; the rollout estimate is the mean cost "
     "to go of the sampled visits. POMCP simulates only the domain's own transitions and observations, keeps beliefs "
     "compatible with what was observed and chooses the action of least estimated cost.",
     ["inputs", "histories"], "all probabilities, costs, rewards, applicability, random draws within small models", NOTEST,
     [H + "solver/simple_greedy/simple_greedy.py", H + "solver/policy_evaluators/policy_evaluator.py", H + "solver/pomcp/pomcp.py"],
     [("greedy choice", H + "solver/simple_greedy/simple_greedy.py"),
      ("policy evaluation", H + "solver/policy_evaluators/policy_evaluator.py"), ("tree search", H + "solver/pomcp/pomcp.py")],
     ["get_next_action, compute_expected_cost_for_policy, rollout_based_compute_expected_cost_for_policy"])
prop("C10", "Explored graph domains copy the reachable part of the domain",
     "Exploring a domain builds a graph domain whose states, actions, next states (or their distributions), costs and "
     "goals are exactly those of the states reachable without going beyond goals; limits only cut exploration once "
     "exceeded and never invent anything. Merging two graphs keeps the transitions of both, the first one's first.",
     ["inputs", "configurations"], "all domains of up to 3 states and 2 actions, all limits", NOTEST,
     [H + "solver/graph_explorer/" + f for f in ("DFSExploration.py", "DFS_Uncertain_Exploration.py",
                                                 "FullSpaceExploration.py", "GraphDomain.py")],
     [("exploration", H + "solver/graph_explorer/"), ("graph domains", H + "solver/graph_explorer/GraphDomain.py")],
     ["build_graph_domain; the graph domain's own methods"])
prop("C11", "The ready-made domains follow the rules of their games",
     "In the maze and the grid world a move goes to the next free cell at cost 1 or stays at cost 2, starting and ending "
     "where announced; MasterMind scores every guess by bulls and cows, never changes the hidden code and ends on all "
     "bulls; rock-paper-scissors is the usual zero-sum game, each player seeing the other's move, for the announced number "
     "of moves. Everything produced belongs to the declared spaces.",
     ["inputs", "configurations"], "all grids, mazes and codes within small sizes, all positions, guesses and moves", NOTEST,
     [H + "domain/maze/maze.py", H + "domain/simple_grid_world/simple_grid_world.py", H + "domain/mastermind/mastermind.py",
      H + "domain/rock_paper_scissors/rock_paper_scissors.py"],
     [("game rules", H + "domain/")], ["step, reset, get_next_state, get_transition_value, is_goal, spaces"])
prop("C12", "Gym wrappers behave exactly like what they wrap",
     "A wrapped gym environment gives the environment's own observations, rewards, terminations and information; "
     "deterministic wrappers restart from the same state and make next states depend only on the state and action, in "
     "whatever order they are expanded. A domain seen as a gym environment returns the domain's outcomes in gym terms. "
     "Discretised actions are distinct members of the action space covering its grid; binary features identify states.",
     ["inputs", "histories", "configurations"], "all deterministic machines of 3 states, all sequences of up to 3 expansions", NOTEST,
     [H + "domain/gym/gym.py"], [("wrappers", H + "domain/gym/gym.py")],
     ["step, reset, get_next_state, set_memory, AsGymEnv, get_applicable_actions, binary_features"])
DO = "skdecide/builders/discrete_optimization/"
prop("C13", "Objectives aggregate into a fitness consistent with their senses",
     "The fitness of a solution is the weighted sum, or the first objective, or the vector of objectives announced by the "
     "problem, with defaults where none is given; robust problems aggregate the scenarios with exactly the announced "
     "average, extremum, percentile or weighting. The sense of optimisation is the one registered, and Pareto comparison "
     "of fitness vectors is the componentwise order.",
     ["inputs", "configurations"], "all objective values, weights, scenarios and vectors within small sizes", NOTEST,
     [DO + "generic_tools/do_problem.py", DO + "generic_tools/result_storage/multiobj_utils.py"],
     [("aggregation", DO + "generic_tools/do_problem.py"), ("vectors", DO + "generic_tools/result_storage/multiobj_utils.py")],
     ["build_aggreg_function_and_params_objective, RobustProblem.evaluate, TupleFitness"])
prop("C14", "Knapsack evaluation, moves and solvers agree with the items taken",
     "Evaluating a selection gives the value and weight of its items and its excess over the capacity, whatever was cached, "
     "moved or copied; it is feasible exactly within the capacity. Every solver returns a feasible selection with its own "
     "value: no further item fits in a greedy one and no selection beats dynamic programming. Moves flip the announced "
     "items, report the new objectives and can be undone.",
     ["inputs", "configurations"], "all items, capacities, selections and random draws within small sizes", NOTEST,
     [DO + "knapsack/knapsack_model.py", DO + "knapsack/solvers/greedy_solvers.py", DO + "knapsack/solvers/dyn_prog_knapsack.py",
      DO + "knapsack/mutation/mutation_knapsack.py", DO + "knapsack/solvers/cp_solvers.py"],
     [("model", DO + "knapsack/knapsack_model.py"), ("solvers", DO + "knapsack/solvers/"),
      ("moves", DO + "knapsack/mutation/mutation_knapsack.py")],
     ["evaluate, satisfy, solve, mutate, apply_local_move, backtrack_local_move"])
GT = DO + "generic_tools/"
prop("C15", "Mutations give valid solutions, true objectives and undoable moves",
     "Every mutation of a permutation, a list of booleans or a list of bounded integers gives a solution of the same kind, "
     "changes only its own attribute, either changes the given solution itself or leaves it alone, and reports the "
     "objectives of the new solution. Undoing a move gives back the solution before it and applying it again the mutated "
     "one, whatever its swaps or reversals. A portfolio applies one of its mutations of positive weight.",
     ["inputs"], "all random draws, solutions and weights within small sizes", NOTEST,
     [GT + "mutations/permutation_mutations.py", GT + "mutations/mutation_bool.py", GT + "mutations/mutation_integer.py",
      GT + "mutations/mixed_mutation.py", GT + "do_mutation.py"],
     [("mutations and moves", GT + "mutations/")],
     ["mutate, mutate_and_compute_obj, apply_local_move, backtrack_local_move"])
prop("C16", "Result storages and local search keep and return the best found",
     "A result storage keeps every result with its fitness and gives the best ones for its sense of optimisation, however "
     "filled; a Pareto front holds exactly the non-dominated results. Hill climbing and simulated annealing, with either "
     "sense, mutation style or restart rule, go on from the solution they should, leave the initial solution alone, store "
     "solutions with the fitness of their content, and return the best solution they evaluated.",
     ["inputs", "histories", "configurations"], "all fitnesses, mutations, acceptance draws over a few iterations", NOTEST,
     [GT + "result_storage/result_storage.py", GT + "result_storage/resultcomparator.py", GT + "ls/hill_climber.py",
      GT + "ls/simulated_annealing.py", GT + "ls/local_search.py"],
     [("storage and front", GT + "result_storage/"), ("local search", GT + "ls/")],
     ["get_best_solution, get_best_solution_fit, get_n_best_solution, paretos, solve"])
prop("C17", "Graphs and colourings agree with the edges they were given",
     "A graph answers neighbours, predecessors, ancestors, attributes and loops according to its edges, directed or not. A "
     "colouring is evaluated by its number of colours and of violated edges, whatever was known or copied or moved to "
     "another problem, and is feasible exactly without violation; renumbering keeps its classes. Every greedy strategy "
     "returns a valid colouring, the best one no worse than each.",
     ["inputs", "configurations"], "all graphs up to 3 nodes, all colourings, every strategy", NOTEST,
     [GT + "graph_api.py", DO + "coloring/coloring_model.py", DO + "coloring/solvers/greedy_coloring.py", DO + "coloring/coloring_toolbox.py"],
     [("graphs", GT + "graph_api.py"), ("model", DO + "coloring/coloring_model.py"), ("greedy", DO + "coloring/solvers/greedy_coloring.py")],
     ["get_neighbors, evaluate, satisfy, solve"])
prop("C18", "Facility, routing and travelling-thief solutions are evaluated exactly",
     "The cost of an assignment, set of tours or thief's trip is exactly the one of its distances, setups, loads, profits "
     "and rent, whatever was cached, copied or moved to another problem; it is feasible exactly when no capacity is "
     "exceeded. Greedy solvers return feasible solutions that serve every customer once or leave out only those no vehicle "
     "has room for, with their own fitness.",
     ["inputs", "configurations"], "all demands, capacities, costs, assignments and orders within small sizes", NOTEST,
     [DO + "facility/facility_model.py", DO + "facility/solvers/greedy_solvers.py", DO + "vrp/vrp_model.py", DO + "vrp/vrp_toolbox.py",
      DO + "vrp/solver/greedy_vrp.py", DO + "ttp/ttp_model.py"],
     [("facility location", DO + "facility/"), ("vehicle routing", DO + "vrp/"), ("travelling thief", DO + "ttp/ttp_model.py")],
     ["evaluate, satisfy, change_problem, solve"])
SCH = "skdecide/builders/scheduling/"
prop("C19", "Scheduling domains follow durations, precedence and capacities exactly",
     "Starting a task is offered exactly when its predecessors are complete and each resource has enough left; a started "
     "task holds its needs and completes after its duration, giving renewable resources back. Waiting advances time by one "
     "and applies the capacities of that time. Time, progress, resource use, costs, goal and termination are those of the "
     "instance data, whichever of the transition calls is used, and earlier states are never altered.",
     ["inputs", "configurations", "histories"], "all durations, needs, capacities, costs, calendars and positions within small sizes", NOTEST,
     [SCH + "scheduling_domains.py", SCH + "scheduling_domains_modelling.py", SCH + "resource_consumption.py", SCH + "resource_costs.py",
      SCH + "resource_availability.py", SCH + "precedence.py", SCH + "modes.py", H + "domain/rcpsp/rcpsp_sk.py"],
     [("transitions and offered actions", SCH + "scheduling_domains.py"), ("state", SCH + "scheduling_domains_modelling.py"),
      ("hub domains", H + "domain/rcpsp/rcpsp_sk.py")],
     ["get_applicable_actions, get_next_state, get_next_state_distribution, sample, step, get_transition_value, is_goal, is_terminal"])
prop("C20", "Paused tasks resume correctly and time-varying needs are respected",
     "A task may be paused exactly when it is ongoing and preemptive, and resumed exactly when its resources suffice; "
     "pausing gives renewable resources back, and non-renewable ones when announced; a resumed task continues where it "
     "stopped, or from scratch when it restarts, and completes after its duration of execution. A need given per step of the "
     "execution is the one of the current step.",
     ["inputs", "configurations"], "all durations, needs, capacities and positions with one pause within small sizes", NOTEST,
     [SCH + "scheduling_domains.py", SCH + "scheduling_domains_modelling.py", SCH + "preemptivity.py", SCH + "modes.py", SCH + "task.py"],
     [("pausing and resuming", SCH + "scheduling_domains.py"), ("consumption over time", SCH + "modes.py"), ("task times", SCH + "task.py")],
     ["get_applicable_actions, get_next_state, get_transition_value"])
prop("C21", "Uncertain durations and conditional tasks follow their distributions",
     "The distribution of the next state has one outcome per possible duration of the task started, and per combination of "
     "conditions drawn at the completion of tasks, with exactly their probabilities, independent of each other; a task exists "
     "from the moment its conditions are met. A sampled transition is one of these outcomes. Stochastic and deterministic "
     "instances built from each other share their data. States and actions with the same content are equal.",
     ["inputs", "configurations"], "all probabilities, needs, capacities, draws and positions within small sizes", NOTEST,
     [SCH + "scheduling_domains.py", SCH + "scheduling_domains_modelling.py", SCH + "conditional_tasks.py", SCH + "task_duration.py",
      H + "domain/rcpsp/rcpsp_sk.py"],
     [("distributions", SCH + "scheduling_domains.py"), ("conditions", SCH + "conditional_tasks.py"), ("durations", SCH + "task_duration.py"),
      ("hub domains", H + "domain/rcpsp/rcpsp_sk.py"), ("equality", SCH + "scheduling_domains_modelling.py")],
     ["get_next_state_distribution, sample, get_applicable_actions, is_goal"])
prop("C22", "Skills, time windows, lags and durations constrain tasks as declared",
     "In a multi-skill project, starting a task is offered exactly for the sets of workers that are free, bring the skills "
     "of its mode together and each bring one that is needed; only they are held, until it completes. Time windows and lags "
     "admit exactly the declared times, with no bound meaning no limit; modes, durations, calendars, precedence and other "
     "declared data are read back as given, and defaults are the neutral ones.",
     ["inputs", "configurations"], "all skills, needs, windows, lags, durations and positions within small sizes", NOTEST,
     [SCH + "skills.py", SCH + "time_windows.py", SCH + "time_lag.py", SCH + "task_duration.py", SCH + "scheduling_domains.py",
      SCH + "precedence.py", SCH + "modes.py", SCH + "graph_toolbox.py", H + "domain/rcpsp/rcpsp_sk.py"],
     [("skills", SCH + "skills.py"), ("windows and lags", SCH + "time_windows.py"), ("durations", SCH + "task_duration.py"),
      ("offered actions", SCH + "scheduling_domains.py")],
     ["get_applicable_actions, get_next_state, get_skills_of_task, get_time_window, get_time_lags, sample_task_duration"])
prop("C23", "Scheduling policies act as announced and are evaluated exactly",
     "A pile or schedule-generation policy starts, among the tasks whose predecessors are complete and whose needs fit, one "
     "its rule allows, in its mode, and otherwise waits; it leaves state and domain alone and finishes every feasible "
     "project. Following a feasible Gantt chart executes it exactly. The meta policy follows the policy that finishes first. "
     "The evaluated cost of a policy is its exact expected cost, or the average of the sampled costs.",
     ["inputs", "configurations", "histories"], "all needs, capacities, positions, orders, schedules, probabilities within small sizes", NOTEST,
     [H + "solver/pile_policy/pile_policy.py", H + "solver/sgs_policies/sgs_policies.py", H + "solver/meta_policy/meta_policies.py",
      H + "solver/policy_evaluators/policy_evaluator.py"],
     [("pile policy", H + "solver/pile_policy/pile_policy.py"), ("schedule generation", H + "solver/sgs_policies/sgs_policies.py"),
      ("meta policy", H + "solver/meta_policy/meta_policies.py"), ("evaluation", H + "solver/policy_evaluators/policy_evaluator.py")],
     ["get_next_action, compute_expected_cost_for_policy, rollout_based_compute_expected_cost_for_policy"])
prop("C24", "Project schedules follow their order, respect limits and are evaluated exactly",
     "The schedule built from an order and modes starts each task as early as its predecessors and the needs of the tasks "
     "before it in the order allow, for its whole duration; completed and ongoing tasks keep their times. It is flagged "
     "infeasible exactly when the horizon or a non renewable resource is exceeded. A schedule satisfies the problem exactly "
     "when precedence and capacities hold. Makespan, reserve and consumption are those of the current order and modes, "
     "whatever was copied, changed or moved.",
     ["inputs", "configurations"], "all durations, needs, capacities, calendars, orders and modes within small sizes", NOTEST,
     [DO + "rcpsp/rcpsp_model.py", DO + "rcpsp/rcpsp_utils.py", DO + "rcpsp/mutations/mutation_rcpsp.py"],
     [("schedule generation", DO + "rcpsp/rcpsp_model.py"), ("evaluation and feasibility", DO + "rcpsp/rcpsp_model.py"),
      ("resource use over time", DO + "rcpsp/rcpsp_utils.py")],
     ["RCPSPSolution, evaluate, satisfy, compute_resource_consumption"])
prop("C25", "Tours visit every point once and their legs, moves and solvers are exact",
     "A tour is satisfying exactly when it visits every point other than its ends once. Its length and the length of each leg "
     "are the distances travelled, whichever implementation or encoding is used, after a copy, a change or a move. A 2-opt "
     "move reverses a part of the tour, the best one when all are tested, never a worsening one when only improvements are "
     "wanted; a swap exchanges two points; both report the true objective and can be undone. Solvers and heuristics are given "
     "the distances between the points and return the length of their tour.",
     ["inputs", "configurations"], "all coordinates, orders, ends and random draws within small sizes", NOTEST,
     [DO + "tsp/tsp_model.py", DO + "tsp/mutation/mutation_tsp.py", DO + "tsp/common_tools_tsp.py", DO + "tsp/tsp_parser.py",
      DO + "tsp/solver/solver_ortools.py", DO + "generic_tools/mutations/mutation_catalog.py"],
     [("tour model and evaluation", DO + "tsp/tsp_model.py"), ("moves", DO + "tsp/mutation/mutation_tsp.py"),
      ("tools", DO + "tsp/common_tools_tsp.py"), ("ortools solver", DO + "tsp/solver/solver_ortools.py")],
     ["SolutionTSP, evaluate, satisfy, mutate, mutate_and_compute_obj, solve"])
prop("C26", "Domains run in parallel processes answer as the domain itself would",
     "Whatever the interleaving of the processes, a request sent to parallel domains (through pipes or shared memory) returns "
     "what the domain itself answers for those arguments, exactly once, to whom asked it; requests at the same time are served "
     "by different domains, each with its own state; the wanted domain is the one asked. A failed or refused request is "
     "reported and leaves the domain available. Closing ends every process; nobody waits forever.",
     ["inputs", "schedules", "histories", "configurations"], "all arguments, results orders and interleavings within the stated number of preemptions", NOTEST,
     ["skdecide/domains.py", "skdecide/builders/solver/parallelability.py"],
     [("piped domains", "skdecide/domains.py"), ("shared memory domains", "skdecide/domains.py"), ("parallel solver", "skdecide/builders/solver/parallelability.py")],
     ["PipeParallelDomain, ShmParallelDomain, ParallelDomain, ParallelSolver"])

prop("C27", "Integer programs mean the problems they are written for",
     "The integer programs built for the knapsack, colouring, facility location, travelling salesman and project scheduling solvers allow exactly the "
     "solutions of the problem (those within the stated horizon, number of colours or pruned pairs), at their cost, and are read back as the "
     "solutions the solver found, with their own objective. Constraints added for a neighbourhood, a starting solution or a partial schedule keep "
     "exactly the solutions that agree with it, and go away when removed.",
     ["inputs", "configurations"], "every assignment of the variables of the programs of all instances within the bounds", NOTEST,
     ["skdecide/builders/discrete_optimization"],
     [("knapsack programs", "skdecide/builders/discrete_optimization/knapsack/solvers/lp_solvers.py"), ("colouring programs", "skdecide/builders/discrete_optimization/coloring/solvers/coloring_lp_solvers.py"),
      ("facility programs", "skdecide/builders/discrete_optimization/facility/solvers/facility_lp_solver.py"),
      ("travelling salesman programs", "skdecide/builders/discrete_optimization/tsp/solver/solver_lp_iterative.py"),
      ("scheduling programs", "skdecide/builders/discrete_optimization/rcpsp/solver/rcpsp_lp_solver.py")],
     ["LPKnapsack, ColoringLP, LP_Facility_Solver, LP_TSP_Iterative, LP_RCPSP, LP_MRCPSP, LP_MRCPSP_GUROBI"])
prop("C28", "Multi-skill schedules respect workers, skills and priorities",
     "A schedule of a multi-skill project is feasible exactly when precedences, resources, non-renewable resources and the horizon are respected and "
     "each task has workers, there for all of it and on no other task meanwhile, who together bring the skills it needs (one worker alone, where only one "
     "is allowed). A schedule built from priorities starts every task as early as the ones before it allow, takes workers by priority, is "
     "feasible unless flagged by its end, and has its own modes and makespan. Encodings, conversions and copies keep their meaning.",
     ["inputs", "configurations"], "all durations, needs, calendars, values and priorities within small sizes", NOTEST,
     [DO + "rcpsp_multiskill/rcpsp_multiskill.py"],
     [("schedules from priorities", DO + "rcpsp_multiskill/rcpsp_multiskill.py")],
     ["MS_RCPSPSolution_Variant, MS_RCPSPModel satisfy, evaluate, evaluate_from_encoding, copy"])
prop("C29", "Projects keep their meaning between domains and optimisation models",
     "The optimisation model built from a scheduling domain, and the domain built from a model, have the same tasks, modes, durations, needs, "
     "precedences, availabilities over time, renewability, horizon, workers and skills (an availability that varies becomes its maximum where a constant one "
     "is asked for). Any feasible schedule found for the model, followed as a policy in the domain, starts and ends each task when scheduled, "
     "in its mode and with its workers, and is read back from the last state as the same, feasible, schedule. A solver that wraps another one plays the solution found.",
     ["inputs", "configurations"], "all data, schedules, priorities and listings within small sizes", NOTEST,
     ["skdecide/hub/solver/do_solver", "skdecide/hub/domain/rcpsp/rcpsp_sk.py"],
     [("models and domains", "skdecide/hub/solver/do_solver/sk_to_do_binding.py"), ("policies", "skdecide/hub/solver/do_solver/do_solver_scheduling.py"), ("domains", "skdecide/hub/domain/rcpsp/rcpsp_sk.py")],
     ["build_do_domain, build_sk_domain, from_last_state_to_solution, DOSolver"])
prop("C30", "Critical paths are exact and priority rules schedule what they rank",
     "The critical path method gives each task of any project its exact earliest and latest dates, and a path of consecutive tasks without slack whose durations make the "
     "length of the project; its schedules are feasible, complete and take each task at the first free slot in the order asked for. A learned priority rule reads the features "
     "it names, is worth the mean length of the schedules that take tasks by increasing value (or its distance to reference orders), and, followed as a policy alone or pooled "
     "with others, takes only allowed actions, executes exactly that schedule and finishes the project even when durations are not those expected.",
     ["inputs", "configurations"], "all precedence graphs, durations, needs, capacities, orders and rule values within small sizes", NOTEST,
     ["skdecide/hub/solver/gphh/gphh.py", DO + "rcpsp/solver/cpm.py"],
     [("critical path", DO + "rcpsp/solver/cpm.py"), ("priority rules", "skdecide/hub/solver/gphh/gphh.py")],
     ["CPM, GPHH.evaluate_heuristic, GPHHPolicy, PooledGPHHPolicy, FixedPermutationPolicy"])
