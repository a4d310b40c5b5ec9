#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list. A property is claimed when harness/<id>.cpp exists."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mech, observe=None, state=None, note="", tech=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe or [], state=state or [], note=note, tech=tech)


PROPS = [
    P("P01", "A seeded run is reproducible to the byte",
      "Two runs of the same configuration with the same rng_seed and the same input files write byte-identical output files, "
      "whatever ran before in the process, whatever its memory held and wherever the output goes. "
      "Runs whose seeds differ give different random initial states.",
      ["configurations", "inputs", "histories"], "every model, configuration and seed; every state of the process the run starts in",
      "The tests run single configurations once and compare with analytic values; none compares two runs.",
      ["include/simulation.hpp", "include/models/*.hpp", "src/models/*.cpp", "src/main.cpp"],
      [("one generator per simulation, seeded from rng_seed", "include/simulation.hpp Simulation::Simulation")],
      ["output files of a run"], tech="metamorphic: same run twice under different process histories and memory contents",
      note="Differential of the program with itself; says nothing about other compilers or standard libraries."),
    P("P02", "Output files appear exactly on schedule, with the state of that iteration",
      "A run writes the initial state as number s0 (start_numbering_from) exactly when output_initial is set, and after iteration i the agents "
      "(and, with its own interval, the network) as number i + s0 exactly when an interval n is set, i >= start_output and n divides i; nothing else. "
      "Each file holds the exact state of the simulation at that moment, and the output settings never influence the trajectory.",
      ["configurations", "histories"], "every model and every combination of intervals, start, numbering and limits",
      "The tests run simulations with output into non-existing directories and never look at a file a run wrote.",
      ["include/simulation.hpp", "include/network_io.hpp", "include/agent_io.hpp"],
      [("schedule conditions in the run loop", "include/simulation.hpp Simulation::run")], ["output directory after a run"],
      tech="model-based: expected file set, contents against an unobserved twin simulation stepped by the harness"),
    P("P03", "Network files round-trip exactly",
      "Writing a network and reading the file back gives the same neighbours with bit-identical weights for every agent, and the text has the documented "
      "columns: index, number of incoming neighbours, their indices, their weights. Comment lines and spacing do not change what is read.",
      ["inputs"], "every network (any size, degree, multi-edges, isolated agents anywhere) with any finite weights",
      "One test reads one three-agent file; nothing is written and read back.",
      ["include/network_io.hpp", "include/network_generation.hpp"],
      [("network_to_file", "include/network_io.hpp"), ("generate_from_file", "include/network_generation.hpp")],
      ["network files"], tech="round trip plus an independent parser and writer of the format"),
    P("P04", "Agent files round-trip exactly",
      "Writing the agents of any model and reading the file back gives bit-identical values in every field, and the text has the documented header and columns. "
      "A column that a shorter file leaves out keeps its default, and comment lines and spacing do not change what is read.",
      ["inputs"], "all four agent types with any finite values, any number of agents and any vector length",
      "One test reads one file of one agent type.",
      ["include/agent_io.hpp", "include/agents/*.hpp"],
      [("agents_to_file / agents_from_file", "include/agent_io.hpp"), ("agent_to_string / agent_from_string", "include/agents/*.hpp")],
      ["agents files"], tech="round trip plus an independent parser and writer of the format"),
    P("P05", "A run resumed from its own output continues identically",
      "For the models that need no randomness after the start (DeGroot, mean-field activity driven, mean-field inertial, Deffuant with two agents), stopping after any iteration and "
      "starting again from the written network and agents files gives the same files as the uninterrupted run, bit for bit. "
      "For every model, agents and network given by files replace the generated ones exactly.",
      ["crash_points", "configurations", "inputs"], "every configuration of those models, every stopping point, every given state",
      "No test passes a file to a simulation.",
      ["include/simulation.hpp", "include/agent_io.hpp", "include/network_generation.hpp", "src/main.cpp"],
      [("cli_network_file / cli_agent_file", "include/simulation.hpp create_network, create_model")], ["output files, simulation state"],
      tech="metamorphic: interrupted and uninterrupted run compared at every later step"),
    P("P06", "Network operations agree with plain edge lists over any history",
      "After any sequence of network operations, the neighbours with their weights, the edge counts, the direction and the agents are what the same operations give on plain edge lists: "
      "toggling changes only the representation, transposing reverses every edge, switching only the flag, removing double counting sums weights per neighbour in index order. A copy and its original are independent. "
      "A call with lists of mismatched sizes throws and changes nothing.",
      ["histories", "inputs"], "all operation histories on networks of any size, with multi-edges and self loops",
      "The tests apply each operation once to one small random network.",
      ["include/network.hpp"], [("Network", "include/network.hpp")], ["Network observers"],
      tech="stateful model-based testing, and algebraic laws of the operations"),
    P("P07", "Strongly connected components are the classes of mutual reachability",
      "For every directed network, the reported components are non-empty, disjoint, cover all agents, and two agents share one exactly when each can reach the other. "
      "This holds for networks of any size and depth. A DeGroot model warns with the number of components exactly when it is not one.",
      ["inputs"], "every directed graph, including self loops, multi-edges, deep paths and hundreds of thousands of agents",
      "One test looks at one ten-vertex graph.",
      ["include/connectivity.hpp", "include/network.hpp", "src/models/DeGroot.cpp"], [("TarjanConnectivityAlgo", "include/connectivity.hpp")],
      ["Network::strongly_connected_components"], tech="differential: transitive closure (small), an independent algorithm (large)"),
    P("P08", "Generated networks have the requested random connections",
      "In a generated network every agent has exactly the requested number of distinct incoming neighbours other than itself (all others, if there are fewer), plus itself when self interaction is asked for, "
      "with non-negative weights that sum to one. Every set of neighbours is equally likely, independently for each agent, the weights are normalised uniform draws, and all is determined by the generator's state.",
      ["inputs"], "every number of agents and connections, with and without self interaction, every seed",
      "One test checks the counts of one network.",
      ["include/network_generation.hpp", "include/util/math.hpp"], [("generate_n_connections", "include/network_generation.hpp")],
      ["generated network"], tech="invariants over generated networks; goodness-of-fit against exact distributions"),
    P("P09", "Regular topologies are exactly what they are called",
      "A fully connected network links every agent to every agent including itself once, with the given weight or with normalised random weights. "
      "A square lattice links agent x + L*y to its four periodic neighbours with the given weight, and a Deffuant run on a lattice uses exactly that network and refuses agent numbers that are not squares.",
      ["inputs", "configurations"], "every size and weight", "One test looks at one 3x3 lattice and one fully connected network.",
      ["include/network_generation.hpp", "include/models/DeffuantModel.hpp"],
      [("generate_fully_connected, generate_square_lattice", "include/network_generation.hpp")], ["generated network"],
      tech="exact comparison with coordinates; goodness-of-fit of the random weights"),
    P("P10", "A DeGroot iteration is the synchronous weighted average",
      "After one DeGroot iteration every opinion is the sum over the agent's incoming edges of weight times the neighbour's previous opinion, all agents updated at once. "
      "With non-negative weights that sum to one, opinions never leave the range they started in, and relabelling agents only relabels the result.",
      ["inputs", "histories"], "every weighted network, every opinions, every number of iterations",
      "One test checks one two-agent network for its limit.",
      ["src/models/DeGroot.cpp", "include/models/DeGroot.hpp"], [("DeGrootModel::iteration", "src/models/DeGroot.cpp")], ["agents after an iteration"],
      tech="differential against the linear map in extended precision; relabelling; convex hull invariant"),
    P("P11", "Simulations stop exactly when they should",
      "A simulation with max_iterations runs exactly that many iterations, and one without it goes on for ever; DeGroot alone may stop earlier, right after the first iteration in which no opinion changed by the convergence tolerance or more. "
      "The tolerance is the configured one or, when none is given, 1e-6, and the initial state never counts as converged.",
      ["configurations", "inputs"], "every model, limit, tolerance and network", "Tests use one limit and one tolerance each and never count iterations.",
      ["include/model.hpp", "src/models/DeGroot.cpp", "include/simulation.hpp", "include/config_parser.hpp"],
      [("Model::finished, DeGrootModel::finished", "include/model.hpp, src/models/DeGroot.cpp")], ["number of output files, n_iterations"],
      tech="differential against a reference iteration count with a rounding bracket"),
    P("P12", "Activity-driven contact networks are well formed at every step",
      "At every iteration of a probabilistic activity-driven model (plain or inertial), the network has only incoming edges of weight one, no agent linked to itself, and no edge twice; "
      "an agent with activity 0 contacts nobody and one with activity 1 contacts exactly min(m, number of others) agents (a bot: its own m). "
      "With reciprocity 1 every contact is mutual, with reciprocity 0 there are only contacts, and no edges remain from earlier iterations.",
      ["configurations", "histories", "inputs"], "all settings, seeds, opinions and histories of iterations",
      "Tests use two agents, or only look at final opinions.",
      ["include/models/ActivityDrivenModel.hpp", "include/util/math.hpp"],
      [("update_network_probabilistic", "include/models/ActivityDrivenModel.hpp"), ("reservoir_sampling_A_ExpJ", "include/util/math.hpp")],
      ["network after each iteration"], tech="invariants over every step of generated runs, metamorphic extremes of activity and reciprocity"),
    P("P13", "Contacts have the probabilities of the activity-driven model",
      "In each iteration agent i is active with probability equal to its activity and then contacts m distinct others, drawn one after another without replacement with probabilities proportional to |x_i - x_j|^(-homophily), differences below 1e-10 counting as 1e-10; "
      "bots use their own m and homophily. An edge j->i not in the contacts comes into being with probability equal to the reciprocity when i contacted j. All agents draw independently.",
      ["configurations", "inputs"], "all opinions, activities, m, homophily and reciprocity in the documented ranges",
      "No test looks at contact frequencies; a distribution cannot be seen from single runs.",
      ["include/models/ActivityDrivenModel.hpp", "include/util/math.hpp"],
      [("homophily_weight, update_network_probabilistic", "include/models/ActivityDrivenModel.hpp")], ["network after each iteration"],
      tech="goodness-of-fit of observed contact sets and edge pairs against exact enumerated probabilities"),
    P("P14", "Activity-driven opinions follow the Runge-Kutta step of the model's equation",
      "One iteration moves the opinion of every agent that is not a bot by one classical fourth-order Runge-Kutta step of size dt of dx_i/dt = -x_i + K/reluctance_i * sum over the incoming edges of that iteration of weight * tanh(alpha * x_j). "
      "Activities and reluctances do not change.",
      ["configurations", "inputs", "histories"], "all settings, networks, opinions and numbers of iterations",
      "Tests compare with an analytic solution for two agents, to a tolerance a wrong coefficient can hide in.",
      ["src/models/ActivityDrivenModel.cpp", "include/models/ActivityDrivenModel.hpp"],
      [("ActivityDrivenModelAbstract::iteration", "src/models/ActivityDrivenModel.cpp"), ("get_euler_slopes", "include/models/ActivityDrivenModel.hpp")],
      ["agents and network after each iteration"], tech="differential against an independent integrator in extended precision"),
    P("P15", "Inertial opinions follow the velocity-Verlet step of the model's equation",
      "One iteration of the inertial model, for every agent that is not a bot, moves x by v*dt + (F(x) - friction*v)*dt^2/2 and then sets v to (v + dt/2*(F(x) - friction*v + F(x')))/(1 + friction*dt/2), where F is the drift of the activity-driven model on the network of that iteration. "
      "Activities and reluctances do not change.",
      ["configurations", "inputs", "histories"], "all settings, networks, positions, velocities and numbers of iterations",
      "One test compares two agents with an analytic solution to 1e-5.",
      ["src/models/InertialModel.cpp", "include/models/InertialModel.hpp"], [("calc_position, calc_velocity", "src/models/InertialModel.cpp")],
      ["agents and network after each iteration"], tech="differential against an independent integrator in extended precision"),
    P("P16", "Mean-field weights are the expected contacts",
      "With mean_weights the network stays fully connected, and at every iteration the incoming weight of i from j is p_ji + (1 - p_ji)*reciprocity*p_ij, where p_ij is the activity factor of i times sum over k=1..m of (omega - (-1)^k omega^(k+1))/(1 + omega) with omega the normalised homophily weight of the pair (zero for i = j), evaluated at the current opinions. "
      "All weights are finite and runs use no randomness after the start.",
      ["configurations", "inputs", "histories"], "all settings, opinions, activities and bots", "One test uses ten equal agents with homophily zero.",
      ["include/models/ActivityDrivenModel.hpp"], [("update_network_mean", "include/models/ActivityDrivenModel.hpp")], ["network after each iteration"],
      tech="differential against the formula in extended precision"),
    P("P17", "Bots keep their opinion and use their own parameters",
      "In both activity-driven models the first n_bots agents have, after the start and after every iteration, exactly the opinion configured for them, start with their configured activity, and contact others with their own m and homophily; all other agents are unaffected by entries of the lists beyond n_bots. "
      "Lists that are left out default to m, homophily, opinion 0 and full activity, and lists shorter than n_bots or more bots than agents are refused.",
      ["configurations", "histories"], "all numbers of bots and lists, both models, probabilistic and mean-field, every iteration",
      "Two tests have one bot and one agent.",
      ["include/models/ActivityDrivenModel.hpp", "src/models/ActivityDrivenModel.cpp", "src/models/InertialModel.cpp", "src/config_parser.cpp"],
      [("get_agents_from_power_law, bot resets after the step", "include/models/ActivityDrivenModel.hpp")], ["agents after each iteration"],
      tech="invariants over every step, metamorphic: extra list entries change nothing"),
    P("P18", "Initial states are those of the model",
      "Before the first iteration: activity-driven opinions are independent and uniform on [-1,1], activities follow the power law on [eps,1], reluctances are 1 or follow the normal truncated at reluctance_eps with the configured correlation to the activities, velocities are 0, and with mean_activities all activities are one common value, the mean of that power law; "
      "DeGroot and scalar Deffuant opinions are i/n; vector Deffuant opinions have the configured length and independent fair bits.",
      ["configurations", "inputs"], "all settings and seeds", "No test looks at an initial state of more than a few agents.",
      ["include/models/ActivityDrivenModel.hpp", "src/models/*.cpp", "include/model_factory.hpp"],
      [("get_agents_from_power_law; initialize_agents", "include/models/ActivityDrivenModel.hpp, src/models/Deffuant*.cpp")], ["agents after construction"],
      tech="exact checks where deterministic, goodness-of-fit otherwise"),
    P("P19", "Deffuant interactions move exactly one pair together, within the threshold",
      "One Deffuant iteration is a sequence of n pair interactions: a pair whose opinions differ by less than the threshold moves towards each other by mu times the difference each, any other pair stays. "
      "Hence the sum of opinions is kept, the range never grows, agents further apart than the threshold from all others never move, and the result is reachable by some sequence of n pairs.",
      ["configurations", "inputs", "histories"], "all numbers of agents, opinions, thresholds, mu in (0, 0.5], lattice or not, every iteration",
      "Tests look at two agents and at the number of final clusters of one lattice run.",
      ["src/models/DeffuantModel.cpp", "include/models/DeffuantModel.hpp"], [("update_rule, iteration", "src/models/DeffuantModel.cpp")], ["agents after each iteration"],
      tech="enumeration of all pair sequences for small systems, conservation invariants for large ones"),
    P("P20", "Vector Deffuant interactions reconcile exactly the differing coordinates",
      "When two agents with vector opinions interact at a Hamming distance below the threshold, afterwards both hold the same vector: coordinates they agreed on are untouched, and on each other coordinate one adopts the other's value, the first of the pair (for two agents, the lower index) adopting with probability (1 - mu)/2, independently per coordinate. "
      "At or above the threshold nothing changes, and entries are always 0 or 1 of the configured length.",
      ["configurations", "inputs", "histories"], "all dimensions, vectors, thresholds and mu", "One test has two agents and checks that they end up equal.",
      ["src/models/DeffuantModelVector.cpp"], [("update_rule", "src/models/DeffuantModelVector.cpp")], ["agents after each iteration"],
      tech="reachable-set oracle for small systems, goodness-of-fit of the choice of side, invariants for large ones"),
    P("P21", "Deffuant pairs are drawn uniformly from the agents or the lattice",
      "In every interaction of the basic Deffuant model each unordered pair of different agents is equally likely; on the lattice the first agent is uniform and the second uniform among its four periodic neighbours, so only neighbours ever interact. "
      "The n interactions of an iteration are independent.",
      ["configurations", "inputs"], "all numbers of agents, lattice sizes and seeds", "No test looks at which pairs interact.",
      ["include/models/DeffuantModel.hpp", "include/util/math.hpp"], [("select_interacting_agent_pair", "include/models/DeffuantModel.hpp")], ["opinions after an iteration"],
      tech="opinions chosen so that the interaction counts can be decoded from them; goodness-of-fit"),
    P("P22", "Drawing k of n gives each subset with equal probability",
      "Drawing k distinct numbers below n, optionally without a given one, returns exactly k different numbers in range, never the ignored one, and every such set is equally likely; the draw depends only on its arguments and the generator, not on what the buffer held.",
      ["inputs"], "all k, n, ignored index (first, last, middle, none), seeds and buffer contents", "One test checks one k, n and ignored index with a loose bound.",
      ["include/util/math.hpp"], [("draw_unique_k_from_n", "include/util/math.hpp")], ["the filled buffer"],
      tech="invariants; goodness-of-fit over all subsets"),
    P("P23", "Weighted sampling without replacement has the right distribution",
      "Weighted reservoir sampling of k out of n returns min(k, number of positive weights) distinct indices, none of weight zero, and each set with the probability of drawing one after another without replacement proportional to the weights; scaling all weights changes nothing. "
      "The buffer ends up holding exactly the sample, whatever it held before, also for k = 0 and for weights of any magnitude.",
      ["inputs"], "all k, n, weight vectors (zeros anywhere, magnitudes from 1e-200 to 1e200), seeds", "One test only checks that two zero-weight items are never drawn.",
      ["include/util/math.hpp"], [("reservoir_sampling_A_ExpJ", "include/util/math.hpp")], ["the filled buffer"],
      tech="invariants; goodness-of-fit against exact enumeration of successive draws; scale metamorphic"),
    P("P24", "Power-law and truncated-normal distributions are consistent and exact",
      "For all parameters, samples, inverse distribution function and density of the power law on [eps,1] and of the normal truncated below at eps describe the same distribution: samples stay in range, the inverse is monotone and inverts the integral of the density. "
      "The inverse error function inverts erf on (-1,1), is odd, and gives infinities at the ends and NaN outside.",
      ["inputs"], "all parameters in range (eps up to 30 sigma above the mean) and all arguments", "The test only writes samples to a file.",
      ["include/util/math.hpp", "include/util/erfinv.hpp"], [("power_law_distribution, truncated_normal_distribution", "include/util/math.hpp"), ("erfinv", "include/util/erfinv.hpp")],
      ["returned values"], tech="round trip inverse/forward, numerical integration of the density, goodness-of-fit"),
    P("P25", "Correlated draws have the right marginals and correlation",
      "The bivariate normal distribution gives standard normal components with the configured covariance (including -1, 0 and 1 as limits), and the Gaussian copula gives pairs whose components follow exactly the two given distributions and whose normal scores have that covariance.",
      ["inputs"], "all covariances in [-1,1] and all marginal parameters", "The test only writes samples to a file.",
      ["include/util/math.hpp"], [("bivariate_normal_distribution, bivariate_gaussian_copula", "include/util/math.hpp")], ["returned values"],
      tech="goodness-of-fit of marginals, of linear combinations and of rotated scores"),
    P("P26", "A configuration file means exactly what it says",
      "Every documented option given in a TOML file takes effect with exactly the value given, every option left out has its documented default, and no option influences another; this holds for each model and any order of the entries. "
      "A missing or unknown model, a value an option cannot have (wrong type, not representable) and text that is not TOML are refused.",
      ["configurations"], "every subset of the options with any values, each model", "Tests parse five fixed files.",
      ["src/config_parser.cpp", "include/config_parser.hpp", "examples/*/conf.toml"], [("parse_config_file", "src/config_parser.cpp")], ["parsed options, behaviour of the run"],
      tech="generated TOML with an independent model of the options"),
    P("P27", "Configurations out of range are refused, those in range accepted",
      "Validation accepts every configuration whose values are in the documented ranges and refuses every one with a value outside (dt, eps, gamma > 2, m, alpha, reciprocity, reluctance parameters, covariance in [-1,1], friction, tolerance, thresholds, mu, dim, output intervals and start, bot lists). "
      "A refused configuration stops the program with an error before the simulation writes anything.",
      ["configurations"], "every combination of values at, around and far from the limits", "No test calls validation with an invalid value.",
      ["src/config_parser.cpp", "src/main.cpp"], [("validate_settings", "src/config_parser.cpp")], ["exception or not; exit status and files of the program"],
      tech="generated settings with an independent predicate of validity, through the API and through the program"),
    P("P28", "Every accepted run completes with finite state and no memory error",
      "A run of the program with any valid configuration exits with status 0 after writing its files into the given output directory, which it creates, without any invalid memory access or undefined behaviour, and, for parameters of ordinary magnitude, with finite numbers in range in every file. "
      "Wrong usage (no configuration, unknown option, missing file) ends with an error and no simulation output.",
      ["configurations", "inputs"], "every model and valid configuration, with and without given files",
      "The tests never run the program.",
      ["src/main.cpp", "include/simulation.hpp", "include/models/*.hpp"], [("main", "src/main.cpp")], ["exit status, files, sanitizers"],
      tech="structured fuzzing of whole runs in-process under sanitizers"),
    P("P29", "Malformed input files are refused, never misread into memory errors",
      "Reading any bytes as a network or agents file either gives a well-formed result (every agent has as many weights as neighbours and every neighbour index is below the number of agents) or fails with an exception; it never accesses invalid memory, hangs, or yields a network a simulation cannot use. "
      "Fields that are no number, neighbours out of range, and rows with missing or surplus neighbours or weights are refused. "
      "A simulation refuses agents files whose number of agents differs from the network's.",
      ["inputs"], "all byte strings, and all mutations of valid files", "Tests read two valid files.",
      ["include/network_generation.hpp", "include/agent_io.hpp", "include/simulation.hpp", "include/agents/*.hpp"],
      [("generate_from_file, agents_from_file", "include/network_generation.hpp, include/agent_io.hpp")], ["exceptions, sanitizers, resulting network"],
      tech="structured and coverage-guided fuzzing with a validity oracle"),
    P("P30", "DOT export lists exactly the network",
      "The DOT file written for a network is a complete digraph block with one line per agent that lists exactly its neighbours in order, also for agents without any.",
      ["inputs"], "every network", "No test calls it.",
      ["include/network_io.hpp"], [("network_to_dot_file", "include/network_io.hpp")], ["the written file"], tech="independent parser, comparison with the network"),
    P("P31", "List parsing and Hamming distance do what they say",
      "Splitting a comma-separated list calls back once per field, in order, with exactly the text between the commas. "
      "The Hamming distance counts the positions that differ, is a metric, and refuses vectors of different length.",
      ["inputs"], "all strings and all vectors", "One example each.",
      ["include/util/misc.hpp", "include/util/math.hpp"], [("parse_comma_separated_list; hamming_distance", "include/util/misc.hpp, include/util/math.hpp")],
      ["callback arguments, returned value"], tech="differential against a character-wise split, join round trip, metric laws"),
    P("P32", "The program reports its settings, and the reported seed repeats the run",
      "The program prints the random seed, every model, network and output setting with the value in force, one line per iteration exactly when print_progress is set, and the number of iterations at the end. "
      "A run without a given seed is repeated to the byte by giving the printed one.",
      ["configurations"], "every model and configuration, with and without a seed", "The tests never run the program or print settings.",
      ["src/config_parser.cpp", "include/simulation.hpp", "src/main.cpp"],
      [("print_settings", "src/config_parser.cpp"), ("progress in Simulation::run", "include/simulation.hpp")], ["standard output, output files"],
      tech="the printed report parsed and compared with the generated settings; repetition with the printed seed"),
    P("P33", "The library behaves as the program does, however a model is driven",
      "A model that a program using the library constructs and steps itself, one made by the model factory and one inside a simulation follow the same trajectory "
      "from the same state and random generator, draw equally from the generator, and count and finish alike. "
      "A simulation run by library calls from a parsed configuration writes exactly the files the program writes.",
      ["configurations", "histories", "inputs"], "every model, its settings, any network, any number of steps; the library linked as an archive",
      "The test executables link the object files, drive every model through a simulation, and never run the program.",
      ["include/models/*.hpp", "include/model_factory.hpp", "include/simulation.hpp", "src/main.cpp", "src/models/*.cpp"],
      [("model factory", "include/model_factory.hpp"), ("specialised iteration of the activity model", "src/models/ActivityDrivenModel.cpp")],
      ["agents, network and generator after every step", "output files"],
      tech="differential: direct use, factory, simulation and program against each other, and closed-form decay without contacts"),
    P("P34", "A run touches nothing but its own output files",
      "A run creates or replaces only the files of its schedule in its output directory. Every other file, in that directory or elsewhere, keeps its bytes: the configuration, the input files (read before anything replaces them), results of earlier runs. "
      "What a run writes does not depend on what was in the directory: a file of the same name is replaced completely. A refused configuration changes no file. Writing one network or agents file changes that file only.",
      ["inputs", "histories"], "every model, every content of the directory tree, every place for the output and the inputs", "The tests write into empty directories and look at what they wrote.",
      ["include/simulation.hpp", "src/main.cpp", "include/agent_io.hpp", "include/network_io.hpp"],
      [("Simulation::run", "include/simulation.hpp"), ("main", "src/main.cpp"), ("agents_to_file; network_to_file, network_to_dot_file", "include/agent_io.hpp, include/network_io.hpp")],
      ["the whole directory tree before and after"], tech="snapshots of a generated directory tree before and after, and comparison with the same run into an empty directory, as an unprivileged user"),
    P("P35", "Simulations in one process do not influence each other",
      "Any number of simulations in one process, of any models, created, stepped and destroyed in any interleaving or each in a thread of its own, each follow exactly the trajectory they have alone, and no thread races with another.",
      ["schedules", "histories"], "all combinations of models, all interleavings of their steps, all thread schedules", "Every test drives one simulation at a time.",
      ["include/models/*.hpp", "src/models/*.cpp", "include/simulation.hpp", "include/model.hpp", "include/util/math.hpp", "include/network_generation.hpp"],
      [("buffers and generators of the models", "include/models/ActivityDrivenModel.hpp, include/models/InertialModel.hpp, src/models/DeGroot.cpp, include/models/DeffuantModel.hpp")],
      ["agents and network after every step", "thread sanitizer"], tech="differential against each simulation alone, over random interleavings and threads under the thread sanitizer"),
    P("P36", "Results that cannot be written are reported, not lost",
      "If a run of the program or a simulation, or a call of a writer, reports success, every file it had to write is there and complete. When a file cannot be opened or written in full "
      "(full device, no permission, something else in its place, a limit on file sizes or descriptors, a missing directory), it ends with an error. It does not fail when everything can be written.",
      ["fault_sequences", "inputs"], "every model and schedule, every file of it at which writing fails, every kind of failure", "No test makes writing fail; several run into directories that do not exist and do not notice.",
      ["include/agent_io.hpp", "include/network_io.hpp", "include/simulation.hpp", "src/main.cpp"],
      [("agents_to_file", "include/agent_io.hpp"), ("network_to_file, network_to_dot_file", "include/network_io.hpp"), ("Simulation::run", "include/simulation.hpp")],
      ["exit status or exception", "files left"], tech="fault injection into generated runs, against the files of the undisturbed run"),
    P("P37", "Long runs and repeated use take bounded memory and descriptors",
      "What a simulation holds in memory is bounded by the size of its state: it does not grow with the iterations made or the files written, neither for good nor for the time of the run. "
      "Whatever is done over and over in a process (constructing, running, reading and writing files, parsing configurations, also when it fails with an error) leaves no memory and no open file behind.",
      ["histories", "inputs"], "every model and configuration, any number of iterations and repetitions", "The tests run once and briefly, and do not look at memory.",
      ["include/simulation.hpp", "include/model.hpp", "include/models/*.hpp", "src/models/*.cpp", "include/agent_io.hpp", "include/network_io.hpp", "include/util/misc.hpp"],
      [("buffers of the models", "include/models/ActivityDrivenModel.hpp, src/models/DeGroot.cpp"), ("virtual ~Model, ~SimulationInterface", "include/model.hpp, include/simulation.hpp"), ("run loop", "include/simulation.hpp")],
      ["bytes allocated and files open in the process"], tech="invariant over generated histories, every allocation counted"),
    P("P38", "The future of a simulation depends only on its state",
      "For every model, what the next iterations do is determined by the settings, the agents, the network and the state of the random generator: nothing else of the past matters. "
      "When these are copied into another instance of the model with a different past, both continue identically, bit for bit.",
      ["histories"], "every model and setting, all pasts (also states set from outside) and continuations", "Tests follow one instance from its construction.",
      ["include/models/*.hpp", "src/models/*.cpp", "include/model.hpp", "include/network.hpp"],
      [("buffers reused between iterations", "include/models/ActivityDrivenModel.hpp, src/models/DeGroot.cpp, src/models/InertialModel.cpp"), ("iteration", "include/models/DeffuantModel.hpp")],
      ["agents, network and generator after every step"], tech="metamorphic: state transplanted between instances with different pasts"),
]


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": p["state"], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks = []
    for p in PROPS:
        if not os.path.exists("%s/harness/%s.cpp" % (V, p["id"])):
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": "property-based testing: " + p["tech"],
            "level": "exploration",
            "level_note": (p["note"] + " " if p["note"] else "") +
            "No violation among the generated cases (counts in the evidence file); sampling, not proof. Trusts the oracle in harness/%s.cpp, "
            "clang 18 and its sanitizers, and fmt 9.1 with a shim for printing std::optional." % p["id"],
        })
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": [],
         "notes": "No hooks: the harnesses use the public headers only. Each check builds the working tree's sources itself."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
