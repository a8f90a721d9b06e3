"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
G = "PyCTBN/PyCTBN/structure_graph/"; U = "PyCTBN/PyCTBN/utility/"; S = "PyCTBN/PyCTBN/estimators/"; O = "PyCTBN/PyCTBN/optimizers/"
T_MISSING = "The data files the estimator tests need are absent, so they do not run at all; even with them they look at one fixed data set. "
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Residence times and transition counts are exact for every parent set",
  "For any set of trajectories, any variable and any set of parents (any mix of cardinalities, any number of variables), the residence time reported for each state under each joint parent state is the total time actually spent in it, and the transition count reported for each pair of states is the number of times that change actually happened while the parents were in that state. The diagonal of each count matrix is the number of departures from that state; an interval whose end is unobserved (the conventional closing row of -1) contributes its time but no transition. Consequently, summing over a parent's states gives the statistics without that parent, and the times add up to the observed duration.",
  ["inputs"], "all trajectory sets, variables, parent sets, cardinalities",
  T_MISSING + "The statistics are computed by flattening joint states into one integer, which can be right for the sampled cardinalities and wrong for others.",
  [S + "parameters_estimator.py", G + "network_graph.py", G + "set_of_cims.py", G + "trajectory.py"],
  [("compute_state_res_time_for_node / compute_state_transitions_for_a_node", S + "parameters_estimator.py"), ("build_*_indexing_structure_for_a_node", G + "network_graph.py")],
  ["SetOfCims.actual_cims[k].state_residence_times / .state_transition_matrix"])
p("C02", "Every conditional matrix is filed under the parent states it belongs to",
  "The list of parent combinations of a node contains every joint parent state exactly once, one column per parent in variable order, and the k-th conditional matrix of the node is the one of the k-th combination. Selecting with a mask over two or more parents and values for the masked ones returns exactly the matrices whose combination agrees with those values, in combination order; with no or one parent the selection returns all the matrices.",
  ["inputs"], "all parent counts, cardinalities (equal or mixed), masks and values",
  "The tests build the combinations with a copy of the code under test, for up to two parents of two or three states.",
  [G + "network_graph.py", G + "set_of_cims.py", S + "parameters_estimator.py"],
  [("build_p_comb_structure_for_a_node", G + "network_graph.py"), ("filter_cims_with_mask", G + "set_of_cims.py")],
  ["NetworkGraph.p_combs", "SetOfCims.p_combs / actual_cims / filter_cims_with_mask"])
p("C03", "Estimated intensities follow from the counts and times by add-one smoothing",
  "In every estimated conditional intensity matrix the coefficient from x to a different x' is (transitions x->x' + 1) / (time in x + 1), and the diagonal coefficient of x is (1 - departures from x) / (time in x + 1). Estimating the coefficients leaves the counts and times they come from unchanged, and every coefficient is finite, also for states and parent combinations never visited.",
  ["inputs"], "all count matrices and residence times, including zeros, huge values and any cardinality",
  "The unit test samples one random 3x3 matrix and compares with a relative tolerance of 10, so almost any value passes.",
  [G + "conditional_intensity_matrix.py", G + "set_of_cims.py"],
  [("compute_cim_coefficients", G + "conditional_intensity_matrix.py"), ("build_cims", G + "set_of_cims.py")],
  ["ConditionalIntensityMatrix.cim"])
p("C04", "Importing turns each trajectory into exact intervals and never mixes two",
  "After importing any list of trajectories, the processed data contain, in order, one row per pair of consecutive observations of the same trajectory: the time elapsed between them, the state of every variable at the first and the state at the second. No row spans two trajectories, no observation is lost, duplicated or attributed to another variable, whatever the variables and the time column are called and however many trajectories (even of a single observation) there are.",
  ["inputs"], "all lists of trajectories, variable names, time column names",
  "All tests of the processing need data files that are absent, and they compare lengths and headers of one data set (the comparisons of values discard their result).",
  [U + "abstract_importer.py", U + "json_importer.py", U + "sample_importer.py", G + "sample_path.py", G + "trajectory.py"],
  [("compute_row_delta_in_all_samples_frames", U + "abstract_importer.py"), ("build_trajectories", G + "sample_path.py")],
  ["SamplePath.trajectories.times / trajectory / complete_trajectory / size()", "importer.concatenated_samples"])
p("C05", "All ways of importing the same data give the same sample path",
  "A data set gives the same times, states, variables, cardinalities and edges whether it is read from a JSON file (as an object or as any element of an array, whatever the order of the keys in its objects), passed as in-memory frames or lists, or read by a user-written importer that follows the documented recipe. Importing again, or importing another element in between, gives the same result as importing once, and never changes the frames the caller passed in.",
  ["inputs", "histories"], "all data sets, positions in the JSON array, sequences of imports",
  "The importers are tested one at a time on fixed files, which are absent; nothing compares two of them or imports twice.",
  [U + "json_importer.py", U + "sample_importer.py", U + "abstract_importer.py", G + "sample_path.py"],
  [("import_data", U + "json_importer.py"), ("import_data", U + "sample_importer.py"), ("build_structure", G + "sample_path.py")],
  ["SamplePath.trajectories, SamplePath.structure, dataset_id()"])
p("C06", "Unusable data are refused with an error instead of being analysed",
  "A sample path cannot be built from an importer whose variables or processed observations are missing or empty, nor its structure from variables listed in another order than the data columns: each is refused with a RuntimeError, while every complete, consistent import is accepted. An unreadable file, a data set index outside the array or a missing key is refused with an error too, and processing trajectories before the variable order is known raises a RuntimeError.",
  ["inputs", "histories"], "all stages of preparation at which an importer can be handed over, all orders of variables",
  "The tests for this need absent files and cover one importer class and one swap of two columns.",
  [G + "sample_path.py", U + "abstract_importer.py", U + "json_importer.py"],
  [("__init__, build_structure", G + "sample_path.py")], ["exceptions raised by the constructor, build_structure, import_data"])
p("C07", "Generated networks have the requested variables and edge density",
  "A generated graph contains exactly the requested variables with their cardinalities, and only distinct edges between two different variables of the network. With a fixed density d on n variables it has exactly d*n*(n-1) edges, or is refused with a RuntimeError when that is not a whole number; otherwise every ordered pair is an edge independently with probability d (never for 0, always for 1). The exported lists of variables and edges describe exactly that graph.",
  ["inputs"], "all label lists, cardinalities, densities, random states",
  "The test generates one graph and checks the number of nodes and that there is no self loop; the fixed mode is never run.",
  [G + "network_generator.py"], [("generate_graph", G + "network_generator.py")],
  ["NetworkGenerator.graph, dyn_str, variables"])
p("C08", "Generated conditional intensity matrices are valid and complete",
  "For every variable of a generated network there is exactly one intensity matrix per joint state of its parents, of the size of its cardinality, with non-negative off-diagonal entries, rows that sum to zero up to the rounding to four decimals, and exit rates inside the requested range.",
  ["inputs"], "all graphs, cardinalities (equal or mixed), parameter ranges, random states",
  "The test uses one set of equal cardinalities and checks signs only; the row-sum assertion is commented out.",
  [G + "network_generator.py", G + "network_graph.py"], [("generate_cims", G + "network_generator.py")],
  ["NetworkGenerator.cims[label].actual_cims / p_combs"])
p("C09", "Sampled trajectories are well formed and stop where asked",
  "Every sampled trajectory starts at time 0 with all variables in state 0, changes exactly one variable per row, to another valid state that has a positive rate, has non-decreasing times, and ends with a single row of -1 for all variables. With a number of transitions m it has m+1 rows; with an end time it never goes beyond it and stops only because the next transition would; the result can be imported as it is.",
  ["inputs"], "all networks, cardinalities, limits, random states",
  "The tests of the sampler need an absent data file; the exporter test only counts trajectories.",
  [G + "trajectory_generator.py"], [("CTBN_Sample", G + "trajectory_generator.py")],
  ["the returned DataFrame"])
p("C10", "Sampled trajectories follow the intensities of the network",
  "In sampled trajectories the time between transitions is exponential with the sum of the current exit rates of all the variables, the variable that changes is drawn in proportion to its exit rate, and its new state in proportion to its off-diagonal rates, where all rates are those for the current states of that variable's parents. In particular the mean stay in a state is the inverse of its exit rate, and a change of a parent takes effect on its children at once.",
  ["inputs"], "all networks, parent configurations, rates, random states",
  "No test looks at the distribution of what is sampled, and none could by sampling one short trajectory.",
  [G + "trajectory_generator.py", G + "set_of_cims.py"], [("CTBN_Sample", G + "trajectory_generator.py")],
  ["distribution of the rows of the returned DataFrame, by sequential goodness-of-fit tests at level 1e-9"])
p("C11", "Parallel sampling returns one independent valid trajectory per request",
  "Asking for several trajectories at once returns exactly one trajectory per requested end time or number of transitions, each well formed and respecting its own limit. The trajectories are independent samples: no two of them repeat the same random path, and a later request does not repeat an earlier one.",
  ["inputs", "schedules"], "all lists of limits, process schedules, networks",
  "The only test needs an absent file and compares lengths; identical copies satisfy it.",
  [G + "trajectory_generator.py"], [("multi_trajectory, worker", G + "trajectory_generator.py")],
  ["the returned list"])
p("C12", "Exporting and re-importing a network and its trajectories loses nothing",
  "For every network and list of trajectories, the JSON file written by the exporter can be read by the importer, and yields the same variables and cardinalities in the same order, the same set of edges (also when there is none), the same trajectories in the same order, and for every variable and every joint state of its parents, named in the key, the same intensity matrix.",
  ["inputs"], "all networks, cardinalities, label texts, trajectories",
  "The test only checks that a file exists after exporting one network.",
  [U + "json_exporter.py", U + "json_importer.py", U + "abstract_exporter.py"], [("out_file, cims_to_json", U + "json_exporter.py"), ("import_data, import_sampled_cims", U + "json_importer.py")],
  ["the file, JsonImporter.variables / structure / concatenated_samples / import_sampled_cims"])
p("C13", "A network read from a file samples exactly like the original",
  "A trajectory generator built from an imported network and one built from the network in memory produce the same trajectory from the same random state, for every network (any number of parents, any cardinality, no edges at all). The order in which a file lists the edges, the parent combinations of a variable or the keys of its objects makes no difference to which intensities are used for which parent states.",
  ["inputs"], "all networks, orders of edges and of parent combinations in the file",
  "The generator is tested on one (absent) file of a binary network with three variables.",
  [G + "trajectory_generator.py", U + "json_importer.py", U + "json_exporter.py"], [("__init__", G + "trajectory_generator.py")],
  ["CTBN_Sample of both generators under the same seed"])
p("C14", "The score of a family is its exact Bayesian log marginal likelihood",
  "For any data, variable, parent set and positive hyperparameters, the score of the family equals the log marginal likelihood of that variable's trajectory given its parents: the sum over joint parent states and states of the exponential-gamma term for the exit times and the Dirichlet-multinomial term for the destinations, with the destination hyperparameter spread evenly over the other states. It equals the chain of one-step predictive densities and is finite for unvisited states.",
  ["inputs"], "all data, parent sets, hyperparameters, cardinalities",
  T_MISSING + "No test compares a score with a value.",
  [S + "fam_score_calculator.py", S + "structure_score_based_estimator.py"], [("get_fam_score", S + "fam_score_calculator.py"), ("get_score_from_graph", S + "structure_score_based_estimator.py")],
  ["get_fam_score, get_score_from_graph"])
p("C15", "Scores depend on the data only, not on how they are written down",
  "The score of a family does not change when the trajectories are given in another order, the variables are renamed or listed in another order, the states of any variable are relabelled, the parents are added in another order, or an interval is split by a repeated observation; it ignores edges into other variables, and asking twice, or for other families in between, gives the same value.",
  ["inputs", "histories"], "all data sets, permutations, query sequences",
  T_MISSING + "No test transforms a data set.",
  [S + "structure_score_based_estimator.py", S + "parameters_estimator.py", G + "network_graph.py"], [("get_score_from_graph", S + "structure_score_based_estimator.py")],
  ["get_score_from_graph"])
p("C16", "Independence tests decide exactly as the two statistical tests prescribe",
  "For any data, child, tested parent and conditioning set, the independence test answers 'independent' exactly when, for every joint state of the conditioning set and every state of the tested parent, the exit-rate ratios lie inside the two-sided F quantiles and the two-sample chi-square statistic of each row does not exceed its quantile, where cells without observations contribute nothing. For a child with more than two states it answers 'dependent' when the departures per degree of freedom stay below the threshold for a valid test.",
  ["inputs"], "all data, conditioning sets, cardinalities, significance levels, thresholds",
  T_MISSING + "The tests look at the final structure only, on one data set, so no single decision is checked.",
  [S + "structure_constraint_based_estimator.py"], [("complete_test, independence_test, compute_thumb_value", S + "structure_constraint_based_estimator.py")],
  ["complete_test, compute_thumb_value"])
p("C17", "An independence test does not depend on the tests made before it",
  "The answer of an independence test is a function of the data, the variables involved and the significance levels: repeating it, or running any other tests before it, on this or another estimator, for the same or for other children, in any order, gives the same answer and never fails. The caller's list of conditioning variables stays as it was.",
  ["histories"], "all sequences of tests on one estimator",
  T_MISSING + "Intermediate statistics are kept in a cache between tests, and no test exercises an order other than the algorithm's own.",
  [S + "structure_constraint_based_estimator.py", U + "cache.py"], [("complete_test", S + "structure_constraint_based_estimator.py"), ("Cache", U + "cache.py")],
  ["complete_test on one estimator against a fresh estimator and a reference implementation"])
p("C18", "The constraint-based learner performs the CTPC algorithm",
  "For every variable, the learner starts from all the other variables as parents, and for conditioning sets of growing size removes a parent as soon as some subset of the remaining ones of that size makes it independent of the variable, until no larger subset exists; known edges stay. An edge for which some test of one size lacked data is not tested again with larger subsets (another subset of that same size may still remove it). The structure returned is exactly the set of edges that remain over all variables.",
  ["inputs", "configurations"], "all data sets, significance levels, thresholds, known edges",
  T_MISSING + "They compare with the true network of one data set and bound precision and recall by 0.75 otherwise.",
  [O + "constraint_based_optimizer.py", S + "structure_constraint_based_estimator.py", S + "structure_estimator.py"], [("optimize_structure", O + "constraint_based_optimizer.py"), ("ctpc_algorithm", S + "structure_constraint_based_estimator.py"), ("generate_possible_sub_sets_of_size", S + "structure_estimator.py")],
  ["estimate_structure()"])
p("C19", "Edges given as known are part of every learned structure",
  "Every edge passed as prior knowledge is in the structure returned by either learner, with every optimiser, limit on the number of parents, amount of data and random choice. A known edge never affects the edges learned for other variables, and no edge that was not passed is treated as known, be it an edge of the prior network or one given to another estimator.",
  ["inputs", "configurations"], "all data sets, sets of known edges, learners, parameters, random states",
  T_MISSING + "The tests with known edges look at precision and recall of the result.",
  [S + "structure_estimator.py", O + "hill_climbing_search.py", O + "tabu_search.py", O + "constraint_based_optimizer.py"], [("build_removable_edges_matrix", S + "structure_estimator.py")],
  ["estimate_structure()"])
p("C20", "Learned structures respect the network's variables and the parents limit",
  "Every edge of a learned structure joins two different variables of the data set, whatever edges the prior network had. With a limit on the number of parents, the score-based learners never give a variable more parents than the limit, except the parents that are known.",
  ["inputs", "configurations"], "all data sets, prior structures, limits, optimisers, random states",
  T_MISSING + "No test looks at the number of parents.",
  [O + "hill_climbing_search.py", O + "tabu_search.py", S + "structure_score_based_estimator.py"], [("optimize_structure", O + "hill_climbing_search.py"), ("optimize_structure", O + "tabu_search.py")],
  ["estimate_structure(), estimate_parents()"])
p("C21", "Score-based search only improves, and ends in a local optimum",
  "The parents found for a variable score at least as well as the known parents alone, and no worse with more iterations or a longer patience from the same random state. With enough iterations, no limit on the parents and no early stop, no single addition or removal of an unknown parent improves the score of the result.",
  ["inputs", "configurations"], "all data sets, optimisers, iteration limits, patience, tabu parameters, random states",
  T_MISSING + "They compare with the true network of one data set.",
  [O + "hill_climbing_search.py", O + "tabu_search.py"], [("optimize_structure", O + "hill_climbing_search.py"), ("optimize_structure", O + "tabu_search.py")],
  ["estimate_parents() scored by an independent implementation of the score"])
p("C22", "Structure learning ends without failing for every valid configuration",
  "Both learners, with every optimiser and every valid combination of iteration limit, patience, parents limit, tabu length, tabu duration, known edges and significance levels, finish without raising, for every data set: one variable only, variables never observed to change, every edge known, a parents limit of zero, or more tabu entries than variables.",
  ["inputs", "configurations"], "all data sets and valid parameters",
  T_MISSING + "The tests use comfortable parameters on comfortable data.",
  [O + "hill_climbing_search.py", O + "tabu_search.py", S + "structure_score_based_estimator.py", S + "structure_constraint_based_estimator.py"], [("optimize_structure", O + "tabu_search.py")],
  ["estimate_structure() returns"])
p("C23", "Learning is repeatable, equal in parallel, and leaves its input unchanged",
  "Learning twice with the same estimator, with a new estimator on the same sample path, or with any number of processes, gives the same structure (for the score-based learners: from the same random state, for a serial run). Learning leaves the sample path as it was: the same trajectories, variables and prior edges, and the caller's list of known edges unchanged.",
  ["histories", "configurations", "schedules"], "all data sets, sequences of learning runs, process counts",
  T_MISSING + "Each test learns once.",
  [S + "structure_constraint_based_estimator.py", S + "structure_score_based_estimator.py", S + "structure_estimator.py"], [("ctpc_algorithm", S + "structure_constraint_based_estimator.py"), ("estimate_structure", S + "structure_score_based_estimator.py")],
  ["estimate_structure(), SamplePath.structure, SamplePath.trajectories"])
p("C24", "Matrix, file, plot and spurious edges all report the learned structure",
  "After learning, the adjacency matrix is true exactly at (source, target), in variable order, of the learned edges; the saved JSON file holds all the variables and exactly the learned edges; the plot is saved as an image file and shows nothing of earlier plots; and the spurious edges are exactly the learned edges that the prior network does not have (none if there is no prior network). This holds also when some or all variables have no edge.",
  ["inputs"], "all learned structures, prior structures, variable names",
  T_MISSING + "They check one result in which every variable has an edge.",
  [S + "structure_estimator.py", S + "structure_constraint_based_estimator.py", S + "structure_score_based_estimator.py"], [("adjacency_matrix, save_results, spurious_edges, save_plot_estimated_structure_graph", S + "structure_estimator.py")],
  ["adjacency_matrix(), save_results(), spurious_edges(), save_plot_estimated_structure_graph()"])
p("C25", "Network structures stay consistent under any sequence of edits",
  "After any sequence of adding and removing edges and removing variables, a structure and the graph built on it report exactly the remaining variables, with their original dataset indexes and cardinalities, and exactly the remaining edges; label and index lookups stay inverse to each other, parents are reported in variable order with their own index and cardinality, and two structures are equal exactly when they have the same contents. Edits of a structure leave the lists it was made from, and other structures made from them, as they were.",
  ["histories"], "all sequences of edits and queries",
  "The tests make one edit of one kind on a fixed three-node structure; removing a variable is never tested.",
  [G + "structure.py", G + "network_graph.py"], [("remove_node", G + "structure.py"), ("add_nodes, add_edges, remove_edges, remove_node, fast_init", G + "network_graph.py")],
  ["Structure and NetworkGraph queries"])
p("C26", "The cache answers with what was stored for exactly that set of parents",
  "After any sequence of stores and clears, looking up a set of parents returns the object stored for an equal set since the last clear, whatever the order of the elements, and nothing for any other set, including subsets and supersets of stored ones.",
  ["histories"], "all sequences of put, find and clear",
  "The tests store at most two sets.",
  [U + "cache.py"], [("find, put, clear", U + "cache.py")], ["Cache.find"])
p("C27", "Strong dependencies are recovered from enough data",
  "From enough data sampled from a network in which every parent changes its child's rates by a large factor in every context, every learner returns every edge of the network, and the constraint-based learner at very small significance levels with binary or larger variables returns no other edge.",
  ["inputs"], "all such networks (any shape, cycles included, mixed cardinalities) and samples of them",
  T_MISSING + "They try three fixed data sets of equal cardinalities.",
  [S + "structure_constraint_based_estimator.py", S + "structure_score_based_estimator.py", S + "parameters_estimator.py"], [("estimate_structure", S + "structure_constraint_based_estimator.py"), ("estimate_structure", S + "structure_score_based_estimator.py")],
  ["estimate_structure() against the generating network"])
p("C28", "The learned structure does not depend on names, order of data or state codes",
  "The structure found by the constraint-based learner is the same, up to the renaming, when the variables are renamed, and the same when the trajectories are listed in another order, when an interval is split by a repeated observation, or, for tests with no data threshold, when the states of a variable are recoded. The score-based learner, from the same random state, finds the same structure when the trajectories are listed in another order or an interval is split.",
  ["inputs"], "all data sets, renamings, permutations",
  T_MISSING + "No test transforms a data set.",
  [S + "structure_constraint_based_estimator.py", S + "structure_estimator.py", O + "constraint_based_optimizer.py", S + "parameters_estimator.py"], [("estimate_structure", S + "structure_constraint_based_estimator.py")],
  ["estimate_structure() on both versions"])
p("C29", "Estimating from sampled data gives back the network's intensities",
  "Taking a network, sampling trajectories from it, exporting and importing them or passing them on directly, and estimating the parameters with the true parents gives, for every variable and every joint parent state visited often, intensities that agree with those of the network within statistical error.",
  ["inputs"], "all generated networks, rate ranges, random states",
  "No test goes through the whole pipeline; the one comparison of estimated and true intensities needs an absent file and has a relative tolerance of 10.",
  [G + "trajectory_generator.py", G + "network_generator.py", U + "json_exporter.py", U + "json_importer.py", G + "sample_path.py", S + "parameters_estimator.py"], [("CTBN_Sample", G + "trajectory_generator.py"), ("compute_parameters_for_node", S + "parameters_estimator.py")],
  ["SetOfCims.actual_cims of the estimator against NetworkGenerator.cims"])
p("C30", "A learning that fails or is interrupted leaves no trace",
  "When a learning of the structure ends with an exception (an interrupt by the user, a failing computation or output), serial or parallel, the sample path is afterwards as it was before: the same trajectories, variables and prior edges, and the same list of known edges. Learning again, with the same or a new estimator and either kind of learner, gives the structure, and the spurious edges, that it would have given had nothing failed.",
  ["histories", "crash_points"], "all data sets, learners, points of failure, sequences of failures",
  T_MISSING + "No test makes a learning fail.",
  [S + "structure_estimator.py", S + "structure_constraint_based_estimator.py", S + "structure_score_based_estimator.py", O + "constraint_based_optimizer.py", U + "cache.py"], [("ctpc_algorithm", S + "structure_constraint_based_estimator.py"), ("estimate_structure", S + "structure_score_based_estimator.py")],
  ["SamplePath.structure, SamplePath.trajectories, estimate_structure()"])
p("C31", "Variables removed from the structure no longer matter",
  "After variables are removed from the structure of a sample path (directly or through a graph built on it), the statistics, intensities, scores and structures, matrices and spurious edges learned for the remaining variables are the same as from data imported without the removed ones, with the prior and known edges among the remaining; whatever was learned before the removal and in whatever order variables are removed.",
  ["inputs", "histories"], "all data sets, removals, parent sets, learners",
  T_MISSING + "Tests remove a variable from a structure only to look at its lists, none estimates or learns afterwards.",
  [G + "structure.py", G + "network_graph.py", S + "structure_estimator.py", S + "structure_constraint_based_estimator.py", S + "structure_score_based_estimator.py", S + "parameters_estimator.py"], [("remove_node", G + "structure.py"), ("remove_node", G + "network_graph.py")],
  ["Structure.remove_node, NetworkGraph.remove_node, compute_parameters_for_node(), estimate_structure()"])
p("C32", "Generation and sampling are reproducible and leave the network alone",
  "From the same state of Python's and numpy's random generators, generating a graph and its matrices gives the same network, and sampling gives the same trajectory (in parallel: the same set of trajectories), whatever was generated, sampled or exported before, with the same or other objects and in whichever process. Sampling, exporting, generating and editing a generated graph change neither the network or generator they start from, nor the caller's lists, nor trajectories handed out earlier.",
  ["inputs", "histories"], "all networks, random states, sequences of operations",
  "The tests of the generators look at shapes and ranges of one network; none repeats anything from the same random state.",
  [G + "network_generator.py", G + "trajectory_generator.py", U + "json_exporter.py"], [("generate_graph", G + "network_generator.py"), ("generate_cims", G + "network_generator.py"), ("CTBN_Sample", G + "trajectory_generator.py"), ("multi_trajectory", G + "trajectory_generator.py")],
  ["NetworkGenerator.graph/cims/dyn_str, CTBN_Sample(), multi_trajectory()"])
p("C33", "A sample path is independent of its importer, its caller and other paths",
  "Once built, a sample path keeps its times, states, variables, cardinalities and edges, the statistics of every family and the structure that is learned from it, whatever happens afterwards to the importer it came from (importing again or another element, releasing its memory), to the frames, variables and edges that the caller passed in, or to other sample paths from the same or another importer (learning, estimating, adding edges, removing edges or variables).",
  ["inputs", "histories"], "all data sets, importers and sequences of operations on several sample paths",
  T_MISSING + "No test builds two sample paths, or uses one after its importer was used again.",
  [G + "sample_path.py", G + "trajectory.py", G + "structure.py", U + "abstract_importer.py", U + "json_importer.py", U + "sample_importer.py"], [("build_structure", G + "sample_path.py"), ("build_trajectories", G + "sample_path.py"), ("import_data", U + "json_importer.py")],
  ["SamplePath.structure, SamplePath.trajectories, compute_parameters_for_node(), estimate_structure()"])
p("C34", "The score-based search tries moves one by one and respects its limits",
  "The search for the parents of a variable starts at its known parents and tries one move after the other: adding a variable, removing a parent that is not known, or, at the parents limit, adding one in exchange for one that is not known. A move is kept exactly if it improves the score, and the result is the last set kept. As many moves are tried as the iteration limit says; fewer only when more than `patience` moves in a row have not improved the score, at once then, or when no move is possible. Every candidate is tried sooner or later; the tabu search does not try again what is on its list, which is no longer than asked.",
  ["inputs", "configurations", "histories"], "all score functions, known edges, limits, optimisers, tabu parameters and random states",
  T_MISSING + "They look at the result only, never at the moves.",
  [O + "hill_climbing_search.py", O + "tabu_search.py", S + "structure_score_based_estimator.py"], [("optimize_structure", O + "hill_climbing_search.py"), ("optimize_structure", O + "tabu_search.py"), ("estimate_parents", S + "structure_score_based_estimator.py")],
  ["the sets of parents passed to get_score_from_graph(), estimate_parents(), estimate_structure()"])
p("C35", "Separate objects can be used in several threads",
  "Importing, building sample paths, estimating statistics, scoring, testing, learning, reporting, editing structures, sampling and exporting in several threads, each with its own objects (for statistics, scores and tests the threads may use one sample path), give in every interleaving what each of them gives alone; where the result is random, one that is valid.",
  ["schedules"], "all interleavings of threads at the lines of the code, all data sets and sequences of operations",
  T_MISSING + "No test does two things at the same time.",
  [S + "parameters_estimator.py", S + "structure_constraint_based_estimator.py", S + "structure_estimator.py", S + "fam_score_calculator.py", U + "cache.py", U + "json_importer.py", U + "abstract_importer.py", U + "json_exporter.py", G + "network_graph.py", G + "set_of_cims.py", G + "trajectory_generator.py"], [("compute_parameters_for_node", S + "parameters_estimator.py"), ("complete_test", S + "structure_constraint_based_estimator.py"), ("import_data", U + "json_importer.py")],
  ["everything these operations return"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
