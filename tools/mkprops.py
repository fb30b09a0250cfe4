#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe, "hook_needed": None,
        },
    })


prop("C01", "Transition counts and maximum likelihood probabilities",
     "For every table of class labels over units and periods, the transition count from one class to another is exactly the number of times a unit moves between them in consecutive periods, with classes in sorted label order or in the order the caller lists them, including classes never visited; a label that is none of the listed classes is rejected. "
     "Each transition probability is its count divided by its row total, so each row sums to one, or is all zero for a class nobody leaves. "
     "On request such an empty row is replaced by one on the diagonal, and nothing else changes.",
     "inputs configurations", "all label tables (ints, strings, floats, bools; any n, t), explicit class lists in any order, fill_empty_classes on and off",
     "The tests compare a few decimals for one or two data sets; they never vary the labels, the class list, empty classes or the shape.",
     ["giddy/markov.py"], [("counting and row normalisation", "giddy/markov.py Markov.__init__"), ("filling empty rows", "giddy/util.py fill_empty_diagonals")],
     ["Markov(...).transitions, .p, .classes, .k"], [("transitions", "k by k counts", "Markov")])

prop("C02", "Communicating, recurrent, transient and absorbing classes; sojourn times",
     "For every transition table or label data, the reported communicating classes are exactly the sets of mutually reachable states, the recurrent ones exactly those that cannot be left, the transient ones the others, and the absorbing states exactly those that stay put with probability one, where a state never left counts as absorbing. "
     "The reported numbers of classes agree with the reported lists. "
     "The expected sojourn time of a state is 1/(1 - probability of staying), and infinite exactly for absorbing states.",
     "inputs", "all chains: irreducible, periodic, reducible, several closed classes, unvisited classes, rows of any count total",
     "Tests check one reducible and one irreducible example.",
     ["giddy/markov.py"], [("structure of the estimated chain", "giddy/markov.py Markov.__init__"), ("sojourn times", "giddy/markov.py sojourn_time")],
     ["Markov attributes num_cclasses, cclasses_indices, rclasses_indices, tclasses_indices, astates_indices, sojourn_time", "sojourn_time(p)"])

prop("C03", "Steady state distributions",
     "For every stochastic matrix, the steady state distributions returned are probability vectors left unchanged by the matrix, one for each recurrent class and positive exactly on that class; a single recurrent class gives one vector, several give one row each. "
     "A matrix with rows full of zeros is rejected with an error unless filling is requested, in which case those states are treated as absorbing.",
     "inputs", "all stochastic matrices (float or integer typed, periodic, reducible, with transient states), with and without empty rows",
     "Tests use three fixed matrices and compare rounded numbers.",
     ["giddy/ergodic.py", "giddy/markov.py"], [("eigen solution by class", "giddy/ergodic.py steady_state"), ("empty rows", "giddy/util.py fill_empty_diagonals")],
     ["steady_state(P)", "Markov.steady_state"])

prop("C04", "Mean first passage times and their variances",
     "For every stochastic matrix, the mean first passage times satisfy the first-step equations: the expected number of steps from i to j is one plus the probability-weighted times from the successors other than j, with the mean recurrence time on the diagonal. "
     "An entry is infinite exactly when, from i, there is a positive probability never to reach j. "
     "For ergodic chains the variances equal the second moment given by the corresponding equations minus the squared mean, and empty rows are rejected or filled as for the steady state.",
     "inputs", "all stochastic matrices, irreducible or not, float or integer typed",
     "Tests check two matrices; reducible chains only through absorbing states.",
     ["giddy/ergodic.py", "giddy/markov.py"], [("fundamental matrix", "giddy/ergodic.py _mfpt_ergodic"), ("reducible chains", "giddy/ergodic.py mfpt"), ("variance", "giddy/ergodic.py var_mfpt_ergodic")],
     ["mfpt(P)", "Markov.mfpt", "var_mfpt_ergodic(P)"])

prop("C05", "Spatial Markov: classification and conditional transitions",
     "For every panel, weights and discretisation (quantiles pooled or per period, explicit cutoffs, or already discrete labels), each value belongs to the class delimited by the cutoffs with upper bounds included, and each spatial lag, the weighted average or sum of the neighbours or for labels the neighbours' most common one, is classified in the same way by the lag cutoffs. "
     "Entry (l, i, j) of the conditional counts is exactly the number of moves from class i to class j by units whose lag was in class l when the move began; conditional probabilities are the row proportions, and the conditional counts add up to the unconditional ones. "
     "Ties between the most common neighbouring labels are resolved by the unit's own label, and randomly among the remaining tied labels.",
     "inputs configurations", "all panels, weights, k, m (equal or not), fixed and relative quantiles, explicit cutoffs, discrete labels, empty rows filled or not",
     "Tests compare rounded probabilities of one data set (US states) for four configurations.",
     ["giddy/markov.py"], [("classification", "giddy/markov.py Spatial_Markov._maybe_classify"), ("conditioning", "giddy/markov.py Spatial_Markov._calc")],
     ["Spatial_Markov attributes class_ids, lclass_ids, cutoffs, lag_cutoffs, k, m, T, P, transitions, p"])

prop("C06", "Spatial Markov: inference on spatial dependence",
     "For every panel, the x2 statistic is the sum over lag classes of the chi-squared comparison of that class's transitions with the pooled ones, and the steady states, first passage times and multinomial tests reported per lag class are those of that class's chain. "
     "With permutations, the pseudo p-value is (1 + number of permuted statistics at least as large) / (1 + permutations), each permuted statistic is the statistic, over all lag classes, of the panel whose units' series have been reassigned at random to the lags, and every observed attribute is what it is without permutations.",
     "inputs configurations histories", "all panels, k and m equal or different, discrete or continuous, with permutations",
     "Tests pin one p-value for one seed; the permutation distribution, m different from k and discrete data with permutations are not run.",
     ["giddy/markov.py"], [("chi-squared tests", "giddy/markov.py Spatial_Markov._chi2_test, chi2"), ("permutation loop", "giddy/markov.py Spatial_Markov.__init__"), ("multinomial test", "giddy/markov.py Spatial_Markov._ssmnp_test")],
     ["Spatial_Markov.chi2, x2, x2_dof, x2_pvalue, x2_rpvalue, x2_realizations, shtest, S, F, s, f"])

prop("C07", "Homogeneity tests of transition matrices",
     "For every set of regime transition matrices (square or not, with empty rows, columns or regimes), the Q and LR statistics are the Pearson and likelihood ratio comparisons of each regime's row proportions with the pooled ones, and the degrees of freedom are the sum over observed rows of (regimes observing the row - 1)(pooled nonzero entries - 1). "
     "The per-regime tables add up to the totals, the p-values are the chi-squared upper tails, and the statistics are zero exactly when the regimes agree. "
     "The chi-squared test of two matrices and Kullback's conditional homogeneity statistic follow their published formulas in the same way.",
     "inputs", "all count matrices (ints or floats), any number of regimes",
     "Tests pin one example per test.",
     ["giddy/markov.py"], [("Q and LR", "giddy/markov.py Homogeneity_Results._homogeneity"), ("chi-squared", "giddy/markov.py chi2"), ("Kullback", "giddy/markov.py kullback")],
     ["homogeneity(...)", "chi2(T1, T2)", "kullback(F)", "Spatial_Markov.Q, LR, dof_hom and their p-values"])

prop("C08", "LISA Markov: quadrants, move types and significance",
     "For every panel and weights, a unit's state in a period is the Moran scatterplot quadrant of its deviation and lagged deviation from the period mean, in the numbering asked for; transitions and probabilities are those of these states over all four quadrants, whether or not they are visited. "
     "The move type numbers the (origin, destination) pair from 1 to 16, and with permutations the significant move adds 0, 16, 32 or 48 according to whether both, only the origin, only the destination or neither end is significant at the given level. "
     "The expected transitions combine the separate two-state chains of own values and of lags as if they moved independently, aligned with the quadrant numbering, and the reported test compares the observed transitions with them.",
     "inputs configurations", "all panels, weights, quadrant schemes, significance levels, with and without permutations",
     "Tests pin one data set; unvisited quadrants, GeoDa numbering and significance levels are hardly exercised.",
     ["giddy/markov.py"], [("move types", "giddy/markov.py TT, MOVE_TYPES, LISA_Markov.__init__"), ("independence", "giddy/markov.py LISA_Markov.__init__")],
     ["LISA_Markov attributes q, move_types, significant_moves, p_values, transitions, p, expected_t, chi_2"])

prop("C09", "LISA Markov: diffusion clusters and spillover",
     "For every LISA Markov with permutations, the clusters of a period are exactly the connected groups formed by the significant units of the chosen quadrant and their neighbours (and, if asked for, their neighbours' neighbours); units of the same group, and only those, share a positive label, and all others have label zero, in every period. "
     "A unit is flagged as spillover between two periods exactly when it belongs to no cluster in the first, belongs to one in the second, and that second-period cluster contains a unit that was in a cluster in the first. "
     "Without permutations no result is returned.",
     "inputs configurations", "all weights graphs with any unit ids, significance patterns, quadrants, both neighbour options",
     "Tests check the totals of two periods of one data set.",
     ["giddy/markov.py", "giddy/components.py"], [("cluster construction", "giddy/markov.py LISA_Markov.spillover"), ("connected components", "giddy/components.py Graph.connected_components")],
     ["LISA_Markov.spillover(...)['components'], ['spill_over']"])

prop("C10", "Connected components and contiguity after removal",
     "For every weights graph, list of units and member to remove, the contiguity check answers true exactly when the remaining units are connected through links between remaining units, and leaves the list as it was. "
     "The connected components of an undirected graph with edge weights are the partition of its nodes by the links whose weight satisfies the comparison with the threshold, whatever the order in which nodes and links were added and however long the paths, and each component carries exactly the edges between its nodes; asking leaves the graph as it was, and of a directed graph there are none. "
     "A list of units is a single component exactly when they are connected through links between them.",
     "inputs histories", "all graphs, subsets, leavers, thresholds and comparison operators, insertion orders and sizes",
     "The tests try five removals on one 5 by 5 lattice.",
     ["giddy/components.py"], [("subset connectivity", "giddy/components.py is_component, check_contiguity"), ("graph components", "giddy/components.py Graph.connected_components, dfs")],
     ["check_contiguity(...)", "is_component(...)", "Graph.connected_components(...)"])

prop("C11", "Full rank and geographic rank Markov chains",
     "For every panel, the full rank chain's states are each unit's rank in each period, with the largest value ranked first and every rank used exactly once per period; its counts are the moves between ranks. "
     "The geographic rank chain's states are, for each rank position in each period, the unit that holds it, so its counts are the moves of rank positions from one unit to another. "
     "Equal values are ranked in a fixed order of the units, every row and column of counts adds up to the number of moves, and the probabilities are doubly stochastic.",
     "inputs", "all panels with and without ties",
     "Doctests show a corner of one 48 by 48 matrix.",
     ["giddy/markov.py"], [("ranking", "giddy/markov.py FullRank_Markov, GeoRank_Markov")],
     ["FullRank_Markov.ranks, transitions, p", "GeoRank_Markov.transitions, p"])

prop("C12", "Kendall's tau",
     "For every pair of variables, the concordant, discordant and tied pair counts are those obtained by comparing every pair of observations, pairs tied in both variables being counted nowhere. "
     "Tau is the difference of concordant and discordant pairs over the geometric mean of the numbers of pairs untied in each variable, its p-value is the two-sided normal approximation, and both are unchanged by reordering the observations or by any increasing transformation of either variable.",
     "inputs", "all vectors, with any pattern of ties, integer, unsigned or float",
     "The test compares one data set without ties.",
     ["giddy/rank.py"], [("tree based counting", "giddy/rank.py Tau._calc")],
     ["Tau(x, y) attributes"])

prop("C13", "Spatial, local and regional decompositions of tau",
     "For every pair of variables and neighbour structure, spatial tau is tau restricted to neighbouring pairs, each counted once; the local tau of a unit is the mean concordance (+1, -1, or 0 for a tie) with all others, the neighbour version with its neighbours, and the neighbourhood version over all pairs within the unit and its neighbours. "
     "The regional version is, for each pair of regimes, the mean concordance over the pairs of distinct units drawn from them. "
     "The pieces recombine: local values average to tau, and the neighbour values with their weights, which are the shares of links, to the overall neighbour concordance; signs are -1 exactly for negative values.",
     "inputs configurations", "all vectors with ties, all symmetric neighbour graphs and regime labellings",
     "Tests pin one data set per class.",
     ["giddy/rank.py"], [("spatial tau", "giddy/rank.py SpatialTau._calc"), ("local", "giddy/rank.py Tau_Local, Tau_Local_Neighbor, Tau_Local_Neighborhood"), ("regional", "giddy/rank.py Tau_Regional._calc")],
     ["attributes of SpatialTau, Tau_Local, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional"])

prop("C14", "Theta: regime decomposition of rank mobility",
     "For every panel and regime labelling, theta for two consecutive periods is the sum over regimes of the absolute net rank change of the regime, divided by the sum of absolute rank changes over all units, with tied values sharing their mean rank. "
     "It lies between zero and one, is one when every regime moves as a block, and does not depend on the names of the regimes; the reported totals and maximum follow their definitions.",
     "inputs", "all panels with ties, all regime labellings",
     "One data set is tested.",
     ["giddy/rank.py"], [("theta", "giddy/rank.py Theta._calc")],
     ["Theta attributes theta, ranks, total, max_total, regimes"])

prop("C15", "Permutation inference of the rank mobility measures",
     "For every data set and number of permutations, each simulated value is one that some permutation of the units (keeping the focal unit fixed for the local measures) really yields, all permutations being equally likely, and one is drawn per requested permutation. "
     "Every pseudo p-value is the documented proportion computed from the simulated values reported with it, hence a multiple of 1/(permutations + 1), and asking for permutations changes no observed statistic; without permutations there is no inference.",
     "inputs configurations", "all data with ties, graphs and regimes, any number of permutations",
     "Tests pin p-values for one seed; they cannot tell a wrong null distribution from a right one.",
     ["giddy/rank.py"], [("pseudo p-values", "giddy/rank.py pseudop, Theta, SpatialTau, Tau_Local_Neighbor, Tau_Local_Neighborhood, Tau_Regional")],
     ["taus, tau_spatial_psim, tau_ln_sim, tau_ln_pvalues, tau_lnhood_sim, tau_lnhood_pvalues, tau_reg_sim, tau_reg_pvalues, sim, pvalue_left, pvalue_right, z"])

prop("C16", "Sequence distances are minimum cost alignments",
     "For every set of sequences (of equal or different lengths), substitution costs and insertion/deletion cost, the optimal matching distance between two sequences is the least total cost of an alignment of the two that keeps the order, in which matched elements are substituted and all others inserted or deleted. "
     "The distance matrix lists all pairs in input order, with zeros on the diagonal and equal sequences at distance zero; with symmetric costs it is symmetric, and permuting the input or renaming the classes in an order-preserving way permutes or preserves it.",
     "inputs configurations", "all sequence sets, labels, numbers of classes (over ten too), cost matrices and indel costs",
     "Tests try a handful of three or four short sequences.",
     ["giddy/sequence.py"], [("dynamic programme", "giddy/sequence.py Sequence._om_pair_dist"), ("unique sequences", "giddy/sequence.py Sequence._om_dist")],
     ["Sequence(...).seq_dis_mat"])

prop("C17", "Predefined sequence cost schemes",
     "For every set of sequences, each named distance uses the costs it documents: Hamming counts differing positions and rejects unequal lengths; interval uses class rank differences with indel one less than the number of classes; arbitrary uses 0.5 and indel 1; markov uses 1 minus the mean of the two empirical transition probabilities and indel 1; the transition distance aligns first states and subsequent moves, at cost 0 between equal first states, between two moves and between two stays, otherwise 1, with indel 2. "
     "A request with neither a known distance type nor complete costs is rejected with an error, and complete costs take precedence over the type.",
     "inputs configurations", "all sequence sets and configurations, valid and invalid",
     "Tests cover one small example per type.",
     ["giddy/sequence.py"], [("cost schemes", "giddy/sequence.py Sequence.__init__")],
     ["Sequence(...).subs_mat, indel, seq_dis_mat, classes, k; ValueError"])

prop("C18", "Rose: sectors, vectors and counts of directional LISAs",
     "For every panel, weights and number of sectors k, each unit's vector is the change of its value and of its spatial lag from the first to the last period, with its length and angle; the circle is cut into k equal sectors starting at angle zero. "
     "Each unit is counted in exactly the sector that contains its angle (lower edges included), so the counts add up to the number of units.",
     "inputs configurations", "all panels (signed or unsigned, integer or float), weights and k from 1 up, vectors exactly on sector edges included",
     "Tests pin the counts of one data set for k = 4.",
     ["giddy/directional.py"], [("vectors and histogram", "giddy/directional.py Rose._calc")],
     ["Rose attributes cuts, counts, theta, r, bins, lag, Y, wY"])

prop("C19", "Rose: permutation inference",
     "For every rose, each permutation reassigns whole trajectories to units and its counts are those of that reassigned panel, all assignments being equally likely; the expected counts and the numbers of permutations with at least, or at most, the observed count are those of the permutations drawn. "
     "The p-values follow from these numbers by the documented rule for the chosen alternative, sectors where the unit and its lag move in the same direction being tested upwards under positive and downwards under negative, and an unknown alternative produces no p-value. "
     "Observed vectors and counts never change.",
     "inputs configurations histories", "all panels, weights, k = 4 and 8 for the directional alternatives, any number and sequence of permute calls",
     "Tests pin the p-values of one seed.",
     ["giddy/directional.py"], [("permutation", "giddy/directional.py Rose.permute"), ("sector signs", "giddy/directional.py _POS4, _POS8, _NEG4, _NEG8")],
     ["Rose attributes counts_perm, expected_perm, larger_perm, smaller_perm, p, alternative"])

prop("C20", "Mobility indices of a transition matrix",
     "For every stochastic matrix and initial distribution, the Prais (trace), determinant, second eigenvalue and the two Bartholomew indices, and the class-wise Prais measure, equal their documented formulas, with a uniform initial distribution by default. "
     "The identity has mobility zero under each of them.",
     "inputs", "all stochastic matrices and initial distributions",
     "One matrix is tested.",
     ["giddy/mobility.py", "giddy/markov.py"], [("indices", "giddy/mobility.py markov_mobility"), ("prais", "giddy/markov.py prais")],
     ["markov_mobility(p, measure, ini)", "prais(p)"])

prop("C21", "Matrix utilities",
     "For every matrix or stack of matrices, filling empty rows puts one on the diagonal of exactly the rows that sum to zero, leaves all else unchanged, and does not modify its argument. "
     "The lower part of a square matrix is returned row by row without the diagonal, and shuffling a matrix applies one and the same uniformly random permutation, the one left in the id list, to rows and columns.",
     "inputs", "all matrices of any size and type, two and three dimensional",
     "Tests use one 3 by 3 or 4 by 4 example each.",
     ["giddy/util.py"], [("utilities", "giddy/util.py fill_empty_diagonals, get_lower, shuffle_matrix")],
     ["fill_empty_diagonals(p)", "get_lower(m)", "shuffle_matrix(X, ids)"])

prop("C22", "Analyses leave their inputs and global state alone",
     "No analysis modifies the arrays, lists, weights (including their transformation) or other objects passed to it, except the id list of the matrix shuffle, so arrays that may not be written give the same results, and none alters global library settings or namespaces. "
     "The global random state is consumed only by analyses that draw permutations or break ties at random, so the others neither depend on it nor change it; the same seed gives the same result, also after the caller of an earlier analysis has written into the arrays it got.",
     "inputs histories", "every public class, function and option, on inputs of any type and weights with any transformation",
     "No test looks at inputs or global state after a call.",
     ["giddy/markov.py", "giddy/rank.py", "giddy/directional.py", "giddy/sequence.py", "giddy/ergodic.py", "giddy/mobility.py", "giddy/util.py", "giddy/components.py", "giddy/plotting.py"],
     [("copies", "all modules")], ["arguments, w.transform, numpy random state, matplotlib rcParams, module namespaces before and after"])

prop("C23", "Results do not depend on the history of calls",
     "For every sequence of reads and method calls on an analysis object, each attribute has the value it would have on a freshly built object, whatever was read or called before and in whatever order, and repeated reads return equal values. "
     "Only the results of the permutation method change, exactly when that method is called, and they then describe that last call; several objects built from the same data or weights do not influence one another.",
     "histories", "all interleavings of attribute reads, permutations, spillover, plots and summaries on one or several objects sharing data and weights",
     "Tests read each attribute once on a fresh object.",
     ["giddy/markov.py", "giddy/directional.py", "giddy/rank.py", "giddy/plotting.py"], [("cached attributes", "giddy/markov.py Markov, Spatial_Markov properties"), ("rose state", "giddy/directional.py Rose.permute, Rose.plot, Rose.plot_vectors, Rose.plot_origin")],
     ["attributes of Markov, Spatial_Markov, LISA_Markov, Rose along call histories"])

prop("C24", "Plots show the computed results",
     "The dynamic LISA heatmap shows, in the cell labelled by two significance classes, exactly the number of units in the first class at the start and in the second at the end, hiding the diagonal, where a unit is in the quadrant of its local Moran statistic if its pseudo p-value is below the threshold and otherwise not significant; the cluster maps of the composite show the same classes, and exploring a table interactively offers the columns the pattern matches and shows the composite of the two picked. "
     "Rose and vector plots draw each unit's observed vector: at its angle and length, from its first to its last value and lag, or from the origin to its change. "
     "A given axes is drawn on and returned, and style settings are as before afterwards, even when the call fails.",
     "inputs configurations histories", "all roses, significance levels, attributes, axes given or not",
     "Tests only check that plotting does not crash.",
     ["giddy/plotting.py", "giddy/directional.py"], [("heatmap", "giddy/plotting.py dynamic_lisa_heatmap"), ("rose plot", "giddy/plotting.py dynamic_lisa_rose"), ("vectors", "giddy/plotting.py dynamic_lisa_vectors, giddy/directional.py Rose.plot_vectors, plot_origin")],
     ["figures and axes returned, text and line data on them, rcParams"])

prop("C25", "Printed and saved reports agree with the results",
     "The summaries printed by the Markov classes and homogeneity tests, and the LaTeX table written on request, state exactly the computed structure, statistics, degrees of freedom, p-values, probabilities and names, for every number of classes and regimes. "
     "Printing a summary changes no result.",
     "inputs configurations", "all chains and sets of regimes, named or not",
     "Only the summary of one chain appears in a doctest.",
     ["giddy/markov.py"], [("structure summary", "giddy/markov.py Markov.__init__"), ("homogeneity summary", "giddy/markov.py Homogeneity_Results.summary, Spatial_Markov.summary")],
     ["standard output, the .tex file"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
