#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = state
    assert len(title) <= 80, title
    P.append(d)


M = "src/models/"
S = "src/simulation/"
I = "src/identification/"

p("C01", "Vectorisation and complex/real representations are faithful",
  "Column vectorisation is inverted by unvectorisation, a complex vector or matrix is recovered exactly from its stacked real form, and the real form is a ring homomorphism: it preserves sums, products, conjugate transposes and matrix-vector products. "
  "Vectorisation of a product A X B is the Kronecker product form applied to vec(X). Sparse inputs (csr, csc, coo) give the same real form as the dense matrix, in the same sparse format.",
  ["inputs"], "all complex/real matrices and vectors of any shape (also empty-support, rectangular, zero, sparse in three formats)",
  "The unit tests check one fixed 2x2 or 3x3 example per function; the relations quantify over all shapes and values and over sparse formats, and the inverse of the block form is never called by a test.",
  [M + "matrix_operations.py"],
  [("vectorize_matrix/unvectorize_matrix", M + "matrix_operations.py"), ("make_real_*/make_complex_*", M + "matrix_operations.py")],
  ["vectorize_matrix", "unvectorize_matrix", "make_real_vector", "make_complex_vector", "make_real_matrix", "make_complex_matrix"])

p("C02", "Symmetric/Laplacian parameter elimination is lossless for every size",
  "For every n, the duplication matrix rebuilds exactly the vectorised symmetric matrix from its lower triangle, and duplication times transformation rebuilds every symmetric Laplacian from its strict lower triangle. "
  "The elimination matrices are left inverses of them, average the mirrored entries of a non-symmetric matrix, and any parameter vector is mapped to a matrix that is symmetric (and has zero row sums in the Laplacian case).",
  ["inputs"], "all sizes n >= 1 and all complex symmetric, Laplacian and arbitrary matrices",
  "Tests fix n at 3 or 4 and one matrix; the index arithmetic differs for every n.",
  [M + "matrix_operations.py"],
  [("duplication_matrix, transformation_matrix", M + "matrix_operations.py"), ("elimination_sym_matrix, elimination_lap_matrix", M + "matrix_operations.py")],
  ["return values of the four builders"])

p("C03", "Re-inserting removed rows or columns inverts their deletion",
  "For any matrix and any set of distinct row or column indices, deleting them and re-inserting zeros at the same indices gives a matrix of the original shape with the kept entries at their original places and zeros elsewhere. "
  "The result does not depend on the order in which the indices are listed.",
  ["inputs"], "all real/complex matrices, both axes, all index sets in any order (empty, leading, trailing, all)",
  "One fixed example with sorted indices is tested; insertion positions shift with every earlier insertion.",
  [M + "matrix_operations.py"], [("undelete", M + "matrix_operations.py")], ["undelete", "np.delete"])

p("C04", "Error metrics are the stated norms of the estimation error",
  "Each reported error equals its definition on any truth/estimate pair: Frobenius (or 2-) norm of the difference, largest absolute difference, relative RMS in percent, and the relative error in percent restricted to the true non-zero entries. "
  "They are zero for a perfect estimate, the relative ones are invariant to a common scaling and the aggregate record reports exactly the four individual metrics.",
  ["inputs"], "all real/complex vectors and matrices, with zero patterns, scales over many orders of magnitude",
  "Tests compare one or two matrices; swapped arguments, wrong masks or missing percent factors survive particular examples.",
  [M + "error_metrics.py"], [("fro_error, max_error, rrms_error, map_error, error_metrics", M + "error_metrics.py")], ["the five functions"])

p("C05", "Polar-to-Cartesian noise covariances are the true moments, invertible",
  "The exact covariance equals the second moments of the Cartesian image of Gaussian magnitude/phase noise around the measurement, the average-true covariance equals its expectation over the noise of the observed measurement, and the naive one is the first order linearisation. "
  "Each matrix is symmetric positive semidefinite, couples only the real and imaginary part of the same sample and node, follows the vectorised data order also with per-node deviations, and the 'inverted' form is its inverse.",
  ["inputs"], "all T-by-n complex measurements, magnitude and phase deviations from tiny to large, scalar and per-node deviations, both inversion flags",
  "Tests compare a handful of samples at one noise level and one magnitude range, with loose Monte-Carlo tolerance and never the per-node ordering or the inverse off-diagonal.",
  [M + "noise_transformation.py"],
  [("exact/naive/average_true_noise_covariance", M + "noise_transformation.py"), ("average_true_var_real/imag/cov", M + "noise_transformation.py")],
  ["returned sparse matrices"])

p("C06", "Ordinary least squares returns the least-squares admittance",
  "For any voltages and currents the fitted matrix satisfies the normal equations, so no other matrix has a smaller residual, and it has minimum norm when the data are rank deficient. "
  "On consistent full-rank data it returns the generating matrix, and it is equivariant to scaling, mixing and permuting the data.",
  ["inputs"], "all T-by-n complex voltages and T-by-m currents, including underdetermined, rank-deficient, badly scaled",
  "One random well-conditioned example is tested.",
  [M + "regression.py"], [("ComplexRegression.fit", M + "regression.py")], ["fitted_admittance_matrix"])

p("C07", "Total least squares returns the smallest data correction",
  "The fitted matrix explains a data pair [x+dx, z+dz] whose correction norm equals the smallest attainable one (the trailing singular values of [x z]), and on consistent data it is the generating matrix. "
  "It is equivariant to sample permutation, unitary mixing of samples, common scaling and node permutation, accepts a one-dimensional output, and leaves its inputs unchanged.",
  ["inputs"], "all full-rank complex data with at least as many samples as unknowns, 1-D and 2-D outputs, all noise levels with a spectral gap",
  "One fixed example is tested; optimality over all matrices is a universal statement.",
  [M + "error_in_variable.py"], [("TotalLeastSquares.fit", M + "error_in_variable.py")], ["fitted_admittance_matrix"])

p("C08", "Fisher information behaves like an information matrix",
  "The reported Fisher information is symmetric positive semidefinite, the reported covariance is its inverse, information scales with the inverse square of the noise level and adds up over independent batches of samples. "
  "It does not depend on the order of the samples, is equivariant to a relabelling of the nodes and to other units of any voltage, and more noise on either voltage or current never increases the information.",
  ["inputs"], "all sizes, complex measurements, admittance matrices and block-diagonal positive definite covariances",
  "No test calls the Fisher information at all.",
  [M + "error_in_variable.py"], [("TotalLeastSquares.fisher_info", M + "error_in_variable.py")], ["fisher_info return values"])

p("C09", "Bayesian priors accumulate exactly the terms that were added",
  "After any sequence of added prior terms (exact, adaptive exact, sparsity, adaptive sparsity, contrast, ratio; any weights and orders), the log-distribution is the smoothed quadratic of exactly those terms: A = L'WL, b = L'W mu and the penalty is the sum of |residual|^(2-order) + smoothing. "
  "The dense and sparse implementations agree, a prior copied from another starts with the same terms, and adding to the copy does not change the original.",
  ["histories", "inputs"], "all sequences of add operations with all indices, values, weights, orders, evaluated at any parameter vector",
  "Tests add one or two terms and check one evaluation; bookkeeping of rows, centres and orders depends on the history of calls.",
  [M + "bayesian_prior.py", M + "smooth_prior.py"],
  [("BayesianPrior/SmoothPrior/SparseSmoothPrior add_* methods", M + "smooth_prior.py"), ("log_distribution", M + "smooth_prior.py")],
  ["log_distribution(x) -> (A, b, penalty)"],
  [{"name": "L, mu, gamma", "meaning": "stacked linear terms, centres and orders", "where": M + "bayesian_prior.py"}])

p("C10", "Regularised regression solves its MAP problem at every iteration",
  "Each recorded iterate is the exact minimiser of the data misfit plus the lambda-weighted quadratic prior evaluated at the previous iterate, and it is symmetric (and Laplacian) when the parameters are so reduced. "
  "The recorded target never disagrees with the iterate, iteration stops exactly at the first stationary iterate or the iteration limit, the final estimate is the last iterate, and a fit depends only on its inputs, not on earlier fits of the same object.",
  ["inputs", "histories", "configurations"], "all data, priors, lambdas, tolerances, iteration limits, parameter reductions and sequences of fits",
  "Tests run one fit on one data set and compare with the truth within a loose tolerance.",
  [M + "regression.py"], [("BayesianRegression.fit, _is_stationary_point", M + "regression.py")],
  ["fitted_admittance_matrix", "iterations"])

p("C11", "Error-in-variables MLE alternates exact subproblem solutions",
  "Each recorded iterate equals the alternating solution defined by the model: the voltage correction minimises the weighted misfit for the previous admittance, then the admittance minimises the weighted current misfit plus the prior; with no weights the corrected data are the projection onto the power-flow equations. "
  "Both the voltage and the current weight matrices enter with their own values, the recorded target (weighted or not) matches the iterate, the final estimate is the last iterate, and refitting does not depend on earlier fits.",
  ["inputs", "histories", "configurations"], "all data, symmetric positive definite weights (also different for voltage and current), priors, lambdas, reductions, iteration limits, sequences of fits",
  "Tests use equal or isotropic weights on one data set, for which confusing the two weights or stale state is invisible.",
  [M + "error_in_variable.py"], [("BayesianEIVRegression.fit", M + "error_in_variable.py")],
  ["fitted_admittance_matrix", "iterations"])

p("C12", "Phase and sequence representations are equivalent",
  "Phase-to-sequence and sequence-to-phase conversions of measurements and of admittance matrices are mutual inverses, block by block for any number of nodes. "
  "A balanced positive-sequence system maps to the positive component only, and Ohm's law I = V Y holds in one representation exactly if it holds in the other for admittances with equal positive and negative sequence parts.",
  ["inputs"], "all numbers of nodes and samples, all complex measurements and admittances",
  "No test converts between representations.",
  [S + "lines.py"], [("admittance_*/measurement_* conversions", S + "lines.py")], ["the four conversion functions"])

p("C13", "Single-phase admittance matrix represents the lines that are up",
  "For any connected network the bus admittance matrix equals the per-unit sum over lines in service of their series admittances at their end buses, in bus-table order: symmetric, zero row sums, independent of line direction, length splitting and broken lines. "
  "Building a network from such a matrix reproduces the matrix, and computing it does not modify the network.",
  ["inputs", "configurations"], "all connected networks: any bus numbering, PCC position, base voltages, parallel and broken lines, lengths",
  "Only the shipped templates are built in tests and most checks are on sizes; numbering with gaps or from zero and rebuilding from a matrix are untested.",
  [S + "network.py", S + "lines.py", S + "run.py"],
  [("NetData.create_line(s), create_lines_from_ybus, make_y_bus", S + "network.py"), ("make_net", S + "run.py")],
  ["make_y_bus", "net.line", "net.bus"])

p("C14", "Three-phase admittance matrix represents the line types",
  "For any connected three-phase network the admittance matrix equals, in (bus, phase) order, the phase-domain image of the zero/positive/negative sequence admittances of the lines in service with their standard type and length. "
  "It is symmetric, invariant to the line direction, to splitting parallel lines and to broken lines, and computing it does not modify the network.",
  ["inputs", "configurations"], "all connected three-phase networks: line types, lengths, bus numbering, PCC position, symmetric and asymmetric loads",
  "Only one shipped template is built in tests and no test checks an entry of its admittance matrix.",
  [S + "network_3ph.py", S + "lines.py", S + "run3ph.py"],
  [("NetData3P.create_line(s), make_y_bus", S + "network_3ph.py"), ("admittance_sequence_to_phase", S + "lines.py")],
  ["make_y_bus"])

p("C15", "Kron reduction is the exact Schur complement",
  "Reducing any set of nodes gives the admittance seen from the remaining nodes, in their original order: for any voltages with no current at the reduced nodes, the reduced matrix gives the same currents at the remaining nodes. "
  "Reducing in several steps in any order equals reducing at once, symmetry and zero row sums are preserved, and the input matrix is not modified.",
  ["inputs", "histories"], "all admittance matrices with invertible reduced block, all index sets in any order, all splits into steps",
  "No test calls it directly; equality must hold for all matrices and index sets.",
  [S + "abstract_network.py"], [("Net.kron_reduction", S + "abstract_network.py")], ["kron_reduction"])

p("C16", "Network edits and passive-node queries follow the network contents",
  "After any sequence of adding and removing buses and lines (one or several at a time), the network holds exactly the remaining buses, loads, external grid and lines: removing a line keeps its buses and removing a bus takes its loads and lines. "
  "A phase of a node is reported passive exactly if the node is no grid connection and consumes neither active nor reactive power on that phase.",
  ["histories", "inputs"], "all sequences of create/remove operations on single- and three-phase networks, with symmetric and asymmetric loads",
  "Tests only build templates; no test removes anything or asks for passive nodes.",
  [S + "abstract_network.py", S + "network.py", S + "network_3ph.py"],
  [("Net.remove_bus(es)/remove_line(s), give_passive_nodes", S + "abstract_network.py"), ("create_bus, create_line", S + "network.py")],
  ["net.bus", "net.line", "net.load", "net.asymmetric_load", "give_passive_nodes"])

p("C17", "Simulated single-phase voltages and currents obey the power flow",
  "At every simulated step the returned voltage row satisfies the power balance with the requested load of each bus at that step, the grid connection has its set-point voltage, and the returned currents are the admittance matrix applied to the voltages. "
  "Rows follow the time steps and columns the bus table, the result of a step does not depend on the other steps, and running leaves the network description unchanged.",
  ["inputs", "histories"], "all feasible networks, load profiles (constant power, impedance or current shares), orders and numbers of steps, sequences of runs",
  "Tests run one template with one constant load and check shapes or a single step.",
  [S + "simulation.py", S + "run.py"],
  [("SimulatedNet.run, get_current_and_voltage", S + "simulation.py"), ("simulate_net", S + "run.py")],
  ["run(...).get_current_and_voltage()", "simulate_net return and saved file"])

p("C18", "Simulated three-phase voltages and currents obey the power flow",
  "At every simulated step and phase the returned voltages and currents satisfy the power balance with the requested symmetric (split over three phases) and asymmetric loads of each bus, with columns in (bus, phase) order. "
  "The currents are the phase admittance matrix applied to the voltages, results of a step do not depend on other steps, and running leaves the network unchanged.",
  ["inputs", "histories"], "all feasible three-phase networks, symmetric and asymmetric load profiles, numbers of steps",
  "No test simulates a three-phase network.",
  [S + "simulation_3ph.py", S + "run3ph.py"],
  [("SimulatedNet3P.run, get_current_and_voltage", S + "simulation_3ph.py"), ("simulate_net", S + "run3ph.py")],
  ["run(...).get_current_and_voltage()", "simulate_net return and saved file"])

p("C19", "Load profiles are sums of the right number of real households",
  "Every generated load column is the sum of whole household columns of the requested profile windows, their number being the nominal power divided by the mean 90th percentile of the households, rounded, separately for active and reactive power and for each phase. "
  "Windows are concatenated in the requested order, this holds for the text and the binary reader alike, the outcome is reproducible from the seed, and Gaussian loads have the nominal mean and relative deviation per load and no coupling between loads.",
  ["inputs"], "all profile tables, windows, nominal powers (also zero), phases, seeds",
  "One test reads a shipped profile and checks a shape; which households and windows are used is not checked.",
  [S + "load_profile.py"],
  [("load_profile_from_numpy, load_profile_from_csv, generate_gaussian_load", S + "load_profile.py")], ["the three functions"])

p("C20", "Generated loads are reproducible, blended on constant nodes, and reloadable",
  "Generating loads for a network twice gives identical profiles whatever random numbers were drawn before, one row per minute of the requested days and one column per load in table order. "
  "Exactly the loads at the nodes declared constant are blended with their nominal value by the configured constantness, and reading the saved loads back returns the same profiles; this holds for single- and three-phase networks, symmetric and asymmetric loads, profile and Gaussian sources.",
  ["inputs", "histories", "configurations"], "all networks, profile files, weeks, days, constant-node sets, constantness values, seeds and prior random states",
  "No test calls load generation.",
  [S + "run.py", S + "run3ph.py"], [("generate_loads", S + "run.py"), ("generate_loads", S + "run3ph.py")],
  ["generate_loads return values", "sim_loads_<name>.npz"])

p("C21", "Measurement noise has the requested distribution and nothing else",
  "Polar noise multiplies each magnitude by one plus, and adds to each phase, independent zero-mean Gaussian noise of exactly the requested deviation of its own column (as a listed finding, the phase noise is scaled with the phase itself at present), and Cartesian noise adds independent Gaussian noise scaled with the mean absolute real and imaginary part of its column. "
  "With zero deviation the measurement is returned unchanged, inputs are not modified, the shape is kept, and the same seed gives the same noise.",
  ["inputs"], "all complex measurement matrices, scalar and per-column deviations for magnitude and phase, seeds",
  "Tests check one sample deviation with a wide tolerance, with equal deviations for all columns.",
  [S + "noise.py"], [("add_polar_noise_to_measurement, add_cartesian_noise_to_measurement and wrappers", S + "noise.py")], ["returned noisy matrices"])

p("C22", "Resampling interpolates linearly and averages disjoint blocks",
  "Filtering returns one row per complete block of the new time grid, equal to the mean of the linear interpolation of the series at the times of that block, independently for each series. "
  "It is linear in the data, exact for affine signals, and each series is perturbed with its own noise deviations at the resampled rate before averaging.",
  ["inputs"], "all complex series, time grids, block lengths, scalar and per-series deviations",
  "No test calls the filter with more than a trivial configuration.",
  [S + "noise.py"], [("filter_and_resample_measurement", S + "noise.py")], ["filter_and_resample_measurement"])

p("C23", "Noisy measurement generation is reproducible with correctly rated sensors",
  "Noisy voltages and currents are the noise-free filtered series plus noise of the configured deviations, current noise being scaled by the rating of the sensor at the same bus and phase, which is proportional to its squared nominal load and the rating of the whole network at every grid connection. "
  "The result is reproducible from the configured seed, the noise-free outputs are the block averages of the simulation, equivalent noise is the same deviation divided by the square root of the block length (returned with either kind), and saved results reload identically.",
  ["inputs", "histories", "configurations"], "all networks (bus order, PCC position), measurements, sampling settings, noise levels, safety factors, single- and three-phase",
  "No test calls it.",
  [S + "run.py", S + "run3ph.py"], [("add_noise_and_filter", S + "run.py"), ("add_noise_and_filter", S + "run3ph.py")],
  ["return values", "filtered_results_<name>.npz"])

p("C24", "Network reduction keeps the behaviour of the observed nodes",
  "After reducing passive and hidden nodes (and the grid connection unless a Laplacian is requested), the reduced admittance maps observed voltage variations to observed current variations exactly when the hidden loads are constant impedances, wherever the grid connection is in the bus table. "
  "The reported removed columns are exactly the passive, hidden and removed connection entries, so the remaining data columns line up with the rows of the reduced matrix; a Laplacian request without hidden loads yields a Laplacian.",
  ["inputs", "configurations"], "all networks, bus orders, PCC positions, passive and hidden sets, load states, single- and three-phase",
  "No test reduces a network.",
  [S + "run.py", S + "run3ph.py", S + "abstract_network.py"], [("reduce_network", S + "run.py"), ("reduce_network", S + "run3ph.py")],
  ["reduce_network return values"])

p("C25", "Standard identification recovers the network from clean data",
  "On noise-free data generated by an admittance matrix, the OLS and TLS estimates equal it (after centring, whatever constant offset is in the data) and the Lasso estimate is symmetric or Laplacian as requested. "
  "Sequence-wise three-phase identification equals separate identification of each sequence with zero cross blocks, the data passed in are unchanged, and stored results reload identically.",
  ["inputs", "configurations"], "all admittances, excitations with full rank, offsets, sizes, iteration limits, Laplacian or not, phase assignments",
  "No test runs the identification pipeline.",
  [I + "run.py", I + "run3ph.py"], [("standard_methods", I + "run.py"), ("standard_methods", I + "run3ph.py")],
  ["standard_methods return values", "standard_results_<name>.npz"])

p("C26", "Bayesian identification is consistent, blockwise and resumable",
  "The Bayesian estimate returned and stored is the last recorded iterate (of a single system), is symmetric (Laplacian if requested), with zero iterations is reloaded from the stored result, and depends on voltage and current noise levels and ratings only through the weighted covariances and on known admittances only through the known-lines prior. "
  "Sequence-wise identification equals separate identification of each sequence, node relabelling relabels the estimate, unsynchronised identification depends only on voltage magnitudes and on currents relative to the phase of the voltage of the same sensor, the inputs are unchanged and stored results reload identically; the error covariance analysis is consistent with the reported Fisher information.",
  ["inputs", "histories", "configurations"], "all data, initial estimates, noise levels, ratings, phase assignments, flags, iteration limits",
  "No test runs the identification pipeline.",
  [I + "run.py", I + "run3ph.py"], [("bayesian_eiv, eiv_fim", I + "run.py"), ("bayesian_eiv", I + "run3ph.py")],
  ["return values", "bayesian_results_<name>.npz", "fim_results_<name>.npz"])

p("C27", "Constructed priors are centred on the information they encode",
  "The contrast prior built from an initial estimate has zero residual at that estimate, the known-lines prior has zero residual exactly when the known lines have their stated values, and the exact-admittance prior has zero residual at the given off-diagonal admittances. "
  "Off-diagonal sparsity terms are weighted by the inverse magnitude of the initial estimate, diagonal entries are unpenalised unless requested, and every flag combination yields a finite symmetric positive semidefinite quadratic.",
  ["inputs", "configurations"], "all sizes, initial estimates without zero parameters, flag combinations, known-line selections",
  "No test calls the prior builders.",
  [I + "run.py", I + "run3ph.py"], [("build_lasso_prior, build_loads_id_prior, build_complex_prior, add_known_lines", I + "run.py")],
  ["log_distribution of the returned prior"])

p("C28", "GPU and CPU matrix helpers compute the same values",
  "For any input, every matrix helper of the GPU module returns the same values, shapes and sparse formats as the helper of the same name of the CPU module. "
  "Identification therefore does not depend on whether a GPU is present.",
  ["inputs", "configurations"], "all real/complex dense and sparse inputs of any shape",
  "The only test of the GPU module needs a GPU and is skipped everywhere else.",
  [M + "gpu_matrix_operations.py", M + "matrix_operations.py"], [("gpu_matrix_operations", M + "gpu_matrix_operations.py")], ["the six helpers of both modules"])

p("C29", "Command line runs produce consistent, restartable result files",
  "Any supported sequence of simulate and identify commands leaves result files whose voltages, currents, admittance, ratings and phase indices have matching sizes and obey Ohm's law up to noise, and re-running only a later stage on unchanged earlier files reproduces the same results. "
  "Identification stores the reference, standard and Bayesian results for the same set of nodes, continuing an identification appends its iterations to the earlier ones, and uncertainty analysis can be requested.",
  ["histories", "configurations"], "all orders of command invocations and flags over generated small networks and settings",
  "No test invokes the commands.",
  ["simulate_network.py", "identify_network.py"], [("simulate", "simulate_network.py"), ("identify", "identify_network.py")],
  ["npz files in data/simulations_output"])

p("C30", "Shipped network templates are well formed and solvable",
  "Every shipped network has unique bus ids, exactly one grid connection, lines that only join listed buses with positive impedance and a connected in-service graph, for any choice of open lines that keeps it connected, and building it yields its buses, loads and lines. "
  "The nominal operating point of every template and of any down-scaled loading converges with plausible voltages. "
  "The networks that are parts or three-phase versions of another shipped network agree with it (buses, loads, line lengths and impedances).",
  ["inputs", "configurations"], "all shipped templates, all connectivity-preserving subsets of lines and load scalings",
  "Tests build a few templates; variations of line status and loading are not explored.",
  [S + "net_templates.py", S + "net_templates_3ph.py", S + "run.py", S + "run3ph.py"],
  [("template tables", S + "net_templates.py"), ("make_net", S + "run.py")], ["make_net", "make_y_bus", "net.bus/line/load"])

p("C31", "Plot helpers save the plotted data and colour every series",
  "For any colour argument and number of series the colour helper returns exactly one colour per series, taken from the colormap, the list or the constant given. "
  "Every plot call stores the plotted matrix unchanged next to the figure, with or without labels.",
  ["inputs"], "all matrices, label lists, colormap names, colour lists",
  "No test calls the plot helpers.",
  [I + "utils.py"], [("map_color_colormap, plot_heatmap, plot_scatter, plot_series", I + "utils.py")],
  ["map_color_colormap", "plot_data/<name>.npz"])

p("C32", "plot_results reports exactly what identification stored",
  "For any stored results of a network (single phase, one phase or sequence of three, all phases, all sequences, converted to the other representation or not, Laplacian or not) plot_results writes error tables that equal the metrics of each stored estimate against the stored reference, on the nodes that were identified. "
  "The stored plot data are the magnitudes of the reference, of each estimate and of its error, the error of every iterate in order, the target functions, the estimates side by side on the existing lines, and the requested scales are applied. "
  "Missing result files are skipped.",
  ["inputs", "configurations", "histories"], "all stored results, phases and representations, sequences of runs",
  "No test runs plot_results.",
  ["plot_results.py", I + "utils.py"], [("plot_results", "plot_results.py")], ["*_error_metrics.txt", "sparsity_metrics.txt", "plot_data/<name>.npz"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
