#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
SC="pytspl/simplicial_complex/simplicial_complex.py"; SB="pytspl/simplicial_complex/scbuilder.py"
NR="pytspl/io/network_reader.py"; TL="pytspl/io/data_loaders/transportation_loader.py"; GEN="pytspl/io/sc_generator.py"
EIG="pytspl/decomposition/eigendecomposition.py"; HD="pytspl/decomposition/hodge_decomposition.py"
BF="pytspl/filters/base_filter.py"; EF="pytspl/filters/edge_flow_denoising.py"; LS="pytspl/filters/ls_filter_design.py"
GR="pytspl/filters/grid_based_filter_design.py"; CH="pytspl/filters/chebyshev_filter_design.py"; ST="pytspl/filters/simplicial_trend_filter.py"
TR="pytspl/hogde_gp/hodge_gp_trainer.py"; KS="pytspl/hogde_gp/kernel_serializer.py"; PL="pytspl/plot/plot.py"
KF=["pytspl/hogde_gp/forex/%s.py"%k for k in ("matern","matern_non_hc","diffusion","diffusion_non_hc","laplacian")]
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

ONE="The suite evaluates this on one stored 7-node example (and a few checked-in data files); "
prop("C01","Incidence matrices describe exactly the given nodes, edges and triangles",
 "For every complex, the rank-1 incidence matrix has one row per node and one column per edge, in the given order, with -1 at the edge's first node, +1 at its second node and 0 elsewhere. The rank-2 matrix has one row per edge and one column per triangle, in the given order, whose non-zero entries are exactly +/-1 on the triangle's three edges: walking the triangle along the edge between its first two listed vertices in that edge's stored direction, an edge walked along its stored direction is +1 and one walked against it is -1. Rank 0 is a vector with a one per node, and any other rank is refused with ValueError.",
 ["inputs"],"all node counts, edge lists (either stored orientation of every edge, any order) and triangle lists (any vertex order)",
 ONE+"all its edges are stored from the smaller to the larger node and sorted.",
 [SC],[("edges_to_B1",SC),("triangles_to_B2",SC),("incidence_matrix",SC)],["SimplicialComplex.incidence_matrix(rank)"])
prop("C02","The boundary of a boundary vanishes, whatever the stored edge directions",
 "For every complex, the product of the rank-1 and rank-2 incidence matrices is zero, hence the lower and upper Laplacians annihilate each other, the flow induced by any node potential has zero curl, and the flow induced by any triangle signal has zero divergence. This does not depend on the direction in which an edge is stored, the order of the edge list or the order in which a triangle's vertices are listed.",
 ["inputs"],"all complexes whose triangles are bounded by listed edges, all stored orientations, all node potentials and triangle signals",
 ONE+"with every edge stored in ascending direction, so the orientation quantifier is never exercised.",
 [SC],[("edges_to_B1",SC),("triangles_to_B2",SC)],["incidence_matrix(1) @ incidence_matrix(2)","lower_laplacian_matrix @ upper_laplacian_matrix","get_curl, get_divergence"])
prop("C03","Laplacians and adjacency are the ones their definitions give",
 "For every complex, the node Laplacian equals degree minus adjacency, the lower edge Laplacian is B1'B1, the upper one B2B2', the Hodge Laplacian of rank 1 is their sum, that of rank 0 is the node Laplacian and that of rank 2 (like the lower Laplacian of rank 2) is B2'B2; the upper Laplacian of rank 0 is the node Laplacian. The adjacency matrix is symmetric with a 1 exactly for the node pairs joined by an edge. A rank for which an operator is not defined (lower: only 1 and 2; upper: only 0 and 1; Hodge: only 0, 1 and 2) is refused with ValueError.",
 ["inputs","configurations"],"all complexes in every stored orientation; all operator/rank combinations",
 ONE+"rank 2 and refused ranks are not exercised.",
 [SC],[("laplacian_matrix, lower_/upper_/hodge_laplacian_matrix",SC),("adjacency_matrix",SC)],["the returned sparse matrices"])
prop("C04","Shifting k steps is k applications of the Laplacian",
 "Lower (upper) shifting of a flow by k steps returns exactly the k-fold product of the lower (upper) Laplacian with the flow, for every number of steps k, and zero steps return the flow unchanged. The k-step shift is the sum of the k-step lower and the k-step upper shift, which for k >= 1 equals the k-th power of the Hodge Laplacian applied to the flow, and shifting never alters the flow that was passed in.",
 ["inputs","configurations"],"all complexes, all flows, all step counts k >= 0 (k >= 1 for the Hodge power)",
 "The tests shift a single unit flow by 1 and 2 steps on one complex.",
 [SC],[("apply_lower_shifting, apply_upper_shifting, apply_k_step_shifting",SC)],["the returned flow"])
prop("C05","Divergence and curl mean net inflow per node and circulation per triangle",
 "For every flow, the divergence at a node is the sum of the flows on edges stored as ending there minus the sum on edges stored as starting there. The curl on a triangle is the circulation around its boundary, oriented along the stored direction of the edge between its first two listed vertices (edges walked against their stored direction count negatively). Both are linear in the flow, have one entry per node or triangle in the given order, and a flow on edges of no triangle contributes to no curl.",
 ["inputs"],"all complexes in every stored orientation, all real flows",
 "Tests compare one flow on one complex with recomputed products of the same matrices.",
 [SC,EIG],[("get_divergence, get_curl",EIG),("SimplicialComplex.get_divergence, get_curl",SC)],["get_divergence(flow), get_curl(flow)"])
prop("C06","Simplex queries and feature lookups report exactly what was put in",
 "A complex lists its simplices as all nodes, then all edges, then all triangles in the given order, its shape is the three counts and its dimension is the largest simplex dimension present. The faces of a simplex are exactly its subsets with one vertex less, each once, vertices sorted and faces in sorted order. Looking up an edge feature by name returns for every edge its own stored value (KeyError for an unknown name), without a name all features are returned, and the feature-name list is the list of stored feature names.",
 ["inputs"],"all node/edge/triangle lists, simplices of up to 5 vertices in any vertex order, all feature tables",
 ONE+"faces of one triangle and one feature table are checked.",
 [SC],[("simplices, shape, max_dim, get_faces, get_edge_features, edge_feature_names",SC)],["the returned values"])
prop("C07","The default triangle set is every 3-clique of the graph, exactly once",
 "For every edge list, in any order and any stored orientation, the triangles found by the builder are exactly the sets of three nodes that are pairwise joined by an edge: each occurs exactly once, with its three nodes in ascending order, and nothing else is reported. Building a complex with the default condition uses exactly this set.",
 ["inputs"],"all graphs up to the bound, all stored orientations and edge orders",
 "Tests look at one 10-edge graph with 3 triangles.",
 [SB],[("SCBuilder.triangles",SB),("SCBuilder.to_simplicial_complex",SB)],["SCBuilder.triangles(), to_simplicial_complex().triangles"])
prop("C08","Distance-conditioned and explicit triangle sets are honoured",
 "With the distance condition, a 3-clique becomes a triangle if and only if all three of its edges have a distance strictly below the threshold, read from the requested distance column of the respective edge, in whichever direction the edge is stored and also when a distance is zero. With an explicitly passed triangle list (including an empty one) exactly that list is used, and in every case the complex gets the builder's nodes, edges and features unchanged.",
 ["inputs","configurations"],"all graphs up to the bound, all real distances and thresholds, all column names, all stored orientations",
 "Tests use one graph, positive distances, ascending edges and one threshold.",
 [SB],[("triangles_dist_based, to_simplicial_complex",SB)],["triangles_dist_based(col, eps)","to_simplicial_complex(condition, dist_col_name, dist_threshold, triangles)"])
prop("C09","Reading an edge table yields exactly its undirected edges and all nodes",
 "For every CSV or TNTP edge table, the resulting edge list has exactly one entry for each pair of nodes that appears as source/destination of some row, stored in the direction of the first row that mentions the pair and sorted; rows repeating an edge in either direction add nothing. Node ids are shifted by one exactly when the file is declared as one-based, and the nodes are 0 up to the largest id. Metadata rows to be skipped and the filler columns of a TNTP file do not influence the result.",
 ["inputs","configurations"],"all tables of up to the bound rows with any integer ids, any row order, duplicates and reversed duplicates, zero- or one-based",
 "Tests read two checked-in files.",
 [NR],[("_extract_nodes_edges, read_csv, read_tntp",NR)],["the returned builder's nodes and edges"])
prop("C10","Edge features read from a table stay with their own edge",
 "For every edge table, each edge of the result carries the feature values of the first row that mentions that pair of nodes, for exactly the requested feature columns (CSV) or all columns that are not source or destination (TNTP), whatever the row order and whatever duplicate or reversed rows the table contains. If no feature columns are requested, edges have no features and reading still succeeds.",
 ["inputs"],"all tables up to the bound rows, any row order, duplicates, reversed rows, any real feature values",
 "Tests read tables that are already sorted and free of duplicates.",
 [NR],[("read_csv, read_tntp",NR)],["the returned builder's edge_features, get_edge_features"])
prop("C11","A complex read back from incidence-matrix files is the one that was written",
 "Reading a node-edge matrix file and a (transposed) edge-triangle matrix file returns a node for every row of the first (also for nodes without edges), the edges in the order and direction of its columns, and one triangle per triangle of the second file, consisting of the three nodes of the edges its non-zero entries mark, sorted. The complex built from them has exactly the node-edge matrix that was read, so a flow listed in column order stays with its own edges.",
 ["inputs"],"all pairs of incidence files up to the bound: any edge order and direction, isolated nodes, any triangle signs",
 "Tests read two file pairs whose columns are already sorted and without isolated nodes.",
 [NR],[("read_B1_B2, read_B2",NR)],["read_B1_B2(...)[0].nodes/.edges, [1]"])
prop("C12","Coordinate and flow files are read entry for entry",
 "Reading coordinates maps every node id of the file, shifted by one exactly when the file is declared one-based, to the pair (x, y) of that same row, also when column headers carry surrounding blanks; columns are chosen by the given names, not by position. A missing coordinate file gives None, and a missing flow file gives an empty table instead of an error.",
 ["inputs","configurations"],"all coordinate tables up to the bound rows, any ids and real coordinates, both index bases, any column order",
 "Tests read one checked-in file.",
 [NR],[("read_coordinates, read_flow",NR)],["read_coordinates(...), read_flow(...)"])
prop("C13","A transportation flow is the net volume along each edge's direction",
 "For every transportation flow table, the flow of edge (u, v) is the volume reported from u to v minus the volume reported from v to u (zero if that reverse link is not listed), taking into account that the file counts nodes from one while the complex counts from zero. Every edge gets exactly one value under its own stored direction, links of other edges never contribute, and neither the order of the rows nor that of the edges matters; without a flow file the flow is empty.",
 ["inputs"],"all flow tables up to the bound edges, one- and two-way links, any row order, any real volumes",
 "Tests check only sizes for the checked-in networks.",
 [TL],[("load_flow_transportation",TL)],["load_flow_transportation(...), load_dataset(...)[2]"])
prop("C14","A random complex is determined by its arguments and obeys the threshold",
 "Calling the random generator twice with the same arguments gives the same nodes, edges, edge distances, triangles and coordinates, whatever random numbers were drawn elsewhere in between, and does not disturb the caller's global random state. Every node 0..n-1 is present and has a coordinate, every edge of the generated graph carries a distance, and a 3-clique is a triangle exactly if its three distances are below the threshold.",
 ["inputs","histories"],"all generated graphs up to the bound, all random draws, all thresholds, any interleaved use of the global random generator",
 "The test makes a single call and looks at sizes.",
 [GEN,SB],[("generate_random_simplicial_complex",GEN)],["the returned complex and coordinates"])
prop("C15","The Hodge decomposition splits every flow completely and orthogonally",
 "For every complex and every flow, the unrounded gradient, curl and harmonic components add up to the flow; the gradient component is induced by a node potential, the curl component by a triangle signal, and the harmonic component has zero divergence and zero curl. The components are mutually orthogonal, depend linearly on the flow, and each is reproduced unchanged when decomposed again. This also holds for complexes without triangles, for disconnected ones and for any stored edge directions.",
 ["inputs"],"all complexes in the bound family with every stored orientation, all real flows",
 "Tests compare one flow on one complex with numbers rounded to two decimals.",
 [HD,SC],[("get_gradient_flow, get_curl_flow, get_harmonic_flow",HD),("get_component_flow",SC)],["get_component_flow(flow, component, round_fig=False)"])
prop("C16","Rounding only affects the presentation of a component",
 "A component requested with rounding equals the exact (unrounded) component of the original flow rounded entrywise to the requested number of decimals (two by default, rounding being the default); without rounding the exact component is returned whatever number of decimals is given. In particular no intermediate result is rounded: the rounded harmonic component is the rounding of the exact one.",
 ["inputs","configurations"],"all flows, all three components, decimals 0..6, on the bound family of complexes",
 "Tests use one flow and two decimals, where accumulated rounding errors can stay invisible.",
 [HD,SC],[("round_fig/round_sig_fig handling",HD),("get_component_flow",SC)],["get_component_flow(flow, component, round_fig, round_sig_fig)"])
prop("C17","Frequency components select the right eigenpairs and keep pairs together",
 "The gradient (curl) eigenpairs are all eigenpairs of the lower (upper) Laplacian whose eigenvalue exceeds the tolerance, the harmonic ones all eigenpairs of the Hodge Laplacian whose eigenvalue does not; the given tolerance is the one used. Every returned eigenvector is a column paired with its own eigenvalue (L u = lambda u), the vectors are orthonormal, eigenvalues ascend, and the three counts add up to the number of edges. An eigendecomposition returns all eigenvectors, and eigenvalues smaller in magnitude than its tolerance are returned as zero.",
 ["inputs","configurations"],"all symmetric positive semidefinite spectra (symbolic eigenvalues and eigenvectors up to the bound size), all tolerances, and the bound family of complexes",
 "Tests use one complex and the default tolerance; ties, empty components and other tolerances are never reached.",
 [EIG,SC],[("get_eigendecomposition, get_gradient_/curl_/harmonic_eigenpair",EIG),("get_component_eigenpair",SC)],["the returned (eigenvectors, eigenvalues)"])
prop("C18","Component masks mark exactly the spectrum positions of their component",
 "For every complex, the 0/1 coefficient masks of the harmonic, curl and gradient components over the ascending spectrum of the Hodge Laplacian are disjoint and together cover every position; a position is marked for a component exactly if the Hodge eigenvalue there belongs to that component. The ideal frequency operator built from a mask is U diag(mask) U', which for the harmonic mask reproduces the exact harmonic component of every flow.",
 ["inputs"],"the bound family of complexes in every stored orientation; all flows",
 "Tests compare three masks on one complex.",
 [BF,CH],[("get_component_coefficients",BF),("get_ideal_frequency",CH)],["get_component_coefficients(component), get_ideal_frequency(coeffs)"])
prop("C19","Embeddings and total variance are spectral quantities of their own component",
 "The simplicial embedding of a flow is the triple (harmonic, curl, gradient), each being the coordinates of the flow in the orthonormal eigenvectors of that component, so that every embedding is linear in the flow, its length is the component's dimension and its norm is the norm of the corresponding exact component flow. The total variance of a complex is the diagonal of U'L0U for the eigenvectors U of its node Laplacian L0, i.e. the node Laplacian's eigenvalues.",
 ["inputs"],"all flows on the bound family of complexes",
 "Tests compare absolute embedding values for one flow; the complex-level total variance is never called.",
 [SC,EIG],[("get_simplicial_embeddings, get_total_variance",SC),("get_total_variance",EIG)],["get_simplicial_embeddings(flow), get_total_variance()"])
prop("C20","Low-pass denoising solves its regularised problem for every parameter",
 "For every complex, noisy flow f, choice of operator P and list of regularisation parameters, the recorded filter is the inverse of I + mu P for the last mu and the recorded estimate x is the solution of (I + mu P) x = f. The recorded errors have one entry per parameter, the relative error of that parameter's estimate with respect to the given true flow, and the recorded frequency responses one row per parameter, the diagonal of U'HU, i.e. 1/(1+mu lambda) for each eigenvalue of P. Each run reports only its own data, whatever ran before.",
 ["inputs","configurations","histories"],"all flows, mu > 0, three operators, parameter lists of length 1..3, repeated runs, bound family of complexes",
 "Tests use one complex, one flow pair and few fixed parameters with loose tolerances.",
 [EF,BF],[("EdgeFlowDenoising.denoise",EF),("set_history",BF)],["EdgeFlowDenoising.history"],[("history","results of the last run",BF)])
prop("C21","Least-squares filters are the best Laplacian polynomial for their component",
 "A least-squares component filter of size L is a polynomial of degree below L in the chosen Laplacian (type one: Hodge; type two: lower for gradient, upper for curl) whose coefficients solve, in the least-squares sense, the fit of the component's 0/1 response at the Laplacian's eigenvalues (1 exactly on the component's eigenvalues; type two: every distinct eigenvalue once, 1 on the non-zero ones). The recorded estimate is that filter applied to the given flow, errors and frequency responses are recorded per filter size 1..L relative to the exact component flow, and with L at least the number of distinct eigenvalues type two returns the exact gradient or curl component. Type two refuses other components with ValueError.",
 ["inputs","configurations","histories"],"all flows, components, filter sizes in the bound, bound family of complexes (also trees and complexes whose Laplacian has no zero eigenvalue), repeated runs",
 "Tests use one complex and few sizes; a spectrum without zero eigenvalue never occurs.",
 [LS,BF],[("_apply_filter, subcomponent_extraction_type_one/two",LS)],["LSFilterDesign.history"],[("history","results of the last run",BF)])
prop("C22","Grid-based filters fit the requested response on the sampled spectrum",
 "Grid-based denoising (extraction) of size L fits, in the least-squares sense, a polynomial of degree below L to the response 1/(1 + mu lambda) (to the logistic response with the given cut-off and steepness) on points evenly spaced from zero to the estimated largest eigenvalue of the chosen operator: as many points as the flow has entries for denoising, the requested number for extraction. The recorded filter is that polynomial of the operator, the estimate is the filter applied to the flow, and errors and frequency responses are recorded per size 1..L relative to the given true flow or the exact component.",
 ["inputs","configurations","histories"],"all flows, operators, sizes, mu, sample counts, cut-offs in the bound, bound family of complexes, repeated runs",
 "Tests use one complex and a few parameter values with loose tolerances.",
 [GR,BF],[("_sample_grid_points, _compute_sampled_continuous_freq_response, _apply_filter, denoise, subcomponent_extraction",GR)],["GridBasedFilterDesign.history"],[("history","results of the last run",BF)])
prop("C23","The general filter splits additively and keeps each branch's own record",
 "For both the least-squares and the grid-based design, the general filter's gradient and curl estimates are those of the corresponding component extractions with sizes L1 and L2 (zero if the size is 0), and the harmonic estimate is the flow minus both. The history afterwards holds under L1 the complete record of the gradient run and under L2 the complete record of the curl run (None for a skipped branch), unaffected by each other and by earlier runs, and the filter object can be used again afterwards as if new.",
 ["inputs","histories"],"all flows, all (L1, L2) in the bound including zeros, runs in any order on one object",
 "Tests run it once per object on one flow and look at the estimates only.",
 [LS,GR,BF],[("general_filter",LS),("general_filter",GR),("_reset_history",BF)],["general_filter(...) result and .history"],[("history","per-branch records",BF)])
prop("C24","The Chebyshev filter evaluates its truncated series and reports it consistently",
 "For every operator P, scale alpha and coefficient list, the Chebyshev filter of order K is the sum of c_k T_k((P - alpha I)/alpha) over the first K coefficients, also when fewer than K coefficients exist. After applying a filter of size L, the record has L filters, the last of which uses the first L coefficients; every recorded estimate is the filter of the same index applied to the flow, every recorded frequency response is that estimate in the Hodge eigenbasis, and errors are relative to the exact component and to the ideal component filter.",
 ["inputs","configurations"],"all coefficient values, scales, flows, orders in the bound; symbolic symmetric operators up to 2x2 and the bound family of complexes",
 "The tests that reach the full filter need a package that is not installed here and fix one complex and one coefficient set.",
 [CH],[("_chebyshev_filter_approximate, get_chebyshev_frequency_approx, apply",CH)],["ChebyshevFilterDesign.history","the returned matrices"])
prop("C25","Filter building blocks compute what they name",
 "The error measure is the Euclidean norm of the difference divided by the norm of the true signal; the logistic response is 1/(1+exp(-steep (x - cutoff))), increasing in x for positive steepness and 1/2 at the cut-off. The true signal of a component is the exact (unrounded) component flow; the operator choices L1, L1L and L1U give the Hodge, lower and upper Laplacian of rank 1 and any other choice is refused with ValueError. Power iteration returns the normalised result of multiplying the all-ones vector by the matrix the requested number of times (up to machine precision).",
 ["inputs","configurations"],"all signals, cut-offs, steepness values, matrices up to the bound size and iteration counts in the bound",
 "Tests sample a handful of fixed values.",
 [BF],[("calculate_error_NRMSE, logistic_function, get_true_signal, get_p_matrix, power_iteration",BF)],["the returned values"])
prop("C26","Trend-filter shift operators have the stated order",
 "The divergence shift operator of order 0 is B1, of even order k it is B1 times the lower Laplacian to the power k/2, and of odd order k the lower Laplacian to the power (k+1)/2; the curl operators are the same with B2' and the upper Laplacian. Applied to a flow, the operator of order k therefore measures k further differences of its divergence or curl, so a flow with zero divergence (curl) is always mapped to zero, and negative orders are refused with ValueError.",
 ["inputs","configurations"],"orders 0..6, both components, all flows, bound family of complexes",
 "The trend-filter tests need a dataset that is not shipped and use order 0 only.",
 [ST],[("get_shift_operator",ST)],["get_shift_operator(component, order)"])
prop("C27","l2 trend denoising applies the resolvent of its own component's Laplacian",
 "In l2-regularised trend denoising every recorded estimate x solves (I + mu L) x = noisy flow, where L is the lower Laplacian for the divergence and the upper Laplacian for the curl, and the recorded filter is the inverse of I + mu L. The noisy flow of each realisation is the true flow plus a fresh standard normal sample per edge scaled by the noise power of its own signal-to-noise ratio, and components other than divergence and curl are refused with ValueError.",
 ["inputs","configurations"],"all flows, noise samples, mu > 0, signal-to-noise lists and realisation counts in the bound, both components",
 "The trend-filter tests need a dataset that is not shipped and use the divergence only.",
 [ST],[("denoising_l2_regularizer, get_power_noise",ST)],["SimplicialTrendFilter.history"])
prop("C28","l1 trend filtering minimises its stated objective and keeps observed values",
 "l1-regularised denoising records for each realisation the minimiser over x of the norm of (noisy flow - x) plus the regularisation weight times the l1 norm of the shift operator of the requested component and order applied to x. Interpolation minimises the same kind of objective around the masked flow, where exactly floor(ratio times number of edges) edges, freshly drawn without repetition per realisation, are observed, and every recorded flow equals the given flow on the observed edges. Components other than divergence and curl are refused with ValueError.",
 ["inputs","configurations"],"all flows, noise samples, sampling masks, weights, orders and ratios in the bound (the convex solver is trusted to return the minimiser)",
 "The trend-filter tests need a dataset that is not shipped.",
 [ST],[("_solver, denoising_l1_regularizer, interpolation_l1_regularizer",ST)],["SimplicialTrendFilter.history, the problem handed to the solver"])
prop("C29","Trend-filter statistics average the right quantities per level",
 "For all three trend-filter procedures the recorded estimates have one entry per edge, noise level (or ratio) and realisation; the recorded errors, component magnitudes and correlations have one entry per level, namely the mean over its realisations of the relative error to the true flow, of the norm of the divergence or curl (whichever was requested) of the estimate, and of the correlation with the true flow. The noise power of a level in dB is the norm of the flow divided by the linear ratio 10^(dB/10) and by the number of edges.",
 ["inputs","configurations"],"all flows, noise samples, two or more levels and realisations in the bound, both components",
 "The trend-filter tests need a dataset that is not shipped and use one realisation.",
 [ST],[("get_power_noise, set_history, the averaging in the three procedures",ST)],["SimplicialTrendFilter.history"])
prop("C30","Hodge kernels are their formula: weighted spectral functions per component",
 "For every kernel type the covariance of edges i and j is the sum over the harmonic, gradient and curl components of weight times sum_k u_k[i] g(lambda_k) u_k[j] with that kernel's spectral function g and its own component's eigenpairs (Matern: mu for harmonic, (2mu/kappa^2 + lambda)^-mu otherwise; diffusion: exp(-lambda) for harmonic, exp(-kappa lambda) otherwise; Laplacian: 1/(0.001 + lambda) for harmonic, 1/lambda otherwise; the non-HC variants use one common spectral function's parameters and unit weights). It is evaluated at the requested edge indices, defaulting to the first argument for a missing second one, is symmetric with non-negative diagonal, and the diagonal option returns its diagonal.",
 ["inputs","configurations"],"all eigenpairs up to the bound sizes, all positive hyperparameters, all index lists, all five kernels",
 "Tests only construct kernels and never evaluate a covariance.",
 KF,[("forward, _eval_covar_matrix",KF[0])],["kernel.forward(x1, x2, diag)"])
prop("C31","Kernel hyperparameters can be set and read independently",
 "For every kernel, every hyperparameter it exposes is positive, starts at the same value, and assigning a positive value (a number or a tensor) makes exactly that hyperparameter read back as the assigned value while all other hyperparameters keep theirs, in any sequence of assignments. A kernel requested by type and dataset name is of the requested type and uses the six given eigenvector and eigenvalue arrays in the order harmonic, gradient, curl vectors, then harmonic, gradient, curl values.",
 ["inputs","histories"],"all positive values, all sequences of assignments up to the bound length, all five kernels",
 "Tests never assign a hyperparameter.",
 KF+[KS],[("property setters",KF[0]),("KernelSerializer.serialize",KS)],["the hyperparameter properties","KernelSerializer.serialize(...)"])
prop("C32","Gaussian-process data preparation keeps inputs and targets aligned",
 "Splitting returns training and test sets that partition all edge indices, each index with its own target value, the full index range with all targets in order, and the requested training fraction; the same seed gives the same split. Normalisation maps the training, test and full targets with one and the same mean and standard deviation, those of the training targets. The Laplacians are returned as (Hodge, lower, upper), the incidence matrices as (B1, B2) and the eigenpairs as (harmonic, gradient, curl vectors, then values) with the tolerance passed on.",
 ["inputs","configurations"],"all target vectors, all index permutations drawn by the splitter, ratios, seeds and tolerances in the bound",
 "Tests check shapes for one dataset and one seed.",
 [TR],[("train_test_split, normalize_data, get_laplacians, get_incidence_matrices, get_eigenpairs",TR)],["the returned tensors"])
prop("C33","Exported parameters and Matern covariance equal those of the trained model",
 "After training, the reported parameters are the current values of the model's noise, kernel hyperparameters and output scale, each under its own name, and the exported Matern covariance is the output scale times the Matern kernel's covariance over all edges with exactly these parameters and the complex's own eigenpairs; the reported variance is its diagonal, or 0.0 when that is constant. Asking for either before training is refused with ValueError.",
 ["inputs","histories"],"all positive hyperparameter values, bound family of complexes, before and after training",
 "Tests never export a kernel.",
 [TR,KF[0]],[("get_model_parameters, build_matern_kernel",TR)],["get_model_parameters(), build_matern_kernel()"])
prop("C34","Drawn edges and labels carry their own edge's flow",
 "When a flow is drawn, every edge is drawn once with the colour value of its own flow whatever the order of the edges, with colour limits that by default run from the minimum flow minus half its magnitude to the maximum flow and otherwise are the given ones. A flow array is matched to edges in the order of the complex's edge list, every edge label shows its own flow next to the midpoint of its own edge's endpoints (within the label offset), and each Hodge component drawing shows that component's flow. An unknown drawing option is refused with ValueError.",
 ["inputs","configurations"],"all flows and coordinates, all edge orders and orientations up to the bound",
 "Tests draw one fixed network and check that objects exist.",
 [PL],[("draw_sc_edges, draw_network, draw_edge_labels, create_edge_flow, draw_hodge_decomposition, draw_eigenvectors",PL)],["calls made to the drawing library, returned label objects"])
prop("C35","Nodes, labels and triangles are drawn at their own place in the given axes",
 "Every node is drawn exactly once at its own coordinates (in the order of the node list, so that per-node colours stay with their nodes), node labels are written at their own node's coordinates, and every triangle is filled once with the coordinates of its three vertices. Everything is drawn into the axes that were passed in, whichever axes are current, and the axis limits enclose all nodes with a 5% margin. Without coordinates a layout covering every node, also isolated ones, is generated once and reused.",
 ["inputs","configurations"],"all coordinates and node/triangle lists up to the bound, with and without given coordinates",
 "Tests draw one network with fixed coordinates in the current axes.",
 [PL],[("draw_sc_nodes, _draw_node_labels, draw_sc_edges, _init_axes",PL)],["calls made to the drawing library"],[("pos","node coordinates in use",PL)])
prop("C36","Queries, decompositions, filters and plots never change their inputs",
 "No query, decomposition, filter, trend filter, Gaussian-process preparation or plotting call changes the complex (its nodes, edges, triangles, features, incidence matrices) or the flow, coordinates and parameter arrays passed to it. Consequently repeating a query after any sequence of other calls returns the same answer, and a result returned earlier is not altered by later calls.",
 ["histories","inputs"],"all flows, all sequences up to the bound length of public read-only calls, bound family of complexes",
 "Tests do not compare state before and after calls, and share module-level fixtures.",
 [SC,EIG,HD,BF,EF,LS,GR,CH,ST,TR,PL],[("all public methods",SC)],["state and results before and after call sequences"])
prop("C37","Unknown selectors are refused with an error, never silently treated as another",
 "For every public operation that takes a selector by name - component, operator choice, kernel type, dataset name for kernels, dataset to load - any value outside its documented set raises ValueError, and every documented value is accepted and gives the result for that value (a kernel type listed but not available for a dataset counts as outside). A refused call leaves the object usable for later valid calls.",
 ["inputs","configurations"],"all selector strings (symbolic: any string not in the documented set), all operations with a selector",
 "Tests try one wrong value on some of the operations.",
 [SC,BF,LS,ST,KS,"pytspl/io/dataset_loader.py"],[("get_component_eigenpair, get_component_flow",SC),("get_p_matrix, get_component_coefficients",BF),("_get_serializer",KS),("load_dataset","pytspl/io/dataset_loader.py")],["ValueError or result"])
prop("C38","GP training and prediction are the ones the method states",
 "Training performs exactly the requested number of optimiser steps on the training data, each one gradient step of the stated learning rate that decreases the negative marginal likelihood with freshly computed gradients (zero steps leave the parameters unchanged; the default optimiser takes a first step of its learning rate against the sign of the gradient), keeps the given model as the trainer's model, and continues from the reached parameters when called again - also after a prediction. The model built for a kernel has as prior the given mean and the scaled kernel covariance. Prediction on test edges returns the posterior of the trained model given the training targets with the likelihood's noise added to the variance, does not depend on the test targets, leaves the model in evaluation mode, and the reported MAE, MSE and R2 are those of the predicted mean against the test targets.",
 ["inputs","configurations","histories"],"all targets and start values, iteration counts, train/test index sets, five kernels, sequences of train and predict calls",
 "Tests run one training on the forex data and only look at the existence of the result.",
 [TR,"pytspl/hogde_gp/exact_gp.py"]+KF,[("train, predict, get_model_parameters",TR),("ExactGPModel",  "pytspl/hogde_gp/exact_gp.py")],["trainer.model","the returned distribution","printed metrics"],
 [("model mode","training or evaluation mode of model and likelihood",TR)])
prop("C39","Filter frequency plots show the recorded response at its own frequencies",
 "The desired-response plot of the denoising filter draws exactly one curve, 1/(1 + mu lambda) of the last parameter over the eigenvalues of the operator, point by point at the eigenvalue it belongs to. The Chebyshev series plot draws the logistic function with the given cut-off and steepness and its Chebyshev approximation with the given number of points on [0, estimated largest eigenvalue], both at the eigenvalues of the chosen operator. The frequency response plots draw the coordinates of the true component and of the estimate of the largest filter in the eigenvectors of their component, each at its own eigenvalue, also when the filter was run several times before.",
 ["inputs","configurations","histories"],"all flows, parameters, operators, components and filter sizes on the bound family of complexes, repeated runs",
 "The plot functions of the filters are not tested beyond not failing.",
 [EF,CH,BF,EIG],[("plot_desired_frequency_response",EF),("plot_chebyshev_series_approx, plot_frequency_response_approx",CH)],["the points handed to the drawing library"])
prop("C40","Bundled data set loaders assemble the complex the files describe",
 "For whatever content the files of a bundled data set have (within its format), the loader - called directly or through load_dataset - returns a complex with exactly the edges of the file in its order and stored direction (the columns of the incidence table, the rows of the edge list or the columns of the pickled incidence matrix), all nodes, including ones without edges, coordinates for every node, the triangles of the data set (those of the triangle incidence table, or where there is none the triangles of the graph), and a flow that gives every edge the value the file gives it, in edge order; for the water network, the heads of the nodes followed by the Hazen-Williams head losses of the edges with the sign of the flow.",
 ["inputs","configurations"],"all file contents of the stated format: values, coordinates, directions, orders; every bundled data set with such a loader",
 "Tests load the shipped files only, all sorted and with ascending directions, and compare counts.",
 ["pytspl/io/dataset_loader.py","pytspl/io/data_loaders/forex_loader.py","pytspl/io/data_loaders/lastfm_loader.py","pytspl/io/data_loaders/paper_loader.py","pytspl/io/data_loaders/wsn_loader.py",NR],
 [("load_dataset","pytspl/io/dataset_loader.py"),("load_forex_data","pytspl/io/data_loaders/forex_loader.py"),("load_wsn_data","pytspl/io/data_loaders/wsn_loader.py")],["the returned complex, coordinates and flow"])
prop("C41","Complexes, filters, kernels and files never influence one another",
 "Every answer about a complex - query, decomposition, filter run, trend filter, Gaussian-process preparation, kernel, drawing - and everything built or read from a list or file depends only on that object's own data and the arguments of the call: it is the same as in a fresh process, no matter which other complexes, filters, kernels or files were created, used or read before, in particular ones of exactly the same size with other directions, edge order, triangles, node numbering or features. Using one object never changes the state or the earlier results of another, and objects created with default arguments share nothing.",
 ["histories","inputs"],"all pairs of complexes, files and flows, all orders of creation and use of public operations",
 "Each test module works on one complex in one process, so state shared through classes, modules, caches or default arguments cannot be seen.",
 [SC,SB,EIG,HD,BF,EF,LS,GR,CH,ST,TR,PL,NR,GEN]+KF,[("all public operations",SC),("SCBuilder",SB),("history",BF),("eigenpairs",KF[0])],["results of the same call after use of other objects and in freshly loaded modules"])
prop("C42","Printed reports state the values that were computed",
 "What the operations print agrees with what they compute and record: the denoising filter prints one line per parameter with that parameter and its error; the polynomial filters one line per filter size, counted from zero, with the error (Chebyshev: also the filter error) of that size; the trend filters one line per noise level (in dB, as given) or observation ratio with the mean error and correlation of that level, and the l2 filter the mean error of its noisy flows; training one line per iteration, counted from one out of the requested number, with the loss before that step; the summary of a complex and the data set loader the true counts, shape and dimension; the Gaussian-process preparation the true shapes.",
 ["inputs","configurations"],"all flows, parameters, filter sizes, noise levels, realisations and complexes",
 "No test looks at the output.",
 [SC,BF,EF,LS,GR,CH,ST,TR,"pytspl/io/dataset_loader.py"],[("print_summary",SC),("denoise",EF),("apply",CH),("denoising_l2_regularizer",ST),("train",TR),("load_dataset","pytspl/io/dataset_loader.py")],["standard output next to the recorded results"])
prop("C43","Results do not depend on how the complex is written down",
 "Writing the same complex differently - edges stored in the other direction, edges or triangles listed in another order, the corners of a triangle listed in another order, nodes numbered differently - and the same flow accordingly (a value changes its sign with the direction of its edge and moves with its position) changes results only accordingly: all matrices, divergence, curl, shifts, component flows, the spaces spanned by the component eigenvectors, embedding energies, eigenvalues, ideal operators, denoising and least-squares filters with their estimates, errors and frequency responses, trend-filter operators, kernels, Gaussian-process preparation. Filters that rest on the estimated largest eigenvalue (grid-based, Chebyshev) keep this under renumbering and reordering.",
 ["inputs","configurations"],"all flows; all complexes; all choices of directions, orders and node numbers",
 "Tests use one complex with sorted, ascending edges and compare with numbers recorded for that way of writing it.",
 [SC,EIG,HD,BF,EF,LS,GR,CH,ST,TR]+KF,[("incidence_matrix",SC),("get_component_flow",SC),("denoise",EF),("get_shift_operator",ST),("get_eigenpairs",TR)],["results for two ways of writing one complex"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P:
        if len(p["title"])>80: print("LONG",p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
