import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
sp="russell_sparse/src/"
p("S01","Triplet sparse matrix means the sum of its entries after any history",
 "After any sequence of inserting, clearing, assigning, accumulating scaled copies of other triplet matrices and attaching a constraint block, a triplet matrix (real or complex, full or stored as one triangle) denotes exactly the sum of all entries put since the last clearing, mirrored when it is stored as a triangle. Its dense form, its products with vectors (plain, scaled, accumulating and transposed) and its entry counts all agree with that one matrix. An operation that is refused (index out of range, capacity exceeded, wrong triangle, incompatible dimensions or storage) reports an error and leaves the matrix unchanged, except that an operation putting several entries may already have put some of them when the capacity runs out.",
 ["histories","inputs","configurations"],"every sequence of building operations, every dimension and capacity, every symmetry/storage kind, real and complex values, including duplicates, zeros and explicit refusals",
 "Unit tests replay a handful of fixed matrices with one or two operations each; histories that mix resets, duplicates, triangle storage, scaled accumulation and refused operations are never composed.",
 [sp+"coo_matrix.rs",sp+"complex_coo_matrix.rs",sp+"enums.rs"],
 [("put / reset / assign / add / put_lagrange_block",sp+"coo_matrix.rs"),("to_dense, mat_vec_mul, mat_vec_mul_update, mat_t_vec_mul",sp+"coo_matrix.rs"),("assign_real / add_real",sp+"complex_coo_matrix.rs")],
 [("indices_i, indices_j, values, nnz","the triplets currently denoted",sp+"coo_matrix.rs")],["as_dense","mat_vec_mul","get_nnz","Result of every call"])
p("S02","Compressed column/row matrices denote the triplets they were made from",
 "A compressed-column or compressed-row matrix made from a triplet matrix, refreshed from another triplet matrix with the same shape, or converted from the other compressed form denotes the same matrix as its source: same dense form, same products with vectors. Its compressed storage is well formed: pointers start at zero, never decrease and end at the number of stored entries, indices within a column/row are strictly increasing and inside the matrix, duplicates are summed. Requests with an incompatible source are refused.",
 ["histories","inputs","configurations"],"every triplet content and insertion order (duplicates, empty rows/columns, cancelling entries), every symmetry/storage kind, real and complex, every chain of conversions and refreshes",
 "Tests convert a few sample matrices once; refreshing with different duplicate patterns or insertion orders and chained conversions across storage kinds are not exercised.",
 [sp+"csc_matrix.rs",sp+"csr_matrix.rs",sp+"coo_matrix.rs"],
 [("from_coo / update_from_coo / from_csr",sp+"csc_matrix.rs"),("from_coo / update_from_coo / from_csc",sp+"csr_matrix.rs"),("to_dense, mat_vec_mul",sp+"csc_matrix.rs, "+sp+"csr_matrix.rs")],
 [("pointers, indices, values","compressed storage",sp+"csc_matrix.rs")],["get_col_pointers/get_row_indices/get_values","as_dense"])
p("S03","Sparse linear solver follows its lifecycle and solves the last factorized matrix",
 "For any order of calls, a solve before a successful factorization is refused, later factorizations that change the dimension, number of entries, symmetry or options are refused, right-hand sides and unknowns of the wrong length are refused, and a refused call never changes what a later accepted call returns. Every accepted solve returns the solution of the system whose matrix was given to the last successful factorization, for real and complex matrices, every storage kind and every solver option; a structurally or exactly singular matrix is never reported as factorized and solved. The determinant, when requested at the first factorization, is that of the last factorized matrix, and the verification record states the true norms of the matrix, the product and the residual.",
 ["histories","inputs","configurations"],"every interleaving of factorize and solve calls with valid, singular and incompatible arguments, every storage kind and option of the always-built direct solver, real and complex",
 "Tests run factorize-then-solve on one matrix and check each error message alone; histories with several factorizations, refused calls in between and different options are not explored.",
 [sp+"solver_umfpack.rs",sp+"complex_solver_umfpack.rs",sp+"lin_solver.rs",sp+"complex_lin_solver.rs",sp+"verify_lin_sys.rs","russell_sparse/c_code/interface_umfpack.c","russell_sparse/c_code/interface_complex_umfpack.c"],
 [("factorize / solve / compute",sp+"solver_umfpack.rs"),("initialize/factorize/solve C interface","russell_sparse/c_code/interface_umfpack.c"),("VerifyLinSys",sp+"verify_lin_sys.rs")],
 [("initialized, factorized, initialized_sym/ndim/nnz","solver phase and fixed structure",sp+"solver_umfpack.rs")],["factorize/solve results","get_determinant via stats","VerifyLinSys fields"])
p("S04","Writing and reading a sparse matrix file preserves the matrix",
 "Reading a file written from any sparse matrix (triplet, compressed column or row; real or complex; any storage kind) gives back the same matrix, except that entries not larger in magnitude than the writing tolerance are left out and the symmetric half is handled as requested (kept, swapped to the other triangle, or expanded). The header of a written file states the dimensions and the exact number of data lines that follow, and the visualisation file lists every entry of the whole matrix. A file whose header, counts or indices are inconsistent is rejected, never silently read as a different matrix.",
 ["inputs","configurations","fault_sequences"],"every matrix content and storage kind, every symmetric handling option, written files and hand-made files with comments, blank lines and inconsistent headers or data",
 "Tests read a fixed set of fixture files and compare one or two written files with literals; write/read composition over contents, storage kinds and options is not covered.",
 [sp+"read_matrix_market.rs",sp+"write_matrix_market.rs",sp+"csc_matrix.rs",sp+"csr_matrix.rs",sp+"coo_matrix.rs"],
 [("read_matrix_market / MatrixMarketData",sp+"read_matrix_market.rs"),("write_matrix_market",sp+"write_matrix_market.rs")],None,["files in a scratch directory","CooMatrix::from_matrix_market"])
od="russell_ode/src/"
p("O01","ODE runs advance contiguously from start to end and account for every step",
 "A run that reports success has moved from the initial to the final station by contiguous accepted steps in one direction and ends exactly at the final station with the state being the last accepted one; with fixed stepping it takes exactly the requested equal steps, and with adaptive stepping no step grows by more than the allowed factor, a step following a rejected attempt does not grow, and rejected attempts never alter the state. A run that cannot do so (too many steps, step size too small, non-finite or diverging values, failing user functions, invalid arguments) reports an error. The published counters equal what the user-supplied functions and step monitors actually observed (reference evaluations made for a numerical Jacobian aside).",
 ["histories","configurations","inputs","fault_sequences"],"every method, stepping mode, step limits, tolerances, direction of a system's stiffness, and every point at which a user function fails or a monitor asks to stop",
 "Tests integrate fixed benchmark problems with default limits and compare final values; fault points, step-limit exhaustion, odd step ratios and counter/observation agreement are not varied.",
 [od+"ode_solver.rs",od+"explicit_runge_kutta.rs",od+"euler_forward.rs",od+"euler_backward.rs",od+"radau5.rs",od+"workspace.rs",od+"stats.rs",od+"params.rs",od+"detect_stiffness.rs"],
 [("OdeSolver::solve",od+"ode_solver.rs"),("step / accept / reject of each method",od+"explicit_runge_kutta.rs, "+od+"radau5.rs, "+od+"euler_backward.rs"),("Stats counters",od+"stats.rs")],
 [("h, h_new, n_accepted, n_rejected, follows_reject_step","stepping state",od+"workspace.rs")],["Result of solve","output arrays","system callbacks","stats()"])
p("O02","ODE output holds exactly the requested stations with the run's values",
 "With recording enabled, the step record holds the initial state and every accepted step, in order and once, and the dense record holds exactly the requested stations inside the integration interval (with a uniform spacing: the initial station, the interior multiples of the spacing and the final station) with values interpolating the accepted steps. Callbacks are called once per recorded station in the same order, and a callback asking to stop ends the run without recording anything further. Recording or not recording never changes the computed solution, and recordings made of one run contain nothing from an earlier run.",
 ["configurations","histories","inputs"],"every method that supports the requested output, every set of stations (uniform spacing, explicit list, including stations at the ends and many per step), selections of components, stop requests at any station",
 "Tests check a few output configurations on fixed problems; station placement relative to step boundaries, stop points and repeated runs with one output object are not enumerated.",
 [od+"output.rs",od+"ode_solver.rs",od+"erk_dense_out.rs",od+"radau5.rs",od+"explicit_runge_kutta.rs"],
 [("Output::initialize / execute / last",od+"output.rs"),("dense_output",od+"erk_dense_out.rs, "+od+"radau5.rs")],
 [("step_x, step_y, dense_x, dense_y, dense_index","recorded data",od+"output.rs")],["out.step_x/step_h/step_y","out.dense_x/dense_y","callbacks"])
p("O03","ODE results depend only on the inputs, not on earlier runs or storage choices",
 "Running the same initial-value problem with the same solver object again, or after any other run (successful, failed or stopped) and any change and restoration of the parameters, gives bit-for-bit the result of a freshly created solver, with the same counters. Supplying solver options explicitly, running the solvers concurrently or in one thread, storing a symmetric Jacobian or mass matrix as such or as a general one, or letting the Jacobian be computed numerically, does not change the solution beyond the requested accuracy, and storage the linear solver cannot take is refused.",
 ["histories","configurations","schedules"],"every sequence of runs on one solver object (different intervals, modes, failures), every implicit method option and storage kind",
 "Tests nearly always use a fresh solver for each run and one Jacobian storage; state kept between runs (cached Jacobians, factorizations, controller memory) is invisible to them.",
 [od+"ode_solver.rs",od+"radau5.rs",od+"euler_backward.rs",od+"explicit_runge_kutta.rs",od+"workspace.rs",od+"system.rs",od+"params.rs"],
 [("Workspace::reset, initialize of each method",od+"workspace.rs, "+od+"radau5.rs"),("reuse of Jacobian and factorization",od+"radau5.rs"),("update_params",od+"ode_solver.rs")],
 [("reuse flags, theta, eta, h_prev, error memory","history carried inside the method",od+"radau5.rs")],["solve results of two solvers compared bit by bit"])
p("O04","Every ODE method integrates the problems its order makes exact",
 "Every explicit and implicit method integrates y' = p(x) with a polynomial right-hand side of degree below its stated order exactly (up to rounding), for any interval and step sequence, and equally for linear systems coupled through a constant mass matrix; dense output reproduces the same polynomials at the order the interpolant promises. For linear constant-coefficient problems one step multiplies the state by the method's stability polynomial or rational function of stated order.",
 ["inputs","configurations","programs"],"every method, every polynomial coefficient vector, interval, step size and mass matrix",
 "Tests compare selected problems against stored reference numbers at tolerances that hide wrong low-weight coefficients and untested combinations (mass matrix with fixed stepping, backward intervals, dense stations).",
 [od+"explicit_runge_kutta.rs",od+"radau5.rs",od+"euler_backward.rs",od+"euler_forward.rs",od+"erk_dense_out.rs",od+"constants.rs",od+"enums.rs"],
 [("Butcher tableaux",od+"constants.rs"),("stage loop",od+"explicit_runge_kutta.rs"),("Newton iteration",od+"radau5.rs")],None,["solve results","dense records"])
p("O05","Stiffness is reported when the step signals say so, and only then",
 "With stiffness detection enabled in a method that offers it, every accepted step after the configured number of skipped first steps counts as a stiff signal when the product of the step size and the estimated spectral radius (exact for linear problems) lies above the stability limit of the method; stiffness is detected at the step that completes the configured number of signals, provided the configured number of consecutive steps without a signal has not made the count start again. A detection ends the run with an error or, if so configured, is only recorded with the number of the accepted step and the station at which the first of its signals began. Nothing is detected or recorded when the option is off, in methods without it, or as a remnant of an earlier run.",
 ["histories","configurations","inputs"],"every sequence of signals, every setting of the numbers of skipped, ratifying and ignored steps, equal and adaptive stepping, runs following one another on one solver",
 "Tests run two stiff benchmark problems with the default settings and compare one detection station; the counting over arbitrary signal patterns, settings and repeated runs is not enumerated.",
 [od+"detect_stiffness.rs",od+"explicit_runge_kutta.rs",od+"output.rs",od+"workspace.rs",od+"params.rs"],
 [("detect_stiffness",od+"detect_stiffness.rs"),("estimate of h rho in accept",od+"explicit_runge_kutta.rs"),("recording in Output::execute",od+"output.rs")],
 [("stiff_n_detection_yes, stiff_n_detection_no, stiff_x_first_detect","counters of the detector",od+"workspace.rs")],["Result of solve","out.stiff_step_index/stiff_x/stiff_h_times_rho"])
p("O06","ODE parameters are checked on entry and decide the run",
 "A solver is made, or its parameters are replaced, only if every parameter lies in its documented range and the method stays the one the solver was made for; a refusal is an error that leaves the solver working exactly as before. Tolerances below the allowed minimum are refused, other setters change only what they name, and the defaults of every method are in range. A run depends on nothing but the method, the parameters last accepted and the problem: a solver that reached them by updates gives the same result and counters as one made with them.",
 ["configurations","histories"],"every parameter at, inside and outside the ends of its range, for every method, alone and combined, and every history of setting, making, updating and running",
 "Tests try a few wrong values right after construction; refused and accepted updates between runs and the ends of all ranges are not enumerated.",
 [od+"params.rs",od+"ode_solver.rs",od+"constants.rs"],
 [("validate, set_tolerances",od+"params.rs"),("OdeSolver::new, update_params",od+"ode_solver.rs")],
 [("params","parameters of the solver",od+"ode_solver.rs")],["Result of new and update_params","final state and counters of solve"])
nl="russell_nonlin/src/"
p("N01","Continuation runs follow the step protocol and stop where asked",
 "A numerical-continuation run reports success only when the requested stop criterion (number of attempted steps, bound on the parameter, a component or a norm) is met by the final state, the monitor asked to stop, or the allowed steps or given increments are used up, and it stops at the first accepted state that meets the criterion. Accepted states follow one another without gaps and, in arclength mode, keep moving along the curve in the same direction and are never predicted beyond the bound on a component; failed attempts leave the state and parameter untouched and shrink the step, the step is not enlarged by the step after a failure, and prescribed increments are taken exactly. Non-finite residuals, errors of user functions and runs that cannot continue are reported as a failure status or an error, and the counters equal what the user functions observed.",
 ["histories","configurations","fault_sequences"],"every stop criterion, direction, increment policy, method (natural or arclength), predictor and every pattern of failing or non-converging attempts",
 "Tests run fixed curves that never need a retry at an inconvenient attempt; stop criteria combined with rejected attempts and faults in user functions are not explored.",
 [nl+"solver.rs",nl+"solver_natural.rs",nl+"solver_arclength.rs",nl+"enums.rs",nl+"delta_lambda.rs",nl+"workspace.rs",nl+"stats.rs",nl+"config.rs"],
 [("Solver::solve loops",nl+"solver.rs"),("Stop::now / validate",nl+"enums.rs"),("step / accept / reject",nl+"solver_natural.rs, "+nl+"solver_arclength.rs")],
 [("h, n_accepted, n_rejected, auto","stepping state",nl+"workspace.rs")],["Status","u, l at return","user callbacks","Output arrays"])
p("N02","Every accepted continuation state satisfies the equations",
 "Every state a continuation run accepts, records or returns after success satisfies the nonlinear system at the accompanying parameter within the configured tolerance, whatever the predictor, bordering scheme, symmetry storage, linear solver parameters or step control. With prescribed increments the parameter of each recorded state is exactly the prescribed one. A run on a solver that was used before gives the same states, counters and status as on a fresh one.",
 ["inputs","configurations","histories"],"families of curves with folds and bifurcation-free branches, all solver options, starting directions and histories of earlier runs on the same solver",
 "Tests compare final points of textbook curves; residual of every intermediate recorded state over the option space is not checked.",
 [nl+"solver_natural.rs",nl+"solver_arclength.rs",nl+"system.rs",nl+"iteration_error.rs",nl+"config.rs"],
 [("corrector iteration and convergence test",nl+"iteration_error.rs"),("bordering solution",nl+"solver_arclength.rs")],None,["Output arrays","u,l at return"])
p("N03","Continuation keeps the user's secondary state and records consistent",
 "User-held secondary state is saved before each adaptive step, restored whenever that step fails (also when the failure ends the run), updated exactly with the states the iteration visits, and at every accepted state it is that of the accepted state. The output record holds the initial state and each accepted step, once and in order, with matching parameter, step size and selected components, and nothing after a monitor asked to stop.",
 ["histories","fault_sequences","configurations"],"every pattern of accepted and failing attempts, including failures in each user function, in adaptive and prescribed modes",
 "Tests use secondary-state callbacks on one smooth problem; the pairing of save, restore and update under failures is not examined.",
 [nl+"solver.rs",nl+"solver_natural.rs",nl+"solver_arclength.rs",nl+"output.rs",nl+"system.rs"],
 [("backup/restore/prepare/update callbacks",nl+"solver.rs"),("Output::initialize / execute",nl+"output.rs")],None,["callback log","Output arrays"])
p("N04","Continuation settings hold what was set and bad ones are refused",
 "After any sequence of calls each continuation setting reads back the value of the last call that names it, combined calls write exactly the settings they stand for, and all other settings keep their values. Selecting one of the published step-size filters stores its published coefficients. A solver is made from the settings exactly when every limit, tolerance and factor lies in its documented range, and the defaults do.",
 ["configurations","histories"],"every setting with values at, inside and outside the ends of its range and every sequence of setters",
 "Tests set each value once on a fresh object; later calls undoing or disturbing earlier ones, the table of filters and the ends of the ranges are not enumerated.",
 [nl+"config.rs",nl+"solver.rs",nl+"enums.rs"],
 [("setters, getters and validate",nl+"config.rs"),("coefficients of the filters",nl+"enums.rs")],None,["getters","Result of Solver::new"])
pd="russell_pde/src/"
p("D01","Equation numbering and grid topology are consistent partitions",
 "For any set of prescribed unknowns, the numbering of unknown and prescribed equations is a partition of all equations into two ascending, gap-free, mutually inverse numberings, and renumbering depends only on the last given set. On any grid the point index and its grid position are inverse maps, the side and corner queries agree with the coordinates, and any history of boundary settings leaves each side with the last condition given to it, periodic axes excluding values on their sides and the bottom and top sides deciding at shared corners.",
 ["histories","inputs","configurations"],"every grid size and spacing, every subset of prescribed equations, every sequence of boundary-condition settings including periodic sides and shared corners",
 "Tests use two or three grids and one boundary setting each.",
 [pd+"equation_handler.rs",pd+"grid_1d.rs",pd+"grid_2d.rs",pd+"essential_bcs_1d.rs",pd+"essential_bcs_2d.rs",pd+"natural_bcs_1d.rs",pd+"natural_bcs_2d.rs"],
 [("EquationHandler::recompute",pd+"equation_handler.rs"),("Grid2d side lists",pd+"grid_2d.rs"),("EssentialBcs2d::set/set_periodic",pd+"essential_bcs_2d.rs")],None,["public getters"])
p("D02","Finite-difference systems equal the stated stencil under any boundary setting",
 "On every grid and for every combination of prescribed-value, flux and periodic sides, the matrices and right-hand sides assembled by the finite-difference operators are exactly the stated stencil applied at every equation, partitioned by the equation numbering; the full and triangular storages denote the same matrix. The two solution strategies (eliminating the prescribed values, or imposing them with multipliers) and a direct evaluation of the stencil on the returned field agree.",
 ["inputs","configurations"],"every grid size, spacing, diffusion coefficients, extra reaction coefficient, boundary combination including mixed corners, source and boundary functions",
 "Tests solve a few manufactured problems on fixed grids and literal matrices for tiny grids; boundary combinations at corners and periodic/flux mixes are not enumerated.",
 [pd+"fdm_1d.rs",pd+"fdm_2d.rs",pd+"equation_handler.rs",pd+"essential_bcs_2d.rs",pd+"natural_bcs_2d.rs"],
 [("loop_over_molecule, get_matrices_sps, get_matrices_lmm",pd+"fdm_2d.rs"),("get_vectors_sps/lmm, solve_sps, solve_lmm",pd+"fdm_2d.rs")],None,["assembled CooMatrix contents","solutions"])
p("D03","Spectral collocation reproduces polynomial solutions with any boundary setting",
 "The spectral-collocation operators reproduce, up to rounding, every polynomial field whose degree does not exceed the grid degree, for every combination of prescribed-value and flux sides, diffusion coefficients, reaction coefficient and domain, by both solution strategies; the computed fluxes are those of the same polynomial.",
 ["inputs","configurations"],"every polynomial degree up to the grid degree, domain, coefficients, boundary combination",
 "Tests solve a handful of analytical problems with fixed boundary types.",
 [pd+"spc_1d.rs",pd+"spc_2d.rs",pd+"grid_1d.rs",pd+"grid_2d.rs","russell_lab/src/algo/interp_lagrange.rs"],
 [("get_matrices_sps/lmm, solve_sps/lmm, calculate_flow_vectors",pd+"spc_2d.rs"),("dd1/dd2 differentiation matrices","russell_lab/src/algo/interp_lagrange.rs")],None,["solutions, flow vectors"])
p("D04","Curvilinear maps interpolate their boundaries and differentiate consistently",
 "A transfinite map reproduces each given boundary curve or surface exactly on its side, agrees at shared corners, and its first and second derivatives are those of the map itself; metrics computed from it satisfy the identities that define them. On maps of straight boundaries the map is the multilinear interpolation of the corners.",
 ["inputs","configurations"],"every set of compatible boundary curves (polynomial families), every reference point",
 "Tests evaluate fixed sample geometries at a few points.",
 [pd+"transfinite_2d.rs",pd+"transfinite_3d.rs",pd+"transfinite_samples.rs",pd+"metrics.rs",pd+"spc_map_2d.rs"],
 [("point / point_and_derivs",pd+"transfinite_2d.rs, "+pd+"transfinite_3d.rs"),("Metrics::calculate_2d",pd+"metrics.rs")],None,["returned points and derivatives"])
lb="russell_lab/src/"
p("L01","Dense vector and matrix operations compute their stated formulas",
 "Every dense vector, matrix and matrix-vector operation (copy, scale, add, update, inner/outer products, products with optional transposition, symmetric and Hermitian rank updates, row/column sums, band conversion, real/complex zipping, norms and scaled differences), for any dimensions including rectangular and empty ones, any scaling factors and any previous content of the output, computes exactly its stated formula. Incompatible dimensions are refused without touching the output; sequences of operations on shared operands compose accordingly.",
 ["inputs","histories","programs"],"every program of operations over a pool of integer-valued vectors and matrices (exact in floating point), real and complex, all shapes and scalars, both triangles",
 "Tests check one or two literal operands per function, usually square or with alpha=1 and beta=0.",
 [lb+"vector/*.rs",lb+"matrix/*.rs",lb+"matvec/*.rs",lb+"internal/*.rs",lb+"small/*.rs"],
 [("BLAS wrappers with row/column-major flags",lb+"matrix/mat_mat_mul.rs"),("array_plus_op, array_minus_op, array_plus_opx",lb+"internal")],None,["operands after each call","Result"])
p("L02","Dense factorizations and solvers reconstruct their input",
 "Inverses, determinants, pseudo-inverses, linear solves, Cholesky factors, singular values and (generalised, symmetric, Hermitian, real or complex) eigenpairs satisfy their defining equations for every admissible input: product with the inverse is the identity, factors multiply back to the input, eigenpairs satisfy their equation and are returned in the stated order. Singular or inadmissible inputs are reported as errors.",
 ["inputs","configurations"],"every small integer matrix (including singular, defective, repeated and complex-pair spectra, rectangular shapes), both triangle choices, sizes around the special-cased ones",
 "Tests compare a few reference matrices; degenerate spectra, special-cased sizes and triangle choices are sampled thinly.",
 [lb+"matrix/mat_inverse.rs",lb+"matrix/mat_pseudo_inverse.rs",lb+"matrix/mat_svd.rs",lb+"matrix/mat_eigen.rs",lb+"matrix/mat_eigen_sym.rs",lb+"matrix/mat_eigen_sym_jacobi.rs",lb+"matrix/mat_cholesky.rs",lb+"matrix/mat_gen_eigen.rs",lb+"matvec/solve_lin_sys.rs",lb+"small/num_recipes_gaussj.rs",lb+"internal/dgeev_data.rs"],
 [("closed forms for small sizes and LAPACK calls",lb+"matrix/mat_inverse.rs"),("complex-pair unpacking",lb+"internal/dgeev_data.rs")],None,["returned factors"])
p("L03","Sorting, ordering and extremum queries return what their definition says",
 "Tuple sorts return the ascending rearrangement of their elements; argument sorts return a permutation that orders the keys lexicographically, keeping ties in original order; minimum/maximum and largest-magnitude queries return the first extremal index; valley and peak detection returns exactly the interior turning points in order.",
 ["inputs"],"every sequence of values with ties, plateaus, negative and repeated entries, every length including empty",
 "Tests use a few fixed lists without systematic ties and plateaus.",
 [lb+"base/sort.rs",lb+"base/find_min_max.rs",lb+"base/find_valleys_and_peaks.rs",lb+"base/auxiliary_blas.rs"],
 [("argsort_f64/argsort2_f64/argsort3_f64, sort2/3/4",lb+"base/sort.rs"),("find_valleys_and_peaks",lb+"base/find_valleys_and_peaks.rs")],None,["returned indices"])
p("L04","Text tables and matrices are read as written or rejected",
 "Reading a table or matrix from a text file gives, for every layout of spaces, comments and blank lines, exactly the columns and numbers in the file under the right labels, and ragged rows, missing or unparsable values and duplicated labels are rejected. Generated text (matrix and vector dumps in other languages' syntax, visualisation files, formatted numbers and durations) contains exactly the data, so that reading the numbers back restores the values.",
 ["inputs","fault_sequences"],"every table content and whitespace/comment layout, every single corruption of a well-formed file",
 "Tests read a few fixture files and a few malformed ones.",
 [lb+"base/read_table.rs",lb+"base/formatters.rs",lb+"matrix/num_matrix.rs",lb+"matrix/mat_to_numpy.rs",lb+"matrix/mat_to_mathematica.rs",lb+"matrix/mat_to_static_array.rs",lb+"matrix/mat_write_vismatrix.rs",lb+"vector/vec_to_static_array.rs"],
 [("read_table / read_data / from_text_file",lb+"base/read_table.rs, "+lb+"matrix/num_matrix.rs")],None,["returned table, error, text"])
p("L05","Root finding and minimisation return certified brackets and points",
 "The root finder returns a point where the function is zero or changes sign within tolerance and inside the given bracket, never evaluating outside the bracket; the minimum-bracketing search returns an ordered triple whose middle value is not above its ends, all three values being ones actually evaluated; the minimiser returns a point inside its bracket whose value is the lowest it evaluated up to its tolerance. Failures (no sign change, iteration limit, failing user function) are reported, and the published counters equal the observed evaluations.",
 ["inputs","fault_sequences","configurations"],"every function given by a table of values or a polynomial family, every bracket, every evaluation at which the user function fails, every iteration limit",
 "Tests run ten textbook functions and compare the final point.",
 [lb+"algo/root_finder.rs",lb+"algo/root_finder_brent.rs",lb+"algo/min_bracketing.rs",lb+"algo/min_solver.rs",lb+"algo/stats.rs",lb+"algo/bracket.rs"],
 [("Brent iterations",lb+"algo/root_finder_brent.rs, "+lb+"algo/min_solver.rs"),("MinBracketing::basic",lb+"algo/min_bracketing.rs")],None,["evaluation log","returned values","stats"])
p("L06","Newton solver and line search accept only what their criteria allow",
 "The Newton solver reports convergence only at a point whose residual meets the configured criterion, and the line search returns only steps that satisfy sufficient decrease and never increase the function; both report iteration limits, divergence and failing user functions as errors. Numerical Jacobians and derivatives are exact for polynomials within the order of the difference formula and leave the point of evaluation as it was. Counters equal the evaluations the user functions observed, and the comparison helpers accept exactly the values within the given tolerance and reject non-finite ones.",
 ["inputs","fault_sequences","configurations"],"polynomial systems, every start, tolerance and limit, every evaluation at which a user function fails",
 "Tests run a few fixed systems from fixed starts.",
 ["russell_sparse/src/numerical_jacobian.rs",lb+"algo/newton_solver.rs",lb+"algo/line_search.rs",lb+"algo/num_jacobian.rs",lb+"check/deriv1_central.rs",lb+"check/deriv2_central.rs",lb+"check/approx_eq.rs",lb+"vector/vec_norm.rs"],
 [("NewtonSolver::solve",lb+"algo/newton_solver.rs"),("line_search",lb+"algo/line_search.rs")],None,["evaluation log","returned values","stats"])
p("L07","Quadrature, interpolants and splines reproduce polynomials after any history",
 "Gauss quadrature integrates polynomials exactly over any interval with an antisymmetric sign; polynomial interpolants reproduce every polynomial up to their degree, with its derivatives, for every node family, and pass through the given data; splines interpolate end points, form a partition of unity with derivatives summing to zero, and agree between recursive and direct evaluation. Cubic equations are solved with all real roots counted once per multiplicity and straight lines fitted as the least-squares condition defines; an object used again after other calls or with new data gives the same result as a fresh one.",
 ["inputs","histories","configurations"],"every polynomial coefficient vector, node family, degree, knot vector and evaluation point, every sequence of re-use",
 "Tests compare selected functions with loose tolerances and one use per object.",
 [lb+"algo/quadrature.rs",lb+"algo/interp_lagrange.rs",lb+"algo/interp_chebyshev.rs",lb+"algo/bspline.rs",lb+"algo/linear_fitting.rs",lb+"algo/cubic.rs"],
 [("Quadrature::integrate",lb+"algo/quadrature.rs"),("InterpLagrange",lb+"algo/interp_lagrange.rs"),("InterpChebyshev",lb+"algo/interp_chebyshev.rs"),("Bspline",lb+"algo/bspline.rs")],None,["returned values"])
p("L08","Special functions satisfy their defining relations everywhere",
 "The special functions (gamma, log-gamma, beta, error functions and inverses, Bessel, elliptic, Chebyshev, Legendre and the elementary helper functions) satisfy their defining recurrences, symmetries, complement rules and known exact values over their whole domain, across the boundaries between internal approximation ranges, and return the stated limits at poles, zeros, infinities and not-a-number.",
 ["inputs"],"every argument on dense lattices covering all internal ranges and signs, every order",
 "Tests compare tables of reference values at fixed points.",
 [lb+"math/*.rs"],[("range-split rational approximations",lb+"math/bessel_0.rs, "+lb+"math/erf.rs, "+lb+"math/ln_gamma.rs"),("recurrences",lb+"math/bessel_n.rs, "+lb+"math/chebyshev.rs, "+lb+"math/legendre.rs")],None,["returned values"])
st="russell_stat/src/"
p("A01","Descriptive statistics match their definitions for every data set",
 "Counts in a histogram equal the number of data values in each half-open bin, accumulate over repeated counting and return to zero on reset; summary statistics, quantiles, quartiles, interquartile range and outliers are those defined by the data alone, independent of its order. Inputs without a defined answer are rejected.",
 ["inputs","histories"],"every data multiset (ties, constant, tiny, unsorted), every probability, every bin layout and counting history",
 "Tests use a few fixed data sets.",
 [st+"histogram.rs",st+"statistics.rs",st+"quantile.rs",st+"outliers.rs",st+"inter_quartile_range.rs",st+"quartiles.rs"],
 [("Histogram::count/reset",st+"histogram.rs"),("quantile",st+"quantile.rs"),("find_outliers",st+"outliers.rs")],None,["returned values"])
p("A02","Probability distributions are internally consistent",
 "For every distribution and admissible parameters the density is non-negative, the cumulative distribution is monotone from zero to one, its increments equal the integral of the density, the stated mean and variance are those of the density, and samples lie in the support and follow the distribution; inadmissible parameters are rejected. Sampling with the same random generator state is reproducible.",
 ["inputs","configurations"],"every distribution, parameter lattice and evaluation lattice over the support and outside it",
 "Tests compare a table of reference values for a few parameters.",
 [st+"distribution_*.rs",st+"probability_distribution.rs"],[("pdf/cdf/mean/variance/sample",st+"distribution_normal.rs")],None,["returned values"])
tn="russell_tensor/src/"
p("T01","Tensor components survive every representation change",
 "Writing a second-, third- or fourth-order tensor through any setter (standard components, matrices, nested arrays, single entries, scaled copies, updates) in any of its storage forms and reading it back through any getter gives the same standard components; symmetric and plane forms accept exactly the component sets they can hold and reject all others.",
 ["inputs","histories","configurations"],"every component set, storage form and sequence of setting, updating, clearing and converting",
 "Tests use fixed sample tensors.",
 [tn+"tensor1.rs",tn+"tensor2.rs",tn+"tensor3.rs",tn+"tensor4.rs",tn+"enums.rs",tn+"constants.rs"],
 [("set_std_matrix/get_std/as_std_matrix/sym_set_std/update",tn+"tensor2.rs"),("component index maps",tn+"constants.rs")],None,["standard components"])
p("T02","Tensor operations equal index notation in every storage form",
 "Sums, contractions, dyadic and mixed products, transposes, deviators, inverses, determinants, squares, norms and the constant fourth-order tensors equal their index-notation formulas on standard components for every combination of admissible storage forms and scaling factors.",
 ["inputs","configurations"],"every integer component set (exact up to rounding), storage combination and scalar",
 "Tests use fixed sample tensors and one storage combination per case.",
 [tn+"operations_t2.rs",tn+"operations_t3.rs",tn+"operations_t4.rs",tn+"operations_mix1.rs",tn+"operations_mix2.rs",tn+"tensor2.rs",tn+"tensor4.rs"],
 [("unrolled component formulas",tn+"operations_mix2.rs"),("vector/matrix products on components",tn+"operations_mix1.rs")],None,["standard components of results"])
p("T03","Invariants, spectral forms, elasticity and derivatives are consistent",
 "Invariants computed from components, from principal values and from the octahedral coordinates agree; spectral decomposition composes back to the tensor; elastic stiffness and compliance are inverse to each other and reproduce the two- and three-dimensional constitutive relations; every derivative function equals the derivative of the function it belongs to.",
 ["inputs","configurations"],"every tensor on integer lattices, storage form, elastic constants, plane-strain/plane-stress",
 "Tests use a few sample stress states and one material.",
 [tn+"tensor2.rs",tn+"spectral2.rs",tn+"lin_elasticity.rs",tn+"derivatives_t2.rs",tn+"derivatives_t4.rs"],
 [("invariant_*",tn+"tensor2.rs"),("LinElasticity::calc_stress/get_modulus",tn+"lin_elasticity.rs"),("deriv1_*/deriv2_*",tn+"derivatives_t2.rs")],None,["returned values"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
print(len(P))
