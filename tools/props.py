import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    d["anchors"]["hook_needed"]=hook
    P.append(d)
L="russell_lab/src/"
p("L01","Dense kernels compute their mathematical definition at every size",
 "Every dense vector, matrix-vector and matrix-matrix kernel (add, update, scale, copy, inner/outer product, norms, transpose and rank-k products, band conversion; real and complex) returns exactly the value of its textbook formula for every size, shape and scalar factor, including empty and 1-sized operands and both sides of every native/BLAS or unrolling switch. Operands documented as inputs are never modified, operands with incompatible dimensions are refused with an error, and no norm or largest difference hides a NaN.",
 ["inputs","configurations"],"all operand shapes up to the bound (crossing every size switch), all kernels, all scalar factors from a small exact set, real and complex; integer-valued data so that every result is exact",
 "unit tests use a handful of hand-written sizes (mostly 2..4); the code switches algorithm on size (unrolled n<=8, n%4 remainders, native vs BLAS at 16), on zero dimensions, and on scalar factors, and no test walks the product of these",
 [L+"vector/",L+"matvec/",L+"matrix/",L+"internal/","russell_lab/c_code/interface_blas.c"],
 [("size switches between unrolled/native loops and BLAS",L+"internal/ (MAX_DIM_FOR_NATIVE_BLAS), vec_inner, vec_add, mat_add"),("dimension checks returning Err",L+"vector/*.rs, matvec/*.rs, matrix/*.rs")],
 obs=["return value and output operand of every public kernel","input operands after the call"])
p("L02","Dense solvers and factorizations satisfy their identities or report an error",
 "Whenever a dense linear solve, inverse, pseudo-inverse, Cholesky, SVD, or (symmetric, Hermitian, general, generalized) eigenvalue routine reports success, its outputs satisfy the defining identity of that decomposition (residual, orthogonality, ordering, determinant) to rounding accuracy. Exactly singular systems and matrices that are not positive definite are refused with an error rather than answered, and every non-singular well-scaled matrix is accepted.",
 ["inputs"],"every matrix of the enumerated families: all small-integer matrices of order 1..3, structured families (permutation, companion, circulant, tridiagonal, rank-deficient, repeated eigenvalues) up to order 9; real and complex",
 "tests check a few literature examples; closed forms for order 1..3, degenerate spectra, rank deficiency, zero pivots and complex-conjugate pair layouts are only reached by systematic enumeration",
 [L+"matrix/mat_inverse.rs",L+"matrix/mat_pseudo_inverse.rs",L+"matrix/mat_cholesky.rs",L+"matrix/mat_svd.rs",L+"matrix/mat_eigen.rs",L+"matrix/mat_eigen_sym.rs",L+"matrix/mat_eigen_sym_jacobi.rs",L+"matrix/mat_gen_eigen.rs",L+"matvec/solve_lin_sys.rs",L+"small/"],
 [("LAPACK info codes mapped to Err",L+"matrix/, "+L+"matvec/"),("closed-form small inverses and Gauss-Jordan",L+"small/, "+L+"matrix/mat_inverse.rs")],
 obs=["outputs of each routine recombined by a naive reference multiplication"])
p("L03","Containers and utility helpers agree with a plain-array model on any sequence",
 "Under any sequence of public operations a dense vector or matrix (real, integer or complex) holds exactly the elements a plain row/column array model holds, and its constructors, row/column extraction, conversions, equality of shape and display reflect those elements. Sorting, index-sorting, searching, grid generation and table/vector file reading return the ordered permutation, the true extreme or position, the requested points, and the data in the file - or an error, never a wrong answer or a partial result.",
 ["histories","inputs"],"all operation sequences up to the bound over all shapes up to the bound; all permutations with repetition of short arrays; all short token/line layouts of table files",
 "tests exercise each method once on a fixed example; interactions between resizing/filling/scaling/extracting and degenerate shapes, ties, duplicates, and odd file layouts are a product space",
 [L+"vector/num_vector.rs",L+"matrix/num_matrix.rs",L+"base/"],
 [("column-major index arithmetic",L+"matrix/num_matrix.rs"),("in-place sorting and argsort",L+"base/sort.rs, "+L+"base/as_array.rs"),("table parser",L+"base/read_table.rs")],
 obs=["element getters","as_data","Display output","returned collections"])
p("L04","Polynomial interpolants reproduce polynomials, derivatives and data exactly",
 "For every grid type and degree, the Lagrange and Chebyshev interpolants built from a polynomial of no higher degree return that polynomial's value, first and second derivative (and differentiation matrices) at every point of the domain, including at and next to the nodes and end points. Results do not depend on which evaluations were made before, and adaptive construction reports an error when the coefficients have not fallen below the tolerance within the allowed degree.",
 ["inputs","configurations","histories"],"all grid types x degrees up to the bound x evaluation points (every node, neighbours of nodes, end points, midpoints) x monomials; all short call histories",
 "tests pick one grid and smooth functions sampled away from nodes; node coincidence, degree 0/1, end points absent from the grid and stale caches after re-use need the product",
 [L+"algo/interp_lagrange.rs",L+"algo/interp_chebyshev.rs",L+"math/chebyshev.rs"],
 [("barycentric formula with node special case",L+"algo/interp_lagrange.rs"),("Clenshaw recurrence and discrete Chebyshev transform",L+"algo/interp_chebyshev.rs")],
 state=[("cached D1/D2 matrices and coefficients","depend on grid and degree",L+"algo/interp_lagrange.rs")],
 obs=["eval, eval_deriv1, eval_deriv2, d1/d2 matrices, estimate and transform outputs"])
p("L05","B-spline basis and curves obey the spline definition after any call history",
 "For every degree and clamped knot vector (with repeated knots) the basis functions returned at any parameter equal the Cox-de Boor definition, are non-negative, have local support and sum to one, their derivatives of every order equal the true derivatives, and curve points and curve derivatives equal the corresponding combination of control points including both end points. These answers are the same whatever sequence of evaluations or control-point changes preceded them and whichever of the alternative algorithms is requested.",
 ["inputs","histories"],"all clamped knot vectors over a small integer grid x degrees x parameters (knots, neighbours, midpoints, ends) x call histories up to the bound",
 "tests use two book examples; spans of zero length, the right end, derivative order above the degree, and reuse of internal tables between calls are not reached",
 [L+"algo/bspline.rs"],[("knot span search and triangular table",L+"algo/bspline.rs")],
 state=[("ndu table, current span, derivative control points","scratch shared between calls",L+"algo/bspline.rs")],
 obs=["basis values, derivative arrays, curve points"])
p("L06","Scalar and small numerical algorithms return answers meeting their tolerance",
 "Whenever a root finder, minimiser, bracketing routine, adaptive quadrature, Newton or line-search solver, cubic solver, linear fit or numerical derivative reports success, its answer satisfies the promised condition (function zero, local minimum inside the bracket, integral within tolerance, vanishing residual, sufficient decrease, all real roots, least-squares optimum, derivative value). Problems in the documented class succeed, and unsolvable or invalid input (no sign change, bad bracket, degenerate data) is refused with an error.",
 ["inputs","configurations"],"all functions of the enumerated families (polynomials with integer roots, shifted/scaled standard functions) x brackets/starting points x options",
 "tests run a fixed list of functions with one bracket each; reversed brackets, roots at end points, multiple roots, scaling and option combinations form the uncovered product",
 [L+"algo/root_finder.rs",L+"algo/min_solver.rs",L+"algo/min_bracketing.rs",L+"algo/quadrature.rs",L+"algo/newton_solver.rs",L+"algo/line_search.rs",L+"algo/cubic.rs",L+"algo/linear_fitting.rs",L+"algo/num_jacobian.rs",L+"check/"],
 [("convergence tests and iteration limits",L+"algo/*.rs"),("input validation",L+"algo/ (each solver)")],
 obs=["returned values and statistics"])
p("L07","Callback failures abort lab algorithms cleanly and counters tell the truth",
 "If a user-supplied function fails at any call, every algorithm that takes callbacks stops, returns exactly that error without calling the function again and without panicking, and the same solver object afterwards gives the same answer as a fresh one. On success the reported statistics equal the calls and iterations actually made, a limit of iterations is enforced exactly, and the user arguments are passed through unchanged; a function given for an interval is never evaluated outside of it.",
 ["fault_sequences","histories"],"every algorithm x every fault point (the k-th call of each callback, k=1..number of calls) x a follow-up successful use of the same object",
 "tests inject at most one error at the first call; each later call site has its own propagation path",
 [L+"algo/"],[("? propagation at every callback call site",L+"algo/*.rs"),("Stats counters",L+"algo/stats.rs")],
 state=[("Stats and solver workspaces","survive a failed call",L+"algo/")],obs=["returned error identity","call log of the callback","stats"])
p("L08","Special functions and polynomials agree with their definitions on every branch",
 "The special functions (gamma, log-gamma, beta, error functions and inverses, Bessel functions of all kinds and orders, elliptic integrals, Legendre/Chebyshev families, modulo, and the auxiliary sign/ramp/power/superquadric functions with their derivatives) agree with independently computed values, functional equations and limiting values to near machine accuracy over their whole domain, including branch boundaries, negative and extreme arguments, infinities and NaN.",
 ["inputs"],"a fixed lattice of arguments containing every branch boundary of the implementation and its floating-point neighbours, all orders up to the bound",
 "tests compare at sampled points; each function is a patchwork of dozens of argument intervals with separate coefficients and special cases",
 [L+"math/"],[("piecewise rational approximations and special-case dispatch",L+"math/*.rs")],obs=["returned values"])
S="russell_sparse/src/"
p("L09","Comparison helpers accept exactly what agrees; test functions are coherent",
 "The assertion helpers for numbers, arrays, vectors, matrices, complex data and derivatives pass exactly when lengths match and every component agrees within the tolerance, so a NaN, an infinity, a deviation at any single position or a wrong analytical derivative always panics. Each built-in test function has derivatives, roots, minima and integrals that are true of the function itself.",
 ["inputs"],"all pairs of values from a list with special values x tolerances; all lengths and shapes x position of one deviation x size on both sides of the tolerance; all polynomials of a family x wrong terms; every test function on a lattice",
 "the helpers judge every other test, so a helper that accepts too much makes the whole test suite silent; their own tests show a few accepted and refused pairs",
 [L+"check/",L+"algo/testing.rs"],
 [("comparison with tolerance, NaN and length checks",L+"check/*.rs"),("test function table",L+"algo/testing.rs")],
 obs=["whether the helper panics","values of f, f', f'', roots, minima and integrals"])
p("S01","COO, CSC and CSR forms always denote the same matrix as a dense model",
 "After any sequence of put, reset, assign, add, and other assembly operations, a sparse matrix in COO, CSC or CSR form (real or complex, general or with lower/upper/full symmetric storage) and every conversion or in-place update between forms denotes exactly the matrix obtained by summing the stored triples, with sorted duplicate-free compressed indices. Dense conversion, stored arrays, entry counts and matrix-vector products (plain, transposed, updating) agree with that matrix; refused operations leave the contents unchanged.",
 ["histories","inputs"],"all operation sequences up to the bound over all small shapes and symmetric storages, real and complex, with duplicates, explicit zeros and cancellation",
 "tests convert a fixed gallery of sample matrices once; repeated updates with different patterns, duplicates across rows, empty rows/columns and rectangular shapes are a combinatorial history space",
 [S+"coo_matrix.rs",S+"csc_matrix.rs",S+"csr_matrix.rs",S+"complex_coo_matrix.rs",S+"aliases.rs"],
 [("duplicate summation and double transposition",S+"csc_matrix.rs, "+S+"csr_matrix.rs (update_from_coo)"),("triangle checks",S+"coo_matrix.rs (put)")],
 state=[("nnz, pointers, indices, temp arrays","reused between updates",S+"csc_matrix.rs, csr_matrix.rs")],obs=["as_dense, getters, mat_vec_mul, write/Display"])
p("S02","Sparse constructors accept exactly the well-formed data and never panic",
 "Building a sparse matrix from raw arrays or dimensions succeeds exactly when the data describe a valid matrix (positive dimensions and capacity, consistent array lengths, monotone pointers starting at zero, in-range and sorted indices, square if symmetric, entries only in the declared triangle) and otherwise returns an error. It never panics, and an accepted matrix holds exactly the given data.",
 ["inputs"],"all pointer/index arrays with entries from a small range including negative and too-large values, all lengths up to the bound, all dimensions and symmetry flags",
 "tests list a few invalid inputs each tailored to one check; combinations that pass an earlier check and trip a later one are not enumerated",
 [S+"coo_matrix.rs",S+"csc_matrix.rs",S+"csr_matrix.rs"],[("argument validation",S+"*_matrix.rs (new, from)")],obs=["Ok/Err/panic of constructors"])
p("S03","Sparse direct solvers return the true solution over every factor/solve history",
 "For every history of factorize and solve calls on one solver object (real or complex, any supported ordering/scaling options and symmetric storage), a successful solve returns x with A x = b for the matrix most recently factorized, whatever was factorized or failed before, and the reported determinant and statistics belong to that matrix. Calls out of order, changed dimensions, entry counts or parameters, wrong sizes and singular matrices are reported as errors (any other change of structure is refused or solved correctly).",
 ["histories","inputs","configurations"],"all call sequences up to the bound over a set of matrices (same structure/different values, different structure, singular, different storage), all option combinations",
 "tests run one factorize and one or two solves per matrix; lifecycle interleavings and errors followed by reuse are not covered",
 [S+"solver_umfpack.rs",S+"complex_solver_umfpack.rs",S+"lin_solver.rs",S+"complex_lin_solver.rs","russell_sparse/c_code/interface_umfpack.c","russell_sparse/c_code/interface_complex_umfpack.c"],
 [("initialized/factorized flags in Rust and C",S+"solver_umfpack.rs, c_code/interface_umfpack.c"),("determinant mantissa/exponent",S+"solver_umfpack.rs")],
 state=[("initialized, factorized, stored pattern","life cycle of one solver object",S+"solver_umfpack.rs")],obs=["x, Err strings, determinant, stats"])
p("S04","Matrix Market files round-trip and malformed files are refused",
 "Writing any compressed matrix to a Matrix Market file and reading it back with any symmetry handling yields the same matrix (entries at or below the drop tolerance removed, an error if none is left, header count equal to the lines written), and the visualisation variant lists every entry of the full matrix once. Reading any text file either yields the matrix the format defines or returns an error - it never panics and never returns a different matrix.",
 ["inputs","crash_points"],"all small patterns x symmetric storage x tolerance x real/complex; all truncations and single-token corruptions of valid files",
 "tests read a fixed gallery of bad files and write two samples; truncation points and storage/handling combinations are not enumerated",
 [S+"read_matrix_market.rs",S+"write_matrix_market.rs"],[("line parser",S+"read_matrix_market.rs"),("count/write loops",S+"write_matrix_market.rs")],obs=["file contents and returned matrices"])
p("S05","Sparse numerical Jacobian is right, and callback failures leave state restored",
 "The sparse numerical Jacobian of any system equals the analytical one (times the requested factor) entry by entry, for any mass/factor and symmetric storage, with the state vector restored bit for bit afterwards. If the user function fails at any call its error is returned and the state vector is restored as well.",
 ["inputs","fault_sequences"],"polynomial systems up to the bound x points x factors x every failing call index",
 "tests check one system without failures",
 [S+"numerical_jacobian.rs",L+"algo/num_jacobian.rs"],[("perturb and restore",S+"numerical_jacobian.rs")],obs=["COO result, y vector after the call"])
p("S06","Solution checks, statistics and sample matrices tell the truth",
 "The verification data of a linear system (real or complex, any storage) equal the largest entry, the largest product component, the largest residual component and their ratio, a NaN in the matrix, solution or right-hand side is never reported as a small error, and combining verifications keeps the worst. Solver statistics describe the matrix given, report the averages of the timings recorded and survive being written and read. Every sample matrix is one matrix in its three formats, with the symmetry and determinant it states.",
 ["inputs","histories"],"all matrices of order up to 2 (and thin ones) with entries from a small set x storages x solutions x right-hand sides x NaN positions; all timing lists; all assembly sequences of given length; all samples with all flags",
 "tests verify one system per format and compare the statistics with literals",
 [S+"verify_lin_sys.rs",S+"stats_lin_sol.rs",S+"samples.rs"],
 [("residual and its norm",S+"verify_lin_sys.rs"),("derived values and JSON",S+"stats_lin_sol.rs"),("sample tables",S+"samples.rs")],
 obs=["VerifyLinSys, StatsLinSol, files, sample matrices"])
p("S07","The command solving a matrix file reports the true answer or fails",
 "For every Matrix Market file and every choice of options, solve_matrix_market ends with success and a report exactly when the file is valid and its matrix is square and not singular; otherwise it ends with an error message and without a report, and it never panics. The report has the name, size, counts and symmetry of the matrix, the requested options, true residual data of the solution, the determinant if requested, and one timing per run with their averages; the visualisation option writes every entry of the full matrix once.",
 ["inputs","configurations"],"all matrices of order up to 2 (symmetric: 3) with entries from a small set, all patterns of order 3, shapes and sizes to a limit x real/complex x general/symmetric; all combinations of options; all truncations of a file",
 "no test runs the command",
 [S+"bin/solve_matrix_market.rs"],
 [("real and complex branch",S+"bin/solve_matrix_market.rs"),("statistics",S+"stats_lin_sol.rs")],
 obs=["exit code, standard output (JSON), standard error, file written"])
O="russell_ode/src/"
p("O01","Fixed-step integration lands on x1 and has each method's order of accuracy",
 "With equal steps, every method (explicit Runge-Kutta tableaux, forward/backward Euler, Radau5) takes exactly the number of steps that covers the interval, ends at the requested end point, and solves problems within its order class exactly (polynomial quadrature up to its order, linear ODE stability polynomial) for any step count, interval direction permitted, dimension and mass matrix. Its global error on smooth problems decreases at the method's order.",
 ["inputs","configurations"],"all methods x polynomial degrees x step counts x intervals x dimensions x Jacobian modes",
 "tests compare with reference Fortran output for selected problems; each tableau coefficient only matters for specific order conditions",
 [O+"explicit_runge_kutta.rs",O+"constants.rs",O+"radau5.rs",O+"euler_forward.rs",O+"euler_backward.rs",O+"ode_solver.rs"],
 [("Butcher tableaux",O+"constants.rs"),("number of equal steps",O+"ode_solver.rs")],obs=["y at x1, stats.n_steps, output x history"])
p("O02","Adaptive integration meets its tolerance, ends at x1 and never reports junk",
 "With automatic stepping a successful solve ends exactly at the requested end point with every recorded step strictly advancing, and the error is commensurate with the requested tolerances for every embedded or implicit method, stiff or non-stiff problem, DAE/mass matrix, Jacobian mode and option set. If the step limit, minimum step or non-finite values prevent that, an error is returned instead of an answer.",
 ["inputs","configurations"],"all methods x tolerances x problems with known solutions x options (PI/Lund, numeric/analytic Jacobian, concurrency, initial step, step limits)",
 "tests pin statistics for a few problem/method pairs at one tolerance",
 [O+"ode_solver.rs",O+"explicit_runge_kutta.rs",O+"radau5.rs",O+"params.rs",O+"workspace.rs"],
 [("error norm and step controller",O+"explicit_runge_kutta.rs, "+O+"radau5.rs"),("accept/reject loop",O+"ode_solver.rs")],obs=["returned Result, y, stats, output arrays"])
p("O03","An ODE solver object behaves like a fresh one after any history of use",
 "Whatever solves, failures, callback stops, parameter updates or output settings happened before, the next solve with the same object gives bit-for-bit the same result, statistics and recorded output as a newly created solver with the same parameters and initial data. Sequential and concurrent modes give identical results.",
 ["histories","schedules","configurations"],"all histories up to the bound over {solve A, solve B, failing solve, stopped solve, update params} x methods x modes",
 "tests create a new solver for every solve",
 [O+"ode_solver.rs",O+"workspace.rs",O+"radau5.rs",O+"explicit_runge_kutta.rs",O+"euler_backward.rs"],
 [("workspace reset",O+"workspace.rs"),("factorization/Jacobian reuse flags",O+"radau5.rs")],
 state=[("reuse flags, eta, stored stepsize factors","carry over between steps and solves",O+"radau5.rs, workspace.rs")],obs=["y, stats, outputs"])
p("O04","Output is recorded once per requested station, in order and accurate",
 "For every method and mode, step output contains the initial point, every accepted step and nothing else (honouring the selected components), and dense output contains each requested station exactly once in increasing order with values agreeing with the solution to the method's accuracy and with accepted steps at their ends. Callbacks and files see the same data as the recorded arrays, and a callback asking to stop ends the run right there.",
 ["configurations","inputs","histories"],"all methods with and without dense output x station spacing relative to the step (smaller, equal, larger, non-dividing) x recording options x stop positions",
 "tests check one dense spacing per method",
 [O+"output.rs",O+"ode_solver.rs",O+"erk_dense_out.rs",O+"radau5.rs"],
 [("station counter and dense interpolation",O+"output.rs"),("dense coefficients",O+"erk_dense_out.rs, "+O+"radau5.rs")],obs=["out arrays, callbacks, files"])
p("O05","ODE user-callback failures surface at once; counters equal the calls made",
 "If the right-hand side, Jacobian or output callback fails at any call the solve returns that very error without further callback calls and without panicking, in sequential and concurrent mode. On success the statistics (function and Jacobian evaluations, factorizations, linear solves, accepted and rejected steps) equal the calls the user functions really received, none of which is outside the interval of integration.",
 ["fault_sequences"],"methods x problems x every failing call index of every callback",
 "tests inject failures at one or two positions",
 [O+"system.rs",O+"ode_solver.rs",O+"radau5.rs",O+"explicit_runge_kutta.rs"],[("error propagation",O+"*.rs"),("Stats",O+"stats.rs")],obs=["Result, call log, stats"])
p("O06","Stiffness is declared at exactly the documented step and changes nothing else",
 "For the methods that support it, the reported h times rho of an accepted step is the stepsize times the dominant eigenvalue on linear problems, and stiffness is declared at exactly the accepted step at which the configured number of stiff steps is reached with fewer than the configured consecutive non-stiff steps in between, not counting the steps to be skipped. Detection stops the run with an error only if requested, records where stiffness was found, and never changes the steps or results; other methods never report stiffness.",
 ["histories","configurations"],"all binary patterns of stiff and non-stiff steps up to a length x numbers ratified, ignored and skipped x stop or go on x methods; adaptive runs",
 "the tests run two problems that are stiff once with the default numbers",
 [O+"detect_stiffness.rs",O+"workspace.rs",O+"explicit_runge_kutta.rs"],[("stiff and non-stiff step counters",O+"detect_stiffness.rs"),("h rho estimate",O+"explicit_runge_kutta.rs")],
 state=[("stiff_n_detection_yes/no, stiff_detected","counters of the current run",O+"workspace.rs")],obs=["out.stiff_* arrays, result, steps"])
p("O07","ODE settings are refused exactly outside their ranges; samples are as documented",
 "A solver is created with, or updated to, any combination of parameters and tolerances exactly when each lies in its documented range, and after a refusal everything behaves as before; values that are no numbers are refused or harmless. The option to write matrices leaves the steps unchanged and ends the run at the first factorization after the requested accepted steps with the true Jacobian and iteration matrices in the files. Every sample problem has the function, Jacobian, mass matrix, start and solution that its documentation gives.",
 ["configurations","inputs"],"methods x ordered pairs of parameters at and next to the ends of their ranges; numbers of steps before writing; every sample x lattice of states against a twin written from the documentation",
 "tests try one wrong value per parameter and use each sample along one trajectory",
 [O+"params.rs",O+"ode_solver.rs",O+"radau5.rs",O+"samples.rs"],[("validate of the parameters",O+"params.rs"),("write_matrix_after_nstep_and_stop",O+"radau5.rs"),("sample systems",O+"samples.rs")],obs=["Result, steps, matrix files, trajectories"])
N="russell_nonlin/src/"
p("N01","Continuation results satisfy G(u,lambda)=0; failures are never called success",
 "Every point recorded or returned by the continuation solver with a success status satisfies the system to within the configured tolerances and is finite, for natural and arclength methods, bordering or full systems, and any accepted configuration. Non-finite residuals, singular Jacobians and non-convergence yield a failure status or error, never success. The Jacobian checker accepts the correct derivatives and refuses wrong ones at the point it is given.",
 ["inputs","configurations"],"all methods x sample systems (lines, circles, folds, multi-dimensional) x step settings x options x points where the residual is made non-finite",
 "tests run each sample once with one option set",
 [N+"solver.rs",N+"solver_natural.rs",N+"solver_arclength.rs",N+"iteration_error.rs",N+"system.rs"],
 [("convergence control",N+"iteration_error.rs")],obs=["status, recorded u, lambda"])
p("N02","Continuation visits the prescribed steps and stops where it was told to stop",
 "Constant, listed and automatic increments visit exactly the prescribed parameter values (natural) or pseudo-arclength increments (arclength) in the requested direction, also after rejected attempts, and a successful run ends when - and only when - the stop criterion (number of accepted steps, parameter or component bound) is met, the list is exhausted, the step limit is reached or the output callback asks to stop. Recorded history has one entry per accepted step, following the solution branch without turning back. Bordering and full linear systems give the same branch, and criteria or increments that make no sense at the start are refused before any user function is called.",
 ["configurations","inputs"],"all stop criteria x directions x step modes x systems x rejection patterns",
 "tests verify single scenarios",
 [N+"solver.rs",N+"enums.rs",N+"delta_lambda.rs",N+"config.rs",N+"solver_natural.rs",N+"solver_arclength.rs",N+"output.rs"],
 [("stop evaluation and target step adjustment",N+"solver.rs, enums.rs")],obs=["output history, status, stats"])
p("N03","Continuation keeps user state consistent across failures and reuse",
 "At whichever call a user callback fails, the error or a failure status is reported without panic, with automatic steps every rejected or finally failed attempt restores the primary and secondary state to the last accepted point (every backup is matched by at most one restore, and the last secondary update before acceptance is for exactly the accepted point), and solving again with the same object equals solving with a fresh one. Statistics and recorded iteration residuals equal the calls actually made, and the option to write the matrix ends the run at the first Jacobian after the requested accepted steps with that Jacobian in the file.",
 ["fault_sequences","histories"],"every failing call index of every callback x methods x step modes; repeated solves",
 "tests exercise one rejection path",
 [N+"solver.rs",N+"system.rs",N+"workspace.rs"],[("backup/prepare/restore protocol",N+"solver.rs")],obs=["callback trace, Result, stats"])
p("N04","Continuation settings and logs are faithful and never change the results",
 "Every configuration setting is stored, changes nothing else and is accepted by the solver exactly when it lies in its documented range. Verbosity, recording, statistics and log files never change the results, and the log file lists in order every attempted step (parameter and increment), every iteration with its residual, each rejection, the last parameter, the statistics and any failure. Every sample problem's derivatives, initial states and reference solutions are true of its function.",
 ["configurations","inputs"],"ordered pairs of settings; methods x step modes x rejection patterns x log options; every sample x lattice of states",
 "tests read one setting back and look at the log of a single run",
 [N+"config.rs",N+"logger.rs",N+"stats.rs",N+"samples.rs"],[("setters and validation",N+"config.rs"),("log lines",N+"logger.rs"),("sample systems",N+"samples.rs")],obs=["getters, log file, results"])
D="russell_pde/src/"
p("P01","Grids number every node once and boundary sets are exactly the boundary",
 "For every 1D and 2D grid (uniform or with arbitrary increasing coordinates) node numbers and (i,j) positions are a bijection, coordinates returned for each node are the input coordinates, the sets of boundary nodes and corners are exactly the nodes on those sides, and uniform spacing is reported exactly for uniform grids at any scale. Invalid coordinates are refused.",
 ["inputs"],"all grid sizes up to the bound x domain scales/offsets x non-uniform coordinate choices",
 "tests use two or three small grids on unit-like domains",
 [D+"grid_1d.rs",D+"grid_2d.rs"],[("index arithmetic and boundary lists",D+"grid_1d.rs, "+D+"grid_2d.rs")],obs=["getters and iterators"])
p("P02","Boundary conditions and equation numbering partition the nodes consistently",
 "After any sequence of boundary-condition settings (prescribed values, fluxes, periodic pairs) every boundary node has exactly the last condition set for its side, incompatible settings are refused, and values are those of the user's function at that node. After any sequence of recomputations with any prescribed set, the equation numbering is a bijection between unknown/prescribed nodes and their local numbers, and splitting then joining vectors is the identity.",
 ["histories","inputs"],"all setting sequences up to the bound over all sides; all prescribed subsets of small node sets, all pairs of consecutive recomputations",
 "tests set one combination and one prescribed set",
 [D+"essential_bcs_1d.rs",D+"essential_bcs_2d.rs",D+"natural_bcs_1d.rs",D+"natural_bcs_2d.rs",D+"equation_handler.rs"],
 [("flag checks",D+"*_bcs_*.rs"),("recompute",D+"equation_handler.rs")],obs=["getters; joined vectors"])
p("P03","Finite differences are exact for quadratics under every boundary combination",
 "In 1D and 2D, for every combination of prescribed-value, flux and periodic sides, grid size, spacing and coefficients, the finite-difference solver reproduces solutions in its exactness class to rounding, both by partitioning the system and by Lagrange multipliers; along periodic sides the operator is the second difference around the ring of nodes, whatever the nodal values. The assembled operator is the same whichever strategy, symmetric storage or traversal is used, and missing or contradictory side conditions and non-uniform grids are refused with an error, not a panic.",
 ["configurations","inputs"],"all side-condition combinations x grid sizes x coefficients x monomials of degree <=2",
 "tests solve a few PDEs with loose tolerances for one BC combination each",
 [D+"fdm_1d.rs",D+"fdm_2d.rs",D+"essential_bcs_2d.rs"],[("molecule with mirrored nodes",D+"fdm_1d.rs, fdm_2d.rs"),("SPS/LMM assembly",D+"fdm_*.rs")],obs=["solution vector vs polynomial"])
p("P04","Spectral collocation is exact for polynomials under every boundary combination",
 "In 1D and 2D, for every combination of prescribed-value and flux sides, polynomial degree, domain and coefficients, spectral collocation reproduces polynomial solutions of no higher degree to rounding, with the partitioned and Lagrange-multiplier strategies agreeing; on mapped (curved) domains the same holds for fields polynomial in the reference coordinates on the admissible maps. Nodes, flows and coordinates reported belong to the physical domain, and impossible domains or missing side conditions are refused.",
 ["configurations","inputs"],"all side combinations x degrees x domains x monomials x maps",
 "tests use one BC combination per PDE",
 [D+"spc_1d.rs",D+"spc_2d.rs",D+"spc_map_2d.rs"],[("differentiation matrices scaled to the domain",D+"spc_1d.rs, spc_2d.rs"),("metrics of the map",D+"metrics.rs")],obs=["solution vs polynomial"])
p("P05","Transfinite maps follow their boundary curves and have consistent derivatives",
 "Every transfinite map reproduces each boundary curve along the corresponding side and all corners, is exact for maps in its tensor space, and its first and second derivatives and metric quantities equal the true derivatives of the mapped position at every reference point. The sample maps have positive Jacobian and their documented geometry.",
 ["inputs"],"all sample maps and enumerated polynomial boundary curves x lattice of reference points including corners, 2D and 3D",
 "tests evaluate a few points",
 [D+"transfinite_2d.rs",D+"transfinite_3d.rs",D+"transfinite_samples.rs",D+"metrics.rs"],[("blending formula and derivatives",D+"transfinite_*.rs")],obs=["point, derivatives, metrics"])
p("P06","PDE sample problems are coherent and solved with spectral accuracy",
 "For every sample problem and every value of its parameters the source equals the differential operator applied to the stated solution, the stated flow is minus the coefficient times its gradient, and the boundary conditions are those of the solution. The spectral solvers reproduce the stated solution and flow on intervals, rectangles and mapped domains with either strategy to spectral accuracy.",
 ["inputs"],"every sample x lists of parameters (coefficients, lengths, fluxes, radii, combinations of sides) x lattice of points x numbers of nodes x strategies",
 "tests use each sample with one set of parameters",
 [D+"problem_samples.rs",D+"spc_1d.rs",D+"spc_2d.rs",D+"spc_map_2d.rs",D+"transfinite_samples.rs"],[("sources, solutions, boundary conditions",D+"problem_samples.rs"),("calculate_flow_vectors",D+"spc_*.rs")],obs=["functions of the sample, solution, flow"])
A="russell_stat/src/"
p("R01","Probability distributions are internally consistent over their parameter space",
 "For every distribution and every accepted parameter set the pdf is non-negative and integrates to the cdf, the cdf is monotone from 0 to 1, the reported mean and variance are the moments of that pdf, and samples lie in the support and follow the cdf. Parameters for which no distribution exists are refused.",
 ["inputs"],"all distributions x lattice of parameters (including extremes and invalid ones) x lattice of arguments incl. support boundaries",
 "tests compare a csv of values for a few parameter sets",
 [A+"distribution_normal.rs",A+"distribution_lognormal.rs",A+"distribution_gumbel.rs",A+"distribution_frechet.rs",A+"distribution_uniform.rs"],[("closed forms",A+"distribution_*.rs")],obs=["pdf, cdf, mean, variance, sample"])
p("R02","Counts, histograms and order statistics describe the data exactly",
 "Histogram bins partition the stations range so that every sample inside is counted in exactly the bin containing it and every other sample in none, over any sequence of count and reset calls; summary statistics, quantiles, quartiles and outlier selections equal their definitions for every data set, including ties, constant data, single values and unsorted input as documented. Malformed input is refused.",
 ["histories","inputs"],"all short integer data sets, all bin layouts up to the bound, all count/reset sequences up to the bound",
 "tests use single examples",
 [A+"histogram.rs",A+"statistics.rs",A+"quantile.rs",A+"quartiles.rs",A+"inter_quartile_range.rs",A+"outliers.rs"],[("bisection in find_bin",A+"histogram.rs"),("two-pass statistics",A+"statistics.rs")],obs=["counts, statistics"])
T="russell_tensor/src/"
p("T01","Tensor storage round-trips: Mandel form always denotes the same tensor",
 "For every tensor order, symmetry representation and conversion (to and from component arrays, matrices, nested arrays, other representations, element getters and setters, and the displayed text) the stored form denotes exactly the same tensor, conversions that would lose components are refused, and any sequence of set, add and update operations equals the same operations on the full component array. Output buffers are completely overwritten.",
 ["histories","inputs"],"all representations x all unit tensors and small-integer tensors x all conversion pairs x operation sequences up to the bound",
 "tests convert fixed samples",
 [T+"tensor1.rs",T+"tensor2.rs",T+"tensor3.rs",T+"tensor4.rs",T+"constants.rs",T+"enums.rs"],[("index maps between (i,j) and Mandel positions",T+"constants.rs")],obs=["components in standard indices"])
p("T02","Tensor products equal their full index-notation definition",
 "Every product, contraction, dyadic and mixed operation between tensors of any order and representation equals the result of the full index-notation sum on the standard components, whether the unrolled or the loop variant is used, with inputs untouched and update variants adding to the previous content. Representation mismatches are refused.",
 ["inputs","configurations"],"all operations x all representation combinations x all pairs of basis tensors (multilinearity makes this complete) plus small-integer combinations and scalar factors",
 "tests compare a few dense samples where errors in single components can cancel or be mirrored",
 [T+"operations_t2.rs",T+"operations_t3.rs",T+"operations_t4.rs",T+"operations_mix1.rs",T+"operations_mix2.rs"],[("unrolled Mandel formulas",T+"operations_*.rs")],obs=["result components"])
p("T03","Tensor invariants, spectral form and derivatives agree with each other",
 "Invariants (trace, determinant, norms, deviatoric/octahedral/Lode quantities), inverses, squares and deviators equal their definitions on the full components; the analytical first and second derivatives of every function equal the true directional derivatives; and spectral decomposition recomposes the tensor with orthonormal complete projectors, for every representation. Singular arguments are reported, never answered.",
 ["inputs"],"all small-integer symmetric tensors of the bound (including repeated eigenvalues, zero, singular) x all functions x all directions",
 "tests use about five sample tensors",
 [T+"tensor2.rs",T+"derivatives_t2.rs",T+"derivatives_t4.rs",T+"spectral2.rs"],[("closed-form derivatives",T+"derivatives_*.rs")],obs=["values vs reference"])
p("T04","Elastic moduli, projectors and constants satisfy their algebra everywhere",
 "For every admissible pair of elastic parameters and dimension mode, stiffness and compliance are symmetric positive definite inverses of each other, give the textbook stress for every strain (including plane stress with vanishing out-of-plane stress), and follow any sequence of parameter changes. The constant identity/projection tensors satisfy the projection algebra exactly.",
 ["histories","inputs"],"lattice of parameters x modes x unit strains x parameter-change sequences",
 "tests check one material",
 [T+"lin_elasticity.rs",T+"constants.rs",T+"tensor4.rs"],[("modulus formulas",T+"lin_elasticity.rs")],obs=["modulus components, stress"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
import os,re
for d in P:
    for fn in d["anchors"]["files"]:
        if not os.path.exists("/repo/"+fn): print(d["id"],"missing",fn)
    if d["statement"].count(". ")>2: print(d["id"],"sentences")
print(len(P))
