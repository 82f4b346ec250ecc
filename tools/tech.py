T["L01"]=("exploration","bounded-exhaustive enumeration of kernels x shapes x factors x fillings against textbook loops","Complete within the stated sizes, factors and operand fillings; exact comparison; trusts the reference loops and that kernels do not branch on other operand values.")
T["L02"]=("exploration","exhaustive enumeration of small integer/Gaussian-integer matrices plus structured families against defining identities with exact integer determinants","Complete within the stated matrix families; identities checked in floating point with tolerance 1e-10; singular matrices of order four and above only required to be refused when a row or column is zero.")
T["L03"]=("model_checking","explicit-state exploration of all operation sequences on the real containers in lock-step with a plain-array model, plus all short inputs of the helpers and file readers","Complete within the stated shapes, element types, depths and file layouts; every trace runs on the real code.")
T["L04"]=("model_checking","exhaustive enumeration of grids x degrees x polynomials x points against the analytical polynomial, and of all histories of cached-matrix and data-setting calls (including failing ones) against a fresh object","Complete within the stated degrees, polynomials, points and history depth; every trace runs on the real code; rounding of derivatives next to nodes is allowed for.")
T["L05"]=("model_checking","exhaustive enumeration of degrees x knot vectors x parameters x derivative orders against the Cox-de Boor recursion, and of all call histories on one object against the same recursion","Complete within the stated degrees, knot patterns, scales and history depth; every trace runs on the real code; parameters of unclamped splines restricted to the valid domain.")
T["L06"]=("exploration","exhaustive enumeration of small polynomials, a fixed function family, brackets, starting points and options; every answer checked against its defining condition","Complete within the stated lattice of functions, brackets and options; integrals of functions with kinks or jumps are not required to be resolved; flat minima get a larger iteration limit.")
T["L07"]=("fault_enumeration","Every callback call of every algorithm is made to fail, alone and in ordered pairs, on the real code; then the same object is used again and compared bit by bit with a fresh one; every ordered pair of scenarios shares one set of objects; counters are compared with the calls observed.","58 scenarios (root finding, refinement, minimisation, bracketing, quadrature, Newton, line search, numerical derivatives and Jacobians, Chebyshev, Lagrange); fault pairs up to the 40th (quick) or 120th (thorough) call.")
T["L08"]=("exploration","Exhaustive enumeration of a lattice of arguments (all multiples of 1/64 or finer with floating-point neighbours, all binary exponents, zeros of Bessel functions, infinities, NaN) x orders for every special function, compared with the C library, positive series, exponentially convergent quadratures, recurrences and functional equations.","Complete within the lattice; between lattice points nothing is claimed; next to +-1 the derivative formulas are allowed their cancellation error.")
T["S01"]=("model_checking","All triple lists up to a length through every conversion, all sequences of in-place updates of one compressed object, and all assembly histories on a COO matrix of small capacity, each in lock-step with a list-of-triples model on the real code","Complete within the stated shapes (up to 4x4, strides to 7x7 or 11x11), lengths and depths; integer data so all comparisons are exact.")
T["S02"]=("exploration","All dimensions, pointer, index and value arrays up to a length over in-range, out-of-range and extreme integers; verdict compared with the definition of a valid matrix, accepted matrices compared with the data given","Complete within the stated alphabet; repeated indices inside one column or row are not decided.")
T["S03"]=("model_checking","All matrices of order up to 3 with small (Gaussian) integers, all option combinations on structured matrices, all pairs of patterns, and all call histories over ten matrices in lock-step with a model of the solver state; exact solutions and determinants by Cramer's rule","Complete within the stated matrices and depth; only UMFPACK exists in this build (MUMPS and cuDSS wrappers are not compiled).")
T["S04"]=("exploration","All small matrices written and read back with every storage, tolerance and handling; all truncations, single-byte, token and line corruptions of seven files and all texts assembled from ten lines, compared with an independent reader","Complete within the stated matrices and edits; entry counts too large to allocate are not tried.")
T["S05"]=("fault_enumeration","All systems of a polynomial family x points x factors x storages; the user function fails at every call index in turn on the same objects, each followed by a successful call compared bit by bit","Complete within the family; entries compared with the analytical Jacobian up to the forward-difference error bound.")
T["T01"]=("model_checking","All sequences up to a depth of constructing, setting, adding, assigning and exporting tensors of orders 1 to 4 in every representation, mirrored on plain component arrays, plus acceptance of all small component arrays; run for both storage builds (stack and heap)","The real types are driven; a reference holding all Cartesian components is the model, compared after every operation. Small components and finite depth.")
T["T02"]=("exploration","Every product of tensors of orders 1 to 4 on all combinations of basis tensors and dense integer tensors in all combinations of representations, against index notation; outputs prefilled with NaN; both storage builds","Multilinearity makes the basis exhaustive for the linear structure; representation mismatches must be refused.")
T["T03"]=("exploration","All small-integer tensors of every representation and several scales: invariants, inverse, spectral decomposition, and first and second derivatives in all directions against dual numbers; both storage builds","Components from small integers, four scales; tolerances follow the condition number close to vanishing deviators.")
T["T04"]=("model_checking","All sequences of parameter changes up to a depth on materials of every mode, compared with a new material and with the textbook law on a basis of strains; complete multiplication table of the constant fourth-order tensors; both storage builds","Parameters from a lattice of admissible values.")
T["R01"]=("exploration","Every distribution x lattice of parameters x lattice of arguments covering the support, its ends and the outside: density against its definition, integral of the density over every lattice cell against the cdf, moments against mean and variance, samples for a lattice of generator outputs against the cdf, all combinations of impossible parameters","Lattices of parameters and arguments; the generator outputs are a fixed evenly spread set of 2^14 (quick) or 2^18 (thorough) values, so a sampler error below 3% in distribution is not seen.")
T["R02"]=("model_checking","All station layouts and values up to the bounds, all sequences of count, reset and display settings on histograms of three number types, all small integer data sets through every statistic against exact integer definitions","Small integer data (also scaled and shifted), sequences up to the depth.")
T["P01"]=("exploration","All grid sizes up to the bound x domain scales and offsets x all lists of coordinate increments: numbering, coordinates, iterators, boundary and corner sets and reported spacing against their definition; all short coordinate lists with invalid values","Complete within the stated sizes and coordinate alphabets.")
T["P02"]=("model_checking","All sequences of boundary-condition settings up to a depth in lock-step with a table of the last setting per side, and all sequences of recomputations over all prescribed subsets of small node sets in lock-step with a set model","Complete within the stated depth and grid sizes.")
T["P03"]=("exploration","All combinations of value, flux and periodic sides x grid sizes x domains x reaction coefficients x monomials of the exactness class x both strategies x symmetric storages; assembled operators compared entry by entry with the molecules","The documented equality of values at both periodic ends is a known finding; the ring behaviour is what is decided.")
T["P04"]=("exploration","All combinations of value and flux sides x node counts x rectangles and maps x reaction coefficients x all monomials of the full polynomial space x both strategies; sources, fluxes and flows derived from the chain rule independently of the metrics","Arrangements that are singular by themselves (found with an independent matrix) only have to return.")
T["P05"]=("exploration","Maps whose boundary components are all pairs of monomials up to a degree, all sample maps, evaluated with derivatives at all lattice points against the exact blending; all small integer base vectors x scales through the metrics","The blending is linear in the boundary values, so monomials cover polynomial boundaries.")
T["O01"]=("exploration","every method with every number of steps, dimension, mass matrix and storage in the bounds on systems whose exact discrete answer is known (one system per rooted tree up to the order, polynomial right-hand sides), run on the real solvers","bounded exhaustive enumeration; order conditions are complete up to the order (all rooted trees), rounding handled by tolerances of a few hundred ulp")
T["O02"]=("exploration","every method x problem x tolerance x option x Jacobian mode in the bounds run on the real adaptive solver, plus every function-call index spoiled with a non-finite value and every step limit","bounded exhaustive enumeration over 16 closed-form problems; multipliers of the tolerance calibrated at about ten times the observed error; faults enumerated at every call")
T["O03"]=("model_checking","every history of solves, failures, stops, parameter updates and output settings up to depth 3 (thorough 4) on one real solver, each action compared bit by bit with a new solver; sequential against concurrent for every problem and option","histories over 20 actions explored exhaustively; states are hashes of results and statistics; one nonlinear system with three configurations")
T["O04"]=("exploration","every method x problem x recording option x spacing or set of stations x stop position in the bounds on the real solver, the log of the callbacks being compared with arrays, files and the closed-form solution; dense output exact for every rooted tree up to its order; stations placed at, and a few ulps around, every accepted step","bounded exhaustive enumeration; values at stations that were never reached after a stop are not judged; DoPri8 order-6/7 trees that need the end slope are a known finding")
T["O05"]=("fault_enumeration","every call of the function, Jacobian, step callback and dense callback fails once for every method x problem x configuration (Jacobian mode, equal steps, dense, concurrent, options, tolerance); the ordered log of the calls is the model for the result, the calls before the failure and the counters","faults enumerated exhaustively up to a bound on the call index (quick 120, thorough 2000, plus the last calls); one fault per run")

T["N01"]=("exploration","every method, bordering or full system, tolerance set, step mode, stop criterion and control option in the bounds run on the real solver over closed-form branches; every residual call and Jacobian entry spoiled in turn; systems without a solution; every wrong entry given to the Jacobian checker","bounded exhaustive enumeration; points are judged by re-evaluating the residual independently of the solver; with finite but wrong Jacobians only runs that control the residual alone are judged")
T["N02"]=("model_checking","every step of every run is monitored against a reference automaton (prescribed increment, direction, stop criterion, target adjustment, rejection shrinking, one record per accepted step) over all methods x step modes x directions x stop criteria x control options x step limits x rejection patterns up to length 4 to 6","runs are executions of the real solver; rejection patterns enumerated exhaustively through the secondary-update callback; turning back is not judged for arclength steps longer than 0.5, which may jump between parts of a folded branch")
T["N03"]=("fault_enumeration","every call of every callback (residual, Jacobian, secondary update, output) fails in turn, once or from then on, with every kind of fault; all patterns of failing attempts and iterations and all histories of solves on one object; a protocol automaton reads the ordered event log of each run; recorded residuals and the matrix file are compared with the last evaluation seen by the callbacks","faults enumerated exhaustively at every call; the secondary state is an increment-dependent model, so a missing or doubled restore is visible; reuse compared bit by bit with a new solver")
T["L09"]=("exploration","Every helper on all pairs of values (with NaN, infinities, signed zeros) x tolerances, on all lengths and shapes with one deviation at every position on both sides of the tolerance, and on all cubic polynomials with a wrong term; panics are observed and compared with the definition. Test functions on a lattice against differences, bracketing and quadrature.","Complete within the lists; numerical derivative helpers are not judged within ten per cent of the tolerance.")
T["S07"]=("exploration","The command built from the repository is started on every file of an enumerated set (all small matrices, patterns, shapes, sizes, truncations) and with every combination of options; exit code, report and files are compared with exact determinants, counts and residual bounds","Complete within the stated sets; only UMFPACK exists in this build; singularity that shows only up to rounding is not judged.")
T["S06"]=("exploration","All matrices, solutions and right-hand sides from small lists in every storage, with NaN at every position; all timing lists; all assembly sequences; all samples with all flags; compared with the definitions computed on plain arrays","Complete within the stated matrices (order 2, thin to 3) and lists; MUMPS statistics cannot be produced in this build.")
T["O06"]=("model_checking","A linear problem whose eigenvalue can be chosen step by step produces every binary pattern of stiff and non-stiff steps; a counter automaton written from the documentation runs in lock-step with the real solver for every setting and method","Complete for patterns up to the bound; adaptive runs are compared through the accepted steps they really made.")

T["O07"]=("exploration","All methods x ordered pairs of parameter values at and next to the ends of every range, for new solvers and for updates (followed by a run compared bit by bit after a refusal); all lists of tolerances; all numbers of steps before the matrices are written, monitored against the run without the option; every sample against a twin system written from its documentation: trajectories for function and mass matrix, written matrices for the Jacobian","Complete within the lists; the files are read back with the library's own reader, which S04 decides")
T["N04"]=("model_checking","All ordered pairs of setters against a table of getters; every run is recorded by monitors in the callbacks and the log file is compared line by line with the recorded events, over methods x step modes x rejection patterns x failures x log options; every sample on a lattice of states against differences and residual evaluations","Complete within the lists; the wording of headings is not judged, numbers and their order are")
T["P06"]=("exploration","Every sample x lists of its parameters: the functions against documented formulae and sixth-order differences on a lattice of points; boundary conditions through the spectral solution with both strategies, with the flow","Complete within the lists; the truncated series of problem 04 is compared with the same series summed stably for up to 220 terms, beyond which its terms overflow")
