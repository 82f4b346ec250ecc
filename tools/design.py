import json,os,glob
HEAD='''# Model checking russell

Technique: bounded-exhaustive model checking of the *real code*. Every check is a Rust program
(`h/<crate>`, one per crate of the repository) that links the working tree of /repo through a path
dependency, enumerates a bounded space of behaviours completely (inputs, configurations, sequences
of operations on one object, and positions of faults), runs the real code on each of them and
compares what is observed with a plain reference model written from the definition. Nothing is
sampled: the loop bounds are the bounds of the claim. No solver is involved.

## How it works

* **Driver** (`h/common`, crate `mc`). A check is a list of *sections*; a section is an index range
  explored on eight threads; each index expands into *cases* with a readable key. `Trace` counts the
  operations performed on the real code (transitions) and hashes the observed states. All counts in
  `evidence/<id>.json` come from these counters on that very run. Panics of the code under test are
  caught and are failures of the case. A failing case writes `replays/<id>-<n>.txt` with its key and
  the command that runs only this case (`VERIF_ONLY=<key> bash check.sh <id>`), and prints
  `VIOLATION property=<id> replay=<path>`.
* **Binding to the code.** There is no hand-written model of the implementation that could go stale:
  each trace of a model is executed on the real object in lock step ("traces_validated_against_impl"
  equals the number of cases). The models are specifications (plain arrays, sets, tables of the last
  setting, event automata, closed-form solutions).
* **Exact data.** Integer-valued operands make the kernels exact, so the oracle is equality and a
  refactoring that reorders sums is not an alarm. Where rounding is inherent the oracle is a
  definition with a tolerance far above rounding and far below any real fault.
* **Histories.** All sequences of operations up to a depth; "the same object again" must equal "a new
  object" bit by bit; output buffers are prefilled with garbage or NaN.
* **Faults.** User callbacks fail (error, non-finite value, stop request) at the k-th call for every k
  the fault-free run makes, and where it matters for all pairs or all patterns of failures.
* **Levels** in the manifest: `model_checking` for histories, `fault_enumeration` where the space is
  the position of the fault, `exploration` for complete enumeration of inputs and configurations.
* **Rebuild.** `env.sh` hashes the sources of /repo (Rust and C) and removes the fingerprints of the
  russell crates when the hash changes, so a check always judges the present tree; build products are
  in `/verif/target` (ignored by git). `setup.sh` builds everything once.
* **Tiers.** quick: each check takes seconds (the whole set a few minutes). thorough: larger bounds of
  the same spaces.
* No hook in /repo was needed (the guard `verif_hooks` is reserved and unused); all commits in /repo are
  `fix:` commits.

## Properties
'''
P={}
P['L01']='''All kernels (real and complex) x all shapes 0..9 (vectors to 4097 and products to 129 at and around round numbers) x scalar
factors {0, 1, -1, 2, ...} x four fillings x all incompatible shapes; oracle: textbook loops on integers,
equality; inputs are compared afterwards; outputs prefilled. Unit tests use one shape per kernel: a wrong
leading dimension, a skipped tail element of an unrolled loop or an ignored beta needs a particular size.'''
P['L02']='''All integer matrices of order 1..4 from a small set, all symmetric ones, Gaussian-integer ones, all
rectangular shapes to 3x3, pairs for the generalized problem, structured and scaled families to order 12 and families with
known determinant or eigenvalues to order 129; all
decompositions without an absolute threshold repeated at scales 2^-300 to 2^300 (added after a missed planted bug;
found the absolute tolerance of the Jacobi solver).
Oracle: the defining identity; singularity decided exactly by Bareiss elimination. False alarms corrected:
for order four and more LAPACK need not see a singular matrix (only zero rows or columns must be refused);
semidefinite borderline cases of Cholesky may go either way. Polynomials of the cyclic shift to order 40 have known eigenvalues (real and complex). Every operand of wrong size is tried in turn.
Diagonal matrices of orders 2 to 12 with one entry (or one pair) beside the diagonal at every position.'''
P['L03']='''Operation sequences on vectors/matrices of three element types in lock step with plain arrays; all short
arrays (and long ones with one value out of place at every position) through sorting/searching/grids; all short table layouts. False alarm corrected: `linspace(n=1)` returns
the start (statement adjusted to the documented behaviour).'''
P['L04']='''Grid types x normalisations x degrees x polynomials x points (nodes, neighbours of nodes, ends) and all
histories of cached-matrix and data-setting calls including failing ones. False alarms corrected: aliasing in
adaptive construction (T_4 looks constant on coarse grids), rounding eps/d and eps/d^2 next to nodes. Data of every length against every largest degree: lengths that do not fit are refused (two degrees of slack are allowed; asking for none was a false alarm).
Barycentric weights are those of the definition up to a common factor.'''
P['L05']='''Degrees x knot vectors (multiplicities, spacings, clamped or not, scales to 1e3) x parameters x derivative
orders against Cox-de Boor, degrees 6 to 25 against Bernstein polynomials, long knot vectors (every span to be found), and all call histories on one object.'''
P['L06']='''Polynomials with small integer coefficients/roots in several scalings and a family of functions x brackets x
starting points x options for each algorithm (systems to many unknowns; root refinement from every point, near a root or not); answers judged
by the defining condition. Corrected: quadrature
slack for kinks/peaks, quartic minima need up to 500 iterations, numerical Jacobian tolerance 1e-6. All roots of T_n = c for n = 2 to 41.'''
P['L07']='''58 scenarios; every callback call fails, alone and in ordered pairs; then the same object is used again and must
match a new one; ordered pairs of scenarios share objects; counters against the calls observed. All pairs of end points x functions x
algorithms with a function that notes any evaluation outside of its interval. Every limit of iterations around the number
reported: success with the same answer exactly from that number on.'''
P['L08']='''Lattice of arguments (multiples of 1/64 with floating-point neighbours, all binary exponents, zeros of Bessel
functions, infinities, NaN) x orders, against libm, positive series, exponentially convergent quadrature,
recurrences and functional equations. Corrected: cancellation of derivative formulas next to +-1, sign at poles of
beta, cancellation of log-gamma differences, step and overflow of this check's own K_n reference.'''
P['L09']='''All pairs from a list of special values x tolerances, one deviation at every position of every length and shape,
all wrong terms of cubic derivatives; the observed panic must equal the definition of agreement. Built-in test
functions are compared with differences, sign changes and quadrature. This is the ground the existing suite stands
on: a helper that accepts NaN makes thousands of tests silent. Corrected: stated minima are good to about 1e-9 in
the slope; the singular integrand needs a change of variable.'''
P['S01']='''All triple lists on all shapes to 4x4 through every conversion, all sequences of in-place updates of compressed
objects, all assembly histories on a COO matrix of small capacity, strided patterns to 101x101; list-of-triples model. Statement corrected to the
documented meaning of symmetric storage. Lagrange blocks to 33x40 with copies and sums; all pairs of shapes and storages for the operations with two matrices, refused exactly when they do not fit.'''
P['S02']='''All dimensions 0..3 and pointer/index/value arrays over in-range, out-of-range and extreme integers; verdict from
the definition of a valid matrix; valid matrices to order 33 (40) with one fault at every position. Repeated indices inside a column are not decided.'''
P['S03']='''All small matrices (Cramer), option combinations, all pairs of 3x3 patterns, every order to 48 (120) with known solution
and determinant, all subsets of entries changed in one respect only (real part, imaginary part, sign, conjugate,
permutation, zero) between factorizations, all call histories over ten matrices
with a state model. Corrected: a changed structure with equal count is not detected by the wrapper in 480 of 48619
pairs but always solved correctly (statement says "refused or solved correctly"); row scaling may hide numerical singularity.
Only UMFPACK exists in this build.'''
P['S04']='''Round trips of all small matrices and all truncations, byte, token and line edits of seven files, all texts of ten
lines, strided matrices to 130x128, against an independent reader. Trailing tokens may be ignored or refused; enormous counts are not tried.'''
P['S05']='''Systems x points x factors x storages, orders to 65; every failing call index on the same objects. Points that are not exactly
representable were added after the planted bug s05-restore was missed at first (restoring by subtraction is exact
for small dyadic numbers).'''
P['O01']='''One system per rooted tree up to order eight (complete order conditions), Euler recursions, step counts, decimal
step sizes, linear systems with mass matrices against independently solved stages, convergence, iterations that
cannot converge; copies of one problem side by side behave as the single problem. Left out: backward Euler with nearly singular I - hA; convergence compared for n >= 16 only.'''
P['O02']='''17 closed-form problems (1 to 17 components, and copies side by side) x methods x tolerances x options x Jacobian modes; every function call spoiled; every step
limit; units. Multipliers calibrated at about ten times the observed error. Left out: pulse with Fehlberg7 (its
estimator vanishes for quadratures), large first step with stiff problems, NaN at an unused last call of Radau5.
Equations that do not determine the solution (singular iteration matrices, sequential and concurrent) are never solved.'''
P['O03']='''All histories (depth 3, thorough 4) of solves, failures, stops, parameter updates and output settings; each action
compared bit by bit with a new solver. Refused inputs (no function call) have no record to compare. One output object
serving solvers of all methods on all sequences of intervals (equal lengths at other places among them) is compared
with a new one; the systems have two to four equations, so that the output meets a larger and a smaller one.'''
P['O04']='''Log of callbacks against arrays, files and the closed form for all recording options, spacings, station sets and
stop positions; dense output exact for every rooted tree up to its order; stations a few ulps around every accepted
step. Statement corrected (no recording stride exists); JSON numbers may come back one ulp off.
Systems of 2 to 33 copies of each problem: every component of dense and step output is that of its copy.'''
P['O05']='''Every call of every callback fails once in each configuration; ordered log gives the expected counters; x must stay in
the interval, also with first steps longer than it. Rejections
before the first accepted step are not counted (convention of the Fortran codes). The text of the report must have the same numbers as the counters.'''
P['O06']='''The right-hand side is linear with an eigenvalue that is constant within each step, so any pattern of stiff and
non-stiff steps can be dictated; a counter automaton taken from the documentation predicts the step of the
declaration for all 2^k patterns x ratified/ignored/skip numbers x stop or continue x DoPri5/DoPri8/Merson4. Steps and
values must equal the run without detection. Corrected: the estimate is not updated by steps so small that the two
last stages coincide, therefore adaptive runs are compared only where the model value is at least one.'''
P['O07']='''Ranges come from the documentation of the parameters; each pair of values is given to a new solver and to an update of
a running one. Twin systems (function, Jacobian, mass matrix) are written from the formulae in the documentation; both are
integrated with equal steps by explicit and implicit methods from a lattice of states, and the matrices that Radau5 writes
are compared with the twin's. K = c/h M - J ties the three files together. The files go to a fixed place of the library
(/tmp/russell_ode); only the six files are touched, and earlier ones are put back. All orders of giving a Jacobian and a mass matrix with each pair of symmetric storages, then a solver for each method and starts of wrong length.'''
P['N01']='''Closed-form branches (line, chain to 65 unknowns, fold, S-curve, circle, helix) x methods x tolerances x controls; residual
re-evaluated independently; every residual call made non-finite, every Jacobian entry spoiled; systems without
solution; wrong entries for the Jacobian checker. Corrected: finite but wrong Jacobians may end iterations through
the correction criterion, so these are judged for residual-only tolerances; the augmented matrix may be regular
with Gu singular; there is no numerical-Jacobian mode (statement corrected).'''
P['N02']='''Each run is monitored by an automaton: prescribed increment, shrinking after rejections, direction, stop criterion
at the first point that meets it, one record per accepted step. All rejection patterns are produced through the
secondary-update callback. Corrected: natural continuation past a fold may jump (only lambda judged), arclength
steps above 0.5 may jump between parts of the S-curve, the Ho321 control may shrink to the smallest step.
Control settings that are meant to prevent progress (one allowed continuation failure, reduction factor 0.9, extreme
tolerances or exponents) are explored by N01 only: requiring N02 to reach the target with them was a false alarm of the
check's own making. One senseless increment at each position of a list; starts of the wrong length.'''
P['N03']='''An event automaton reads backup/prepare/update/residual/Jacobian/output/restore in order for every fault position
and every pattern of failing attempts; the secondary state follows increments, so one missing restore is visible in
its value; reuse equals fresh. Statement corrected: the last update before acceptance must be for the accepted
point (there are several per step), restores exist in automatic mode only. Recorded iteration residuals equal the
norms seen by the residual callback (attempt by attempt), histogram and rates follow from them, and
a second solve with the same solver has only its own records; the matrix option
stops at the first Jacobian after the requested accepted steps and the file holds that Jacobian (found reversed).'''
P['N04']='''Settings in ordered pairs: an overwritten neighbour shows in the table of getters. Every attempt that evaluated a residual and was not accepted must be noted as rejected, whatever is shown of its iterations; one update or one residual at a time (the first eight of each) ends the iterations of a step. Log lines are parsed and
matched with the event log of the callbacks of the same run. Corrected: the natural predictor evaluates its Jacobian at
the next parameter in the first step, so samples are probed with a step of 2^-20. Systems of every small size with each storage and number of entries.'''
P['P01']='''All grids of the bounded family (sizes, scales, offsets, increments, invalid values): bijection, coordinates, sides,
corners, spacing; longer coordinate lists with one deviation at every position.'''
P['P02']='''All setting sequences in lock step with a table of the last setting per side; all sequences of recomputations over
all prescribed subsets with a set model, structured subsets of up to 129 equations. A corner of two prescribed sides may take either value.'''
P['P03']='''All side combinations x sizes (small grids, and larger ones such as 65x5 and 17x16) x domains x coefficients x monomials of the exactness class x both strategies; operator
entries against the molecules. Statement corrected: there is no flow function; periodic sides form a ring of nodes.'''
P['P04']='''All side combinations x node counts (all small pairs, some to 16, squares to 41) x rectangles and maps x all monomials of the polynomial space x both strategies,
sources and fluxes by the chain rule. Matrices are not requested when no unknowns exist; arrangements that an
independent matrix shows to be singular only have to return. The room asked for in the matrices is there: extra entries
can be put in 1D and 2D. All numbers of nodes below two and degrees beyond 2048 are refused on intervals, rectangles and maps.'''
P['P05']='''All pairs of monomial boundary components (blending is linear in the boundary), sample maps, all small quadrilaterals,
metrics from all small integer base vectors, larger grids of points, vectors and lists of wrong length.'''
P['P06']='''Existing tests use one set of parameters (k = 1, one radius), so a factor that is one there stays unseen; here coefficients,
lengths, fluxes, radii and all combinations of sides are enumerated. Corrected: the series of problem 04 loses terms to
overflow from 221 on (documented as a warning).'''
P['R01']='''Distributions x parameter lattice x argument lattice; cell-wise quadrature against cdf, moments, sampler on a lattice
of generator outputs, impossible parameters. Statement corrected; for the extreme generator outputs only "not NaN" is
required (rand_distr returns -inf for u = 1).'''
P['R02']='''Station layouts x values, count/reset/display sequences, all small integer data sets (also scaled and shifted) against
exact integer definitions, and many stations.'''
P['S06']='''Definition of the residual data on plain arrays for all small systems in every storage, with NaN in every position
of matrix, solution and right-hand side; averages and totals of all timing lists; file round trips; three formats,
symmetry, definiteness and determinant (cofactors) of all samples with all flags; residuals to order 65. Found the NaN-hiding maximum norms.'''
P['S07']='''The binary is built from the working tree (crate h/tool points at its source) and started for each file and option
combination, some 9000 times (thorough 28000). Oracle: elimination on plain arrays for the determinant, the pattern for structural
singularity, the text written for the counts. Corrected: complex matrices that are singular only up to rounding are not
judged, and the visualisation file has moduli for complex entries.'''
P['T01']='''Operation sequences on tensors of orders 1-4 in every representation with full component arrays as the model; for the
stack and the heap build. Out-of-plane components set one by one on 2D tensors are a documented precondition;
tolerance 1e-12.
The text of every tensor shows each component in its place.'''
P['T02']='''Every product on all pairs of basis tensors (complete by multilinearity) and full tensors against index sums.'''
P['T03']='''All small-integer tensors at scales 1e-30 to 1e30; derivatives against dual numbers in all directions. (An
allowance for Jacobi's absolute tolerance was dropped once that was repaired.) Lode compared only for J2 > 1e-6 s^2. Sample tensors against the definitions. Second derivatives must be refused where the first ones are.'''
P['T04']='''All sequences of parameter changes between materials that share one of E, nu, K, G exactly, lattice of parameters, basis of strains, multiplication table of the constants.'''
out=[HEAD]
tests={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
for i,p in tests.items():
    out.append(f"### {i} {p['title']}\n\n")
    out.append(f"*Level* {man[i]['level']}. *Enumerated and monitored:* {man[i]['technique'].rstrip('.')}.\n\n{P.get(i,'')}\n\n*Limits:* {man[i]['level_note'].rstrip('.')}.\n\n")
out.append('''Not applicable: none; every property is decided by exhaustive enumeration within its bounds.

## Planted bugs

Each was written from the property text and the code, compiles, passes the whole suite, and is kept whether or
not it was caught at first.

| id | property | needs | breaks | first result |
|---|---|---|---|---|
''')
first=json.load(open('/verif/tools/first.json')) if os.path.exists('/verif/tools/first.json') else {}
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=d.split('/')[-2]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {first.get(i,'caught')} |\n")
out.append('''
## Findings

`known-findings.txt` lists every genuine defect: the repaired ones with the commit in /repo, the others with the
cases that show them (these print `KNOWN-FINDING` and do not fail the check). Not repaired because an existing test
pins the behaviour or the repair is not small: reading Hermitian files (S04), periodic identification (P03), the
one-iteration acceptance of Radau5 (O02), the dense output of DoPri8 (O04).
''')
open('/verif/DESIGN.md','w').write(''.join(out))
