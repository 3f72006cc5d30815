IRT = 'static analysis of the LLVM IR of every instantiation'
CLAIMS = {
    'C13': ('abstract interpretation for all histories; interval analysis of the quotient of consecutive step sizes under the comparisons decided on each path, and the powers in the prediction formula',
            'All histories by loop-head fixpoints; Rodas, Radau (two or three Newton iterations) and Rock4 at two degrees; default safety factor and limits; the step at the largest Rock4 degree is not followed.'),
    'C28': ('comparison of the LLVM IR of builds with and without each logging option after slicing away the logger: instruction-by-instruction equality up to member offsets',
            'Every library function of the harness instantiations of Radau, Rodas and Rock4; the logger itself may only be given values or constant references.'),
    'C17': ('abstract interpretation of the integrators with numerical Jacobians; difference quotients read off the factorised matrices, exact restoration with operations in program order',
            'All histories by loop-head fixpoints; structures full, banded and Hessenberg of the harness; Newton loops of two iterations.'),
    'C18': ('abstract interpretation with ghost counters of user calls and factorisations compared with the getters; increments of step counters at every loop edge',
            'All histories by loop-head fixpoints; instantiations of the harness; counts at exceptional exits are not compared.'),
    'C19': ('abstract interpretation with a symbol per setting followed through the object to all loop heads, exits and a second integration',
            'All setters of the implicit integrators and Rock4, all histories by loop-head fixpoints; instantiations of the harness.'),
    'C20': ('effect analysis over LLVM IR: every write, reached through any pointer, to an object with static storage',
            'Every function reachable in all instantiations is analysed; a store, atomic or memory intrinsic whose address can derive from a global is a violation. Sound up to the instantiation list and to pointers obtained from external libraries.'),
    'C22': ('linkage analysis of header definitions in LLVM IR, plus compile witnesses for each header alone and first',
            'Every definition located in a repository header must have discardable linkage; each public header must compile alone. Decided per build configuration listed in the harness.'),
    'C29': ('type-precision dataflow over LLVM IR: no rounding to a shorter type of a value of the long double instantiation',
            'All functions of all long double instantiations are enumerated; any fptrunc, or fpext of a non-constant shorter value reaching extended data, is a violation.'),
    'C03': ('abstract interpretation of the integrator over a polynomial and uninterpreted-function domain, then exact order-condition and tableau checking',
            'Every step transition of the integration loop is extracted as a formula of user-function values for all histories; the tableau read off is compared with the Rosenbrock order conditions 4(3). Template dimensions are those of the harness; rounding is ignored.'),
    'C04': ('abstract interpretation of one step at each of the 50 degrees into a Runge-Kutta tableau, order conditions and stability polynomial over the reals',
            'All 50 degree indices; tableau extracted from the IR by symbolic terms, order conditions 4(3) to the accuracy of the published coefficients; stage-count selection decided from the extracted formula. n=4 components.'),
    'C05': ('abstract interpretation of linear Rock4 steps over affine-operator terms; polynomial identities of the stability function and of the response to a constant term',
            'All degrees of the stabilised method, both types of coefficients, linear and affine problem; stability on the real interval is bounded by exact evaluation of the extracted polynomial with Lipschitz margins.'),
    'C06': ('abstract interpretation of one SDIRK step over linear-operator terms, tableau extraction and order conditions',
            'All five methods, linear and affine problem, the operator kept uninterpreted; rounding is ignored.'),
    'C07': ('abstract interpretation of the coefficient tables and accessors; quadrature, collocation and symplecticity conditions in exact arithmetic',
            'All s from 2 to 16, both floating-point types; the tolerance is the precision of the printed tables.'),
    'C08': ('abstract interpretation of the compiled step with floating-point operations kept in program order; sweep map, convergence condition and compensated update read off the terms',
            'One to three sweeps symbolically, unknown sweeps by loop-head fixpoint, second steps with equal or other step size; dimensions of the harness.'),
    'C02': ('abstract interpretation of the integration loops with every factorisation, solve and Jacobian recorded as terms; the matrix behind each solve is compared with the prescribed one',
            'All histories by loop-head fixpoints, structures full, banded and Hessenberg of the harness; Newton loops with two or three iterations (thorough: three).'),
    'C09': ('abstract interpretation of the integration loops: caller-visible state at every back edge and return compared with the last accepted state',
            'All histories by loop-head fixpoints for Rodas, Radau and Rock4 instantiations of the harness; exceptional exits are not covered.'),
    'C10': ('abstract interpretation of the integration loops; induction over the step sizes and times flowing into the loop heads, with linear certificates from the comparisons decided on each path',
            'All histories by loop-head fixpoints, both time directions for Rodas and Radau, forward time for Rock4 at 5 and 10 stages (the cut of the step at the largest degree is not followed); exact arithmetic on times.'),
    'C11': ('abstract interpretation of the integration loops; ranking argument (attempt and Newton counters against their limits) at every loop back edge',
            'All histories by loop-head fixpoints, symbolic limits (Newton limit also 2 and 3); instantiations of the harness.'),
    'C12': ('abstract interpretation of the integration loops; the comparison deciding each attempt is resolved into a weighted sum of squares and compared with the prescribed norm',
            'All histories by loop-head fixpoints; the absolute scaling of the embedded error of Rock4 is not decided (its coefficients are part of C04).'),
    'C14': ('abstract interpretation with linear algebra routines that may fail at every call; no result computed from a failed call may be used',
            'All implicit instantiations of the harness; every failure of every factorisation and solve, histories by loop-head fixpoints.'),
    'C15': ('abstract interpretation of all integrator paths with contracts for every LAPACK routine used',
            'All implicit instantiations of the harness; sizes are compile-time constants of the instantiations; histories are covered by loop fixpoints.'),
    'C24': ('typestate analysis of heap blocks over abstract interpretation, including exceptional paths, plus type-level copy witnesses',
            'All harness instantiations and entry points, all histories by loop fixpoints; every throw path is followed to the destructor.'),
    'C25': ('abstract interpretation with object-bounded pointers: every load and store of all paths is checked against its object',
            'All harness instantiations; index ranges from loop fixpoints or complete unrolling; accesses not decided are reported as violations unless listed.'),
    'C26': ('definite-initialisation analysis over abstract interpretation of construction, configuration and integration',
            'All harness instantiations; memory starts uninitialised and every branch, call argument and result is checked for dependence on it.'),
    'C27': ('abstract interpretation checking every noalias and alignment assumption of the IR against the objects really passed',
            'All harness instantiations; restrict conflicts are reported per accessed cell.'),
    'C30': ('abstract interpretation with contracts on every user callback: initialised inputs, disjoint output, no read-before-write of the output',
            'All harness instantiations, all histories by loop fixpoints.'),
}
NA = {
    'N01': 'Compares a computed solution with the exact solution of an arbitrary smooth problem: a quantitative statement about runtime values (error constants, stiffness, rounding) that no static argument in reach bounds. The structural ingredients (scheme, error norm, controller) are covered by C01, C03, C04, C12 and C13.',
    'N02': 'Existence of a convergent step size is an analytical statement on the Lipschitz constant of the user problem, not a fact about the source.',
    'N03': 'A long-time statement on accumulated rounding and energy; the source facts it rests on (symplectic tables, exact compensated update) are C07 and C08.',
    'N04': 'False of this library by design (no step limit in Rock4, and comparisons with NaN send the controller back to another attempt); deciding it needs the values of the user function at run time.',
    'N05': 'A performance statement about machines and compilers, not about the source.',
}
