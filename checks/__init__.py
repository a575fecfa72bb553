REGISTRY = {
    'C01': ('residuals', 'gradients'),
    'C02': ('residuals', 'value_only'),
    'C03': ('residuals', 'equations'),
    'C04': ('harmonics', 'stiffness'),
    'C05': ('shooting', 'shooting'),
    'C06': ('shooting', 'aggregation'),
    'C07': ('laws', 'laws'),
    'C08': ('aft', 'aft'),
    'C09': ('fourier', 'fourier'),
    'C10': ('arclength', 'arclength'),
    'C11': ('arclength', 'scaling'),
    'C12': ('contin', 'accept'),
    'C13': ('solver', 'solver'),
    'C14': ('effects', 'ownership'),
    'C15': ('effects', 'purity'),
    'C16': ('prestress', 'prestress'),
    'C17': ('friction', 'friction'),
    'C18': ('hyst', 'cycles'),
    'C19': ('layout', 'layout'),
    'C21': ('layout', 'interpolation'),
    'C20': ('layout', 'callbacks'),
    'C22': ('exports', 'exports'),
    'C23': ('accel', 'accel'),
    'C24': ('interface', 'interface'),
    'C25': ('phase', 'phase'),
    'C26': ('phase', 'wrapping'),
    'C27': ('frf', 'frf'),
    'C28': ('config', 'config'),
}
GVN = 'static: source interpreted over an index-notation value graph (symbolic sizes), '
TRUST = ('Assumes the modelled NumPy semantics, exact arithmetic, a symmetric mass matrix, and treats the summed nonlinear force as '
         'an arbitrary differentiable function of displacement and frequency. ')
TECH = {
    'C01': (GVN + 'structural differentiation and comparison of normal forms', 'proof',
            'Proof for all model sizes, harmonic lists and inputs of the code as parsed. ' + TRUST),
    'C02': (GVN + 'comparison of the value-only and gradient branches', 'proof',
            'Proof for all inputs of the code as parsed. ' + TRUST),
    'C03': (GVN + 'comparison with parsed reference equations', 'proof',
            'Proof against reference equations in specs/. ' + TRUST),
    'C04': (GVN + 'symbolic block-entry queries on the assembled operator', 'proof',
            'Proof for all sizes, harmonic lists and matrices of the code as parsed. Assumes the modelled NumPy semantics and exact arithmetic.'),
    'C05': (GVN + 'queries on the state derivative and initial state handed to the integrator', 'proof',
            'Proof for all inputs of the code as parsed; the ODE integrator itself is trusted. ' + TRUST),
    'C06': (GVN + 'symbolic number of attached forces, sum-coverage and effect-coverage queries', 'proof',
            'Proof for any number of attached forces of the code as parsed. ' + TRUST),
    'C07': (GVN + 'comparison with parsed reference laws and structural differentiation', 'proof',
            'Proof of the instantaneous laws for all sizes and parameters, in exact arithmetic; two obligations of the JAX conservative '
            'backbone stay undecided (reported in the evidence).'),
    'C08': (GVN + 'chain-rule comparison with an arbitrary local law', 'proof',
            'Proof of the mapping and chain rule for an arbitrary local law over any sizes and harmonic lists. ' + TRUST),
    'C09': (GVN + 'entry queries on the Fourier coefficient arrays and series synthesis', 'proof',
            'Proof that synthesis and projection use one convention, for all harmonic lists; the FFT itself is trusted.'),
    'C10': (GVN + 'structural differentiation of the augmented system; dataflow over the continuation loop', 'proof',
            'Proof for any number of unknowns and any differentiable user function; the linear solver is trusted; ' + TRUST),
    'C11': (GVN + 'chain rule of the scaling, and unit inference by dataflow over the continuation loop', 'proof',
            'Proof of the scaling chain rule; unit inference covers every value stored or passed on by the loop. ' + TRUST),
    'C12': ('static: interprocedural dataflow with aliasing and branch facts; typestate of accept/store/callback, dominance and '
            'interval rules over the continuation loop', 'other',
            'Sound for the modelled language subset: every path through the loop (two-iteration havoc abstraction) for each verbosity and '
            'callback setting; the solver is an arbitrary function returning a success flag; ds0 is assumed between dsmin and dsmax.'),
    'C13': ('static: interprocedural dataflow with branch facts; dominance of every success report by the comparison of the selected norm with '
            'its own tolerance (inner-product normal form)', 'other',
            'Sound for the modelled language subset: three unrolled iterations and an arbitrary later one, per criterion, for Newton and BFGS '
            'updates, with and without line search; the function solved is arbitrary and scipy.optimize.root is trusted.'),
    'C14': ('static: interprocedural dataflow with aliasing; ownership rule over every write and every retained reference', 'other',
            'Sound for the modelled language subset: every write and every alias kept by every public function and method, arguments typed from '
            'their documentation, external calls by a table of effect summaries; user callables are assumed not to keep what they are given.'),
    'C15': ('static: interprocedural effect analysis; attribute writes of force evaluations checked against the update request, '
            'history independence by initialisation dominance', 'other',
            'Sound for the modelled language subset: every evaluation and query method of every concrete force class and of the residuals, '
            'for every value of the update flags.'),
    'C16': (GVN + 'state of every object after every set/reset sequence; evaluation terms with the switch set compared with those of a force built with the prestress value', 'proof',
            'Abstract states of every friction class are explored to closure under set and reset; every evaluation path is compared term by term.'),
    'C17': (GVN + 'piecewise laws compared with reference laws in every regime; recurrences taken from loop summaries', 'proof',
            'Each derived law is compared with the clamped reference law, regime by regime, by identity testing of the derived terms (not of the '
            'program); exact arithmetic; positive stiffness and friction parameters. ' ),
    'C18': (GVN + 'cycle loops with an opaque force law; data dependence of start states, compared forces and returned cycle', 'proof',
            'Proof for three instants per cycle and up to four repeats with an arbitrary force law; longer cycles run the same loop body.'),
    'C19': ('static: abstract interpretation of every helper and reduced order model on symbolic solution vectors; regime-wise algebraic '
            'comparison', 'proof',
            'Each reader or writer of solution vectors outside the residuals (conditioning, amplitude extraction, EPMC and VPRNM reduced order models, '
            'shooting stability, local harmonic forces) is interpreted on vectors of symbolic size; every entry read or written is compared with '
            'the position the documented residual gives it, the reduced order models with the modal response equation in every regime of their '
            'branch conditions.'),
    'C21': ('static: abstract interpretation of the interpolation functions in every position of the request relative to the stored points', 'proof',
            'linear_interp, hermite_interp and hermite_upsample are interpreted on branches of symbolic content (2 to 4 points) for requests '
            'below, above, at and between the stored points: combination of the bracketing neighbours, reproduction of stored values and '
            'tangents, refusal or marking outside. The spline library itself is trusted.'),
    'C20': ('static: abstract interpretation of every callback with recorded file accesses and symbolic text', 'proof',
            'Each callback of utils/continuation.py is interpreted for symbolic solutions, with and without an existing file; the order and mode of '
            'the file accesses, the lines and cells written (as symbolic text) and the arrays saved are compared with the documented format, every '
            'printed value algebraically with the physical quantity the documented residual keeps at that position.'),
    'C22': ('static: name resolution over the symbol tables and the import graph; call binding; constructor definite assignment; abstract '
            'evaluation of the exported name lists', 'proof',
            'Every name read in every module resolves; every module-qualified name exists in the module it denotes, library names against '
            'the installed stubs or sources; calls of package functions, constructors and own methods bind; attributes of self are provided; '
            'listed names exist and documented names (specs/public_api.json) are listed and importable; deprecated modules warn and give '
            'identical objects; module-level imports simulated from each possible first import, also without the accelerator package.'),
    'C23': ('static: interprocedural binding-time and effect analysis from every compiled function; module loading simulated for the precision '
            'switch; hashability of static arguments at call sites', 'proof',
            'Every compiled function, callee, closure and tracing primitive of the package. The derivative with respect to the intended argument is '
            'decided by the value-level checks (C08, C17), which differentiate the traced force term itself.'),
    'C24': ('static: signature and call-site binding over the class hierarchy; calls recorded by interpreting the callers on opaque forces; '
            'result counts and symbolic sizes from the value graph', 'proof',
            'Every class and every caller of the interface in the package, for symbolic dimensions; documented reduced capabilities of '
            'HystereticForce.aft and the two demonstration jax forces are exempt.'),
    'C25': (GVN + 'entry queries on rotated and predicted solution vectors', 'proof',
            'Proof for all sizes, harmonic lists, phases and load vectors of the code as parsed; the linear response is an arbitrary function here (see C27).'),
    'C26': (GVN + 'congruence and range of the derived wrapping term by identity testing', 'proof',
            'Decided on the term derived for one entry, at 400 angles of that term (not of the program); assumes exact arithmetic.'),
    'C27': (GVN + 'comparison with the modal solution for arbitrary eigenpairs', 'proof',
            'Proof for arbitrary eigenpairs, loads, base selections and frequencies; the eigenvalue routine is trusted. ' + TRUST),
    'C28': ('static: interprocedural dataflow over constructor, continuation and solver, with normal and exceptional exits; documentation parsed as the '
            'reference for keys and defaults', 'other',
            'Sound for the modelled language subset; any call of the user function, solver or callback may raise. Verbosity arguments only affect output.'),
}
NA = {
    'C29': 'Non-negative dissipation and Masing behaviour quantify over real-valued displacement histories through data-dependent '
           'stick/slip sequences; no sound static argument in reach bounds the loop integral.',
    'C30': 'Global convergence, branch jumping and sufficiency of truncation depend on the numerical values of the user model; '
           'they are not a property of the source text.',
}
