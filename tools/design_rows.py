ROWS = {
'C01': ('value graph of every residual; returned Jacobian blocks versus structural derivative of the returned residual', 'derivative rules', 'nonlinear force an arbitrary differentiable function; any size; the listed gradient-free residuals excluded', '20-60 s'),
'C02': ('value graph with `calc_grad` True / False; the residual terms must be equal and no gradient be needed', 'the gradient branch', 'as C01', '10 s'),
'C03': ('value graph of every residual versus the equations in `specs/`', 'reference equations written from the documentation', 'as C01, symmetric M', '30 s'),
'C04': ('generic block entries of the harmonic stiffness and its frequency derivative', 'K - (n w)^2 M, n w C, block by block', 'any harmonic list with or without 0', '5 s'),
'C05': ('the state derivative and initial state handed to the ODE integrator, the variational equation, and the residual', 'equation of motion in state space', 'integrator trusted', '15 s'),
'C06': ('loop summaries over a symbolic number of attached forces', 'sum coverage / every force visited', 'none', '15 s'),
'C07': ('value graph of each instantaneous law; derivative structurally', 'laws in `specs/`', 'backbone of the JAX conservative Iwan partially undecided', '30 s'),
'C08': ('value graph of the AFT procedure with an arbitrary local law', 'chain rule', 'FFT as the discrete Fourier sum', '30 s'),
'C09': ('value graph of the Fourier helpers', 'one convention of harmonics, synthesis = inverse of projection', 'FFT trusted', '10 s'),
'C10': ('value graph of the arclength residual and predictor with a symbolic user function; dataflow over the loop for orthogonality of the predictor and its arguments', 'structural derivative, arclength definition', 'linear solver trusted', '10 s'),
'C11': ('value graph of the conditioning; unit inference by dataflow (every stored or passed value is physical or scaled)', 'chain rule; units', 'linear solver trusted', '10 s'),
'C12': ('dataflow over the continuation loop; typestate accepted -> stored -> callback; intervals for the step', 'acceptance protocol of the documentation', 'two unrolled iterations, then arbitrary iteration', '30 s'),
'C13': ('dataflow over the Newton loop; every success exit dominated by the comparison of a norm with its own tolerance; norms as inner product normal forms', 'documented norms', 'three unrolled iterations, then an arbitrary one', '1 s'),
'C14': ('dataflow over every public function and method; writes into storage owned by the caller, retained references', 'ownership rule', 'argument kinds from the documentation', '8 s'),
'C15': ('dataflow effect analysis per force class and method; initialisation dominance in aft', 'attribute write sets', 'documented scratch history of sequential models', '2 s'),
'C16': ('object states of every friction class explored to closure under set/reset; every evaluation path with the switch set', 'constructor state; the same force built with the prestress coefficient', 'arbitrary history and prestress value; 1-2 elements, 2 asperities, 3 radii', '35 s'),
'C17': ('value graph of each friction law; per-instant recurrence of scanned loops', 'clamped reference laws, regime by regime', 'positive parameters, identity testing of derived terms', '42 s'),
'C18': ('cycle loop of every hysteretic force with an opaque law: start state, compared data, stop rule, returned cycle', 'documented steady state search', '3 instants, up to 4 repeats', '1 s'),
'C19': ('helpers and reduced order models interpreted on symbolic solution vectors; branch conditions decided per regime (order of symbolic quantities), other conditions split', 'positions documented by the residuals; modal response equation, phase and ordering', 'reduced order models: 2 backbone points, concrete harmonic lists for the superharmonic model, symbolic sizes', '30 s'),
'C20': ('callbacks interpreted with recorded file accesses and symbolic text for symbolic solutions', 'documented columns: value at the position the residual defines; earlier rows then the new one', 'two output columns, up to four combined callbacks, new or existing file', '1 s'),
'C21': ('interpolation functions interpreted for every position of the request relative to the stored points', 'bracketing combination, stored values and tangents, refusal or NaN outside', '2-4 stored points of symbolic content; the spline of the library is trusted', '2 s'),
'C22': ('symbol tables of every module, import graph simulated from each first import, call binding, abstract evaluation of `__all__`', 'documented public names frozen in specs/public_api.json; installed stubs', 'attributes of objects other than self are not typed', '2 s'),
'C23': ('static/traced parameter split of compiled functions propagated through callees, closures and tracing primitives; effects; module loading simulated from every first import', 'binding-time rules of the accelerator: no value-dependent Python, numpy or side effect on traced values', 'methods of unknown objects are assumed pure', '1 s'),
'C24': ('class hierarchy signatures, recorded calls of the callers on opaque forces, sizes of results', 'common base classes and documentation', 'documented reduced capabilities exempt', '15 s'),
'C25': ('value graph of rotation and prediction, entry queries', 'rotation matrix per harmonic; scaled and rotated linear response; tail layout of the target residual', 'linear response arbitrary', '1 s'),
'C26': ('derived entry term tested for congruence and range', 'one period around zero', 'boundary points excluded', '1 s'),
'C27': ('value graph of the modal response for arbitrary eigenpairs', 'solution of the modal equation; dynamic stiffness blocks for base motion', 'eigenvalue routine trusted', '1 s'),
'C28': ('dataflow over constructor / continuation / solver incl. exceptional exits; documented keys and defaults', 'class documentation', 'two unrolled iterations then arbitrary one', '10 s'),
}
