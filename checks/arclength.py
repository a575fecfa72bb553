"""Arc-length equations, prediction and conditioning (C10, C11)."""
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Func, Prim, Obj, PyDict, has_unknown
from checks.harmonics import entry

MOD, CLS = 'tmdsimpy.continuation', 'Continuation'
FILE = 'tmdsimpy/continuation.py'

class Setup:
    """a Continuation object with n symbolic unknowns and an arbitrary user function"""
    def __init__(self, c, corrector='Ortho', dynamic=False, sizes=None):
        self.c = c
        self.w = w = M.World(c.repo, 1)
        self.it = it = w.it
        self.n = n = S.sym('nu', 1, None)
        m = c.repo.modules[MOD]
        self.calls, self.solves = [], []
        self.solver = Obj(None, None, {}, name='solver')
        self.solver.attrs['lin_solve'] = Prim('lin_solve', self.lin_solve)
        self.b = S.sym('b', positive=True)
        S.FRACTION.add('b')
        cfg = PyDict({'FracLam': self.b, 'corrector': corrector, 'DynamicCtoP': dynamic})
        for nm in ('s', 'XC0', 'XC', 'dirC', 'XP0', 'XPp'):
            setattr(self, nm, NArr(A.leaf(nm, (n + 1,)), origin=nm))
        S.POSITIVE.add('s')
        self.RP = S.sym('RP', positive=True)
        self.ds = S.sym('ds', positive=True)
        self.o = Obj(m, m.classes[CLS], dict(config=cfg, CtoP=self.s, RPtoC=self.RP, solver=self.solver), name=CLS)
        self.fun = Prim('fun', self.f)

    def f(self, X, calc_grad=True, *rest):
        it, n = self.it, self.n
        Xa = it.arr(X)
        nm = M.intern('R', A.key_of(Xa))
        M.declare(nm, Xa, None)
        self.calls.append((nm, Xa, calc_grad))
        R = NArr(A.leaf(nm, (n,)))
        if calc_grad is False:
            return (R,)
        return (R, NArr(A.Arr((n, n), lambda ix: S.elem('D' + nm, ix))), NArr(A.Arr((n,), lambda ix: S.elem('D' + nm, (ix[0], n)))))

    def lin_solve(self, a, b):
        self.solves.append((self.it.arr(a), self.it.arr(b)))
        return NArr(A.leaf('dsol', (self.n + 1,)))

def size(c, key, arr, shape, wh):
    c.ob(key, True if arr.shape == shape else A.shape_verdict(arr, A.full(shape, S.ZERO)), wh, arr.shape)

def physical(c, key, g, Xa, want, wh):
    size(c, key + ': size of the point passed to the user function', Xa, (g.n + 1,), wh)
    i = S.sym('iv', 0, g.n + 1)
    entry(c, key + ': user function is evaluated at the physical point', Xa, (i,), want(i), wh)

def corrector(c, typ):
    wh = FILE + ':Continuation.correct_res'
    g = Setup(c, typ)
    it, n = g.it, g.n
    key = 'correct_res[%s]' % typ
    args = [g.fun, g.XC, g.XC0, g.ds, g.dirC]
    r = it.call(it.getattr(g.o, 'correct_res'), args, {})
    if not isinstance(r, tuple) or has_unknown(r) or len(r) != 2 or len(g.calls) != 1:
        c.ob(key + ' returns residual and Jacobian', False if isinstance(r, tuple) and not has_unknown(r) and len(r) != 2 else None, wh, '%s %s' % (r, it.notes[-2:]))
        return
    nm, Xa, _ = g.calls[0]
    el = S.elem
    if c.rep == 'C11':
        physical(c, key, g, Xa, lambda i: el('XC', (i,)) * el('s', (i,)), wh)
    R, J = it.arr(r[0]), it.arr(r[1])
    size(c, key + ' residual size', R, (n + 1,), wh)
    size(c, key + ' Jacobian size', J, (n + 1, n + 1), wh)
    i, j, col = S.sym('iv', 0, n), S.sym('jv', 0, n), S.sym('cv', 0, n)
    for nmz, jj in (('unknown', j), ('parameter', n)):
        if c.rep == 'C10':
            entry(c, key + ' arc row derivative with respect to the %s' % nmz, J, (n, jj), S.diff(R.f((n,)), ('XC', (jj,))), wh)
        d = S.diff(R.f((i,)), ('XC', (jj,)))
        entry(c, key + ' user rows of the Jacobian, %s column' % nmz, J, (i, jj), d, wh)
    entry(c, key + ' user rows of the residual', R, (i,), g.RP * el(nm, (i,)), wh)
    if c.rep == 'C10':
        p = S.sym('pv', 0, n)
        nrm = A.sum_over(lambda q: el('XC0', (q,)) * el('XC0', (q,)), n, ())
        cw = (S.ONE - g.b) / nrm
        if typ == 'Pseudo':
            dx = A.sum_over(lambda q: (el('XC', (q,)) - el('XC0', (q,))) ** 2, n, ())
            dl = (el('XC', (n,)) - el('XC0', (n,))) ** 2
            want = (cw * dx + g.b * dl) / g.ds ** 2 - 1
        else:
            t = lambda q: (el('XC', (q,)) - el('XC0', (q,)) - el('dirC', (q,)) * g.ds) * el('dirC', (q,))
            want = (cw * A.sum_over(t, n, ()) + g.b * t(n)) / g.ds
        entry(c, key + ' arc-length equation', R, (n,), want, wh)
    g.calls.clear()
    r2 = it.call(it.getattr(g.o, 'correct_res'), args, {'calc_grad': False})
    if not isinstance(r2, tuple) or has_unknown(r2):
        c.ob(key + ' without gradient', None, wh, r2)
        return
    R2 = it.arr(r2[0])
    if len(g.calls) == 1:
        k = S.sym('kv', 0, n)
        same = A.Arr((n + 1,), lambda ix: R2.f(ix))
        d = S.is_zero(R2.f((k,)) - R.f((k,)))
        d2 = S.is_zero(R2.f((n,)) - R.f((n,)))
        c.ob(key + ' same residual without gradient', False if False in (d, d2) else True if d and d2 else None, wh)

def prediction(c, dynamic):
    wh = FILE + ':Continuation.predict'
    g = Setup(c, 'Ortho', dynamic)
    it, n = g.it, g.n
    key = 'predict[dynamic=%s]' % dynamic
    r = it.call(it.getattr(g.o, 'predict'), [g.fun, g.XP0, g.XPp, g.dirC], {})
    if has_unknown(r) or len(g.solves) != 1 or len(g.calls) != 1:
        c.ob(key, None, wh, '%s %s' % (r, it.notes[-3:]))
        return
    nm, Xa, _ = g.calls[0]
    el = S.elem
    if c.rep == 'C11':
        physical(c, key, g, Xa, lambda i: el('XP0', (i,)), wh)
    a, b = g.solves[0]
    size(c, key + ' tangent system size', a, (n + 1, n + 1), wh)
    i, j = S.sym('iv', 0, n), S.sym('jv', 0, n)
    for nmz, jj in (('unknown', j), ('parameter', n)):
        entry(c, key + ' tangent rows, %s column, in conditioned space' % nmz, a, (i, jj), el('D' + nm, (i, jj)) * el('s', (jj,)), wh)
        if c.rep == 'C10':
            entry(c, key + ' bounding row, %s column' % nmz, a, (n, jj), el('dirC', (jj,)), wh)
    if c.rep == 'C11':
        return
    entry(c, key + ' tangent right-hand side of the user rows', b, (i,), S.ZERO, wh)
    bn = b.f((n,)).const_value()
    c.ob(key + ' tangent right-hand side of the bounding row is not zero', True if bn else False if bn == 0 else None, wh)
    D = it.arr(r)
    size(c, key + ' direction size', D, (n + 1,), wh)
    x0 = lambda q: el('XP0', (q,)) / el('s', (q,))
    nrm = A.sum_over(lambda q: x0(q) * x0(q), n, ())
    cw = (S.ONE - g.b) / nrm
    ds = lambda q: el('dsol', (q,))
    sq = cw * A.sum_over(lambda q: ds(q) * ds(q), n, ()) + g.b * ds(n) * ds(n)
    unit = lambda q: ds(q) / S.sqrt(sq)
    prev = lambda q: (el('XP0', (q,)) - el('XPp', (q,))) / el('s', (q,))
    arg = cw * A.sum_over(lambda q: unit(q) * prev(q), n, ()) + g.b * unit(n) * prev(n)
    sg = S.fn('sign', arg)
    for nmz, jj in (('unknown', j), ('parameter', n)):
        d = D.f((jj,))
        entry(c, key + ' direction is the normalised tangent oriented like the previous step, %s component' % nmz,
              A.Arr((n + 1,), lambda ix: cases(D.f(ix), 'Ind', 0)), (jj,), unit(jj) * sg, wh)
        z = cases(cases(d, 'Ind', 1), 'Fn', 0)
        c.ob(key + ' direction does not vanish when it is orthogonal to the previous step, %s component' % nmz,
             False if z.is_zero() else True, wh)

def cases(e, kind, v):
    """boundary (v=1) or generic (v=0) case of equality conditions; sign(0) = 0"""
    for m in list(e.terms):
        for a, p in m[1]:
            if a.kind == kind == 'Ind' and a.args[0] == 'eq' or a.kind == kind == 'Fn' and a.args[0] == 'sign':
                return cases(S._restrict(e, a, v), kind, v)
    return e

def run(c, rep):
    c.rep = rep
    c.level = 'proof'
    if MOD not in c.repo.modules or CLS not in c.repo.modules[MOD].classes:
        c.anchor_lost(MOD)
        return
    c.parallel([('correct_res[%s]' % t, lambda t=t: corrector(c, t), 120) for t in ('Ortho', 'Pseudo')] +
               [('predict[%s]' % d, lambda d=d: prediction(c, d), 120) for d in (False, True)])

def arclength(c):
    c.rule('arc rows', 'rows of the augmented system compared entry by entry (symbolic number of unknowns, arbitrary user function) with the structural derivative of the returned residual and with the documented arc-length equation')
    run(c, 'C10')
    c.rule('corrector start', 'dataflow over the continuation loop: the value handed to the solver as start equals reference point + direction * step of the '
           'very equation it solves; first orientation is sign(lam1 - lam0)')
    from checks import contin
    c.guard('continuation loop', lambda: contin.consistent(c), 300)

def scaling(c):
    c.rule('chain rule of the scaling', 'the user function is evaluated at CtoP * XlamC (entry by entry); rows are scaled by RPtoC and columns by CtoP so that the '
           'conditioned Jacobian is the structural derivative of the conditioned residual')
    c.rule('units', 'unit inference (physical, conditioned, scale, neutral) over every value stored, passed to callbacks, predictor, corrector and solver')
    run(c, 'C11')
    c.parallel([('conditioning wrapper[%s]' % v, lambda v=v: wrapper(c, v), 100) for v in ('scalar', 'vector')])
    from checks import contin
    c.guard('continuation loop', lambda: contin.units(c), 300)

def wrapper(c, v):
    hit = c.repo.find_class('NonlinearSolver')
    if not hit:
        c.anchor_lost('NonlinearSolver')
        return
    m, cl = hit[0]
    wh = 'tmdsimpy/solvers.py:NonlinearSolver.conditioning_wrapper'
    w = M.World(c.repo, 1)
    it = w.it
    n = S.sym('nu', 1, None)
    calls = []
    def f(X, calc_grad=True):
        Xa = it.arr(X)
        nm = M.intern('R', A.key_of(Xa))
        M.declare(nm, Xa, None)
        calls.append((nm, Xa))
        R = NArr(A.leaf(nm, (n,)))
        return (R,) if calc_grad is False else (R, NArr(A.leaf('D' + nm, (n, n))))
    o = Obj(m, cl, {}, name='NonlinearSolver')
    RP = S.sym('RP', positive=True) if v == 'scalar' else NArr(A.leaf('RP', (n,)))
    g = it.call(it.getattr(o, 'conditioning_wrapper'), [Prim('fun', f), NArr(A.leaf('s', (n,)))], {'RPtoC': RP})
    key = 'conditioning_wrapper[%s RPtoC]' % v
    el, i, j = S.elem, S.sym('iv', 0, n), S.sym('jv', 0, n)
    rp = RP if v == 'scalar' else el('RP', (i,))
    for args in ([], [True], [False]):
        calls.clear()
        r = it.call(g, [NArr(A.leaf('XC', (n,)))] + args, {})
        tag = key + (' without gradient' if args == [False] else '')
        if not isinstance(r, tuple) or has_unknown(r) or len(calls) != 1:
            c.ob(tag, None, wh, '%s %s' % (r, it.notes[-2:]))
            continue
        nm, Xa = calls[0]
        entry(c, tag + ': user function is evaluated at the physical point', Xa, (i,), el('XC', (i,)) * el('s', (i,)), wh)
        R = it.arr(r[0])
        entry(c, tag + ': residual rows', R, (i,), rp * el(nm, (i,)), wh)
        if args != [False]:
            c.ob(tag + ': returns residual and Jacobian', len(r) == 2, wh)
            entry(c, tag + ': Jacobian is the derivative of the conditioned residual', it.arr(r[1]), (i, j), S.diff(R.f((i,)), ('XC', (j,))), wh)
