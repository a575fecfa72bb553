"""Shooting (C05) and force aggregation (C06)."""
import itertools, os
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Func, Obj, Prim, PyDict, PyList, Unknown, has_unknown, MISSING, Raised
from checks.residuals import method, where, compare
from checks.harmonics import entry

def run_shoot(c, nf, order):
    """obligations for one layout hypothesis of the sensitivity states"""
    key = 'shooting[%s forces]' % nf
    obs = []
    def ob(*a):
        obs.append(a)
    class Sink:
        ob = staticmethod(lambda *a: obs.append(a))
    sink = Sink()
    w = M.World(c.repo, 0)
    w.system()
    if nf == 'no':
        w.vs.attrs['nonlinear_forces'] = PyList([])
    Nd = w.Nd
    cap = {}
    wh = where(w, 'shooting_res')
    nt = S.sym('Nt', 3, None)
    def ivp(fun, t_span=None, y0=None, *a, **k):
        cap.update(fun=fun, t_span=t_span, y0=y0, **k)
        y = w.it.arr(cap['y0'])
        return PyDict({'y': NArr(A.leaf('Y', (y.shape[0], nt + 1))), 't': NArr(A.leaf('T', (nt + 1,)))})
    w.it.np.extra['scipy.integrate.solve_ivp'] = ivp
    X, Fl = w.leaf('X', 2 * Nd + 1), w.leaf('Fl', 2 * Nd)
    om = S.elem('X', (2 * Nd,))
    r = w.it.call(method(w, 'shooting_res'), [X, Fl], {'Nt': nt})
    if 'fun' not in cap:
        ob(key + ' integrator', None, wh, 'call of the time integrator not seen; %s' % w.it.notes[-3:])
        return obs
    T = 2 * S.sym('pi', positive=True) / om
    L = 4 * Nd + 4 * Nd * Nd
    y0 = w.it.arr(cap['y0'])
    ob(key + ' state size', True if y0.shape == (L,) else A.shape_verdict(y0, A.full((L,), S.ZERO)), wh, y0.shape)
    span = cap['t_span']
    if isinstance(span, (tuple, PyList)):
        sp = list(span.items if isinstance(span, PyList) else span)
        if not has_unknown(tuple(sp)) and len(sp) == 2:
            ob(key + ' integration over one period', S.is_zero(w.it.scalar(sp[1]) - w.it.scalar(sp[0]) - T), wh, sp)
    te = cap.get('t_eval')
    if te is not None and not has_unknown(te):
        te = w.it.arr(te)
        sink_end = te.f((te.shape[0] - 1,))
        ob(key + ' output at the end of the period', S.is_zero(sink_end - T), wh, 'last output time %s' % sink_end)
    i, j = S.sym('ri', 0, Nd), S.sym('rj', 0, Nd)
    def sens(a, ii, b, jj):
        r_, c_ = a * Nd + ii, b * Nd + jj
        return 2 * Nd + (r_ * 2 * Nd + c_ if order == 'C' else c_ * 2 * Nd + r_)
    # initial values
    for a in (0, 1):
        entry(sink, key + ' initial state %s' % 'UV'[a], y0, (a * Nd + i,), S.elem('X', (a * Nd + i,)), wh)
        entry(sink, key + ' initial frequency sensitivity %s' % 'UV'[a], y0, (2 * Nd + 4 * Nd * Nd + a * Nd + i,), S.ZERO, wh)
        for b in (0, 1):
            entry(sink, key + ' initial sensitivity %s%s' % ('UV'[a], 'UV'[b]), y0, (sens(a, i, b, j),),
                  S.delta(a * Nd + i - b * Nd - j), wh)
    # right hand side
    t = S.sym('t')
    Y0 = NArr(A.leaf('Y0', (L,)))
    yd = w.it.call(cap['fun'], [t, Y0])
    if has_unknown(yd):
        ob(key + ' state derivative', None, wh, w.it.notes[-3:])
        return obs
    yd = w.it.arr(yd)
    inv = w.it.arr(w.it.np.inv(w.vs.attrs['M']))
    nF = S.ZERO if nf == 'no' else w.nF
    fobj = w.force(S.sym('kk', 0, w.nF))
    U = A.Arr((Nd,), lambda ix: S.elem('Y0', ix))
    fk = w.it.call(w.force_attr(w.it, fobj, 'force'), [NArr(U)])[0]
    nm = [a for (b_, f_), _ in w.it.arr(fk).f((i,)).terms.items() for a, p in f_ if a.kind == 'Elem'][0].args[0]
    def acc(ii):
        def term(q):
            e = S.elem('Fl', (q,)) * S.fn('cos', om * t) + S.elem('Fl', (Nd + q,)) * S.fn('sin', om * t)
            e = e - A.sum_over(lambda k: S.elem('C', (q, k)) * S.elem('Y0', (Nd + k,)), Nd, ())
            e = e - A.sum_over(lambda k: S.elem('K', (q, k)) * S.elem('Y0', (k,)), Nd, ())
            if nf != 'no':
                e = e - S.sum_range(lambda k: S.elem(nm, (k, q)), S.ZERO, nF)
            return inv.f((ii, q)) * e
        return A.sum_over(term, Nd, ())
    g = [lambda ii: S.elem('Y0', (Nd + ii,)), acc]
    for a in (0, 1):
        entry(sink, key + ' state derivative %s' % ('displacement', 'velocity')[a], yd, (a * Nd + i,), g[a](i), wh)
    def lin(a, ii, col):
        """row (a, ii) of dg/dz times a column of sensitivities col(b, k)"""
        e = S.ZERO
        for b in (0, 1):
            e = e + A.sum_over(lambda k: S.diff(g[a](ii), ('Y0', (b * Nd + k,))) * col(b, k), Nd, ())
        return e
    base = 2 * Nd + 4 * Nd * Nd
    for a in (0, 1):
        for b in (0, 1):
            entry(sink, key + ' sensitivity equation %s%s' % ('UV'[a], 'UV'[b]), yd, (sens(a, i, b, j),),
                  lin(a, i, lambda b2, k: S.elem('Y0', (sens(b2, k, b, j),))), wh)
        want = lin(a, i, lambda b2, k: S.elem('Y0', (base + b2 * Nd + k,))) + S.diff(g[a](i), ('X', (2 * Nd,)))
        entry(sink, key + ' frequency sensitivity %s' % 'UV'[a], yd, (base + a * Nd + i,), want, wh)
    # periodicity residual and derivative
    if not isinstance(r, tuple) or has_unknown(r[0]):
        ob(key + ' residual', None, wh, w.it.notes[-3:])
        return obs
    R = w.it.arr(r[0])
    last = nt
    Yf = lambda k: S.elem('Y', (k, last))
    end = NArr(A.Arr((L,), lambda ix: Yf(ix[0])))
    ydT = w.it.arr(w.it.call(cap['fun'], [T, end]))
    for a in (0, 1):
        entry(sink, key + ' periodicity %s' % 'UV'[a], R, (a * Nd + i,), Yf(a * Nd + i) - S.elem('X', (a * Nd + i,)), wh)
        if not has_unknown(r[1]):
            for b in (0, 1):
                entry(sink, key + ' dR/dU %s%s' % ('UV'[a], 'UV'[b]), w.it.arr(r[1]), (a * Nd + i, b * Nd + j),
                      Yf(sens(a, i, b, j)) - S.delta(a * Nd + i - b * Nd - j), wh)
        if not has_unknown(r[2]):
            entry(sink, key + ' dR/dw %s' % 'UV'[a], w.it.arr(r[2]), (a * Nd + i,),
                  ydT.f((a * Nd + i,)) * S.diff(T, ('X', (2 * Nd,))) + Yf(base + a * Nd + i), wh)
    if nf != 'no':
        r4 = w.it.call(method(w, 'shooting_res'), [X, Fl], {'Nt': nt, 'return_aux': True})
        if isinstance(r4, tuple) and len(r4) == 4 and isinstance(r4[3], tuple) and not has_unknown(r4[3][0]):
            mono = w.it.arr(r4[3][0])
            for a in (0, 1):
                for b in (0, 1):
                    entry(sink, key + ' monodromy %s%s' % ('UV'[a], 'UV'[b]), mono, (a * Nd + i, b * Nd + j),
                          Yf(sens(a, i, b, j)), wh)
            for pos, nm2, off in ((1, 'displacement history', 0), (2, 'velocity history', Nd)):
                if not has_unknown(r4[3][pos]):
                    hist = w.it.arr(r4[3][pos])
                    tt = S.sym('tt', 0, nt + 1)
                    entry(sink, key + ' ' + nm2, hist, (i, tt), S.elem('Y', (off + i, tt)), wh)
    return obs

def shooting(c):
    c.rule('R5 initial value problem', 'initial values, right hand side, sensitivity equations, period and residual of the shooting '
           'formulation equal the equation of motion and its exact linearisation in index notation; forces with memory are refused')
    c.level = 'proof'
    for nf in ('many', 'no'):
        key = 'shooting[%s forces]' % nf
        def go(nf=nf):
            best = None
            for order in ('C', 'F'):
                try:
                    o = run_shoot(c, nf, order)
                except M.AnchorLost as e:
                    c.anchor_lost(str(e))
                    return
                bad = sum(1 for x in o if x[1] is False)
                if best is None or bad < best[0]:
                    best = (bad, o)
                if not bad:
                    break
            for x in best[1]:
                c.ob(*x)
        try:
            c.guard(key, go, 300)
        finally:
            pass
    def refusal():
        for n in (1, 2, 3):
            for types in itertools.product((0, 1), repeat=n):
                w = M.World(c.repo, 1)
                w.system()
                w.it.asserts = True
                log, ran = [], []
                w.vs.attrs['nonlinear_forces'] = PyList([mk_force(w, 'abc'[k], types[k], log) for k in range(n)])
                w.it.np.extra['scipy.integrate.solve_ivp'] = lambda *a, **k: ran.append(a) or Unknown('not needed')
                nd = w.Nd
                try:
                    w.it.call(method(w, 'shooting_res'), [w.leaf('X', 2 * nd + 1), w.leaf('Fl', 2 * nd)], {'Nt': S.sym('Nt', 3, None)})
                    raised = False
                except Raised:
                    raised = True
                key = 'shooting[types=%s] ' % ''.join(map(str, types))
                wh = where(w, 'shooting_res')
                if any(types):
                    c.ob(key + 'forces with memory are refused before the integration', not ran and (True if raised else None), wh,
                         'the state vector has no history: integrated without it')
                else:
                    c.ob(key + 'instantaneous forces are accepted', False if raised else True if ran else None, wh)
    c.guard('refusal', refusal, 100)

# ------------------------------------------------------------------- C06
def mk_force(w, name, typ, log, lacks=None):
    o = Obj(None, None, {}, name=name)
    def getter(it, o, a):
        if a == lacks:
            return Unknown('attribute ' + a)
        def rec(*args, **kw):
            log.append((name, a, args, kw))
            if a == 'nl_force_type':
                return S.const(typ)
            if a == 'force':
                X = it.arr(args[0])
                n = X.shape[0]
                return (it.wrap(A.leaf('f' + name, (n,))), it.wrap(A.leaf('Df' + name, (n, n))))
            return None
        return Prim(a, rec)
    o.getter = getter
    return o

def aggregation(c):
    c.rule('R6 accumulation', 'static residual, frequency domain sum and the shooting right hand side contain the sum over the whole '
           'force list of each contribution with coefficient one; for every force list with up to three entries and all type '
           'patterns, bulk operations call every supporting force exactly once with the right arguments')
    c.level = 'proof'
    tasks = []
    def static():
        for nf in ('many', 'no'):
            w = M.World(c.repo, 1)
            w.system()
            if nf == 'no':
                w.vs.attrs['nonlinear_forces'] = PyList([])
            Nd = w.Nd
            wh = where(w, 'static_res')
            r = w.it.call(method(w, 'static_res'), [w.leaf('U', Nd), w.leaf('Fs', Nd)])
            key = 'static_res[%s forces]' % nf
            if not isinstance(r, tuple) or has_unknown(r):
                c.ob(key, None, wh, '%s %s' % (r, w.it.notes[-3:]))
                continue
            i, j = S.sym('ri', 0, Nd), S.sym('rj', 0, Nd)
            fk = w.it.arr(w.it.call(w.force_attr(w.it, w.force(S.sym('kk', 0, w.nF)), 'force'), [w.leaf('U', Nd)])[0])
            nm = [a for (b_, f_), _ in fk.f((i,)).terms.items() for a, p in f_ if a.kind == 'Elem'][0].args[0]
            tot = S.sum_range(lambda k: S.elem(nm, (k, i)), S.ZERO, w.nF) if nf == 'many' else S.ZERO
            want = A.sum_over(lambda k: S.elem('K', (i, k)) * S.elem('U', (k,)), Nd, ()) - S.elem('Fs', (i,)) + tot
            entry(c, key + ' residual', w.it.arr(r[0]), (i,), want, wh)
            entry(c, key + ' gradient', w.it.arr(r[1]), (i, j), S.diff(want, ('U', (j,))), wh)
    tasks.append(('static_res', static, 120))
    def aft():
        for h0 in (0, 1):
            for nf in ('many', 'no'):
                for cg in (True, False):
                    w = M.World(c.repo, h0)
                    w.system()
                    if nf == 'no':
                        w.vs.attrs['nonlinear_forces'] = PyList([])
                    N, om = w.N, S.sym('w')
                    wh = where(w, 'total_aft')
                    key = 'total_aft[h0=%d,%s forces,%s]' % (h0, nf, 'gradient' if cg else 'value')
                    U = w.leaf('U', N)
                    nt, tol = S.sym('Nt'), S.sym('afttol')
                    r = w.it.call(method(w, 'total_aft'), [U, om, w.h], {'Nt': nt, 'aft_tol': tol, 'calc_grad': cg})
                    if not isinstance(r, tuple) or has_unknown(r):
                        c.ob(key, None, wh, '%s %s' % (r, w.it.notes[-3:]))
                        continue
                    c.ob(key + ' number of results', len(r) == (3 if cg else 1), wh, len(r))
                    ev = [e for e in w.it.events if e[0] == 'aft']
                    if nf == 'many':
                        for e in ev:
                            for p, want in (('Nt', nt), ('tol', tol)):
                                v = e[3][p]
                                c.ob('%s forwards %s' % (key, p), v is not None and not has_unknown(v) and w.it.scalar(v) == want, wh,
                                     'aft receives %s=%s' % (p, v))
                            c.ob(key + ' forwards h', True if e[3]['h'] is w.h else None, wh)
                        k = S.sym('kk', 0, w.nF)
                        nm = M.intern('aft', A.key_of(w.it.arr(U)) + '|' + om.key)
                    i, j = S.sym('ri', 0, N), S.sym('rj', 0, N)
                    z = nf == 'no'
                    entry(c, key + ' force', w.it.arr(r[0]), (i,),
                          S.ZERO if z else S.sum_range(lambda k: S.elem(nm, (k, i)), S.ZERO, w.nF), wh)
                    if cg and len(r) == 3:
                        entry(c, key + ' dF/dU', w.it.arr(r[1]), (i, j),
                              S.ZERO if z else S.sum_range(lambda k: S.elem('D' + nm, (k, i, j)), S.ZERO, w.nF), wh)
                        entry(c, key + ' dF/dw', w.it.arr(r[2]), (i,),
                              S.ZERO if z else S.sum_range(lambda k: S.elem('W' + nm, (k, i)), S.ZERO, w.nF), wh)
    tasks.append(('total_aft', aft, 200))
    def bulk():
        import itertools
        OPS = {'init_force_history': ('init_history', 1), 'update_force_history': ('force', 1),
               'set_prestress_mu': ('set_prestress_mu', None), 'reset_real_mu': ('reset_real_mu', None),
               'set_aft_initialize': ('set_aft_initialize', None)}
        for op, (target, only) in OPS.items():
            for n in range(0, 4):
                # '-': the force has no such operation
                for types in itertools.product((0, 1) if only is not None else ('0', '1', '0-', '1-'), repeat=n):
                    w = M.World(c.repo, 1)
                    w.system()
                    log = []
                    w.vs.attrs['nonlinear_forces'] = PyList([mk_force(w, 'abc'[k], int(str(types[k])[0]), log, target if '-' in str(types[k]) else None) for k in range(n)])
                    wh = where(w, op)
                    args = [w.leaf('U', w.Nd)] if op in ('update_force_history', 'set_aft_initialize') else []
                    key = '%s[types=%s]' % (op, ''.join(map(str, types)))
                    r = w.it.call(method(w, op), args)
                    if has_unknown(r) or w.it.notes:
                        c.ob(key, None, wh, '%s %s' % (r, w.it.notes))
                        continue
                    calls = [e for e in log if e[1] == target]
                    want = ['abc'[k] for k in range(n) if (only is None or types[k] == only) and '-' not in str(types[k])]
                    got = sorted(e[0] for e in calls)
                    c.ob(key + ' reaches every force once', got == want, wh, 'calls %s on %s, expected %s' % (target, got, want))
                    for e in calls:
                        if args:
                            c.ob(key + ' passes the displacement', len(e[2]) > 0 and e[2][0] is args[0] or None, wh)
                        if op == 'update_force_history':
                            c.ob(key + ' requests the history update', e[3].get('update_hist', e[2][1] if len(e[2]) > 1 else False) is True,
                                 wh, 'force called with %s' % (e[3],))
    tasks.append(('bulk operations', bulk, 200))
    c.repo
    def guardlost(g):
        def h():
            try:
                g()
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        return h
    c.parallel([(k, guardlost(g), s) for k, g, s in tasks])
