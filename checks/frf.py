"""Linear frequency response (C27)."""
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Obj, Prim, Unknown, has_unknown, PyList, Raised
from checks.harmonics import repo_func, entry

FILE = 'tmdsimpy/vibration_system.py:VibrationSystem.'

def method(w, vs, name):
    try:
        m = w.it.getattr(vs, name)
    except Exception:
        m = None
    if m is None or has_unknown(m):
        raise M.AnchorLost('VibrationSystem.%s not found' % name)
    return m

def modal_solver(w, n, ne, log):
    def eigs(K, M_=None, subset_by_index=None, **kw):
        if M_ is None:
            M_ = kw.get('M')
        log.append((K, M_, subset_by_index))
        return (w.leaf('lam', ne), w.leaf('V', n, ne))
    o = Obj(None, None, {}, name='solver')
    o.getter = lambda it, ob, a: Prim('eigs', eigs) if a == 'eigs' else Unknown('solver attribute ' + a)
    return o

def same_array(c, key, w, v, shape, want, wh):
    if v is None or has_unknown(v):
        c.ob(key, None, wh, 'not derived: %s' % (v,))
        return
    a = w.it.arr(v)
    if a.shape != tuple(shape):
        sv = A.shape_verdict(a, A.full(tuple(shape), S.ZERO))
        if sv is not True:
            c.ob(key + ' shape', sv, wh, 'shape %s' % (a.shape,))
            return
    ix = tuple(S.sym('e%d' % k, 0, s) for k, s in enumerate(shape))
    entry(c, key, a, ix, want(*ix), wh)

def modal_response(w, i, ne, lam, om, fc, fs):
    """reference: sum over modes of V q with the modal equations of motion solved for q"""
    ab = lambda k: S.elem('ab', (S.const(k),))
    def term(part):
        def t(m):
            L = S.elem('lam', (m,))
            d = (ab(0) + ab(1) * L) * om
            a = L - om * om
            den = a * a + d * d
            num = a * fc(m) - d * fs(m) if part == 0 else d * fc(m) + a * fs(m)
            return S.elem('V', (i, m)) * num / den
        return A.sum_over(t, ne, ())
    return term

def check_modal_args(c, key, w, log, K, Mm, n, ne, wh):
    if len(log) != 1:
        c.ob(key + ' modes requested once', None if not log else False, wh, '%d eigenvalue analyses' % len(log))
        if not log:
            return
    k, m, sub = log[0]
    same_array(c, key + ' modes of the stiffness matrix', w, k, (n, n), K, wh)
    if m is None:
        c.ob(key + ' modes with the mass matrix', False, wh, 'eigenvalue analysis without the mass matrix')
    else:
        same_array(c, key + ' modes with the mass matrix', w, m, (n, n), Mm, wh)
    try:
        it = w.it
        items = sub.items if isinstance(sub, PyList) else list(sub) if isinstance(sub, tuple) else None
        if items is None and isinstance(sub, NArr):
            a = it.arr(sub)
            items = [a.f((S.const(0),)), a.f((S.const(1),))]
        lo, hi = (it.scalar(x) for x in items)
        v = S.is_zero(lo) and S.is_zero(hi - (ne - 1))
        c.ob(key + ' lowest modes requested', v, wh, 'modes %s to %s' % (lo, hi))
    except Exception as e:
        c.ob(key + ' lowest modes requested', None, wh, e)

def forced(c, vec, sine, many=False):
    key = 'linear_frf[%s,%s]' % ('frequency vector' if vec else 'scalar frequency', 'sine' if sine else 'cosine only') + (' more modes than DOFs' if many else '')
    w = M.World(c.repo, 0)
    wh = FILE + 'linear_frf'
    vs = w.system()
    vs.attrs['ab'] = w.leaf('ab', 2)
    S.POSITIVE.add('lam')
    nw, ne = (S.sym('nw', 1, None) if vec else S.ONE), S.sym('neigs', 1, w.Nd + 1)
    if many:
        ne = w.Nd
    log = []
    om = w.leaf('om', nw) if vec else S.sym('om')
    args = [om, w.leaf('Fc', w.Nd), modal_solver(w, w.Nd, ne, log), ne + 1 + S.sym('more', 0, None) if many else ne]
    r = w.it.call(method(w, vs, 'linear_frf'), args, {'Flsin': w.leaf('Fs', w.Nd)} if sine else {})
    if has_unknown(r):
        c.ob(key, None, wh, [r] + w.it.notes[-3:])
        return
    a = w.it.arr(r)
    Nd = w.Nd
    shp = (nw, 2 * Nd + 1)
    c.ob(key + ' shape', True if a.shape == shp else A.shape_verdict(a, A.full(shp, S.ZERO)), wh, 'shape %s' % (a.shape,))
    check_modal_args(c, key, w, log, lambda i, j: S.elem('K', (i, j)), lambda i, j: S.elem('M', (i, j)), Nd, ne, wh)
    k, i = S.sym('k', 0, nw) if vec else S.ZERO, S.sym('i', 0, Nd)
    omk = S.elem('om', (k,)) if vec else om
    proj = lambda nm: (lambda m: A.sum_over(lambda q: S.elem('V', (q, m)) * S.elem(nm, (q,)), Nd, ()))
    t = modal_response(w, i, ne, None, omk, proj('Fc'), proj('Fs') if sine else (lambda m: S.ZERO))
    entry(c, key + ' cosine response', a, (k, i), t(0), wh)
    entry(c, key + ' sine response', a, (k, Nd + i), t(1), wh)
    entry(c, key + ' frequency column', a, (k, 2 * Nd), omk, wh)

def base(c, vec, many=False):
    key = 'linear_frf_base[%s]' % ('frequency vector' if vec else 'scalar frequency') + (' more modes than DOFs' if many else '')
    w = M.World(c.repo, 0)
    wh = FILE + 'linear_frf_base'
    vs = w.system()
    vs.attrs['ab'] = w.leaf('ab', 2)
    S.POSITIVE.add('lam')
    Nf, Nb = S.sym('Nfree', 1, None), S.sym('Nbase', 1, None)
    N = Nf + Nb
    for nm in 'MCK':
        vs.attrs[nm] = w.leaf(nm, N, N)
    nw, ne = (S.sym('nw', 1, None) if vec else S.ONE), S.sym('neigs', 1, Nf + 1)
    if many:
        ne = Nf
    flag = w.leaf('baseflag', N)
    flag.name = 'mask'
    one_minus = A.ew(lambda x: S.ONE - x, flag.get())
    w.it.select = {A.key_of(flag.get()): ('ibase', Nb), A.key_of(one_minus): ('ifree', Nf)}
    fi = lambda i: S.elem('ifree', (i,))
    bi = lambda j: S.elem('ibase', (j,))
    log = []
    om = w.leaf('om', nw) if vec else S.sym('om')
    r = w.it.call(method(w, vs, 'linear_frf_base'), [om, w.leaf('Ub', 2), flag, modal_solver(w, Nf, ne, log), ne + 1 + S.sym('more', 0, None) if many else ne], {})
    if has_unknown(r):
        bad = any('broadcast' in str(x) for x in [r] + w.it.notes[-3:])
        c.ob(key, False if bad else None, wh, [r] + w.it.notes[-3:])
        return
    a = w.it.arr(r)
    shp = (nw, 2 * Nf + 1)
    c.ob(key + ' shape', True if a.shape == shp else A.shape_verdict(a, A.full(shp, S.ZERO)), wh, 'shape %s' % (a.shape,))
    check_modal_args(c, key, w, log, lambda i, j: S.elem('K', (fi(i), fi(j))), lambda i, j: S.elem('M', (fi(i), fi(j))), Nf, ne, wh)
    k, i = S.sym('k', 0, nw) if vec else S.ZERO, S.sym('i', 0, Nf)
    omk = S.elem('om', (k,)) if vec else om
    ub = lambda q: S.elem('Ub', (S.const(q),))
    def proj(s):
        def force(row, j):
            m = lambda nm: S.elem(nm, (fi(row), bi(j)))
            return (omk * omk * m('M') - m('K')) * ub(s) + (-omk * m('C') * ub(1) if s == 0 else omk * m('C') * ub(0))
        return lambda m: A.sum_over(lambda q: A.sum_over(lambda j: S.elem('V', (q, m)) * force(q, j), Nb, ()), Nf, ())
    t = modal_response(w, i, ne, None, omk, proj(0), proj(1))
    entry(c, key + ' cosine response', a, (k, i), t(0), wh)
    entry(c, key + ' sine response', a, (k, Nf + i), t(1), wh)
    entry(c, key + ' frequency column', a, (k, 2 * Nf), omk, wh)

def damping(c):
    """C = ab[0] M + ab[1] K wherever ab is stored"""
    w = M.World(c.repo, 0)
    hits = c.repo.find_class('VibrationSystem')
    if not hits:
        raise M.AnchorLost('class VibrationSystem not found')
    from tsa.interp import ClassRef
    m, cl = hits[0]
    for nm, kw in (('constructor', {'ab': w.leaf('ab', 2)}), ('constructor, C ignored', {'ab': w.leaf('ab', 2), 'C': w.leaf('C', w.Nd, w.Nd)})):
        key, wh = 'proportional damping of the ' + nm, FILE + '__init__'
        o = w.it.call(ClassRef(m, cl), [w.leaf('M', w.Nd, w.Nd), w.leaf('K', w.Nd, w.Nd)], kw)
        attrs(c, key, w, o, wh, True)
    for nm, kw in (('set_new_C', {'ab': w.leaf('ab', 2)}), ('set_new_C, C ignored', {'ab': w.leaf('ab', 2), 'C': w.leaf('C', w.Nd, w.Nd)})):
        vs = w.system()
        key, wh = 'proportional damping of ' + nm, FILE + 'set_new_C'
        vs.attrs['C'], vs.attrs['ab'] = w.leaf('Cold', w.Nd, w.Nd), None
        w.it.call(method(w, vs, 'set_new_C'), [], kw)
        attrs(c, key, w, vs, wh, True)
    vs = w.system()
    vs.attrs['C'], vs.attrs['ab'] = w.leaf('Cold', w.Nd, w.Nd), w.leaf('ab', 2)
    w.it.call(method(w, vs, 'set_new_C'), [], {'C': w.leaf('C', w.Nd, w.Nd)})
    ab = vs.attrs.get('ab')
    c.ob('a damping matrix given to set_new_C replaces stored proportional coefficients', True if ab is None else None if has_unknown(ab) else False, FILE + 'set_new_C',
         'ab keeps %s although C is the given matrix, so that the modal frequency responses use another damping than the model' % (ab,))

def attrs(c, key, w, o, wh, ab):
    if not isinstance(o, Obj):
        c.ob(key, None, wh, o)
        return
    e = lambda k: S.elem('ab', (S.const(k),))
    same_array(c, key, w, o.attrs.get('C'), (w.Nd, w.Nd),
               lambda i, j: e(0) * S.elem('M', (i, j)) + e(1) * S.elem('K', (i, j)), wh)
    v = o.attrs.get('ab')
    if v is None:
        c.ob(key + ' remembered', False, wh, 'the proportional coefficients are not stored')
    else:
        same_array(c, key + ' remembered', w, v, (2,), lambda k: S.elem('ab', (k,)), wh)

def eigenproblem(c):
    """NonlinearSolver.eigs hands (K, M) to the symmetric generalised eigenvalue routine and returns its result"""
    w = M.World(c.repo, 0)
    wh = 'tmdsimpy/solvers.py:NonlinearSolver.eigs'
    hits = c.repo.find_class('NonlinearSolver')
    if not hits:
        raise M.AnchorLost('class NonlinearSolver not found')
    m, cl = hits[0]
    log = []
    ne = S.sym('neigs', 1, w.Nd + 1)
    def eigh(a, b=None, *rest, **kw):
        log.append((a, b, kw.get('subset_by_index'), rest, kw))
        return (w.leaf('lam', ne), w.leaf('V', w.Nd, ne))
    w.it.np.extra['scipy.linalg.eigh'] = eigh
    o = Obj(m, cl, {}, name='NonlinearSolver')
    for massed in (True, False):
        key = 'eigs[%s]' % ('K, M' if massed else 'K')
        del log[:]
        a = [w.leaf('K', w.Nd, w.Nd)] + ([w.leaf('M', w.Nd, w.Nd)] if massed else [])
        r = w.it.call(w.it.getattr(o, 'eigs'), a, {'subset_by_index': PyList([S.ZERO, ne - 1])})
        if has_unknown(r) or not log or not isinstance(r, tuple) or len(r) != 2:
            c.ob(key, None, wh, [r] + w.it.notes[-3:])
            continue
        k, mm, sub, rest, kw = log[0]
        same_array(c, key + ' stiffness', w, k, (w.Nd, w.Nd), lambda i, j: S.elem('K', (i, j)), wh)
        if massed:
            if mm is None:
                c.ob(key + ' mass', False, wh, 'the mass matrix is not used')
            else:
                same_array(c, key + ' mass', w, mm, (w.Nd, w.Nd), lambda i, j: S.elem('M', (i, j)), wh)
        else:
            c.ob(key + ' mass', mm is None, wh, 'mass matrix %s' % mm)
        extra = set(kw) - {'subset_by_index', 'check_finite', 'driver', 'overwrite_a', 'overwrite_b'}
        c.ob(key + ' generalised symmetric problem', not rest and not extra, wh, 'options %s %s' % (rest, sorted(extra)))
        same_array(c, key + ' eigenvalues returned', w, r[0], (ne,), lambda i: S.elem('lam', (i,)), wh)
        same_array(c, key + ' eigenvectors returned', w, r[1], (w.Nd, ne), lambda i, j: S.elem('V', (i, j)), wh)

def frf(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R27 modal superposition', 'for arbitrary eigenpairs (lam, V), the returned cosine and sine responses are the sum over the '
           'retained modes of V times the solution of the modal equation (lam - w^2, (ab0 + ab1 lam) w) for the projected load; the load of '
           'base excitation is minus the free/base blocks of the dynamic stiffness times the base motion; the eigenvalue analysis receives '
           'the stiffness and mass matrices of the model; C is ab0 M + ab1 K whenever ab is stored')
    c.repo
    tasks = []
    def add(key, fn, *a):
        def go():
            try:
                fn(c, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        tasks.append((key, go, 250))
    for vec in (True, False):
        for sine in (True, False):
            add('linear_frf %d %d' % (vec, sine), forced, vec, sine)
        add('linear_frf_base %d' % vec, base, vec)
    add('linear_frf many', forced, True, True, True)
    add('linear_frf_base many', base, True, True)
    add('proportional damping', damping)
    add('eigs', eigenproblem)
    c.parallel(tasks)
