"""Instantaneous force laws (C07)."""
import ast, os
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Func, ClassRef, has_unknown, Unknown
from checks.residuals import load_spec, spec_func
from checks.harmonics import entry

PARAMS = {  # class -> [(name, may be a vector)]
    'CubicForce': [('kalpha', True)], 'QuinticForce': [('kalpha', True)], 'CubicDamping': [('calpha', True)],
    'UnilateralSpring': [('k', True), ('Npreload', True), ('delta', True)],
    'ConservativeIwanBB': [('kt', False), ('Fs', False), ('chi', False), ('beta', False)],
    'GenPolyForce': None,
}

def subclasses(repo, base):
    """classes of the library (not jax) which inherit the instantaneous template"""
    out = []
    for m in repo.modules.values():
        for nm, c in m.classes.items():
            if nm != base and any(x[1].name == base for x in repo.mro(m, c)):
                out.append((nm, m, c))
    return sorted(out, key=lambda x: x[0])

def build(c, name, m, cl, form):
    """instance with symbolic parameters: (world, object, spec parameters, u, v)"""
    w = M.World(c.repo, 1)
    w.Nn, w.Nt = S.sym('Nn', 1, None), S.sym('Nt', 1, None)
    kw = {}
    if name == 'GenPolyForce':
        nz = S.sym('nz', 1, None)
        S.ELEM_MIN['qq'] = 0
        p = [w.leaf('Em', w.Nn, nz), w.leaf('qq', nz, w.Nn)]
    elif name in PARAMS:
        p = []
        for nm, vec in PARAMS[name]:
            if form == 'defaults' and nm not in ('k',):
                continue
            if form == 'vector' and vec:
                p.append(w.leaf('p_' + nm, w.Nn))
                S.POSITIVE.add('p_' + nm)
            else:
                p.append(S.sym('p_' + nm, positive=True))
    else:
        init = c.repo.method(m, cl, '__init__')
        names = [a.arg for a in init[2].args.args][3:] if init else []
        p = [S.sym('p_' + n, positive=True) for n in names]
    o = w.it.call(ClassRef(m, cl), [w.leaf('Q', w.Nn, w.Nd), w.leaf('T', w.Nd, w.Nn)] + p, kw)
    return w, o, p

def poles(e):
    """factors u**(negative) that remain in a polynomial derivative when every exponent of the table is zero"""
    out = []
    for (bounds, factors), _ in e.terms.items():
        for a, p in factors:
            if a.kind != 'Fn' or a.args[0] != 'exp' or isinstance(p, S.Expr) or p < 0:
                continue
            x = S.replace_elem(a.args[1][0], 'qq', lambda ix: S.ZERO)
            logs = {}
            for (b2, f2), k in x.terms.items():
                lg = [q for q, _ in f2 if q.kind == 'Fn' and q.args[0] == 'log']
                for q, _ in f2:
                    if q.kind == 'Ind' and not q.args[1][0].syms and not any(isinstance(z, S.Expr) and not z.terms for z in q.args[1]):
                        k = None
                    elif q.kind == 'Ind':
                        zero = all(not z.terms for z in q.args[1])
                        k = None if k is None else k if (q.args[0] == 'eq') == zero else 0
                    elif q not in lg:
                        k = None
                if k is None:
                    lg = []
                for q in lg:
                    logs[q] = logs.get(q, 0) + k
            out += [str(q) for q, k in logs.items() if k < 0]
    return out

def law(c, name, m, cl, form):
    key0 = '%s[%s]' % (name, form)
    rel = os.path.relpath(m.path, c.repo.root)
    w, o, p = build(c, name, m, cl, form)
    wh = '%s:%s.local_force_history' % (rel, name)
    wf = '%s:%s.force' % (rel, name)
    Nt, Nn, Nd = w.Nt, w.Nn, w.Nd
    t, i, j = S.sym('t', 0, Nt), S.sym('ri', 0, Nn), S.sym('rj', 0, Nn)
    a, b = S.sym('ra', 0, Nd), S.sym('rb', 0, Nd)
    u, v = w.leaf('u', Nt, Nn), w.leaf('v', Nt, Nn)
    velocity = name == 'CubicDamping'
    def attr(n):
        return w.it.getattr(o, n)
    def spec(uu, vv):
        if name not in PARAMS:
            return None
        r = w.it.call(spec_func(c.repo, 'laws', name), [uu, vv] + p)
        if has_unknown(r):
            raise S.Undecided('reference law: %s %s' % (r, w.it.notes[-2:]))
        return w.it.arr(r)
    r = w.it.call(attr('local_force_history'), [u, v], {})
    if not isinstance(r, tuple) or len(r) != 3:
        c.ob(key0 + ' local law returns three arrays', None if has_unknown(r) else False, wh, r)
    elif has_unknown(r):
        c.ob(key0 + ' local law', None, wh, '%s %s' % ([getattr(x, 'why', '') for x in r], w.it.notes[-2:]))
    else:
        ft, du, dv = [w.it.arr(x) for x in r]
        want = spec(u, v)
        c.ob(key0 + ' local law shape', True if ft.shape == (Nt, Nn) else A.shape_verdict(ft, A.full((Nt, Nn), S.ZERO)), wh, ft.shape)
        if want is not None:
            entry(c, key0 + ' local law is the documented one', ft, (t, i), want.f((t, i)), wh)
        for nm, leaf, D in (('displacement', 'u', du), ('velocity', 'v', dv)):
            k2 = '%s derivative w.r.t. local %s' % (key0, nm)
            if D.ndim == 2:
                entry(c, k2, D, (t, i), S.diff(ft.f((t, i)), (leaf, (t, i))), wh)
                j2 = i + 1 + S.sym('up', 0, Nn - i - 1)
                v0 = S.is_zero(S.diff(ft.f((t, i)), (leaf, (t, j2))))
                c.ob(k2 + ' (no coupling dropped)', v0, wh, '')
            elif D.ndim == 3:
                entry(c, k2, D, (t, i, j), S.diff(ft.f((t, i)), (leaf, (t, j))), wh)
                bad = poles(D.f((t, i, j)))
                c.ob(k2 + ' stays finite at zero displacement', not bad, wh, 'an absent factor (exponent 0) contributes exp(-%s)' % (bad[:1],))
            else:
                c.ob(k2, None, wh, 'rank %d' % D.ndim)
    # static form, generic mapping matrices
    X = w.leaf('X', Nd)
    r = w.it.call(attr('force'), [X], {})
    if not isinstance(r, tuple) or len(r) != 2:
        c.ob(key0 + ' force returns two arrays', None if has_unknown(r) else False, wf, r)
        return
    if has_unknown(r):
        c.ob(key0 + ' force', None, wf, '%s %s' % ([getattr(x, 'why', '') for x in r], w.it.notes[-2:]))
        return
    F, dF = [w.it.arr(x) for x in r]
    c.ob(key0 + ' force shape', True if F.shape == (Nd,) else A.shape_verdict(F, A.full((Nd,), S.ZERO)), wf, F.shape)
    entry(c, key0 + ' Jacobian is the derivative of the force', dF, (a, b), S.diff(F.f((a,)), ('X', (b,))), wf)
    bad = poles(dF.f((a, b)))
    c.ob(key0 + ' Jacobian stays finite at zero displacement', not bad, wf, 'an absent factor (exponent 0) contributes exp(-%s)' % (bad[:1],))
    un = A.matmul(w.it.arr(w.leaf('Q', Nn, Nd)), w.it.arr(X))
    row = NArr(A.Arr((S.ONE, Nn), lambda ix: un.f((ix[1],))))
    zero = NArr(A.full((S.ONE, Nn), S.ZERO))
    args = (zero, row) if velocity else (row, zero)
    for label, get in (('is the documented law of the mapped displacement', lambda: spec(*args)),
                       ('is the law of the time history', lambda: w.it.arr(w.it.call(attr('local_force_history'), list(args), {})[0]))):
        k2 = '%s force %s' % (key0, label)
        try:
            h = get()
            if h is None:
                continue
            want = A.sum_over(lambda q: S.elem('T', (a, q)) * h.f((S.ZERO, q)), Nn, ())
            entry(c, k2, F, (a,), want, wf)
        except S.Undecided as e:
            c.ob(k2, None, wf, e)

def laws(c):
    c.level = 'proof'
    c.rule('R7 instantaneous laws', 'for symbolic coefficients, sizes and mapping matrices: local force equals the documented law, '
           'returned derivatives are its exact (almost everywhere) derivatives, static force is T f(Q X) with the same law and '
           'its Jacobian is the exact derivative')
    load_spec(c.repo, 'laws')
    tasks = []
    found = subclasses(c.repo, 'InstantaneousForce')
    for name in PARAMS:
        if name not in [f[0] for f in found]:
            if not c.repo.find_class(name):
                c.anchor_lost('class ' + name)
    for name, m, cl in found:
        forms = ['scalar']
        if name in PARAMS and PARAMS[name] and any(v for n, v in PARAMS[name]):
            forms.append('vector')
        if name == 'UnilateralSpring':
            forms.append('defaults')
        for form in forms:
            tasks.append(('%s[%s]' % (name, form), lambda name=name, m=m, cl=cl, form=form: law(c, name, m, cl, form), 300))
    c.parallel(tasks)
