"""Alternating frequency/time forces (C08)."""
import ast, os
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Func, ClassRef, Prim, Obj, has_unknown, Unknown
from checks.harmonics import entry
from checks.laws import build, subclasses, PARAMS

def same_harm(w, h):
    return isinstance(h, NArr) and (h is w.h or getattr(h, 'harm', None) == w.h.harm)

def transform_hooks(w, c, key, wh):
    """synthesis and projection as opaque linear operators (verified by C09)"""
    it, Nhc = w.it, w.Nhc
    def lin(op, X, n):
        return A.Arr((n, X.shape[1]), lambda ix: A.sum_over(
            lambda p: S.elem(op, (ix[0], p)) * X.f((p, ix[1])), X.shape[0], X.cuts[0], X.mods[0]),
            [(), X.cuts[1]], [(), X.mods[1]])
    def htuple_ok(h):
        if isinstance(h, Unknown):
            return None
        return same_harm(w, h)
    def tsd(it_, f, args, kw):
        b = M.bind(f, args, kw)
        X = it.arr(b['X0'])
        o = it.scalar(b['order']).const_value()
        if o is None:
            raise S.Undecided('order of the time derivative')
        okn = it.scalar(b['Nt']) == w.Nt
        c.ob('%s time resolution passed on' % key, True if okn else (False if S.is_zero(it.scalar(b['Nt']) - w.Nt) is False else None), wh)
        c.ob('%s harmonic list passed on' % key, htuple_ok(b.get('h', b.get('htuple'))) or None, wh)
        c.ob('%s synthesis of all coefficients' % key, True if X.shape[0] == Nhc else A.shape_verdict(
            A.Arr((X.shape[0],), None), A.full((Nhc,), S.ZERO)), wh, X.shape)
        return it.wrap(lin('B%d' % o, X, w.Nt))
    def gfc(it_, f, args, kw):
        b = M.bind(f, args, kw)
        X = it.arr(b['x_t'])
        c.ob('%s projection over the whole history' % key, True if X.shape[0] == w.Nt else A.shape_verdict(
            A.Arr((X.shape[0],), None), A.full((w.Nt,), S.ZERO)), wh, X.shape)
        c.ob('%s harmonic list passed on' % key, htuple_ok(b.get('h', b.get('htuple'))) or None, wh)
        return it.wrap(lin('P', X, Nhc))
    for base in ('tmdsimpy.utils.harmonic.', 'tmdsimpy.jax.harmonic_utils.'):
        it.hooks[base + 'time_series_deriv'] = tsd
        it.hooks[base + 'get_fourier_coeff'] = gfc

def expected(w, c, key, wh, r, form):
    """F = T P f(B0 Q U, w B1 Q U), J and dF/dw its chain rule"""
    it, Nd, Nhc, Nn, Nt = w.it, w.Nd, w.Nhc, w.Nn, w.Nt
    F, J, W = [it.arr(x) for x in r]
    for nm, a, sh in (('force', F, (w.N,)), ('Jacobian', J, (w.N, w.N)), ('frequency derivative', W, (w.N,))):
        c.ob('%s %s size' % (key, nm), True if a.shape == sh else A.shape_verdict(a, A.full(sh, S.ZERO)), wh, a.shape)
    k, k2 = S.sym('hc', 0, Nhc), S.sym('hd', 0, Nhc)
    a, b = S.sym('ra', 0, Nd), S.sym('rb', 0, Nd)
    el, sm = S.elem, lambda f, n: A.sum_over(f, n, ())
    x, y = k * Nd + a, k2 * Nd + b
    want = sm(lambda t: sm(lambda p: el('P', (k, t)) * el('T', (a, p)) * el('ft', (t, p)), Nn), Nt)
    entry(c, key + ' force is the mapped projection of the local history', F, (x,), want, wh)
    B = lambda o, t: el('B%d' % o, (t, k2))
    om = S.sym('w')
    v1 = lambda t, p: sm(lambda q: el('B1', (t, q)) * sm(lambda d: el('Q', (p, d)) * el('U', (q * Nd + d,)), Nd), Nhc)
    if form == 'diagonal':
        wj = sm(lambda t: sm(lambda p: el('P', (k, t)) * el('T', (a, p)) * el('Q', (p, b)) * (
            el('fu', (t, p)) * B(0, t) + om * el('fv', (t, p)) * B(1, t)), Nn), Nt)
        ww = sm(lambda t: sm(lambda p: el('P', (k, t)) * el('T', (a, p)) * el('fv', (t, p)) * v1(t, p), Nn), Nt)
    elif form == 'coupled':
        wj = sm(lambda t: sm(lambda p: sm(lambda q: el('P', (k, t)) * el('T', (a, p)) * el('fu', (t, p, q)) * el('Q', (q, b)), Nn), Nn) * B(0, t), Nt)
        ww = S.ZERO
    else:
        wj = sm(lambda t: sm(lambda p: sm(lambda q: el('P', (k, t)) * el('T', (a, p)) * el('fu', (t, p, q, k2)) * el('Q', (q, b)), Nn), Nn), Nt)
        ww = S.ZERO
    entry(c, key + ' Jacobian is the chain rule', J, (x, y), wj, wh)
    entry(c, key + ' frequency derivative is the chain rule', W, (x,), ww, wh)

def wrapper(c, name, m, cl, h0, form, zero_v):
    key = 'aft %s[h0=%d]' % (name, h0)
    rel = os.path.relpath(m.path, c.repo.root)
    wh = '%s:%s.aft' % (rel, name)
    w = M.World(c.repo, h0)
    w.Nn, w.Nt = S.sym('Nn', 1, None), S.sym('Nt', 1, None)
    it = w.it
    transform_hooks(w, c, key, wh)
    o = Obj(m, cl, dict(Q=w.leaf('Q', w.Nn, w.Nd), T=w.leaf('T', w.Nd, w.Nn)), name=name)
    Nn, Nt, Nd, Nhc = w.Nn, w.Nt, w.Nd, w.Nhc
    om = S.sym('w', positive=True)
    calls = []
    def history(u, v, *rest, **kw):
        ua, va = it.arr(u), it.arr(v)
        calls.append((ua, va, rest, kw))
        nf = len(calls)
        ft = NArr(A.leaf('ft', (Nt, Nn)))
        if form == 'diagonal':
            return (ft, NArr(A.leaf('fu', (Nt, Nn))), NArr(A.leaf('fv', (Nt, Nn))))
        if form == 'coupled':
            return (ft, NArr(A.leaf('fu', (Nt, Nn, Nn))), NArr(A.full((Nt, Nn, Nn), S.ZERO)) if zero_v else NArr(A.leaf('fv', (Nt, Nn, Nn))))
        return (ft, NArr(A.leaf('fu', (Nt, Nn, Nn, Nhc))), NArr(A.leaf('fvh', (Nt, Nn, Nn, Nhc))))
    o.attrs['local_force_history'] = Prim('local_force_history', history)
    r = it.call(it.getattr(o, 'aft'), [w.leaf('U', w.N), om, w.h, Nt], {})
    if not isinstance(r, tuple) or has_unknown(r):
        c.ob(key, None, wh, '%s %s' % (r, it.notes[-2:]))
        return
    c.ob(key + ' returns force, Jacobian and frequency derivative', len(r) == 3, wh, len(r))
    if len(r) != 3:
        return
    expected(w, c, key, wh, r, form)
    t, p = S.sym('ts', 0, Nt), S.sym('rp', 0, Nn)
    el = S.elem
    def disp(o):
        return A.sum_over(lambda q: el('B%d' % o, (t, q)) * A.sum_over(
            lambda d: el('Q', (p, d)) * el('U', (q * Nd + d,)), Nd, ()), Nhc, ())
    for n, (ua, va, rest, kw) in enumerate(calls):
        entry(c, key + ' local displacement is the mapped synthesis', ua, (t, p), disp(0), wh)
        entry(c, key + ' local velocity is the mapped synthesis', va, (t, p), om * disp(1), wh)
        if form == 'history':
            f = c.repo.method(m, cl, 'local_force_history')
            b = M.bind(Func(f[2], f[0], None, o), [None, None] + list(rest), kw)
            c.ob(key + ' harmonic list handed to the history', same_harm(w, b.get('h')) or None, wh)
            q = S.sym('hc', 0, Nhc)
            if b.get('cst') is not None:
                entry(c, key + ' history gets the displacement synthesis matrix', it.arr(b['cst']), (t, q), el('B0', (t, q)), wh)
            if b.get('unlth0') is not None and h0:
                entry(c, key + ' history starts from the static position', it.arr(b['unlth0']), (p,),
                      A.sum_over(lambda d: el('Q', (p, d)) * el('U', (d,)), Nd, ()), wh)

# ------------------------------------------------------------- traced forces
ASPERITY = ('_normal_asperity_general', '_normal_asperity_unloading')

def opaque_asperity(w, generic=False):
    def law(it, f, args, kw):
        b = M.bind(f, args, kw)
        nm = it.intern('asperity %s %s' % (f.node.name, '|'.join(v if isinstance(v, str) else A.key_of(it.arr(v)) for v in b.values())))
        def rule(ix, wrt):
            raise S.Undecided('asperity derivative')
        out = []
        for q in ('fn', 'a', 'db', 'Re'):
            # generic: a derivative that is only compared with itself
            S.register_deriv(nm + q, rule if not generic else
                             lambda ix, wrt, q=q: S.elem('D%s%s/%s' % (nm, q, wrt[0]), tuple(ix) + tuple(wrt[1])))
            out.append(it.wrap(A.leaf(nm + q, it.arr(b['un']).shape)))
        return tuple(out)
    for nm in ASPERITY:
        w.it.hooks['tmdsimpy.jax.nlforces.roughcontact._asperity_functions.' + nm] = law

def traced_forces():
    """(label, module, class, local dofs, arguments)"""
    p = lambda s: S.sym(s, positive=True)
    u0s = lambda w, n: {'none': None, 'scalar': S.sym('us'), 'array': w.leaf('u0', n)}
    out = []
    for mod, cls in (('jenkins_element', 'JenkinsForce'),):
        for u0 in ('none', 'scalar'):
            out.append((cls + '(jax),u0 ' + u0, 'tmdsimpy.jax.nlforces.' + mod, cls, 1,
                        lambda w, u0=u0: ([w.leaf('Q', 1, w.Nd), w.leaf('T', w.Nd, 1), p('kt'), p('Fs')], {'u0': u0s(w, 1)[u0]})))
    for dim, E in ((2, 1), (2, 2), (3, 1)):
        for u0 in ('none', 'scalar', 'array'):
            n = dim * E
            out.append(('ElasticDryFriction%dD,%d element%s,u0 %s' % (dim, E, 's' if E > 1 else '', u0),
                        'tmdsimpy.jax.nlforces.elastic_dry_fric_%dd' % dim, 'ElasticDryFriction%dD' % dim, n,
                        lambda w, u0=u0, n=n: ([w.leaf('Q', n, w.Nd), w.leaf('T', w.Nd, n), p('kt'), p('kn'), p('mu')],
                                               {'u0': u0s(w, n)[u0], 'meso_gap': S.sym('gap')})))
    for tm, u0 in (('TAN', 'scalar'), ('TAN', 'array'), ('MIF', 'array')):
        out.append(('RoughContactFriction,%s,u0 %s' % (tm, u0), 'tmdsimpy.jax.nlforces.roughcontact.rough_contact', 'RoughContactFriction', 3,
                    lambda w, u0=u0, tm=tm: ([w.leaf('Q', 3, w.Nd), w.leaf('T', w.Nd, 3), p('E'), S.sym('nu'), p('R'), p('Et'), p('sy'), p('mu')],
                                      {'u0': u0s(w, 3)[u0], 'meso_gap': S.sym('gap'), 'gaps': w.leaf('gaps', S.const(2)),
                                       'gap_weights': w.leaf('gw', S.const(2)), 'tangent_model': tm, 'N_radial_quad': S.const(3)})))
    return out

def mentions(e, names, out=None):
    out = set() if out is None else out
    for m, _ in e.terms.items():
        _, f = S._open(m)
        for a, p in f:
            if a.kind in ('Elem', 'Sym') and a.args[0] in names:
                out.add(a.args[0])
            for x in (a.args[1] if a.kind in ('Elem', 'Fn', 'Ind') else a.args[:1] if a.kind in ('Par', 'Delta') else ()):
                if isinstance(x, S.Expr):
                    mentions(x, names, out)
            if isinstance(p, S.Expr):
                mentions(p, names, out)
    return out

def traced(c, label, modname, cls, n, args, h0):
    from checks.friction import make, call, where, chain
    key = 'aft %s[h0=%d]' % (label, h0)
    w, o, wh = make(c, modname, cls, args, h0=h0)
    wh = where(c, wh, o, 'aft')
    it = w.it
    transform_hooks(w, c, key, wh)
    opaque_asperity(w)
    from checks.rough import mif_hooks
    mif_hooks(w, [])
    n0 = len(it.events)
    om = S.sym('w', positive=True)
    r = call(w, o, 'aft', [w.leaf('U', w.N), om, w.h, w.Nt])
    if not isinstance(r, tuple) or has_unknown(r):
        c.ob(key, None, wh, '%s %s' % (r, it.notes[-2:]))
        return
    c.ob(key + ' returns force, Jacobian and frequency derivative', len(r) == 3, wh, len(r))
    if len(r) != 3:
        return
    jac = [e for e in it.events[n0:] if e[0] == 'jacobian']
    ev = [e for e in it.events[n0:] if e[0] == 'fori']
    F, J, W = [it.arr(x) for x in r]
    for nm, a, sh in (('force', F, (w.N,)), ('Jacobian', J, (w.N, w.N)), ('frequency derivative', W, (w.N,))):
        c.ob('%s %s size' % (key, nm), True if a.shape == sh else A.shape_verdict(a, A.full(sh, S.ZERO)), wh, a.shape)
    if len(jac) != 1 or not ev:
        c.ob(key + ' differentiated function', None, wh, '%d differentiations, %d loops' % (len(jac), len(ev)))
        return
    last = ev[-1][6][0]
    el, sm = S.elem, lambda f, m: A.sum_over(f, m, ())
    Nd, Nhc, Nt = w.Nd, w.Nhc, w.Nt
    k, k2 = S.sym('hc', 0, Nhc), S.sym('hd', 0, Nhc)
    a, b = S.sym('ra', 0, Nd), S.sym('rb', 0, Nd)
    x, y = k * Nd + a, k2 * Nd + b
    want = sm(lambda t: sm(lambda p: el('P', (k, t)) * el('T', (a, p)) * last.f((t, p)), S.const(n)), Nt)
    entry(c, key + ' force is the mapped projection of the last cycle', F, (x,), want, wh)
    # the argument of the differentiated function is [local displacements, w] ...
    _, f, fa, xa, ev1, leaf = jac[0]
    p, q = S.sym('rp', 0, S.const(n)), S.sym('hq', 0, Nhc)
    c.ob(key + ' differentiated argument holds the local displacements and the frequency',
         True if xa.ndim == 1 and xa.shape[0] == Nhc * n + 1 else A.shape_verdict(xa, A.full((Nhc * n + 1,), S.ZERO)), wh, xa.shape)
    # ... and nothing in the differentiated function depends on them in another way
    bad = set()
    for e in ev1:
        if e[0] != 'fori':
            continue
        for arr in list(e[4]) + [z for st in e[5] if not isinstance(st[3], str) for z in st[3]]:
            for ix, _ in A.generic_indices(arr.shape, arr.cuts, arr.mods):
                bad |= mentions(arr.f(ix), ('U', 'w'))
    c.ob(key + ' displacements enter only through the differentiated argument', not bad, wh, 'constant for the derivative: %s' % sorted(bad))
    want = S.diff(F.f((x,)), ('U', (y,)))
    entry(c, key + ' Jacobian is the chain rule', J, (x, y), want, wh)
    entry(c, key + ' frequency derivative is the chain rule', W, (x,), S.diff(F.f((x,)), ('w', ())), wh)
    # value only
    try:
        has = 'calc_grad' in [z.arg for z in c.repo.method(o.mod, o.cls, 'aft')[2].args.args]
    except Exception:
        has = False
    if has:
        v = call(w, o, 'aft', [w.leaf('U', w.N), om, w.h, w.Nt], {'calc_grad': False})
        if has_unknown(v):
            c.ob(key + ' value only', None, wh, v)
        else:
            c.ob(key + ' value only returns one array', isinstance(v, tuple) and len(v) == 1, wh, v)
            if isinstance(v, tuple) and v:
                entry(c, key + ' value only returns the same force', it.arr(v[0]), (x,), F.f((x,)), wh)

def rank_of(c, name, m, cl):
    """rank of the displacement derivative returned by the local law"""
    w, o, p = build(c, name, m, cl, 'scalar')
    r = w.it.call(w.it.getattr(o, 'local_force_history'), [w.leaf('u', w.Nt, w.Nn), w.leaf('v', w.Nt, w.Nn)], {})
    d, v = w.it.arr(r[1]), w.it.arr(r[2])
    ix = tuple(S.sym('g%d' % n, 0, x) for n, x in enumerate(v.shape))
    return d.ndim, v.f(ix).is_zero()

def aft(c):
    c.level = 'proof'
    c.rule('R8 mapping chain rule', 'for symbolic mapping matrices, harmonic list, time resolution and an arbitrary local law the '
           'returned force is T P f(B Q U, w B\' Q U) and Jacobian and frequency derivative are its exact chain rule, entry by entry '
           'in harmonic-major layout')
    tasks = []
    repo = c.repo
    for base, form in (('InstantaneousForce', 'diagonal'), ('HystereticForce', 'history')):
        hit = repo.find_class(base)
        if not hit:
            c.anchor_lost('class ' + base)
            continue
        seen = []
        for name, m, cl in [(base, hit[0][0], hit[0][1])] + subclasses(repo, base):
            meth = repo.method(m, cl, 'aft')
            if meth is None:
                c.anchor_lost('aft of ' + name)
                continue
            form2, zero_v = form, False
            if name != base and form == 'diagonal':
                try:
                    rank, zero_v = rank_of(c, name, m, cl)
                    form2 = 'coupled' if rank == 3 else 'diagonal'
                except Exception as e:
                    c.ob('aft %s local law' % name, None, '', e)
            if (id(meth[2]), form2) in seen:
                continue
            seen.append((id(meth[2]), form2))
            for h0 in (0, 1):
                tasks.append(('aft %s[h0=%d]' % (name, h0), lambda a=(name, m, cl, h0, form2, zero_v): wrapper(c, *a), 120))
    for label, mod, cls, n, args in traced_forces():
        for h0 in (0, 1):
            if h0 == 0 and 'none' in label:
                continue
            tasks.append(('aft %s[h0=%d]' % (label, h0), lambda a=(label, mod, cls, n, args, h0): traced(c, *a), 200))
    c.parallel(tasks)
