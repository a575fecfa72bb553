"""Frequency domain residuals: gradients, value-only evaluation, equations."""
import os
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Func, Module, has_unknown, PyDict
from tsa.check import VERIF
import ast

def load_spec(repo, name):
    p = os.path.join(VERIF, 'specs', name + '.py')
    repo.modules['spec.' + name] = Module('spec.' + name, p, ast.parse(open(p).read()), False)

def spec_func(repo, mod, fn):
    k, m, node = repo.resolve('spec.%s.%s' % (mod, fn))
    return Func(node, m, None, None, 'spec.%s.%s' % (mod, fn))

def make_world(repo, h0, sup, harmonics=None):
    w = M.World(repo, h0, superharmonic=sup, harmonics=harmonics)
    w.it.hooks['VibrationSystem.total_aft'] = M.hook_total_aft(w)
    w.it.hooks['tmdsimpy.utils.harmonic.harmonic_stiffness'] = M.hook_stiffness(w)
    w.system()
    return w

def method(w, name, obj=None):
    o = obj or w.vs
    m = w.repo.method(o.mod, o.cls, name)
    if m is None:
        raise M.AnchorLost('%s.%s not found' % (o.cls.name, name))
    return Func(m[2], m[0], None, o, m[1].name + '.' + name)

# name -> (number of unknowns beyond N, superharmonic, filter, outputs)
# outputs: (position, label, [column of the unknown vector per output column])
TABLE = {
    'hbm_res': (1, False, False),
    'hbm_res_dFl': (1, False, False),
    'epmc_res': (3, False, False),
    'vprnm_res': (2, True, False),
    'vprnm_res_filter': (2, True, True),
    'hbm_amp_control_res': (2, False, False),
    'hbm_amp_phase_control_res': (3, False, False),
    'hbm_amp_phase_control_dA_res': (3, False, False),
    'vprnm_amp_phase_res': (4, True, False),
    'vprnm_amp_phase_res_filter': (4, True, True),
    'vprnm_single_eqn': (0, True, False),
    'vprnm_single_eqn_filter': (0, True, True),
}

def setup(w, name):
    extra, sup, filt = TABLE[name]
    real = name[:-7] if filt else name
    N, Nd = w.N, w.Nd
    nx = N + extra
    X = w.leaf('X', nx)
    Fl = w.leaf('Fl', N)
    recov = w.leaf('recov', Nd)
    amp, order, cs = S.sym('amp'), S.sym('order'), S.sym('cscale')
    phi = w.leaf('filt', S.sym('nm', 1), Nd)
    wpos = S.sym('w', positive=True)
    W = S.sym('wfree')
    args = {
        'hbm_res': [X, Fl, w.h], 'hbm_res_dFl': [X, wpos, Fl, w.h], 'epmc_res': [X, Fl, w.h],
        'vprnm_res': [X, w.h, w.rhi, Fl],
        'hbm_amp_control_res': [X, Fl, w.h, recov, amp, order],
        'hbm_amp_phase_control_res': [X, Fl, w.h, recov, amp, order],
        'hbm_amp_phase_control_dA_res': [X, Fl, w.h, recov, wpos, order],
        'vprnm_amp_phase_res': [X, Fl, w.h, w.rhi, recov, order],
        'vprnm_single_eqn': [X, W, w.h, w.rhi],
    }[real]
    kw = {}
    skw = {'h0': S.const(w.h0), 'Nd': Nd}
    if sup:
        skw['p'] = 2 * w.r1 + w.h0
        if 'single' not in name:
            kw['constraint_scale'] = cs
            skw['scale'] = cs
        if filt:
            kw['superharmonic_filter'] = phi
            skw['phi'] = phi
    if real == 'vprnm_single_eqn':
        outs = [(1, 'dR/d(U,w)', [(lambda j: ('X', (j,)), N), (lambda j: ('wfree', ()), 1)])]
    else:
        outs = [(1, 'dR/dX', [(lambda j: ('X', (j,)), nx - 1)]),
                (2, 'dR/dlast', [(lambda j: ('X', (nx - 1,)), 1)])]
    return real, args, kw, skw, outs

def call(w, real, args, kw, extra=None):
    k = dict(kw)
    k['Nt'] = S.sym('Nt')
    k['aft_tol'] = S.sym('afttol')
    k.update(extra or {})
    w.it.events[:] = []
    return w.it.call(method(w, real), list(args), k)

def compare(c, key, w, got, want, construct):
    if got is None or has_unknown(got):
        c.ob(key, None, construct, 'value not understood: %s; %s' % (got, w.it.notes[-3:]))
        return
    n = 0
    for lab, v, d in A.compare(w.it.arr(got), want):
        if not isinstance(lab, str):
            lab = 'x'.join(lab) if lab else 'scalar'
        c.ob(key + ' ' + lab, v, construct, 'difference: %s' % (d,) if v is not True else '')
        n += 1

def derivative(w, R, outs):
    """exact derivative of R, column ranges concatenated"""
    ex = w.boundaries()
    R = w.it.arr(R)
    parts = []
    for f, n in outs:
        cut = [b for b in ex if S.ge(n, b) is True]
        shape = (R.shape + (S.lift(n),)) if R.ndim else (S.lift(n),)
        if R.ndim:
            parts.append(A.Arr(shape, lambda ix, f=f: S.diff(R.f(ix[:1]), f(ix[1])), [list(R.cuts[0]) + cut, cut]))
        else:
            parts.append(A.Arr(shape, lambda ix, f=f: S.diff(R.f(()), f(ix[0])), [cut]))
    return parts[0] if len(parts) == 1 else A.concat(parts, R.ndim)

def where(w, real):
    m = w.repo.method(w.vs.mod, w.vs.cls, real)
    return '%s:%s' % (os.path.relpath(m[0].path, w.repo.root), 'VibrationSystem.' + real) if m else real

def each(c, fn, names=None):
    tasks = []
    c.repo
    for name in (names or TABLE):
        for h0 in (0, 1):
            key = '%s[h0=%d]' % (name, h0)
            def go(key=key, name=name, h0=h0):
                w = make_world(c.repo, h0, TABLE[name][1])
                try:
                    fn(c, key, w, name)
                except M.AnchorLost as e:
                    c.anchor_lost(str(e))
            tasks.append((key, go, 300))
    # gaps in the harmonic list: the position of the superharmonic is not its number
    for name in (names or TABLE):
        if TABLE[name][1]:
            for hs, rhi in M.GAPS:
                key = '%s[h=%s,rhi=%d]' % (name, '-'.join(map(str, hs)), rhi)
                def go(key=key, name=name, hs=hs, rhi=rhi):
                    w = make_world(c.repo, 0, True, (hs, rhi))
                    try:
                        fn(c, key, w, name)
                    except M.AnchorLost as e:
                        c.anchor_lost(str(e))
                tasks.append((key, go, 300))
    c.parallel(tasks)

def gradients(c):
    c.rule('R1 exact gradient', 'every returned derivative equals, block by block in index notation, the derivative of the '
           'returned residual with respect to the matching unknown, for symbolic numbers of degrees of freedom, harmonics '
           '(with and without the zeroth) and forces')
    c.level = 'proof'
    def one(c, key, w, name):
        real, args, kw, skw, outs = setup(w, name)
        wh = where(w, real)
        r = call(w, real, args, kw)
        if not isinstance(r, tuple) or len(r) <= max(o[0] for o in outs):
            c.ob(key + ' outputs', False if isinstance(r, tuple) and not has_unknown(r) else None, wh,
                 'gradient call returns %s' % (r,))
            return
        if has_unknown(r[0]):
            c.ob(key + ' residual', None, wh, w.it.notes[-3:])
            return
        for o, lab, cols in outs:
            D = derivative(w, r[0], cols)
            got = r[o]
            if not has_unknown(got):
                g = w.it.arr(got)
                if g.ndim == D.ndim - 1:
                    f = D.f
                    D = A.Arr(D.shape[:-1], lambda ix, f=f: f(ix + (S.ZERO,)), D.cuts[:-1], D.mods[:-1])
            compare(c, '%s %s' % (key, lab), w, got, D, wh)
    each(c, one)

def value_only(c):
    c.rule('R2 value only', 'the evaluation without gradient returns a tuple whose first entry is equal, in index notation, '
           'to the first entry of the evaluation with gradient')
    c.level = 'proof'
    def one(c, key, w, name):
        real, args, kw, skw, outs = setup(w, name)
        wh = where(w, real)
        r = call(w, real, args, kw)
        s = call(w, real, args, kw, {'calc_grad': False})
        if not isinstance(s, tuple):
            c.ob(key + ' tuple', None if has_unknown(s) else False, wh, 'value-only call does not return a tuple')
            return
        c.ob(key + ' tuple', True, wh)
        if has_unknown(r[0]):
            c.ob(key + ' residual', None, wh, w.it.notes[-3:])
            return
        compare(c, key + ' residual', w, s[0], w.it.arr(r[0]), wh)
    each(c, one)
    from . import aft
    c.rule('R2b forces', 'the sum of the nonlinear forces over an arbitrary list of forces, and every compiled force evaluation, is the same '
           'expression with and without gradients')
    tasks = [('total_aft[h0=%d,%s forces]' % (h0, nf), lambda h0=h0, nf=nf: total(c, h0, nf), 200) for h0 in (0, 1) for nf in ('many', 'no')]
    c.parallel(tasks)
    n0, labels = len(c.obs), []
    tasks = []
    for label, mod, cls, n, args in aft.traced_forces():
        for h0 in (0, 1):
            if not (h0 == 0 and 'none' in label):
                tasks.append(('aft %s[h0=%d]' % (label, h0), lambda a=(label, mod, cls, n, args, h0): aft.traced(c, *a), 200))
    c.parallel(tasks)
    c.obs[n0:] = [o for o in c.obs[n0:] if 'value only' in o[0]]

def total(c, h0, nf):
    from tsa.interp import PyList
    from .harmonics import entry
    w = M.World(c.repo, h0)
    w.system()
    if nf == 'no':
        w.vs.attrs['nonlinear_forces'] = PyList([])
    wh = where(w, 'total_aft')
    key = 'total_aft[h0=%d,%s forces]' % (h0, nf)
    U, om = w.leaf('U', w.N), S.sym('w')
    nt, tol = S.sym('Nt'), S.sym('afttol')
    r, v = [w.it.call(method(w, 'total_aft'), [U, om, w.h], {'Nt': nt, 'aft_tol': tol, 'calc_grad': g}) for g in (True, False)]
    if not isinstance(v, tuple):
        c.ob(key + ' tuple', None if has_unknown(v) else False, wh, 'value-only call does not return a tuple')
        return
    if not isinstance(r, tuple) or has_unknown(r) or has_unknown(v):
        c.ob(key, None, wh, w.it.notes[-3:])
        return
    entry(c, key + ' value only returns the same force', w.it.arr(v[0]), (S.sym('ri', 0, w.N),), w.it.arr(r[0]).f((S.sym('ri', 0, w.N),)), wh)

def equations(c):
    c.rule('R3 equations', 'the returned residual equals the documented equation (force balance plus constraint rows) in index '
           'notation; sampling count and tolerance reach the force evaluation')
    c.level = 'proof'
    load_spec(c.repo, 'residuals')
    def one(c, key, w, name):
        real, args, kw, skw, outs = setup(w, name)
        wh = where(w, real)
        aft = w.it.hooks['VibrationSystem.total_aft']
        w.it.hooks['spec.residuals.E'] = lambda it, f, a, k: spec_E(w, it, f, a, k)
        w.it.hooks['spec.residuals.FNL'] = lambda it, f, a, k: spec_F(w, it, f, a, k)
        want = w.it.call(spec_func(c.repo, 'residuals', name), [w.vs] + list(args), skw)
        for cg in (True, False):
            r = call(w, real, args, kw, {} if cg else {'calc_grad': False})
            sfx = '' if cg else ' value-only'
            for e in w.it.events:
                if e[0] == 'total_aft':
                    for p, s in (('Nt', 'Nt'), ('aft_tol', 'afttol')):
                        v = e[2].get(p)
                        ok = v is not None and not has_unknown(v) and w.it.scalar(v) == S.sym(s)
                        c.ob('%s%s forwards %s' % (key, sfx, p), ok, wh, 'total_aft receives %s = %s' % (p, v))
                    c.ob('%s%s forwards h' % (key, sfx), True if e[2].get('h') is w.h else None, wh)
            res = r[0] if isinstance(r, tuple) else r
            compare(c, key + sfx, w, res, w.it.arr(want), wh)
    each(c, one)

def spec_E(w, it, f, a, k):
    w2 = M.hook_stiffness(w)
    b = dict(zip(('M', 'C', 'K', 'w'), a))
    b.update(only_C=False, calc_grad=False)
    real = M.bind
    M.bind = lambda f, args, kwargs: b
    try:
        return w2(it, f, a, k)[0]
    finally:
        M.bind = real

def spec_F(w, it, f, a, k):
    b = dict(U=a[0], w=a[1], calc_grad=False)
    real = M.bind
    M.bind = lambda f, args, kwargs: b
    try:
        return M.hook_total_aft(w)(it, f, a, k)[0]
    finally:
        M.bind = real
