"""Rough contact friction: asperity laws, history handling and cycles (part of C17)."""
import os
from tsa import sym as S, arr as A, model as M
from tsa.sym import ZERO, ONE
from tsa.interp import NArr, has_unknown
from checks.friction import make, call, where, same, clamp, chain

MOD = 'tmdsimpy.jax.nlforces.roughcontact.rough_contact'
ASP = 'tmdsimpy.jax.nlforces.roughcontact._asperity_functions'
p = lambda s: S.sym(s, positive=True)
C, el = S.const, S.elem
NA, NR = 2, 3       # asperities, radii

def build(c, tm, u0='scalar', h0=1):
    return make(c, MOD, 'RoughContactFriction',
                lambda w: ([w.leaf('Q', 3, w.Nd), w.leaf('T', w.Nd, 3), p('E'), S.sym('nu'), p('R'), p('Et'), p('sy'), p('mu')],
                           {'u0': S.sym('us') if u0 == 'scalar' else w.leaf('u0', 3), 'meso_gap': S.sym('gap'), 'gaps': w.leaf('gaps', C(NA)),
                            'gap_weights': w.leaf('gw', C(NA)), 'tangent_model': tm, 'N_radial_quad': C(NR)}), h0=h0)

def opaque_normal(w, rec):
    """normal asperity laws as arbitrary functions with non-negative force and radius; calls are recorded"""
    def hook(kind):
        def law(it, f, args, kw):
            b = M.bind(f, args, kw)
            un = it.arr(b['un'])
            rec.append((kind, {k: v if isinstance(v, str) else it.arr(v) for k, v in b.items()}))
            out = []
            for q in ('fn', 'a', 'db', 'Re'):
                nm = 'asp_%s_%s' % (kind, q)
                def rule(ix, wrt, nm=nm):
                    return sum((el('D' + nm, ix) * S.diff(r['un'].f(ix), wrt) for k, r in rec if k == kind), ZERO)
                S.register_deriv(nm, rule)
                g = (lambda ix, nm=nm: S.fn('max', el(nm, ix), ZERO)) if q in ('fn', 'a') else (lambda ix, nm=nm: el(nm, ix))
                out.append(it.wrap(A.Arr(un.shape, g)))
            return tuple(out)
        return law
    w.it.hooks[ASP + '._normal_asperity_general'] = hook('gen')
    w.it.hooks[ASP + '._normal_asperity_unloading'] = hook('unl')

def pos(kind, q, i):
    return S.fn('max', el('asp_%s_%s' % (kind, q), (C(i),)), ZERO)

def mif_hooks(w, rec):
    def interp(x, xp, fp, **k):
        x, xp, fp = w.it.arr(x), w.it.arr(xp), w.it.arr(fp)
        ok = set(k) <= {'left', 'right'} and all(w.it.scalar(v).is_zero() for v in k.values()) and len(k) == 2
        nm = w.it.intern('interp %s %s %s' % (A.key_of(x), A.key_of(xp), A.key_of(fp)))
        def rule(ix, wrt):
            raise S.Undecided('derivative of the interpolation')
        S.register_deriv(nm, rule)
        rec.append((nm, x, xp, fp, ok))
        return w.it.wrap(A.leaf(nm, x.shape))
    w.it.np.extra['jax.numpy.interp'] = interp

def static(c, tm):
    w, o, wh = build(c, tm)
    ws = where(c, wh, o, 'force')
    key = 'RoughContact[%s] force ' % tm
    rec = []
    opaque_normal(w, rec)
    o.attrs['Gstar'] = Gs = p('Gs')
    o.attrs['uxyn0'] = w.leaf('up', C(3))
    o.attrs['fxy0'] = w.leaf('fp', C(NA), C(2))
    o.attrs['unmax'] = S.sym('um')
    o.attrs['Fm_prev'] = w.leaf('Fm', C(NA))
    X = w.leaf('X', w.Nd)
    u = [A.sum_over(lambda d, q=q: el('Q', (C(q), d)) * el('X', (d,)), w.Nd, ()) for q in range(3)]
    r = call(w, o, 'force', [X])
    if has_unknown(r) or not isinstance(r, tuple) or len(r) != 2 or not rec:
        c.ob(key + 'result', None, ws, '%s %s' % (r, w.it.notes[-2:]))
        return
    kind, b = rec[0]
    i_ = S.sym('ia', 0, C(NA))
    gap, gi = S.sym('gap'), el('gaps', (i_,))
    real = [bb for k, bb in rec]
    c.ob(key + 'uses the law with memory of the largest penetration', kind == 'gen', ws, kind)
    un = [bb['un'].f((i_,)) for bb in real]
    c.ob(key + 'asperity penetration is the displacement less both gaps', any(S.is_zero(x - (u[2] - gap - gi)) is True for x in un) or None, ws, un[0])
    same(c, key + 'memory is the largest penetration so far', b['deltam'].f((i_,)), S.sym('um') - gap - gi, ws)
    same(c, key + 'memory is the largest force so far', b['Fm'].f((i_,)), el('Fm', (i_,)), ws)
    # forces
    F, dF = w.it.arr(r[0]), w.it.arr(r[1])
    a_, b_ = S.sym('ra', 0, w.Nd), S.sym('rb', 0, w.Nd)
    loc, cond, fxy = {}, {}, {}
    for q in range(2):
        for i in range(NA):
            pr = 8 * Gs * pos('gen', 'a', i) * (u[q] - el('up', (C(q),))) + el('fp', (C(i), C(q)))
            lim = p('mu') * pos('gen', 'fn', i)
            fxy[i, q] = clamp(pr, lim)
            if i == 0:
                cond['stuck%d' % q] = lim - S.fn('abs', pr)
        loc[q] = sum((el('gw', (C(i),)) * fxy[i, q] for i in range(NA)), ZERO)
    loc[2] = sum((el('gw', (C(i),)) * pos('gen', 'fn', i) for i in range(NA)), ZERO)
    want = sum((el('T', (a_, C(q))) * loc[q] for q in range(3)), ZERO)
    if tm == 'TAN':
        same(c, key + 'is the mapped weighted sum of the clamped asperity forces', F.f((a_,)), want, ws, cond)
        same(c, key + 'Jacobian is its derivative', dF.f((a_, b_)), S.diff(want, ('X', (b_,))), ws, cond)
    for nm, lf in (('uxyn0', 'up'),):
        same(c, key + 'leaves the state alone: ' + nm, w.it.arr(o.attrs[nm]).f((ZERO,)), el(lf, (ZERO,)), ws)
    r = call(w, o, 'force', [X], {'update_hist': True})
    at = lambda nm, ix: w.it.arr(o.attrs[nm]).f(ix)
    for q in range(3):
        same(c, key + 'update stores the displacement %d' % q, at('uxyn0', (C(q),)), u[q], ws)
    um = w.it.arr(o.attrs['unmax'])
    same(c, key + 'update stores the largest displacement', um.f((ZERO,) * um.ndim), S.fn('max', u[2], S.sym('um')), ws, {'new': u[2] - S.sym('um')})
    for i in range(NA):
        same(c, key + 'update stores the largest asperity force %d' % i, at('Fm_prev', (C(i),)), S.fn('max', pos('gen', 'fn', i), el('Fm', (C(i),))), ws,
             {'new': el('asp_gen_fn', (C(i),)) - el('Fm', (C(i),))})
        for q in range(2):
            same(c, key + 'update stores the asperity force %d,%d' % (i, q), at('fxy0', (C(i), C(q))), fxy[i, q], ws)

def cycles(c, repeats, u0):
    """TAN model in the harmonic evaluation and in the time history"""
    from checks import aft as AF
    for entry, grad in (('aft', False), ('aft', True), ('local_force_history', False)):
        w, o, wh = build(c, 'TAN', u0)
        wl = where(c, wh, o, entry)
        key = 'RoughContact %s%s[u0 %s, %d repeats] ' % (entry, ' with gradient' if grad else '', u0, repeats)
        rec = []
        opaque_normal(w, rec)
        Gs = o.attrs['Gstar'] = p('Gs')
        AF.transform_hooks(w, type(c)(c.pid, c.tier, c.root), key, wl)
        n0 = len(w.it.events)
        Nt = w.Nt
        if entry == 'aft':
            r = call(w, o, 'aft', [w.leaf('U', w.N), p('w'), w.h, Nt], {'max_repeats': C(repeats), 'calc_grad': grad})
            loc = lambda q, k: A.sum_over(lambda d: el('Q', (C(q), d)) * el('U', (k * w.Nd + d,)), w.Nd, ())
            U = lambda i, q: A.sum_over(lambda k: el('B0', (i, k)) * loc(q, k), w.Nhc, ())
            st = (lambda q: S.sym('us') if q < 2 else ZERO) if u0 == 'scalar' else (lambda q: el('u0', (C(q),)))
        else:
            r = call(w, o, 'local_force_history', [w.leaf('unlt', Nt, 3), w.leaf('unltdot', Nt, 3), w.h, w.leaf('cst', Nt, w.Nhc), w.leaf('unlth0', 3)],
                     {'max_repeats': C(repeats)})
            U = lambda i, q: el('unlt', (i, C(q)))
            st = lambda q: el('unlth0', (C(q),))
        ev = [e for e in w.it.events[n0:] if e[0] == 'fori']
        if has_unknown(r) or not ev or any(len(e[4]) != 6 for e in ev):
            c.ob(key, None, wl, '%s %s %s' % (r, [len(e[4]) for e in ev], w.it.notes[-2:]))
            continue
        c.ob(key + 'runs the requested number of cycles', len(ev) == repeats, wl, '%d loops' % len(ev))
        i_ = S.sym('ia', 0, C(NA))
        gap, gi = S.sym('gap'), el('gaps', (i_,))
        # largest displacement of the cycle drives the memory
        gen = [b for k, b in rec if k == 'gen']
        t = S.sym('t', 0, Nt)
        if not gen:
            c.ob(key + 'memory law', None, wl, 'no call')
        else:
            col = A.Arr((Nt,), lambda ix: U(ix[0], 2))
            try:
                um = w.it.np.maxf(w.it.wrap(col))
                same(c, key + 'largest penetration of the cycle sets the memory', gen[0]['un'].f((i_,)), um - gap - gi, wl)
                same(c, key + 'memory is built from virgin contact', gen[0]['deltam'].f((i_,)), -gap - gi, wl)
                same(c, key + 'memory is built from zero force', gen[0]['Fm'].f((i_,)), ZERO, wl)
            except S.Undecided as e:
                c.ob(key + 'largest penetration of the cycle sets the memory', None, wl, e)
        prev = None
        for n, e in enumerate(ev):
            _, nm, lo, hi, pre, steps, res = e
            k2 = key + 'cycle %d ' % (n + 1)
            c.ob(k2 + 'covers every instant once', S.is_zero(lo) and S.is_zero(hi - Nt), wl, '%s..%s' % (lo, hi))
            if prev is None:
                for q in range(3):
                    same(c, k2 + 'starts from the initial displacement %d' % q, pre[1].f((C(q),)), st(q), wl)
                for q in range(2):
                    same(c, k2 + 'starts without friction %d' % q, pre[2].f((i_, C(q))), ZERO, wl)
                if gen:
                    same(c, k2 + 'unloading memory is the largest penetration', pre[3].f((i_,)), gen[0]['un'].f((i_,)), wl)
                    same(c, k2 + 'unloading memory is the largest force', pre[4].f((i_,)), S.fn('max', el('asp_gen_fn', (i_,)), ZERO), wl)
            else:
                for m, (x, y) in enumerate(zip(pre, prev)):
                    for ix, _ in A.generic_indices(x.shape, x.cuts, x.mods):
                        same(c, k2 + 'continues the state %d of the cycle before' % m, x.f(ix), y.f(ix), wl)
            for label, i, leaves, out in steps:
                if isinstance(out, str) or len(out) != 6:
                    c.ob(k2 + 'instant (%s)' % label, None, wl, out)
                    continue
                lab = '(%s instant)' % label
                s = leaves
                for q in range(3):
                    same(c, k2 + 'hands the displacement %d to the next instant %s' % (q, lab), out[1].f((C(q),)), U(i, q), wl)
                for a in range(NA):
                    for q in range(2):
                        lim = p('mu') * pos('unl', 'fn', a)
                        pr = 8 * Gs * pos('unl', 'a', a) * (U(i, q) - s[1].f((C(q),))) + s[2].f((C(a), C(q)))
                        same(c, k2 + 'asperity friction %d,%d is the spring from the previous instant within the slip limit %s' % (a, q, lab),
                             out[2].f((C(a), C(q))), clamp(pr, lim), wl, {'stuck': lim - S.fn('abs', pr)})
                for m in (3, 4):
                    same(c, k2 + 'keeps the memory %d %s' % (m, lab), out[m].f((i_,)), s[m].f((i_,)), wl)
                for q in range(2):
                    same(c, k2 + 'stores the weighted friction force %d %s' % (q, lab), out[0].f((i, C(q))),
                         sum((el('gw', (C(a),)) * out[2].f((C(a), C(q))) for a in range(NA)), ZERO), wl)
                same(c, k2 + 'stores the weighted normal force %s' % lab, out[0].f((i, C(2))),
                     sum((el('gw', (C(a),)) * pos('unl', 'fn', a) for a in range(NA)), ZERO), wl)
                later = i + 1 + S.sym('lt%s' % label, 0, Nt - i - 1)
                for q in range(3):
                    same(c, k2 + 'leaves other instants alone %d %s' % (q, lab), out[0].f((later, C(q))), s[0].f((later, C(q))), wl)
            prev = res
        unl = [b for k, b in rec if k == 'unl']
        got = 0
        for b in unl:
            d, f = b['deltam'].f((i_,)), b['Fm'].f((i_,))
            try:
                m1, m2 = A.key_of(b['deltam']), A.key_of(b['Fm'])
            except S.Undecided:
                continue
            c.ob(key + 'unloading law uses the stored memory', '@st3' in m1 and '@st4' in m2, wl, '%s %s' % (d, f))
            break

def normal(c):
    """elastic, unloading and combined normal laws of one asperity"""
    w = M.World(c.repo, 1)
    m = c.repo.modules.get(ASP)
    if m is None:
        raise M.AnchorLost(ASP)
    rel = os.path.relpath(m.path, c.repo.root)
    S.POSITIVE.update({'R', 'Es', 'Em', 'Et', 'dy', 'sy'})
    R, Es, nu = p('R'), p('Es'), S.sym('nu')
    mx = lambda x: S.fn('max', x, ZERO)
    un = w.leaf('un', C(1))
    x = el('un', (ZERO,))
    from tsa.interp import Func
    def run(nm, args):
        f = m.funcs.get(nm)
        if f is None:
            raise M.AnchorLost('%s.%s' % (ASP, nm))
        return w.it.call(Func(f, m, None, None, nm), args, {})
    def outs(nm, r):
        wh = '%s:%s' % (rel, nm)
        if has_unknown(r) or not isinstance(r, tuple) or len(r) != 4:
            c.ob('asperity %s' % nm, None, wh, '%s %s' % (r, w.it.notes[-2:]))
            return None
        return [w.it.arr(q).f((ZERO,)) for q in r]
    half = S.const(1) / 2
    # elastic
    r = outs('_normal_el_asperity_loading', run('_normal_el_asperity_loading', [un, R, Es]))
    wh = rel + ':_normal_el_asperity_loading'
    e_f = S.const(4) / 3 * 2 * Es * S.sqrt(2 * R) * S.power(mx(x) / 2, S.const(3) / 2)
    e_a = S.sqrt(2 * R * mx(x) / 2)
    if r:
        same(c, 'asperity elastic force is the Hertz law of the positive penetration', r[0], e_f, wh, {'contact': x})
        same(c, 'asperity elastic radius', r[1], e_a, wh, {'contact': x})
        same(c, 'asperity elastic has no residual depth', r[2], ZERO, wh)
        same(c, 'asperity elastic keeps its radius of curvature', r[3], R, wh)
    # unloading
    nm = '_normal_asperity_unloading'
    wh = rel + ':' + nm
    S.POSITIVE.update({'dm', 'Fm'})
    dm, Fm = p('dm'), p('Fm')
    r = outs(nm, run(nm, [un, dm, Fm, R, Es]))
    f43 = S.const(4) / 3 * Es
    pw = lambda e, n: S.power(e, S.const(n) / 2)
    db = dm * (1 - Fm / (f43 * S.sqrt(R) * pw(dm, 3)))
    pu, pd = mx(x - db), mx(dm - db)
    Rb = Fm * Fm / (f43 * f43 * pw(pd, 6))
    if r:
        cond = {'contact': x - db}
        same(c, 'asperity unloading residual depth', r[2], db, wh)
        same(c, 'asperity unloading radius of curvature', r[3], Rb, wh)
        same(c, 'asperity unloading radius', r[1], S.sqrt(Rb * pu), wh, cond)
        same(c, 'asperity unloading force is the Hertz law of the depth beyond the residual one', r[0], f43 * S.sqrt(Rb) * pw(pu, 3), wh, cond)
    # plastic loading
    nm = '_normal_pl_asperity_loading'
    wh = rel + ':' + nm
    Em, dy, sy = p('Em'), p('dy'), Es / 50
    Et = Em / 10           # hardening branch
    xp = p('xp')
    S.POSITIVE.add('xp')
    r = outs(nm, run(nm, [w.it.wrap(A.Arr((C(1),), lambda ix: xp)), R, nu, Es, Em, Et, dy, sy]))
    q = lambda a, b=1: S.const(a) / b
    ex = lambda e: S.fn('exp', e)
    Cc = q(1295, 1000) * ex(q(736, 1000) * nu)
    B = q(14, 100) * ex(23 * sy / (2 * Es))
    pi = S.sym('pi')
    ae = S.sqrt(2 * R * xp / 2)
    ap = 2 * R * pi * Cc * sy / (4 * Es) * S.sqrt(xp / dy * S.power(xp / dy / q(19, 10), B))
    if r:
        same(c, 'asperity plastic keeps no residual depth', r[2], ZERO, wh)
        same(c, 'asperity plastic keeps its radius of curvature', r[3], R, wh)
        ups = -2 * S.sqrt(Em / sy) * S.power(Et / Em, 1 - ((xp - dy) / 2) / (2 * R)) / ((4 - 3 * ex(-2 * S.sqrt(Em / sy) * Et / Em)) * (1 - Et / Em))
        a = ae + (ap - ae) * ex(ups)
        H = q(284, 100) - q(92, 100) * (1 - S.fn('cos', pi * a / (2 * R)))
        Fc = q(4, 3) * (2 * R / (2 * Es)) ** 2 * (Cc * pi * sy / 2) ** 3
        Fe = 4 * (2 * Es) * S.sqrt(2 * R) / 3 * pw(xp / 2, 3)
        Fp = Fc * (ex(q(-1, 4) * S.power(xp / dy, q(5, 12))) * pw(xp / dy, 3)
                   + 4 * H / Cc * (1 - ex(q(-1, 25) * S.power(xp / dy, q(5, 9)))) * xp / dy)
        same(c, 'asperity plastic radius', r[1], a, wh)
        same(c, 'asperity plastic force', r[0], Fp + (Fe - Fp) * (1 - ex(q(-33, 10) * Et / Em)), wh)
    # selection
    nm = '_normal_asperity_general'
    wh = rel + ':' + nm
    def opq(tag):
        return lambda it, f, args, kw: tuple(it.wrap(A.Arr((C(1),), lambda ix, o_=o_: el(tag + o_, ix))) for o_ in ('f', 'a', 'd', 'r'))
    for fnm, tag in (('_normal_el_asperity_loading', 'E_'), ('_normal_pl_asperity_loading', 'P_'), ('_normal_asperity_unloading', 'U_')):
        w.it.hooks[ASP + '.' + fnm] = opq(tag)
    dmv = el('dmv', (ZERO,))
    r = outs(nm, run(nm, [un, w.leaf('dmv', C(1)), w.leaf('Fmv', C(1)), R, nu, Es, Em, Et, dy, sy]))
    if r:
        gt = lambda a, b: S.fn('gt', a - b, ZERO)
        lim = q(19, 10) * dy
        yl = gt(x, dmv) * gt(x, lim)
        es = gt(lim, x) * gt(lim, dmv)
        for k, o_ in enumerate(('f', 'a', 'd', 'r')):
            e_, p_, u_ = (el(t + o_, (ZERO,)) for t in ('E_', 'P_', 'U_'))
            same(c, 'asperity general selects elastic, plastic loading or unloading (%s)' % {'f': 'force', 'a': 'radius', 'd': 'depth', 'r': 'curvature'}[o_],
                 r[k], yl * p_ + (1 - yl) * (es * e_ + (1 - es) * u_), wh, {'yielding': x - dmv, 'elastic': lim - x})

def rough(c):
    tasks = [('RoughContact TAN static', lambda: static(c, 'TAN'), 300)]
    for n, u in ((2, 'scalar'), (1, 'array'), (3, 'array')):
        tasks.append(('RoughContact cycles %d' % n, lambda n=n, u=u: cycles(c, n, u), 300))
    tasks.append(('asperity normal laws', lambda: normal(c), 300))
    for e in ('force', 'local_force_history'):
        tasks.append(('RoughContact MIF ' + e, lambda e=e: mif(c, e), 300))
    return tasks

# ------------------------------------------------------------------ distributed slip
def interpolated(c, w, key, wl, ev, rec, want):
    """the asperity loop that carries the tractions to the new radii; want(ia, j, q) -> (x, xp, fp) expected there"""
    _, nm, lo, hi, pre, steps, res = ev
    c.ob(key + 'carries over every asperity', S.is_zero(lo) and S.is_zero(hi - NA), wl, '%s..%s' % (lo, hi))
    for label, i, leaves, out in steps:
        if isinstance(out, str) or len(out) != 1:
            c.ob(key + 'carried tractions (%s)' % label, None, wl, out)
            continue
        j = S.sym('jr', 0, C(NR))
        for q in range(2):
            e = out[0].f((i, j, C(q)))
            hit = [r for r in rec if el(r[0], (j,)).key == e.key]
            k2 = key + 'carried tractions of direction %d (%s asperity)' % (q, label)
            if not hit:
                c.ob(k2, None, wl, e)
                continue
            _, x, xp, fp, ok = hit[0]
            c.ob(k2 + ' vanish outside the stored radii', ok, wl)
            for nm2, g, wt in zip(('radius', 'stored radius', 'stored traction'), (x, xp, fp), want(i, j, q)):
                same(c, k2 + ': ' + nm2, g.f((j,)), wt, wl)
        other = i + 1 + S.sym('lt' + label, 0, C(NA) - i - 1)
        same(c, key + 'leaves other asperities alone (%s)' % label, out[0].f((other, j, ZERO)), leaves[0].f((other, j, ZERO)), wl)

def mif_law(w, kind, a, j, du, carried, Gs):
    """(traction, limit) of ring j of asperity a for displacement increment du"""
    r, A_, fn = el('qn', (C(j),)), pos(kind, 'a', a), pos(kind, 'fn', a)
    q = lambda s: S.const(s)
    from fractions import Fraction as Fr
    root = S.sqrt(1 - r * r)
    shape = q(Fr('0.8709')) + q(Fr('0.1291')) / root + q(Fr('0.0629')) * r - q(Fr('0.8915')) * r**2 + q(Fr('0.6998')) * r**3
    lim = p('mu') * 3 * fn / (2 * S.sym('pi', positive=True) * A_**2) * root
    return clamp(8 * Gs * A_ / A_**2 / S.sym('pi', positive=True) * shape * du + carried, lim), lim

def mif(c, entry):
    from checks import aft as AF
    w, o, wh = build(c, 'MIF', 'array')
    wl = where(c, wh, o, entry)
    key = 'RoughContact[MIF] %s ' % entry
    rec, irec = [], []
    opaque_normal(w, rec)
    mif_hooks(w, irec)
    Gs = o.attrs['Gstar'] = p('Gs')
    o.attrs['quad_radii'], o.attrs['weight_radii'] = w.leaf('qn', C(NR)), w.leaf('wn', C(NR))
    AF.transform_hooks(w, type(c)(c.pid, c.tier, c.root), key, wl)
    n0 = len(w.it.events)
    Nt = w.Nt
    if entry == 'force':
        o.attrs['uxyn0'], o.attrs['fxy0'] = w.leaf('up', C(3)), w.leaf('fp', C(NA), C(NR), C(2))
        o.attrs['unmax'], o.attrs['Fm_prev'], o.attrs['quad_radii0'] = S.sym('um'), w.leaf('Fm', C(NA)), w.leaf('qr0', C(NA), C(NR))
        r = call(w, o, 'force', [w.leaf('X', w.Nd)], {'update_hist': True})
        u = [A.sum_over(lambda d, q=q: el('Q', (C(q), d)) * el('X', (d,)), w.Nd, ()) for q in range(3)]
    else:
        r = call(w, o, 'local_force_history', [w.leaf('unlt', Nt, 3), w.leaf('unltdot', Nt, 3), w.h, w.leaf('cst', Nt, w.Nhc), w.leaf('unlth0', 3)])
    ev = [e for e in w.it.events[n0:] if e[0] == 'fori']
    inner = {e[6][0].f((ZERO,) * e[6][0].ndim).key.split(';')[0]: e for e in ev if len(e[4]) == 1}
    outer = [e for e in ev if len(e[4]) == 6]
    if has_unknown(r) or not inner or entry != 'force' and not outer:
        c.ob(key, None, wl, '%s %s' % (r, w.it.notes[-2:]))
        return
    def state(key, kind, txy, radii, u, up, old_t, old_r, ind=''):
        """stored tractions/radii against the law"""
        ia, jr = S.sym('ia', 0, C(NA)), S.sym('jr', 0, C(NR))
        for a in range(NA):
            for j in range(NR):
                same(c, key + 'stores the radius %d,%d of the current contact' % (a, j), radii.f((C(a), C(j))), pos(kind, 'a', a) * el('qn', (C(j),)), wl)
        got = txy.f((ZERO, ZERO, ZERO)).key
        hits = [e for k, e in inner.items() if k in got]
        if len(hits) != 1:
            c.ob(key + 'carried tractions', None, wl, '%d loops' % len(hits))
            return {}
        e = hits[0]
        posg = lambda q, ix: S.fn('max', el('asp_%s_%s' % (kind, q), (ix,)), ZERO)
        interpolated(c, w, key, wl, e, irec, lambda i, j, q: (posg('a', i) * el('qn', (j,)), old_r(i, j), old_t(i, j, q)))
        out = {}
        for a in range(NA):
            for j in range(NR):
                for q in range(2):
                    t, lim = mif_law(w, kind, a, j, u[q] - up[q], e[6][0].f((C(a), C(j), C(q))), Gs)
                    same(c, key + 'traction %d,%d,%d is the spring from the carried traction within friction times pressure' % (a, j, q),
                         txy.f((C(a), C(j), C(q))), t, wl, {'stuck': lim - S.fn('abs', t)} if False else None)
                    out[a, j, q] = txy.f((C(a), C(j), C(q)))
        return out
    def total(kind, tr, q):
        return sum((el('gw', (C(a),)) * 2 * S.sym('pi', positive=True) * pos(kind, 'a', a)**2 * el('qn', (C(j),)) * el('wn', (C(j),)) * tr[a, j, q]
                    for a in range(NA) for j in range(NR)), ZERO)
    if entry == 'force':
        at = lambda nm: w.it.arr(o.attrs[nm])
        tr = state(key, 'gen', at('fxy0'), at('quad_radii0'), u, [el('up', (C(q),)) for q in range(3)],
                   lambda i, j, q: el('fp', (i, j, C(q))), lambda i, j: el('qr0', (i, j)))
        if tr:
            a_ = S.sym('ra', 0, w.Nd)
            want = sum((el('T', (a_, C(q))) * total('gen', tr, q) for q in range(2)), ZERO)
            want = want + el('T', (a_, C(2))) * sum((el('gw', (C(a),)) * pos('gen', 'fn', a) for a in range(NA)), ZERO)
            same(c, key + 'is the mapped sum of the integrated tractions', w.it.arr(r[0]).f((a_,)), want, wl)
        for q in range(3):
            same(c, key + 'update stores the displacement %d' % q, at('uxyn0').f((C(q),)), u[q], wl)
        return
    U = lambda i, q: el('unlt', (i, C(q)))
    prev = None
    for n, e in enumerate(outer):
        _, nm, lo, hi, pre, steps, res = e
        k2 = key + 'cycle %d ' % (n + 1)
        c.ob(k2 + 'covers every instant once', S.is_zero(lo) and S.is_zero(hi - Nt), wl, '%s..%s' % (lo, hi))
        if prev is None:
            for ix, _ in A.generic_indices(pre[2].shape, pre[2].cuts, pre[2].mods):
                same(c, k2 + 'starts without friction', pre[2].f(ix), ZERO, wl)
        else:
            for m, (x, y) in enumerate(zip(pre, prev)):
                for ix, _ in A.generic_indices(x.shape, x.cuts, x.mods):
                    same(c, k2 + 'continues the state %d of the cycle before' % m, x.f(ix), y.f(ix), wl)
        for label, i, leaves, out in steps:
            if isinstance(out, str) or len(out) != 6:
                c.ob(k2 + 'instant (%s)' % label, None, wl, out)
                continue
            s = leaves
            k3 = k2 + '(%s instant) ' % label
            tr = state(k3, 'unl', out[2], out[5], [U(i, q) for q in range(3)], [s[1].f((C(q),)) for q in range(3)],
                       lambda a, j, q: s[2].f((a, j, C(q))), lambda a, j: s[5].f((a, j)))
            for q in range(3):
                same(c, k3 + 'hands the displacement %d to the next instant' % q, out[1].f((C(q),)), U(i, q), wl)
            for q in range(2):
                if tr:
                    same(c, k3 + 'stores the integrated friction force %d' % q, out[0].f((i, C(q))), total('unl', tr, q), wl)
            later = i + 1 + S.sym('lt%s' % label, 0, Nt - i - 1)
            for q in range(3):
                same(c, k3 + 'leaves other instants alone %d' % q, out[0].f((later, C(q))), s[0].f((later, C(q))), wl)
        prev = res
