"""Fourier synthesis and projection (C09)."""
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, has_unknown, Unknown
from checks.harmonics import repo_func, where_func

MODS = ('tmdsimpy.utils.harmonic', 'tmdsimpy.jax.harmonic_utils')

def reim(z):
    return S.fn('real', z), S.fn('imag', z)

def zero(c, key, d, wh, also=''):
    v = S.is_zero(d)
    c.ob(key, v, wh, '' if v else 'difference: %s %s' % (d, also))

def transform_input(w, out, kind):
    """(entry of the result, event) when the result is real(ifft(..)) / uses fft"""
    for ev in reversed(w.it.events):
        if ev[0] == kind:
            return ev
    return None

def synthesis(c, mod, h0, order):
    key = 'time_series_deriv[%s,h0=%d,order=%d]' % (mod.split('.')[1], h0, order)
    w = M.World(c.repo, h0)
    name = mod + '.time_series_deriv'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    hm = S.sym('hmax', w.n, None)
    S.ELEM_MAX['hz'] = hm
    ext = S.sym('ext', 0, None)
    Nt = 2 * hm + 2 * ext + 2
    X0 = w.leaf('X0', w.Nhc, w.Nd)
    r = w.it.call(f, [Nt, w.h, X0, S.const(order)], {})
    if has_unknown(r):
        c.ob(key, None, wh, w.it.notes[-3:])
        return
    r = w.it.arr(r)
    want_shape = (Nt, w.Nd)
    c.ob(key + ' shape', True if r.shape == want_shape else A.shape_verdict(r, A.full(want_shape, S.ZERO)), wh, r.shape)
    ev = transform_input(w, r, 'ifft')
    if ev is None:
        c.ob(key + ' spectrum', None, wh, 'no inverse transform seen')
        return
    t, d = S.sym('t', 0, Nt), S.sym('d', 0, w.Nd)
    zero(c, key + ' real part of the inverse transform', r.f((t, d)) - S.fn('real', S.elem(ev[2], (t, d))), wh)
    Xf = ev[1]
    c.ob(key + ' number of samples', S.is_zero(Xf.shape[0] - Nt), wh, Xf.shape)
    x = lambda row: S.elem('X0', (row, d))
    q = S.sym('q', 0, w.n)
    hq = S.elem('hz', (q,))
    # constant part
    Re, Im = reim(Xf.f((S.ZERO, d)))
    zero(c, key + ' constant', Re - (Nt * x(S.ZERO) if h0 and order == 0 else S.ZERO), wh)
    # harmonic hz(q): Re/Im of  Nt (i k)^n (c - i s)
    cs, sn = x(2 * q + h0), x(2 * q + 1 + h0)
    a, b = cs, -sn
    for _ in range(order):
        a, b = -b, a
    fac = Nt * hq ** order if order else Nt
    R1, I1 = reim(Xf.f((hq, d)))
    R2, I2 = reim(Xf.f((Nt - hq, d)))
    zero(c, key + ' cosine part of harmonic', R1 + R2 - fac * a, wh)
    zero(c, key + ' sine part of harmonic', I1 - I2 - fac * b, wh)
    R, I = reim(Xf.f((Nt / 2, d)))
    zero(c, key + ' folding frequency', R, wh)
    g = hm + 1 + S.sym('gg', 0, ext)
    R1, I1 = reim(Xf.f((g, d)))
    R2, I2 = reim(Xf.f((Nt - g, d)))
    zero(c, key + ' above highest harmonic (cos)', R1 + R2, wh)
    zero(c, key + ' above highest harmonic (sin)', I1 - I2, wh)

def projection(c, mod, h0, odd=0):
    key = 'get_fourier_coeff[%s,h0=%d%s]' % (mod.split('.')[1], h0, ',odd number of samples' if odd else '')
    w = M.World(c.repo, h0)
    name = mod + '.get_fourier_coeff'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    hm = S.sym('hmax', w.n, None)
    S.ELEM_MAX['hz'] = hm
    ext = S.sym('ext', 0, None)
    Nt = 2 * hm + 2 * ext + 2 + odd
    xt = w.leaf('xt', Nt, w.Nd)
    v = w.it.call(f, [w.h, xt], {})
    if has_unknown(v):
        c.ob(key, None, wh, w.it.notes[-3:])
        return
    v = w.it.arr(v)
    shp = (w.Nhc, w.Nd)
    c.ob(key + ' shape', True if v.shape == shp else A.shape_verdict(v, A.full(shp, S.ZERO)), wh, v.shape)
    ev = transform_input(w, v, 'fft')
    if ev is None:
        c.ob(key + ' spectrum', None, wh, 'no transform seen')
        return
    c.ob(key + ' transforms the given series', S.is_zero(ev[1].f((S.sym('t', 0, Nt), S.sym('d', 0, w.Nd))) -
                                                         S.elem('xt', (S.sym('t', 0, Nt), S.sym('d', 0, w.Nd)))), wh, '')
    d, q = S.sym('d', 0, w.Nd), S.sym('q', 0, w.n)
    hq = S.elem('hz', (q,))
    if h0:
        zero(c, key + ' constant', v.f((S.ZERO, d)) - S.fn('real', S.elem(ev[2], (S.ZERO, d))) / Nt, wh)
    zero(c, key + ' cosine', v.f((2 * q + h0, d)) - 2 * S.fn('real', S.elem(ev[2], (hq, d))) / Nt, wh)
    zero(c, key + ' sine', v.f((2 * q + 1 + h0, d)) + 2 * S.fn('imag', S.elem(ev[2], (hq, d))) / Nt, wh)

def fourier(c):
    c.level = 'proof'
    c.rule('R9 spectrum', 'the spectrum handed to the inverse transform is, entry by entry for symbolic harmonic numbers, '
           'Nt (i k)^n (cos - i sin) at +k and its conjugate at -k, the constant is Nt times row 0, all else is 0; the projection reads '
           'exactly the inverse of that (real/Nt, 2 real/Nt, -2 imag/Nt) from the forward transform of the given series, so that '
           'projection after synthesis is the identity for every series without aliasing')
    tasks = []
    orders = tuple(range(9)) if c.thorough else tuple(range(7))
    def wrap(fn, *a):
        def go():
            try:
                fn(c, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        return go
    for mod in MODS:
        for h0 in (0, 1):
            for o in orders:
                tasks.append(('time_series_deriv %s %d %d' % (mod, h0, o), wrap(synthesis, mod, h0, o), 250))
            for odd in (0, 1):
                tasks.append(('get_fourier_coeff %s %d %d' % (mod, h0, odd), wrap(projection, mod, h0, odd), 250))
    c.repo
    c.parallel(tasks)
