"""Phase rotation and prediction (C25), phase wrapping (C26)."""
import math
from tsa import sym as S, arr as A, model as M, rand
from tsa.interp import NArr, Obj, Prim, Unknown, has_unknown, Raised
from checks.harmonics import repo_func, where_func, entry

MOD = 'tmdsimpy.utils.harmonic.'
KNOWN_FN = {'sin', 'cos', 'exp', 'log', 'tanh', 'sqrt', 'tan', 'abs', 'sign', 'max', 'min', 'gt', 'atan2', 'mod', 'floor', 'ceil',
            'trunc', 'rint', 'fmod', 'real', 'imag', 'conj'}

# ------------------------------------------------------------------- wrapping
def fn_names(e, out=None):
    out = set() if out is None else out
    import re
    for m in re.finditer(r'Fn\[(\w+);', e.key):
        out.add(m.group(1))
    for m in re.finditer(r'Ind\[(\w+);', e.key):
        out.add('Ind ' + m.group(1))
    return out

class AngleEnv(rand.Env):
    def __init__(self, seed, angle):
        super().__init__(seed)
        self.angle = angle
    def element(self, nm, idx):
        return self.angle if nm == 'phase' else super().element(nm, idx)
    def symbol(self, n):
        return self.angle if n == 'phase' else super().symbol(n)

def wrap_verdict(e):
    odd = fn_names(e) - KNOWN_FN
    if odd:
        return None, 'term with %s' % ', '.join(sorted(odd))
    n = 0
    for s in range(400):
        a = (rand.h01(s, 'angle') - 0.5) * (2 * math.pi if s % 2 else 60)
        if min(abs((a / math.pi) % 1), 1 - abs((a / math.pi) % 1)) < 1e-3:
            continue
        try:
            v = AngleEnv(s, a).expr(e)
        except (rand.Stuck, S.Undecided, OverflowError, ZeroDivisionError, TypeError, ValueError):
            continue
        if isinstance(v, complex):
            v = v.real if abs(v.imag) < 1e-9 else float('nan')
        n += 1
        k = (v - a) / (2 * math.pi)
        if not (-math.pi - 1e-9 <= v <= math.pi + 1e-9):
            return False, 'the derived term %s maps %.6g to %.6g, outside one period around zero' % (e, a, v)
        if abs(k - round(k)) > 1e-9:
            return False, 'the derived term %s maps %.6g to %.6g, which is not congruent modulo 2 pi' % (e, a, v)
    return (True, '') if n > 100 else (None, 'term could not be compared')

def wrapping(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R26 congruence', 'the term derived for every entry of the result is congruent to the entry of the argument modulo 2 pi, lies in '
           'one period around zero (hence is the identity inside it), and depends on no other entry')
    def go():
        name = MOD + 'shift_pm_pi'
        for kind in ('vector', 'matrix', 'scalar'):
            w = M.World(c.repo, 0)
            try:
                f, wh = repo_func(c.repo, name), where_func(c.repo, name)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
                return
            n, m = S.sym('n', 1, None), S.sym('m', 1, None)
            shp = {'vector': (n,), 'matrix': (n, m), 'scalar': ()}[kind]
            arg = w.leaf('phase', *shp) if shp else S.sym('phase')
            r = w.it.call(f, [arg], {})
            key = 'shift_pm_pi[%s]' % kind
            if has_unknown(r):
                c.ob(key, None, wh, [r] + w.it.notes[-3:])
                continue
            a = w.it.arr(r)
            c.ob(key + ' shape', True if a.shape == shp else A.shape_verdict(a, A.full(shp, S.ZERO)) if shp else
                 (len(a.shape) == 0), wh, 'shape %s' % (a.shape,))
            ix = tuple(S.sym('e%d' % k, 0, s) for k, s in enumerate(shp))
            try:
                e = a.f(ix)
            except S.Undecided as u:
                c.ob(key + ' congruent', None, wh, u)
                continue
            only = all(not x.startswith('Elem[phase') or True for x in (e.key,))
            v, d = wrap_verdict(e)
            c.ob(key + ' congruent and inside one period', v, wh, d)
            if shp:
                mine = S.elem('phase', ix).key
                bad = [str(t) for t in elements(e, 'phase') if t.key != mine]
                c.ob(key + ' entry by entry', not bad, wh, 'depends on %s' % bad)
    c.repo
    c.parallel([('shift_pm_pi', go, 120)])

def elements(e, name, out=None):
    """all Elem terms of the named array in e"""
    out = [] if out is None else out
    for (b, f), co in e.terms.items():
        for a, p in f:
            stack(a, name, out)
            if isinstance(p, S.Expr):
                elements(p, name, out)
    return out

def stack(a, name, out):
    if a.kind == 'Elem' and a.args[0] == name:
        out.append(S.elem(name, a.args[1]))
    for x in a.args:
        for y in (x if isinstance(x, tuple) else (x,)):
            if isinstance(y, S.Expr):
                elements(y, name, out)

# ------------------------------------------------------------------- rotation
def rotation(c, h0, rows, vec):
    """rows: number of solutions (None: one dimensional argument)"""
    key = 'rotate_subtract_phase[h0=%d,%s,%s]' % (h0, 'one solution' if rows is None else 'set of solutions',
                                                   'phase per solution' if vec else 'one phase')
    w = M.World(c.repo, h0)
    f, wh = repo_func(c.repo, MOD + 'rotate_subtract_phase'), where_func(c.repo, MOD + 'rotate_subtract_phase')
    Nd = w.Nd
    tail = S.sym('tail', 0, None)
    n = w.N + tail
    m = S.sym('rows', 1, None) if rows else S.ONE
    U = w.leaf('U', m, n) if rows else w.leaf('U', n)
    hr = S.sym('hr', positive=True)
    ph = w.leaf('phase', m) if vec else S.sym('phase')
    r = w.it.call(f, [U, Nd, w.h, ph, hr], {})
    if has_unknown(r):
        c.ob(key, None, wh, [r] + w.it.notes[-3:])
        return
    a = w.it.arr(r)
    shp = (m, n)
    c.ob(key + ' shape', True if a.shape == shp else A.shape_verdict(a, A.full(shp, S.ZERO)), wh, 'shape %s' % (a.shape,))
    k = S.sym('k', 0, m) if rows else S.ZERO
    u = lambda col: S.elem('U', (k, col)) if rows else S.elem('U', (col,))
    th = S.elem('phase', (k,)) if vec else ph
    i, q, t = S.sym('i', 0, Nd), S.sym('q', 0, w.n), S.sym('t', 0, tail)
    ang = S.elem('hz', (q,)) * th / hr
    co, si = S.fn('cos', ang), S.fn('sin', ang)
    cc, sc = Nd * (2 * q + h0) + i, Nd * (2 * q + 1 + h0) + i
    entry(c, key + ' cosine', a, (k, cc), u(cc) * co - u(sc) * si, wh)
    entry(c, key + ' sine', a, (k, sc), u(cc) * si + u(sc) * co, wh)
    if h0:
        entry(c, key + ' zeroth harmonic unchanged', a, (k, i), u(i), wh)
    entry(c, key + ' trailing unknowns unchanged', a, (k, w.N + t), u(w.N + t), wh)
    # amplitude of every harmonic is kept
    z = a.f((k, cc)) ** 2 + a.f((k, sc)) ** 2 - u(cc) ** 2 - u(sc) ** 2
    z = S.subst_trig(z) if hasattr(S, 'subst_trig') else z
    c.ob(key + ' amplitude kept', rand.refuted(z) is False or S.is_zero(z), wh, z)

# ----------------------------------------------------------------- prediction
TAIL = {'HBM': 1, 'HBM_AMP': 2, 'HBM_AMP_PHASE': 3, 'VPRNM_AMP_PHASE': 4}

def prediction(c, h0, eq, static, order=None):
    key = 'predict_harmonic_solution[%s,%s%s%s]' % (M.label(h0), eq, ',static' if static else '', '' if order is None else ',order=%d' % order)
    vp = eq.startswith('VPRNM')
    w = M.world_of(c.repo, h0, vp)
    h0 = w.h0
    f, wh = repo_func(c.repo, MOD + 'predict_harmonic_solution'), where_func(c.repo, MOD + 'predict_harmonic_solution')
    Nd, N = w.Nd, w.N
    om, fm = S.sym('om', positive=True), S.sym('fmag')
    lin, nl = [], []
    def frf(w_, Fl, solver=None, neigs=None, Flsin=None):
        we, Fc = w.it.scalar(w_), w.it.arr(Fl)
        Fs = w.it.arr(Flsin) if Flsin is not None else A.full((Nd,), S.ZERO)
        k = len(lin)
        lin.append((we, Fc, Fs))
        nm = 'lin%d' % k
        return NArr(A.Arr((S.ONE, 2 * Nd + 1), lambda ix: S.elem(nm, (ix[1],)) if S.ge(2 * Nd - 1, ix[1]) is True else
                          (we if S.is_zero(ix[1] - 2 * Nd) else A_und()), cuts=((), (Nd, 2 * Nd))))
    def A_und():
        raise S.Undecided('entry of the linear response')
    def vsobj(name):
        o = Obj(None, None, {}, name=name)
        def get(it, ob, a):
            if a == 'linear_frf':
                return Prim(a, frf)
            if a in 'MCK':
                return w.leaf(a, Nd, Nd)
            if a == 'total_aft':
                def aft(U, w_, h, Nt=None, aft_tol=None, calc_grad=True, **kw):
                    nl.append((w.it.arr(U), w.it.scalar(w_), h, name))
                    F = w.leaf('Fint', N)
                    return (F, w.leaf('DF', N, N), w.leaf('WF', N)) if w.it.truth(calc_grad) is not False else (F,)
                return Prim(a, aft)
            return Unknown('attribute ' + a)
        o.getter = get
        return o
    vs, vsnl = vsobj('vib_sys'), vsobj('vib_sys_nl')
    Fl = NArr(A.Arr((N,), lambda ix: S.elem('Fl', ix) if 'PHASE' not in eq or S.ge(h0 * Nd + Nd - 1, ix[0]) is True or
                    S.ge(ix[0], (h0 + 2) * Nd) is True else S.ZERO if S.ge(ix[0], (h0 + 1) * Nd) is True else A_und(),
                    cuts=((h0 * Nd, (h0 + 1) * Nd, (h0 + 2) * Nd),)))
    kw = dict(control_amp=S.sym('camp', positive=True), control_recov=w.leaf('rec', Nd), control_order=S.sym('order', 0, None) if order is None else S.const(order), fmag=fm)
    if static:
        kw['Xstat'] = w.leaf('Xstat', Nd)
    if vp:
        kw.update(rhi=w.rhi, vib_sys_nl=vsnl)
    r = w.it.call(f, [vs, om, Fl, w.h, Obj(None, None, {}, name='solver'), eq], kw)
    if has_unknown(r):
        c.ob(key, None, wh, [r] + w.it.notes[-3:])
        return
    a = w.it.arr(r)
    shp = (N + TAIL[eq],)
    c.ob(key + ' shape', True if a.shape == shp else A.shape_verdict(a, A.full(shp, S.ZERO)), wh, 'shape %s' % (a.shape,))
    i = S.sym('i', 0, Nd)
    if not lin:
        c.ob(key + ' linear response', None, wh, 'no linear response requested')
        return
    fe, scale = (S.elem('Fl', (h0 * Nd + i,)), fm if eq == 'HBM' else S.ONE)
    we, Fc, Fs = lin[0]
    c.ob(key + ' linear response at the given frequency', S.is_zero(we - om), wh, we)
    entry(c, key + ' linear response, cosine load', Fc, (i,), scale * fe, wh)
    entry(c, key + ' linear response, sine load', Fs, (i,), S.ZERO if 'PHASE' in eq else scale * S.elem('Fl', ((h0 + 1) * Nd + i,)), wh)
    x = lambda j: S.elem('lin0', (j,))
    ac = A.sum_over(lambda j: S.elem('rec', (j,)) * x(j), Nd, ())
    as_ = A.sum_over(lambda j: S.elem('rec', (j,)) * x(Nd + j), Nd, ())
    order = kw['control_order']
    g = S.ONE
    if eq != 'HBM':
        g = kw['control_amp'] / (S.power(ac * ac + as_ * as_, S.const(1) / 2) * S.power(om, order))
    if 'PHASE' in eq:
        phi = S.fn('atan2', as_, ac)
        co, si = S.fn('cos', phi), S.fn('sin', phi)
    else:
        co, si = S.ONE, S.ZERO
    xc, xs = g * (co * x(i) + si * x(Nd + i)), g * (co * x(Nd + i) - si * x(i))
    entry(c, key + ' fundamental cosine', a, (h0 * Nd + i,), xc, wh)
    entry(c, key + ' fundamental sine', a, ((h0 + 1) * Nd + i,), xs, wh)
    if h0:
        entry(c, key + ' static displacement', a, (i,), S.elem('Xstat', (i,)) if static else S.ZERO, wh)
    T = lambda k: (N + k,)
    if eq == 'HBM':
        entry(c, key + ' frequency', a, T(0), om, wh)
    elif eq == 'HBM_AMP':
        entry(c, key + ' force magnitude', a, T(0), g, wh)
        entry(c, key + ' frequency', a, T(1), om, wh)
    else:
        entry(c, key + ' cosine force', a, T(0), g * co, wh)
        entry(c, key + ' sine force', a, T(1), -g * si, wh)
        entry(c, key + ' frequency', a, T(2), om, wh)
        if vp:
            entry(c, key + ' amplitude', a, T(3), kw['control_amp'], wh)
    # higher harmonics
    if not vp:
        q = S.sym('q', 1, w.n)
        for b in (0, 1):
            entry(c, key + ' other harmonics %s' % 'cs'[b], a, (Nd * (2 * q + h0 + b) + i,), S.ZERO, wh)
        return
    r1 = Nd * (2 * w.r1 + h0)
    if len(lin) != 2 or len(nl) != 1:
        c.ob(key + ' superharmonic estimate', False if len(nl) > 1 else None, wh, '%d linear responses, %d force evaluations' % (len(lin), len(nl)))
        return
    we, Fc, Fs = lin[1]
    c.ob(key + ' superharmonic frequency', S.is_zero(we - w.rhi * om), wh, we)
    entry(c, key + ' superharmonic load, cosine', Fc, (i,), -S.elem('Fint', (r1 + i,)), wh)
    entry(c, key + ' superharmonic load, sine', Fs, (i,), -S.elem('Fint', (r1 + Nd + i,)), wh)
    for b in (0, 1):
        entry(c, key + ' superharmonic %s' % 'cs'[b], a, (r1 + b * Nd + i,), S.elem('lin1', (b * Nd + i,)), wh)
    q = S.sym('q', 1, w.r1)
    q2 = w.r1 + 1 + S.sym('q2', 0, w.n - w.r1 - 1)
    for b in (0, 1):
        for qq in (q, q2):
            if w.fixed and not (w.r1.const_value() > 1 if qq is q else w.r1.const_value() + 1 < len(w.fixed)):
                continue
            entry(c, key + ' other harmonics %s%s' % ('cs'[b], 'lower' if qq is q else 'higher'), a, (Nd * (2 * qq + h0 + b) + i,), S.ZERO, wh)
    Uint, wi, hh, nm = nl[0]
    c.ob(key + ' internal forces of the nonlinear system', nm == 'vib_sys_nl', wh, nm)
    c.ob(key + ' internal forces at the given frequency', S.is_zero(wi - om), wh, wi)
    entry(c, key + ' internal forces of the predicted fundamental, cosine', Uint, (h0 * Nd + i,), xc, wh)
    entry(c, key + ' internal forces of the predicted fundamental, sine', Uint, ((h0 + 1) * Nd + i,), xs, wh)
    if h0:
        entry(c, key + ' internal forces with the static displacement', Uint, (i,), S.elem('Xstat', (i,)) if static else S.ZERO, wh)

def phase(c):
    c.level = 'proof'
    c.rule('R25 rotation and prediction', 'for a symbolic harmonic list every cosine / sine entry of the rotated solution is the rotation of '
           'harmonic k by k phase / h_rotate, all other entries are copied; every entry of a predicted vector is the scaled and '
           'rotated linear response, or the unknown which the target residual reads at that position')
    c.repo
    tasks = []
    def add(key, fn, *a):
        def go():
            try:
                fn(c, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        tasks.append((key, go, 250))
    for h0 in (0, 1):
        for rows, vec in ((None, False), (True, False), (True, True)):
            add('rotation %s %s %s' % (h0, rows, vec), rotation, h0, rows, vec)
        for eq in TAIL:
            for st in ((False, True) if h0 else (False,)):
                add('prediction %s %s %s' % (h0, eq, st), prediction, h0, eq, st)
        for eq in ('HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE'):
            for o in ((0, 1, 2, 3) if c.thorough else (0, 3)):
                add('prediction %s %s order %d' % (h0, eq, o), prediction, h0, eq, False, o)
    for g in M.GAPS:
        if g[1] != 1:
            add('prediction %s' % M.label(g), prediction, g, 'VPRNM_AMP_PHASE', False)
    c.parallel(tasks)
