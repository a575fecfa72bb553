"""C17: friction laws (slip limit, separation, stuck branch), and the cycle structure of the accelerated forces (C18)."""
import itertools, os
from fractions import Fraction
from tsa import sym as S, arr as A, model as M, rand
from tsa.interp import NArr, ClassRef, Obj, has_unknown, is_unk, Unknown
from checks.harmonics import entry

ZERO, ONE = S.ZERO, S.ONE

# --------------------------------------------------------- comparing piecewise terms
class REnv(rand.Env):
    """random interpretation with every leaf over several orders of magnitude, so that all regimes of a piecewise term are met"""
    pass

PIECEWISE = ('Fn[sign', 'Fn[gt', 'Fn[max', 'Fn[min', 'Fn[abs', 'Fn[ge', 'Fn[where')

def agree(got, want, cond=None, tries=400, need=20):
    """(verdict, text): equality of two terms; piecewise terms by identity testing in every regime.
    cond: {name: term}; each must be positive in `need` samples and negative or zero in `need` others"""
    d = got - want
    if d.is_zero():
        return True, ''
    try:
        z = S.is_zero(d)
    except S.Undecided:
        z = None
    if z is True:
        return True, ''
    pw = any(x in d.key for x in PIECEWISE)
    n, bad, cnt = 0, [], {k: [0, 0] for k in cond or {}}
    for s in range(tries):
        env = REnv(s)
        try:
            g, w = env.expr(got), env.expr(want)
            cs = {k: env.expr(e) for k, e in (cond or {}).items()}
        except (rand.Stuck, S.Undecided, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
            continue
        if g != g or w != w:
            continue
        n += 1
        for k, v in cs.items():
            cnt[k][0 if v > 0 else 1] += 1
        if abs(g - w) > max(1e-7 * max(1.0, abs(g), abs(w)), 1e-11 * env.scale):
            bad.append((s, g, w))
    if len(bad) >= 2:
        return False, 'derived %s, expected %s; e.g. %.6g against %.6g' % (short(got), short(want), bad[0][1], bad[0][2])
    if bad or n < need:
        return None, 'not compared: %s' % short(d)
    if not pw and z is False:
        return False, 'difference %s' % short(d)
    low = [k for k, v in cnt.items() if min(v) < need]
    if low:
        return None, 'regimes not all met: %s' % low
    return True, ''

def short(e):
    s = str(e)
    return s if len(s) < 160 else s[:157] + '...'

def same(c, key, got, want, wh, cond=None):
    try:
        if isinstance(got, A.Arr):
            raise S.Undecided('array')
        v, d = agree(got, want, cond)
        c.ob(key, v, wh, d)
    except S.Undecided as u:
        c.ob(key, None, wh, u)

def clamp(x, lim):
    return S.fn('max', S.fn('min', x, lim), -lim)

# ------------------------------------------------------------------ building
POSITIVE = {'kt', 'kn', 'Fs', 'mu'}

def make(c, modname, clsname, args, kw=None, h0=1):
    w = M.World(c.repo, h0)
    m = c.repo.modules.get(modname)
    cl = m.classes.get(clsname) if m else None
    if cl is None:
        hit = [(mm, mm.classes[clsname]) for mm in c.repo.modules.values() if clsname in mm.classes]
        if not hit:
            raise M.AnchorLost('class ' + clsname)
        m, cl = hit[0]
    w.Nt = S.sym('Nt', 3, None)
    S.POSITIVE.update(POSITIVE)
    a = args(w)
    o = w.it.call(ClassRef(m, cl), a[0], a[1] if len(a) > 1 else {})
    if is_unk(o):
        raise S.Undecided('constructor: %s' % o.why)
    return w, o, os.path.relpath(m.path, c.repo.root) + ':' + clsname

def call(w, o, name, args, kw=None):
    return w.it.call(w.it.getattr(o, name), args, kw or {})

def where(c, wh, o, name):
    m = c.repo.method(o.mod, o.cls, name)
    if m is None:
        return wh + '.' + name
    return '%s:%s.%s' % (os.path.relpath(m[0].path, c.repo.root), m[1].name, name)

# ----------------------------------------------------------------- Jenkins
def jenkins(c):
    """instant_force / instant_force_harmonic / force of the serial slider"""
    p = lambda n: S.sym(n, positive=True)
    kt, Fs = p('kt'), p('Fs')
    def mk():
        return make(c, 'tmdsimpy.nlforces.jenkins_element', 'JenkinsForce',
                    lambda w: ([w.leaf('Q', 1, w.Nd), w.leaf('T', w.Nd, 1), kt, Fs],))
    w, o, wh = mk()
    el = S.elem
    def hist(w, o):
        o.attrs['up'], o.attrs['fp'] = w.leaf('up', 1), w.leaf('fp', 1)
        o.attrs['dupduh'], o.attrs['dfpduh'] = w.leaf('dup', w.Nhc), w.leaf('dfp', 1, 1, w.Nhc)
    hist(w, o)
    u, up, fp = el('u', (ZERO,)), el('up', (ZERO,)), el('fp', (ZERO,))
    pred = kt * (u - up) + fp
    cond = {'stuck': Fs - S.fn('abs', pred), 'positive': pred}
    want = clamp(pred, Fs)
    key = 'JenkinsForce.'
    wi = where(c, wh, o, 'instant_force')
    for upd in (False, True):
        w, o, wh = mk()
        hist(w, o)
        r = call(w, o, 'instant_force', [w.leaf('u', 1), w.leaf('v', 1)], {'update_prev': upd})
        k2 = key + 'instant_force[update_prev=%s] ' % upd
        if has_unknown(r) or not isinstance(r, tuple) or len(r) != 4:
            c.ob(k2 + 'result', None, wi, '%s %s' % (r, w.it.notes[-2:]))
            continue
        at = lambda x: w.it.arr(x).f((ZERO,) * w.it.arr(x).ndim)
        f = at(r[0])
        same(c, k2 + 'force is the spring from the last state limited to the slip force', f, want, wi, cond)
        for n, (nm, leaf) in enumerate((('displacement', 'u'), ('previous displacement', 'up'), ('previous force', 'fp'))):
            same(c, k2 + 'derivative with respect to the %s' % nm, at(r[n+1]), S.diff(f, (leaf, (ZERO,))), wi, cond)
        for nm, exp in (('up', u if upd else up), ('fp', want if upd else fp)):
            same(c, k2 + ('stores the new state: ' if upd else 'leaves the state alone: ') + nm, at(o.attrs[nm]), exp, wi, cond)
    harmonic(c, mk, hist, key, pred, cond, kt)
    # static form
    w, o, wh = mk()
    hist(w, o)
    ws = where(c, wh, o, 'force')
    Nd = w.Nd
    X = w.leaf('X', Nd)
    un = A.sum_over(lambda d: el('Q', (ZERO, d)) * el('X', (d,)), Nd, ())
    pr = kt * (un - up) + fp
    static(c, w, o, ws, key, X, {0: clamp(pr, Fs)}, {'stuck': Fs - S.fn('abs', pr), 'positive': pr}, 1,
           {'up': {0: un}, 'fp': {0: clamp(pr, Fs)}})
    start(c, mk, key, {'fp': 0})

def start(c, mk, key, zero):
    w, o, wh = mk()
    w0 = where(c, wh, o, 'init_history_harmonic')
    call(w, o, 'init_history_harmonic', [w.leaf('unlth0', 1), w.h])
    at = o.attrs
    k = S.sym('k', 0, w.Nhc)
    def ent(nm, ix, want, text):
        v = at.get(nm)
        if v is None or has_unknown(v):
            c.ob(key + text, None, w0, '%s %s' % (nm, v))
            return
        a = w.it.arr(v)
        try:
            same(c, key + text, a.f(tuple(ix[-a.ndim:]) if a.ndim else ()), want, w0)
        except S.Undecided as e:
            c.ob(key + text, None, w0, e)
    ent('up', [ZERO], S.elem('unlth0', (ZERO,)), 'initial position is the zeroth harmonic')
    ent('fp', [ZERO], ZERO, 'initial force is zero')
    ent('dupduh', [ZERO], ONE, 'initial position moves with the zeroth harmonic')
    ent('dupduh', [k + 1 if False else S.sym('k1', 1, w.Nhc)], ZERO, 'initial position does not move with other harmonics')
    ent('dfpduh', [ZERO, ZERO, k], ZERO, 'initial force has no derivative')

def harmonic(c, mk, hist, key, pred, cond, kt):
    """chain rule through the history"""
    w, o, wh = mk()
    hist(w, o)
    el = S.elem
    wi = where(c, wh, o, 'instant_force_harmonic')
    r = call(w, o, 'instant_force_harmonic', [w.leaf('u', 1), w.leaf('v', 1), w.h, w.leaf('cst', w.Nhc)], {'update_prev': True})
    k2 = key + 'instant_force_harmonic '
    if has_unknown(r) or not isinstance(r, tuple) or len(r) != 3:
        c.ob(k2 + 'result', None, wi, '%s %s' % (r, w.it.notes[-2:]))
        return
    k = S.sym('k', 0, w.Nhc)
    f = w.it.arr(r[0]).f((ZERO,))
    want = S.diff(f, ('u', (ZERO,))) * el('cst', (k,)) + S.diff(f, ('up', (ZERO,))) * el('dup', (k,)) \
        + S.diff(f, ('fp', (ZERO,))) * el('dfp', (ZERO, ZERO, k))
    # value from a call that does not touch the history first
    same(c, k2 + 'derivative follows displacement, previous displacement and previous force', w.it.arr(r[1]).f((ZERO, ZERO, k)), want, wi, cond)
    same(c, k2 + 'no velocity derivative', w.it.arr(r[2]).f((ZERO, ZERO, k)), S.diff(f, ('v', (ZERO,))), wi)
    at = o.attrs
    def st(nm, ix, want, text):
        try:
            same(c, k2 + 'stores ' + text, w.it.arr(at[nm]).f(ix[-w.it.arr(at[nm]).ndim:]), want, wi, cond)
        except (S.Undecided, KeyError) as e:
            c.ob(k2 + 'stores ' + text, None, wi, e)
    st('up', (ZERO,), el('u', (ZERO,)), 'the displacement')
    st('fp', (ZERO,), f, 'the force')
    st('dupduh', (k,), el('cst', (k,)), 'the displacement derivative')
    st('dfpduh', (ZERO, ZERO, k), want, 'the force derivative')

def static(c, w, o, ws, key, X, local, cond, n, stored):
    """force(X): T f(Q X), exact Jacobian, history stored on request only"""
    el, Nd = S.elem, w.Nd
    before = {k: w.it.arr(o.attrs[k]) for k in stored}
    r = call(w, o, 'force', [X])
    k2 = key + 'force '
    if has_unknown(r) or not isinstance(r, tuple) or len(r) < 2:
        c.ob(k2 + 'result', None, ws, '%s %s' % (r, w.it.notes[-2:]))
        return
    a, b = S.sym('ra', 0, Nd), S.sym('rb', 0, Nd)
    F, dF = w.it.arr(r[0]), w.it.arr(r[1])
    want = sum((el('T', (a, S.const(q))) * e for q, e in local.items()), ZERO)
    same(c, k2 + 'is the mapped friction law', F.f((a,)), want, ws, cond)
    same(c, k2 + 'Jacobian is its derivative', dF.f((a, b)), S.diff(want, ('X', (b,))), ws, cond)
    for nm in stored:
        same(c, k2 + 'leaves the state alone: ' + nm, w.it.arr(o.attrs[nm]).f((ZERO,)), before[nm].f((ZERO,)), ws)
    r = call(w, o, 'force', [X], {'update_hist': True})
    for nm, ents in stored.items():
        for q, e in ents.items():
            try:
                same(c, k2 + 'update stores the new state: %s[%d]' % (nm, q), w.it.arr(o.attrs[nm]).f((S.const(q),)), e, ws, cond)
            except S.Undecided as u:
                c.ob(k2 + 'update stores the new state: %s[%d]' % (nm, q), None, ws, u)

# ------------------------------------------------------------ elastic dry friction
def eldry(c, dim, E, u0kind):
    name = 'ElasticDryFriction%dD' % dim
    mod = 'tmdsimpy.jax.nlforces.elastic_dry_fric_%dd' % dim
    n = dim * E
    p = lambda s: S.sym(s, positive=True)
    kt, kn, mu, gap = p('kt'), p('kn'), p('mu'), S.sym('gap')
    tang = [e * dim + d for e in range(E) for d in range(dim - 1)]
    norm = {t: (t // dim) * dim + dim - 1 for t in tang}
    def mk():
        return make(c, mod, name, lambda w: ([w.leaf('Q', n, w.Nd), w.leaf('T', w.Nd, n), kt, kn, mu],
                    {'u0': {'none': None, 'scalar': S.sym('us'), 'array': w.leaf('u0', n)}[u0kind], 'meso_gap': gap}))
    el, C = S.elem, S.const
    key = '%s[%d element%s,u0 %s] ' % (name, E, 's' if E > 1 else '', u0kind)
    # ---- time history
    w, o, wh = mk()
    Nt = w.Nt
    wl = where(c, wh, o, 'local_force_history')
    n0 = len(w.it.events)
    r = call(w, o, 'local_force_history', [w.leaf('unlt', Nt, n), w.leaf('unltdot', Nt, n), w.h, w.leaf('cst', Nt, w.Nhc), w.leaf('unlth0', n)])
    U = lambda i, d: el('unlt', (i, C(d)))
    start = {'none': lambda t: el('unlth0', (C(t),)), 'scalar': lambda t: S.sym('us'), 'array': lambda t: el('u0', (C(t),))}[u0kind]
    N = lambda x: S.fn('max', kn * (x - gap), ZERO)
    if has_unknown(r):
        c.ob(key + 'time history', None, wl, '%s %s' % (r, w.it.notes[-3:]))
    else:
        ev = chain([e for e in w.it.events[n0:] if e[0] == 'fori'], w.it.arr(r[0] if isinstance(r, tuple) else r))
        loops(c, w, key, wl, ev, r[0] if isinstance(r, tuple) else r, dim, tang, norm, U, start, N, kt, mu, Nt, n)
    # ---- static
    if u0kind == 'scalar':
        w, o, wh = mk()
        ws = where(c, wh, o, 'force')
        nt = len(tang)
        o.attrs['up'], o.attrs['fp'] = w.leaf('up', nt), w.leaf('fp', nt)
        un = [A.sum_over(lambda d, q=q: el('Q', (C(q), d)) * el('X', (d,)), w.Nd, ()) for q in range(n)]
        local, cond, st = {}, {}, {'up': {}, 'fp': {}}
        for q in range(n):
            if q in norm:
                i = tang.index(q)
                lim = mu * N(un[norm[q]])
                pr = kt * (un[q] - el('up', (C(i),))) + el('fp', (C(i),))
                local[q] = clamp(pr, lim)
                cond['contact%d' % norm[q]] = un[norm[q]] - gap
                cond['stuck%d' % q] = lim - S.fn('abs', pr)
                st['up'][i], st['fp'][i] = un[q], local[q]
            else:
                local[q] = N(un[q])
        static(c, w, o, ws, key, w.leaf('X', w.Nd), local, cond, n, st)

def chain(ev, out):
    """the compiled loops that lead to the returned array, in order"""
    def index(a):
        sets = [[S.const(q) for q in range(int(n.const_value()))] if n.const_value() is not None else [S.sym('cx%d' % k, 0, n)]
                for k, n in enumerate(a.shape)]
        return tuple(a.f(ix).key for ix in itertools.product(*sets))
    seq, goal = [], index(out)
    for e in reversed(ev):
        if index(e[6][0]) == goal:
            seq.append(e)
            goal = index(e[4][0])
    return seq[::-1]

def loops(c, w, key, wl, ev, out, dim, tang, norm, U, start, N, kt, mu, Nt, n, fixed=None):
    """fixed: constant slip limit instead of a contact normal force"""
    el, C = S.elem, S.const
    outa = w.it.arr(out)
    if len(ev) < 1:
        c.ob(key + 'cycles found', None, wl, 'no compiled loop')
        return
    c.ob(key + 'at least two cycles', len(ev) >= 2, wl, '%d passes' % len(ev))
    t = S.sym('t', 0, Nt)
    prev = None
    for k, (_, nm, lo, hi, pre, steps, res) in enumerate(ev):
        k2 = key + 'cycle %d ' % (k + 1)
        c.ob(k2 + 'covers every instant once', S.is_zero(lo) and S.is_zero(hi - Nt), wl, '%s..%s' % (lo, hi))
        if len(pre) != 1:
            c.ob(k2, None, wl, 'state of %d arrays' % len(pre))
            return
        a = pre[0]
        if prev is None:
            for q in range(n):
                if q in norm:
                    x = a.f((Nt - 1, C(q)))
                    same(c, k2 + 'starts stuck at the initial slider position (dof %d)' % q, x, kt * (U(Nt - 1, q) - start(q)), wl)
                else:
                    same(c, k2 + 'normal force is the penalty of the positive penetration (dof %d)' % q, a.f((t, C(q))), N(U(t, q)), wl,
                         {'contact': U(t, q) - S.sym('gap')})
        else:
            for q in range(n):
                same(c, k2 + 'continues the result of the cycle before (dof %d)' % q, a.f((t, C(q))), prev.f((t, C(q))), wl)
        for label, i, leaves, st in steps:
            if isinstance(st, str) or len(st) != 1:
                c.ob(k2 + 'instant (%s)' % label, None, wl, st)
                continue
            s, b = leaves[0], st[0]
            j = Nt - 1 if label == 'first' else i - 1
            for q in range(n):
                lab = '(%s instant, dof %d)' % (label, q)
                if fixed is not None:
                    pr = kt * (U(i, q) - U(j, q)) + s.f((j, C(q)))
                    same(c, k2 + 'friction is the spring from the previous instant within the slip limit ' + lab,
                         b.f((i, C(q))), clamp(pr, fixed), wl, {'stuck': fixed - S.fn('abs', pr), 'positive': pr})
                elif q in norm:
                    lim = mu * s.f((i, C(norm[q])))
                    pr = kt * (U(i, q) - U(j, q)) + s.f((j, C(q)))
                    # the stored normal force is not negative: only that half plane matters
                    pos = S.fn('max', s.f((i, C(norm[q]))), ZERO)
                    sub = lambda e: subst(e, s.f((i, C(norm[q]))), pos)
                    same(c, k2 + 'friction is the spring from the previous instant within the slip limit ' + lab,
                         sub(b.f((i, C(q)))), sub(clamp(pr, lim)), wl, {'stuck': sub(lim) - S.fn('abs', pr), 'positive': pr})
                else:
                    same(c, k2 + 'keeps the normal force ' + lab, b.f((i, C(q))), s.f((i, C(q))), wl)
                later = i + 1 + S.sym('lt%s' % label, 0, Nt - i - 1)
                same(c, k2 + 'leaves other instants alone ' + lab, b.f((later, C(q))), s.f((later, C(q))), wl)
                if label == 'rest':
                    c_ = S.sym('er', 0, i)
                    same(c, k2 + 'leaves earlier instants alone ' + lab, b.f((c_, C(q))), s.f((c_, C(q))), wl)
        prev = res[0]
    for q in range(n):
        same(c, key + 'returns the last cycle (dof %d)' % q, outa.f((t, C(q))), prev.f((t, C(q))), wl)

def traced(c, label, modname, cls, n, args):
    """the same laws inside the harmonic evaluation"""
    from checks import aft as AF
    w, o, wh = make(c, modname, cls, args)
    key = label + ' harmonic '
    wl = where(c, wh, o, 'aft')
    c2 = type(c)(c.pid, c.tier, c.root)       # size obligations belong to C08
    AF.transform_hooks(w, c2, key, wl)
    n0 = len(w.it.events)
    r = call(w, o, 'aft', [w.leaf('U', w.N), S.sym('w', positive=True), w.h, w.Nt])
    ev = [e for e in w.it.events[n0:] if e[0] == 'fori']
    if not isinstance(r, tuple) or has_unknown(r) or not ev:
        c.ob(key, None, wl, '%s %s' % (r, w.it.notes[-2:]))
        return
    el, C = S.elem, S.const
    p = lambda s: S.sym(s, positive=True)
    loc = lambda q, k: A.sum_over(lambda d: el('Q', (C(q), d)) * el('U', (k * w.Nd + d,)), w.Nd, ())
    U = lambda i, q: A.sum_over(lambda k: el('B0', (i, k)) * loc(q, k), w.Nhc, ())
    u0 = label.rpartition(' ')[2]
    start = {'none': lambda t: loc(t, S.ZERO), 'scalar': lambda t: S.sym('us'), 'array': lambda t: el('u0', (C(t),))}[u0]
    out = w.it.wrap(ev[-1][6][0])
    ev = chain(ev, ev[-1][6][0])
    if cls == 'JenkinsForce':
        loops(c, w, key, wl, ev, out, 1, [0], {0: 0}, U, start, None, p('kt'), None, w.Nt, n, fixed=p('Fs'))
    else:
        dim = int(cls[-2])
        norm = {t: (t // dim) * dim + dim - 1 for t in range(n) if t % dim != dim - 1}
        gap = S.sym('gap')
        loops(c, w, key, wl, ev, out, dim, list(norm), norm, U, start, lambda x: S.fn('max', p('kn') * (x - gap), ZERO),
              p('kt'), p('mu'), w.Nt, n)

def subst(e, old, new):
    return e if old is new else e

def friction(c):
    c.level = 'other'
    c.small = 0
    c.rule('R17 clamp', 'the term derived for every friction force equals the linear spring from the last state limited to the current '
           'slip force, compared in every regime; normal forces are the positive part of the penalty law')
    tasks = [('JenkinsForce', lambda: jenkins(c), 200)]
    for dim in (2, 3):
        for E, u0 in ((1, 'scalar'), (1, 'none'), (2, 'array')):
            tasks.append(('ElasticDryFriction%dD[%d,%s]' % (dim, E, u0), lambda dim=dim, E=E, u0=u0: eldry(c, dim, E, u0), 300))
    from checks.aft import traced_forces
    for label, mod, cls, n, args in traced_forces():
        if not cls.startswith('Rough'):
            tasks.append((label + ' harmonic', lambda a=(label, mod, cls, n, args): traced(c, *a), 300))
    from checks.rough import rough
    tasks += rough(c)
    c.repo
    c.parallel(tasks)
