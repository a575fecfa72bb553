"""C16: the prestress friction switch is exactly undone, and effective in every evaluation path while set."""
import ast, itertools, os
from tsa import sym as S, arr as A, model as M
from tsa.sym import ZERO, ONE
from tsa.interp import NArr, Obj, PyList, has_unknown, is_unk
from checks.friction import make, call, where, agree, short
from checks.rough import MOD as ROUGH, mif_hooks
from checks.shooting import mk_force

p = lambda s: S.sym(s, positive=True)
C, el = S.const, S.elem
SWITCH = ('set_prestress_mu', 'reset_real_mu')

# ---------------------------------------------------------------- value identity
def ident(w, v, depth=0):
    if v is None or isinstance(v, (bool, int, float, str)):
        return repr(v)
    if isinstance(v, S.Expr):
        return v.key
    if isinstance(v, (tuple, list)):
        return '(' + ','.join(ident(w, x, depth + 1) for x in v) + ')'
    if isinstance(v, PyList):
        return ident(w, list(v.items if hasattr(v, 'items') and not callable(v.items) else v), depth)
    if isinstance(v, Obj):
        return 'obj%x' % id(v)
    try:
        return A.key_of(w.it.arr(v))
    except Exception:
        return 'id%x' % id(v) if not is_unk(v) else 'unknown'

def snapshot(w, o):
    return {a: ident(w, v) for a, v in o.attrs.items()}

# ------------------------------------------------------------- subjects
def subjects():
    """(label, module, class, argument builder of the coefficient, history arrays, evaluation paths)"""
    out = []
    jargs = lambda w, R: ([w.leaf('Q', 1, w.Nd), w.leaf('T', w.Nd, 1), p('kt'), R],)
    def jhist(w, o):
        o.attrs['up'], o.attrs['fp'] = w.leaf('up', 1), w.leaf('fp', 1)
        o.attrs['dupduh'], o.attrs['dfpduh'] = w.leaf('dup', w.Nhc), w.leaf('dfp', 1, 1, w.Nhc)
    th = lambda n: ('local_force_history', lambda w: [w.leaf('unlt', w.Nt, n), w.leaf('unltdot', w.Nt, n), w.h,
                                                      w.leaf('cst', w.Nt, w.Nhc), w.leaf('unlth0', n)], {})
    aft = lambda **kw: ('aft', lambda w: [w.leaf('U', w.N), p('w'), w.h, w.Nt], kw)
    sta = [('force', lambda w: [w.leaf('X', w.Nd)], {}), ('force', lambda w: [w.leaf('X', w.Nd)], {'update_hist': True})]
    jp = sta + [('instant_force', lambda w: [w.leaf('u', 1), w.leaf('v', 1)], {'update_prev': u}) for u in (False, True)] \
        + [('instant_force_harmonic', lambda w: [w.leaf('u', 1), w.leaf('v', 1), w.h, w.leaf('crow', w.Nhc)], {'update_prev': True})] + [th(1)]
    out.append(('JenkinsForce', 'tmdsimpy.nlforces.jenkins_element', 'JenkinsForce', jargs, jhist, jp))
    out.append(('VectorJenkins', 'tmdsimpy.nlforces.vector_jenkins', 'VectorJenkins', jargs, jhist, jp))
    out.append(('JenkinsForce(jax)', 'tmdsimpy.jax.nlforces.jenkins_element', 'JenkinsForce',
                lambda w, R: jargs(w, R)[0:1] + ({'u0': S.sym('us')},), None, [aft()]))
    for dim, E in ((2, 1), (2, 2), (3, 1)):
        n, nt = dim * E, (dim - 1) * E
        def h(w, o, nt=nt):
            o.attrs['up'], o.attrs['fp'] = w.leaf('up', nt), w.leaf('fp', nt)
        out.append(('ElasticDryFriction%dD[%d]' % (dim, E), 'tmdsimpy.jax.nlforces.elastic_dry_fric_%dd' % dim, 'ElasticDryFriction%dD' % dim,
                    lambda w, R, n=n: ([w.leaf('Q', n, w.Nd), w.leaf('T', w.Nd, n), p('kt'), p('kn'), R],
                                       {'u0': w.leaf('u0', n), 'meso_gap': S.sym('gap')}), h,
                    sta + [aft(), aft(calc_grad=False), th(n)]))
    for tm in ('TAN', 'MIF'):
        def h(w, o, tm=tm):
            o.attrs['uxyn0'] = w.leaf('up', C(3))
            o.attrs['fxy0'] = w.leaf('fp', C(2), C(2)) if tm == 'TAN' else w.leaf('fp', C(2), C(3), C(2))
            if tm == 'MIF':
                o.attrs['quad_radii0'] = w.leaf('qr0', C(2), C(3))
            o.attrs['unmax'], o.attrs['Fm_prev'] = S.sym('um'), w.leaf('Fm', C(2))
        out.append(('RoughContactFriction[%s]' % tm, ROUGH, 'RoughContactFriction',
                    lambda w, R, tm=tm: ([w.leaf('Q', 3, w.Nd), w.leaf('T', w.Nd, 3), p('E'), S.sym('nu'), p('R'), p('Et'), p('sy'), R],
                                         {'u0': w.leaf('u0', 3), 'meso_gap': S.sym('gap'), 'gaps': w.leaf('gaps', C(2)),
                                          'gap_weights': w.leaf('gw', C(2)), 'tangent_model': tm, 'N_radial_quad': C(3)}), h,
                    sta + [aft(), aft(calc_grad=False), aft(return_local=True), th(3)]))
    return out

def build(c, mod, cls, args, R, hist, names, quiet=None, key=''):
    w, o, wh = make(c, mod, cls, lambda w: args(w, R))
    if names is not None:
        w.it._names = names
    from checks import aft as AF
    AF.transform_hooks(w, quiet or type(c)(c.pid, c.tier, c.root), key, wh)
    AF.opaque_asperity(w)
    mif_hooks(w, [])
    if hist:
        hist(w, o)
    return w, o, wh

# -------------------------------------------------------- attribute uses
def loaded(c, skip):
    """attribute names read anywhere in the package outside the methods named in skip"""
    out = set()
    def visit(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, ast.FunctionDef) and ch.name in skip:
                continue
            if isinstance(ch, ast.Attribute) and isinstance(ch.ctx, ast.Load):
                out.add(ch.attr)
            visit(ch)
    for m in c.repo.modules.values():
        visit(m.tree)
    return out

# --------------------------------------------------------------- switching
def switching(c, label, mod, cls, args, hist):
    key = label + ' '
    read = loaded(c, SWITCH)
    R, pre = p('Rc'), p('prestress')
    for symbolic in (False, True):
        def state(word):
            w, o, wh = build(c, mod, cls, args, R, hist, None)
            if symbolic:
                for a in o.attrs:
                    if a.startswith('prestress') and isinstance(o.attrs[a], (S.Expr, int, float)):
                        o.attrs[a] = pre
            for x in word:
                r = call(w, o, SWITCH[x == 'r'], [])
                if is_unk(r):
                    raise S.Undecided('%s: %s' % (SWITCH[x == 'r'], r))
            return w, o, wh
        w, o, wh = state('')
        if symbolic and not any(v is pre for v in o.attrs.values()):
            continue
        ws, wr = where(c, wh, o, SWITCH[0]), where(c, wh, o, SWITCH[1])
        k2 = key + ('[any prestress value] ' if symbolic else '')
        S0 = snapshot(w, o)
        # histories: breadth first over distinct complete states
        known, todo, bad, n = {tuple(sorted(S0.items())): ''}, [''], {}, 0
        set_state = None
        while todo and n < 40:
            word = todo.pop(0)
            for x in 'sr':
                n += 1
                w, o, _ = state(word + x)
                s = snapshot(w, o)
                ref = S0 if x == 'r' else set_state
                if ref is None:
                    ref = set_state = s
                diff = sorted(a for a in set(ref) | set(s) if ref.get(a) != s.get(a))
                hard = [a for a in diff if a in read]
                if hard:
                    bad.setdefault(x, '%s: %s' % (' then '.join('set' if y == 's' else 'reset' for y in word + x), ', '.join(
                        '%s is %s instead of %s' % (a, short(s.get(a)), short(ref.get(a))) for a in hard)))
                k = tuple(sorted(s.items()))
                if k not in known:
                    known[k] = word + x
                    todo.append(word + x)
        c.ob(k2 + 'every reset restores the state of the constructor and leaves the history alone', 'r' not in bad, wr, bad.get('r', ''))
        c.ob(k2 + 'every set gives the same prestress state, also when repeated or after a reset', 's' not in bad, ws, bad.get('s', ''))
        c.ob(k2 + 'the set of states is closed under set and reset', not todo, ws, '%d states after %d steps' % (len(known), n))
        if not symbolic:
            ch = [a for a in S0 if S0[a] != set_state.get(a) and a in read]
            hn = set(o.attrs) & {'up', 'fp', 'dupduh', 'dfpduh', 'uxyn0', 'fxy0', 'unmax', 'Fm_prev', 'quad_radii0', 'u0'}
            c.ob(k2 + 'set changes the friction coefficient only', bool(ch) and not hn & set(ch), ws, 'changes %s' % ch)

# ------------------------------------------------------------ effectiveness
def coefficient_taint(c, w, o, mod, cls, fn, R, ws):
    """attributes still holding the real coefficient that the method (or one it calls) reads"""
    held = set()
    from checks.aft import mentions
    for a, v in o.attrs.items():
        try:
            if isinstance(v, S.Expr):
                if mentions(v, ('Rc',)):
                    held.add(a)
            elif isinstance(v, NArr) and 'Rc' in ident(w, v):
                held.add(a)
        except Exception:
            pass
    done, todo, hit = set(), [fn], []
    while todo:
        f = todo.pop()
        if f in done or f in SWITCH:
            continue
        done.add(f)
        for m, cl in [(x[0], x[1]) for x in c.repo.mro(o.mod, o.cls)]:
            for s in cl.body:
                if isinstance(s, ast.FunctionDef) and s.name == f:
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                            if n.attr in held:
                                hit.append('%s reads self.%s (line %d)' % (f, n.attr, n.lineno))
                            todo.append(n.attr)
    return hit

def same_value(w1, a, w2, b):
    """(verdict, text) of two results"""
    if isinstance(a, (tuple, PyList, list)) and isinstance(b, (tuple, PyList, list)):
        a, b = (list(x.items) if isinstance(x, PyList) else list(x) for x in (a, b))
        if len(a) != len(b):
            return False, '%d results against %d' % (len(a), len(b))
        worst = True, ''
        for x, y in zip(a, b):
            v = same_value(w1, x, w2, y)
            if v[0] is not True:
                if v[0] is False:
                    return v
                worst = v
        return worst
    if has_unknown(a) or has_unknown(b):
        return None, '%s' % (a,)
    if ident(w1, a) == ident(w2, b):
        return True, ''
    if getattr(w1.it, 'unkeyed', None) or getattr(w2.it, 'unkeyed', None):
        return None, 'loop body not modelled: %s' % (getattr(w1.it, 'unkeyed', None) or w2.it.unkeyed)[:1]
    try:
        x, y = w1.it.arr(a), w2.it.arr(b)
        if A.shape_verdict(x, y) is False:
            return False, 'shape %s against %s' % (x.shape, y.shape)
        for ix, lab in A.generic_indices(x.shape, x.cuts, x.mods):
            v = agree(x.f(ix), y.f(ix))
            if v[0] is not True:
                return v
        return True, ''
    except S.Undecided as e:
        return None, str(e)

def effective(c, label, mod, cls, args, hist, paths):
    R = p('Rc')
    for n, (fn, mk, kw) in enumerate(paths):
        kw = {k: v for k, v in kw.items()}
        k2 = '%s %s%s ' % (label, fn, ''.join(' %s=%s' % x for x in kw.items()))
        for mode in ('default', 'symbol'):
            names = {}
            w, o, wh = build(c, mod, cls, args, R, hist, names, key=k2)
            we = where(c, wh, o, fn)
            pa = [a for a, v in o.attrs.items() if a.startswith('prestress')]
            val = ZERO
            if mode == 'symbol':
                if not pa:
                    break
                val = p('prestress')
                for a in pa:
                    o.attrs[a] = val
            c0 = {a: ident(w, v) for a, v in o.attrs.items() if isinstance(v, S.Expr) and v.key in (R.key, p('prestress').key)}
            r0 = None
            if mode == 'default':
                r0 = call(w, o, fn, mk(w), dict(kw))
                c1 = {a: ident(w, o.attrs.get(a)) for a in c0}
                c.ob(k2 + 'leaves the friction coefficients alone', c0 == c1, we, 'before %s, after %s' % (c0, c1))
                w, o, wh = build(c, mod, cls, args, R, hist, names, key=k2)
            call(w, o, SWITCH[0], [])
            hit = coefficient_taint(c, w, o, mod, cls, fn, R, we)
            c0 = {a: ident(w, v) for a, v in o.attrs.items() if a in c0 or a in pa}
            r = call(w, o, fn, mk(w), dict(kw))
            c1 = {a: ident(w, o.attrs.get(a)) for a in c0}
            lab = ' (prestress value %s)' % ('zero' if mode == 'default' else 'arbitrary')
            c.ob(k2 + 'leaves the prestress coefficients alone' + lab, c0 == c1, we, 'before %s, after %s' % (c0, c1))
            wf, of, _ = build(c, mod, cls, args, val, hist, names, key=k2)
            rf = call(wf, of, fn, mk(wf), dict(kw))
            v, d = same_value(w, r, wf, rf)
            if v is None:
                v, d = (False, '; '.join(hit)) if hit else (True, '') if attribute_only(c, o, fn) else (None, d)
            c.ob(k2 + 'while set equals a force built with the prestress coefficient' + lab, v, we, d or '; '.join(hit))
            sw, sf = snapshot(w, o), snapshot(wf, of)
            coef = set(c0) | set(pa)
            for a in sorted(set(sw) & set(sf) - coef):
                if sw[a] != sf[a] and not sw[a].startswith('id'):
                    v, d = same_value(w, o.attrs[a], wf, of.attrs[a])
                    if a in loaded(c, SWITCH):
                        c.ob(k2 + 'stores the same history in %s' % a + lab, v, we, d)

def attribute_only(c, o, fn):
    """the coefficient reaches the method through attributes of the object only (no closures built by the constructor)"""
    for m, cl in [(x[0], x[1]) for x in c.repo.mro(o.mod, o.cls)]:
        for s in cl.body:
            if isinstance(s, ast.FunctionDef) and s.name == '__init__':
                for n in ast.walk(s):
                    if isinstance(n, ast.Lambda) or isinstance(n, ast.FunctionDef) and n is not s or \
                            isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                            (n.func.id if isinstance(n.func, ast.Name) else n.func.attr) in ('partial', 'jit'):
                        return False
    return True

# --------------------------------------------------------------- the system
def system(c):
    for op in SWITCH:
        for n in range(0, 4):
            for types in itertools.product((0, 1), repeat=n):
                w = M.World(c.repo, 1)
                w.system()
                log = []
                w.vs.attrs['nonlinear_forces'] = PyList([mk_force(w, 'abc'[k], types[k], log) for k in range(n)])
                m = c.repo.method(w.vs.mod, w.vs.cls, op)
                wh = 'tmdsimpy/vibration_system.py:%s.%s' % (m[1].name if m else 'VibrationSystem', op)
                r = call(w, w.vs, op, [])
                key = 'VibrationSystem.%s[types=%s]' % (op, ''.join(map(str, types)))
                if has_unknown(r) or w.it.notes:
                    c.ob(key, None, wh, '%s %s' % (r, w.it.notes))
                    continue
                got = sorted(e[0] for e in log if e[1] in SWITCH and e[1] == op)
                other = sorted(e[0] for e in log if e[1] in SWITCH and e[1] != op)
                c.ob(key + ' reaches every force once', got == list('abc'[:n]) and not other, wh, 'calls %s on %s' % (op, got))

def defined(c):
    """every force with a friction coefficient has both switches, resolved to the same class"""
    for mn, m in sorted(c.repo.modules.items()):
        for nm, cl in m.classes.items():
            a, b = (c.repo.method(m, cl, s) for s in SWITCH)
            if a is None and b is None:
                continue
            wh = '%s:%s' % (os.path.relpath(m.path, c.repo.root), nm)
            if a is not None and b is None:
                body = [s for s in a[2].body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
                refuse = len(body) >= 1 and (isinstance(body[0], ast.Raise) or isinstance(body[0], ast.Assert) and isinstance(body[0].test, ast.Constant)
                                             and not body[0].test.value)
                c.ob('%s can be reset (or refuses the prestress state)' % nm, refuse or False, wh, 'no reset_real_mu')
            else:
                c.ob('%s has both switches' % nm, a is not None and b is not None, wh, 'set %s, reset %s' % (a and a[1].name, b and b[1].name))

def prestress(c):
    c.level = 'other'
    c.small = 0
    c.rule('R16 switch', 'the complete object state after every sequence of set and reset (explored until no new state appears, with '
           'arbitrary history) equals the constructor state after a reset and one fixed prestress state after a set; '
           'with the switch set, the terms of every evaluation path equal those of a force constructed with the prestress value')
    tasks = [('system switches', lambda: system(c), 120), ('switch pairs', lambda: defined(c), 60)]
    for label, mod, cls, args, hist, paths in subjects():
        tasks.append((label + ' switching', lambda a=(label, mod, cls, args, hist): switching(c, *a), 200))
        for q in paths:
            tasks.append(('%s %s %s' % (label, q[0], q[2]), lambda a=(label, mod, cls, args, hist, [q]): effective(c, *a), 400))
    c.repo
    def guardlost(g):
        def h():
            try:
                g()
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        return h
    c.parallel([(k, guardlost(g), s) for k, g, s in tasks])
