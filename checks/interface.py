"""C24: common interface of the nonlinear forces, and of the code that uses them."""
import ast, itertools, os
from tsa import sym as S, arr as A, model as M
from tsa.sym import ZERO, ONE
from tsa.interp import NArr, Obj, Prim, PyList, Func, has_unknown, is_unk, Unknown
from checks.friction import make, call, where, same
from checks.harmonics import entry

C, el = S.const, S.elem
p = lambda s: S.sym(s, positive=True)

# (class, reduced capability): stated in the documentation of the class or of the caller
LIMITED = {
    ('tmdsimpy.jax.nlforces.jenkins_element', 'JenkinsForce'): {'static', 'value only', 'local history'},   # "force not implemented"
    ('tmdsimpy.jax.nlforces.vector_jenkins', 'VectorJenkins'): {'static', 'value only', 'type', 'local history'},   # "demonstration only"
    ('tmdsimpy.nlforces.nonlinear_force', 'HystereticForce'): {'value only'},         # documented as a future addition
}
DEFAULTS = {'Nt': 128, 'tol': 1e-7, 'calc_grad': True, 'update_hist': False, 'update_prev': False, 'max_repeats': 2, 'atol': 1e-10, 'rtol': 1e-10,
            'return_local': False, 'return_aux': False}

def classes(repo):
    """every force class below the common base: [(module, class node)]"""
    out = []
    for mn, m in sorted(repo.modules.items()):
        for nm, cl in m.classes.items():
            if any(x[1].name == 'NonlinearForce' for x in repo.mro(m, cl)):
                out.append((m, cl))
    return out

def limits(repo, m, cl):
    s = set()
    for x in repo.mro(m, cl):
        s |= LIMITED.get((modname(repo, x[0]), x[1].name), set())
    return s

def modname(repo, m):
    for k, v in repo.modules.items():
        if v is m:
            return k
    return ''

def has(repo, m, cl, nm):
    return repo.method(m, cl, nm)

def bindable(fn, npos, kws, bound=True):
    """why a call with npos positional arguments and these keywords cannot be bound, or None"""
    a = fn.args
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fn.decorator_list)
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and not static:
        pos = pos[1:]
    if npos > len(pos) and a.vararg is None:
        return 'takes %d arguments, called with %d' % (len(pos), npos)
    filled = set(pos[:npos])
    only = {x.arg for x in a.posonlyargs}
    for k in kws:
        if k in filled:
            return 'argument %s given twice' % k
        if (k not in pos and k not in [x.arg for x in a.kwonlyargs] or k in only) and a.kwarg is None:
            return 'no argument %s' % k
        filled.add(k)
    need = pos[:len(pos) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in filled]
    return 'missing %s' % ', '.join(miss) if miss else None

def type_of(c, m, cl):
    """constant returned by nl_force_type (None when not determined)"""
    w = M.World(c.repo, 1)
    o = Obj(m, cl, {}, name=cl.name)
    r = call(w, o, 'nl_force_type', [])
    if has_unknown(r) or r is None:
        return None
    v = w.it.scalar(r).const_value()
    return None if v is None else int(v)

# ------------------------------------------------------------- signatures
BASES = ('NonlinearForce', 'InstantaneousForce', 'HystereticForce')

def signatures(c):
    repo = c.repo
    found = classes(repo)
    for b in BASES:
        if not any(cl.name == b for m, cl in found) and b != 'NonlinearForce':
            c.anchor_lost('class ' + b)
    for m, cl in found:
        nm, rel = cl.name, os.path.relpath(m.path, repo.root)
        lim = limits(repo, m, cl)
        key = '%s (%s) ' % (nm, modname(repo, m).replace('tmdsimpy.', ''))
        wh = '%s:%s' % (rel, nm)
        typ = type_of(c, m, cl)
        c.ob(key + 'reports its type', True if typ in (0, 1) else (None if typ is None else False), wh, typ)
        hyst = typ == 1
        stateful = has(repo, m, cl, 'init_history') is not None
        if 'type' not in lim and 'static' not in lim:
            c.ob(key + 'type is hysteretic exactly when it has a history', typ is not None and hyst == stateful, wh,
                 'type %s, init_history %s' % (typ, 'defined' if stateful else 'not defined'))
        def contract(method, npos, kws, why, optional=False):
            f = has(repo, m, cl, method)
            if f is None:
                c.ob(key + why, optional, wh, 'no %s' % method)
                return
            e = bindable(f[2], npos, kws)
            c.ob(key + why, e is None, '%s:%s.%s' % (os.path.relpath(f[0].path, repo.root), f[1].name, method), e or '')
        contract('nl_force_type', 0, (), 'type query takes no argument')
        contract('force', 1, (), 'force takes the displacement')
        contract('aft', 3, (), 'aft takes displacements, frequency, harmonics')
        contract('aft', 5, (), 'aft takes time samples and tolerance in this order')
        contract('aft', 3, ('Nt', 'tol'), 'aft takes time samples and tolerance by name')
        f = has(repo, m, cl, 'aft')
        if f is not None:
            names = [x.arg for x in f[2].args.posonlyargs + f[2].args.args][1:6]
            c.ob(key + 'aft keeps the common order of time samples and tolerance', names[3:5] == ['Nt', 'tol'], wh, names)
        if 'value only' not in lim:
            contract('aft', 5, ('calc_grad',), 'aft has the value-only switch')
        if hyst and 'static' not in lim and nm not in BASES:
            contract('force', 1, ('update_hist',), 'force has the history update switch')
            contract('init_history', 0, (), 'history can be initialised')
        if hyst and 'local history' not in lim:
            contract('local_force_history', 5, ('max_repeats', 'atol', 'rtol'), 'time history takes motion, harmonics, basis, start and options')
            contract('local_force_history', 5, (), 'time history options are optional')
            f = has(repo, m, cl, 'local_force_history')
            opts = [x.arg for x in f[2].args.args if x.arg in ('max_repeats', 'atol', 'rtol')] if f else []
            c.ob(key + 'time history options keep the common order', opts == [x for x in ('max_repeats', 'atol', 'rtol') if x in opts], wh, opts)
        if typ == 0 and any(x[1].name == 'InstantaneousForce' for x in repo.mro(m, cl)):
            contract('local_force_history', 2, (), 'time history takes displacement and velocity')
        if any(x[1].name == 'HystereticForce' for x in repo.mro(m, cl)):
            contract('init_history_harmonic', 2, (), 'harmonic history start takes position and harmonics')
            contract('instant_force_harmonic', 4, () if nm in BASES else ('update_prev',), 'instantaneous harmonic force takes motion, harmonics, basis')
        contract('set_aft_initialize', 1, (), 'initial positions are set from the displacement', True)
        for s in cl.body:
            if not isinstance(s, ast.FunctionDef) or s.name.startswith('_'):
                continue
            a = s.args
            pos = a.posonlyargs + a.args
            pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for x, d in pairs:
                if x.arg in DEFAULTS:
                    try:
                        v = ast.literal_eval(d)
                    except ValueError:
                        v = None
                    c.ob('%s%s: default of %s' % (key, s.name, x.arg), None if v is None else v == DEFAULTS[x.arg] and (v is True or v is False) == isinstance(DEFAULTS[x.arg], bool),
                         '%s.%s' % (wh, s.name), ast.unparse(d))

# -------------------------------------------------------------- call sites
def recorder(w, name, typ, log, n, u0=None, attrs=()):
    """a force of which only the calls matter"""
    o = Obj(None, None, {}, name=name)
    N, Nd, Nhc, Nt = w.N, w.Nd, w.Nhc, w.Nt
    def getter(it, o, a):
        if a in ('Q', 'T'):
            return w.leaf(a, n, Nd) if a == 'Q' else w.leaf(a, Nd, n)
        if a == 'u0':
            if u0 == 'absent':
                return Unknown('no attribute')
            return {'none': None, 'scalar': S.sym('us'), 'array': w.leaf('u0', n)}[u0 or 'none']
        def rec(*args, **kw):
            log.append((name, a, args, kw))
            lf = lambda nm, *sh: it.wrap(A.leaf(nm + name, sh))
            if a == 'nl_force_type':
                return C(typ)
            if a == 'force':
                return (lf('f', Nd), lf('Df', Nd, Nd))
            if a == 'aft':
                if kw.get('calc_grad', True) is False:
                    return (lf('F', N),)
                return (lf('F', N), lf('J', N, N), lf('W', N))
            if a == 'local_force_history':
                return (lf('ft', Nt, n),) if typ else (lf('ft', Nt, n), lf('fu', Nt, n), lf('fv', Nt, n))
            return None
        return Prim(a, rec)
    o.getter = getter
    return o

def uses(c):
    """every call the system and the post-processing make on a force of each type binds to every class of that type"""
    repo = c.repo
    pop = {0: [], 1: []}
    for m, cl in classes(repo):
        t = type_of(c, m, cl)
        if t in pop and cl.name not in BASES and 'type' not in limits(repo, m, cl):
            pop[t].append((m, cl))
    def ops(w):
        U, X = w.leaf('U', w.N), w.leaf('X', w.Nd)
        yield 'init_force_history', [], {}
        yield 'update_force_history', [X], {}
        yield 'set_prestress_mu', [], {}
        yield 'reset_real_mu', [], {}
        yield 'set_aft_initialize', [X], {}
        yield 'static_res', [X, w.leaf('Fs', w.Nd)], {}
        for g in (True, False):
            yield 'total_aft', [U, p('w'), w.h], {'Nt': w.Nt, 'calc_grad': g}
    for typ in (0, 1):
        done = set()
        names = [(n, kw) for n, _, kw in ops(M.World(repo, 1).__class__(repo, 1))] if False else None
        k = 0
        while True:
            w = M.World(repo, 1)
            w.Nt = S.sym('Nt', 3, None)
            w.system()
            log = []
            seq = list(ops(w)) + [('local_harmonic_forces', None, None)]
            if k >= len(seq):
                break
            op, args, kw = seq[k]
            k += 1
            w.vs.attrs['nonlinear_forces'] = PyList([recorder(w, 'a', typ, log, S.sym('Nn', 1, None), 'none')])
            if op == 'local_harmonic_forces':
                hit = [(m, m.funcs[op]) for m in repo.modules.values() if op in m.funcs]
                if not hit:
                    c.anchor_lost('function ' + op)
                    continue
                from checks import aft as AF
                AF.transform_hooks(w, type(c)(c.pid, c.tier, c.root), op, '')
                fm, fn = hit[0][0], hit[0][1]
                wh = '%s:%s' % (os.path.relpath(fm.path, repo.root), op)
                r = w.it.call(Func(fn, fm, None), [w.vs, w.leaf('U', w.N), p('w'), w.h], {'Nt': w.Nt})
            else:
                mm = repo.method(w.vs.mod, w.vs.cls, op)
                if mm is None:
                    c.anchor_lost('method ' + op)
                    continue
                wh = '%s:%s.%s' % (os.path.relpath(mm[0].path, repo.root), mm[1].name, op)
                r = call(w, w.vs, op, args, kw)
            key = '%s%s on %s forces' % (op, '' if not kw or 'calc_grad' not in kw else '[%s]' % ('gradient' if kw['calc_grad'] else 'value'),
                                         ('instantaneous', 'hysteretic')[typ])
            if has_unknown(r):
                c.ob(key, None, wh, '%s %s' % (r, w.it.notes[-2:]))
                continue
            c.ob(key + ' runs', True, wh)
            for _, meth, ar, kws in log:
                if meth in ('nl_force_type',):
                    continue
                for m, cl in pop[typ]:
                    lim = limits(repo, m, cl)
                    if 'calc_grad' in kws and 'value only' in lim or meth in ('init_history', 'local_force_history') and lim & {'static', 'local history'} \
                            or 'update_hist' in kws and 'static' in lim:
                        continue
                    f = has(repo, m, cl, meth)
                    if f is None:
                        if meth not in ('set_prestress_mu', 'reset_real_mu', 'set_aft_initialize'):
                            c.ob('%s: %s of %s' % (key, meth, cl.name), False, wh, 'not provided')
                        continue
                    e = bindable(f[2], len(ar), list(kws))
                    c.ob('%s: %s of %s' % (key, meth, cl.name), e is None, wh, e or '')

# ---------------------------------------------------- local harmonic forces
def local(c):
    repo = c.repo
    op = 'local_harmonic_forces'
    hit = [(m, m.funcs[op]) for m in repo.modules.values() if op in m.funcs]
    if not hit:
        c.anchor_lost('function ' + op)
        return
    fm, fn = hit[0]
    wh = '%s:%s' % (os.path.relpath(fm.path, repo.root), op)
    from checks import aft as AF
    for typ, u0 in ((0, 'absent'), (1, 'absent'), (1, 'none'), (1, 'scalar'), (1, 'array')):
        for h0 in (1,):
            w = M.World(repo, h0)
            w.Nt = S.sym('Nt', 3, None)
            Nn = S.sym('Nn', 1, None)
            w.system()
            log = []
            fo = [recorder(w, x, typ, log, Nn, u0) for x in 'ab']
            if u0 == 'absent':
                for x, o in zip('ab', fo):      # a class without the attribute
                    g = o.getter
                    q = w.leaf('Q', Nn, w.Nd), w.leaf('T', w.Nd, Nn)
                    o2 = Obj(None, None, {'Q': q[0], 'T': q[1], 'nl_force_type': g(w.it, o, 'nl_force_type'),
                                          'local_force_history': g(w.it, o, 'local_force_history')}, name=x)
                    fo['ab'.index(x)] = o2
            w.vs.attrs['nonlinear_forces'] = PyList(fo)
            key = '%s[%s, initial position %s] ' % (op, ('instantaneous', 'hysteretic')[typ], u0)
            AF.transform_hooks(w, c, key, wh)
            om = p('w')
            r = w.it.call(Func(fn, fm, None), [w.vs, w.leaf('U', w.N), om, w.h], {'Nt': w.Nt})
            calls = [x for x in log if x[1] == 'local_force_history']
            its = list(r.items) if isinstance(r, PyList) else r
            if not isinstance(its, (list, tuple)) or has_unknown(its) or len(calls) != 2:
                c.ob(key, None if has_unknown(its) else False, wh, '%s, %d evaluations %s' % (r, len(calls), w.it.notes[-2:]))
                continue
            c.ob(key + 'one entry per force', len(its) == 2 and [x[0] for x in calls] == ['a', 'b'], wh, len(its))
            t, q, k = S.sym('ts', 0, w.Nt), S.sym('rp', 0, Nn), S.sym('hc', 0, w.Nhc)
            Uh = lambda k, q: A.sum_over(lambda d: el('Q', (q, d)) * el('U', (k * w.Nd + d,)), w.Nd, ())
            syn = lambda o, t, q: A.sum_over(lambda k: el('B%d' % o, (t, k)) * Uh(k, q), w.Nhc, ())
            for nm, _, ar, kw in calls:
                b = None
                for m, cl in classes(repo):
                    f = has(repo, m, cl, 'local_force_history')
                    if f is not None and (len(f[2].args.args) > 5) == bool(typ):
                        names = [x.arg for x in f[2].args.args][1:]
                        b = dict(zip(names, ar), **kw)
                        pos = names
                        break
                if b is None or len(ar) < 2:
                    c.ob(key + 'arguments', None, wh, '%s' % (kw,))
                    continue
                arr = lambda v: w.it.arr(v)
                try:
                    entry(c, key + 'displacement history', arr(b[pos[0]]), (t, q), syn(0, t, q), wh)
                    entry(c, key + 'velocity history', arr(b[pos[1]]), (t, q), om * syn(1, t, q), wh)
                    if typ:
                        c.ob(key + 'harmonic list', AF.same_harm(w, b['h']) or None, wh)
                        entry(c, key + 'basis', arr(b['cst']), (t, k), el('B0', (t, k)), wh)
                        x = b['unlth0']
                        want = {'absent': Uh(ZERO, q), 'none': Uh(ZERO, q), 'scalar': S.sym('us'), 'array': el('u0', (q,))}[u0]
                        if x is None or not isinstance(x, NArr):
                            c.ob(key + 'start position for every local coordinate', False if x is None or isinstance(x, S.Expr) else None, wh, 'start position %s' % (x,))
                        else:
                            a = arr(x)
                            c.ob(key + 'start position for every local coordinate', a.ndim == 1 and (a.shape[0] == Nn or A.shape_verdict(a, A.full((Nn,), ZERO))), wh, a.shape)
                            entry(c, key + 'start position is that of the harmonic evaluation', a, (q,), want, wh)
                except (KeyError, S.Undecided) as e:
                    c.ob(key + 'arguments', None, wh, repr(e))
            for nm, item in zip('ab', its):
                if not isinstance(item, tuple) or len(item) != 4:
                    c.ob(key + 'four results per force', None if has_unknown(item) else False, wh, item)
                    continue
                entry(c, key + 'local coefficients', w.it.arr(item[0]), (k, q), Uh(k, q), wh)
                entry(c, key + 'local displacements', w.it.arr(item[1]), (t, q), syn(0, t, q), wh)
                entry(c, key + 'local force coefficients', w.it.arr(item[2]), (k, q),
                      A.sum_over(lambda t: el('P', (k, t)) * el('ft' + nm, (t, q)), w.Nt, ()), wh)
                entry(c, key + 'local force history', w.it.arr(item[3]), (t, q), el('ft' + nm, (t, q)), wh)

# ------------------------------------------------------------------ results
def shapes(c, key, w, r, want, wh, names):
    if has_unknown(r) or not isinstance(r, tuple):
        c.ob(key + ' result', None if has_unknown(r) else False, wh, '%s %s' % (r, w.it.notes[-2:]))
        return
    c.ob(key + ' number of results', len(r) == len(want), wh, len(r))
    for nm, x, sh in zip(names, r, want):
        a = w.it.arr(x)
        c.ob('%s %s size' % (key, nm), True if a.shape == sh else A.shape_verdict(a, A.full(sh, ZERO)), wh, '%s instead of %s' % (a.shape, sh))

def instantaneous(c, name, m, cl):
    from checks import laws as L
    w, o, _ = L.build(c, name, m, cl, 'scalar')
    wh = where(c, os.path.relpath(m.path, c.repo.root) + ':' + name, o, 'force')
    Nd, N = w.Nd, w.N
    shapes(c, name + ' force', w, call(w, o, 'force', [w.leaf('X', Nd)]), ((Nd,), (Nd, Nd)), wh, ('force', 'stiffness'))
    shapes(c, name + ' time history', w, call(w, o, 'local_force_history', [w.leaf('u', w.Nt, w.Nn), w.leaf('v', w.Nt, w.Nn)]),
           ((w.Nt, w.Nn),) + ((w.Nt, w.Nn, w.Nn) if name == 'GenPolyForce' else (w.Nt, w.Nn),) * 2, wh, ('force', 'derivative', 'velocity derivative'))

def evaluation(c, label, mod, cls, args, hist, paths, want):
    """sizes of force and aft results of the friction classes, with and without gradient"""
    from checks import prestress as P
    for fn, mk, kw in paths:
        if fn not in ('force', 'aft'):
            continue
        w, o, wh = P.build(c, mod, cls, args, p('Rc'), hist, None, key=label)
        we = where(c, wh, o, fn)
        m = c.repo.method(o.mod, o.cls, fn)
        if fn == 'aft' and any(x[1].name == 'HystereticForce' for x in c.repo.mro(o.mod, o.cls)):
            continue
        r = call(w, o, fn, mk(w), kw)
        key = '%s %s%s' % (label, fn, ''.join(' %s=%s' % x for x in kw.items()))
        if fn == 'force':
            shapes(c, key, w, r, ((w.Nd,), (w.Nd, w.Nd)), we, ('force', 'stiffness'))
        elif kw.get('return_local'):
            continue
        elif kw.get('calc_grad', True):
            shapes(c, key, w, r, ((w.N,), (w.N, w.N), (w.N,)), we, ('force', 'Jacobian', 'frequency derivative'))
        else:
            shapes(c, key, w, r, ((w.N,),), we, ('force',))

def templates(c, base, n_hist):
    """aft of the numpy templates and every override of it"""
    repo = c.repo
    hit = repo.find_class(base)
    if not hit:
        c.anchor_lost('class ' + base)
        return
    from checks import laws as L, aft as AF
    seen = set()
    for name, m, cl in [(base, hit[0][0], hit[0][1])] + L.subclasses(repo, base):
        f = repo.method(m, cl, 'aft')
        if f is None or id(f[2]) in seen:
            continue
        seen.add(id(f[2]))
        for g in (None, True, False):
            if g is not None and 'value only' in limits(repo, m, cl):
                continue
            w = M.World(repo, 1)
            w.Nn, w.Nt = S.sym('Nn', 1, None), S.sym('Nt', 1, None)
            wh = '%s:%s.aft' % (os.path.relpath(f[0].path, repo.root), f[1].name)
            key = '%s aft%s' % (name, '' if g is None else ' calc_grad=%s' % g)
            AF.transform_hooks(w, type(c)(c.pid, c.tier, c.root), key, wh)
            o = Obj(m, cl, dict(Q=w.leaf('Q', w.Nn, w.Nd), T=w.leaf('T', w.Nd, w.Nn)), name=name)
            Nn, Nt, Nhc = w.Nn, w.Nt, w.Nhc
            rank = 2 + (name == 'GenPolyForce') + 2 * (base == 'HystereticForce')
            sh = (Nt, Nn, Nn, Nhc)[:rank]
            def history(*a, **k):
                lf = lambda nm, s: NArr(A.leaf(nm, s))
                return (lf('ft', (Nt, Nn)), lf('fu', sh), NArr(A.full(sh, ZERO)) if rank != 2 else lf('fv', sh))
            o.attrs['local_force_history'] = Prim('local_force_history', history)
            r = call(w, o, 'aft', [w.leaf('U', w.N), p('w'), w.h, Nt], {} if g is None else {'calc_grad': g})
            if g is False:
                if has_unknown(r) or not isinstance(r, tuple) or not r:
                    c.ob(key, None if has_unknown(r) else False, wh, r)
                    continue
                a = w.it.arr(r[0])
                c.ob(key + ' first result is the force', True if a.shape == (w.N,) else A.shape_verdict(a, A.full((w.N,), ZERO)), wh, a.shape)
            else:
                shapes(c, key, w, r, ((w.N,), (w.N, w.N), (w.N,)), wh, ('force', 'Jacobian', 'frequency derivative'))

# ------------------------------------------------------------- history restart
def iwan_subjects():
    iargs = lambda w, R: ([w.leaf('Q', 1, w.Nd), w.leaf('T', w.Nd, 1), p('kt'), R, p('chi'), p('beta')], {'Nsliders': C(3)})
    def ihist(w, o):
        o.attrs['up'], o.attrs['fp'], o.attrs['fpsliders'] = w.leaf('up', 1), w.leaf('fp', 1), w.leaf('fps', C(4))
    return [('Iwan4Force', 'tmdsimpy.nlforces.iwan4_element', 'Iwan4Force', iargs, ihist, [('force',)])]

def restart(c, label, mod, cls, args, hist, paths):
    """init_history forgets everything: the forces of the following steps do not depend on the steps before"""
    from checks import prestress as P, aft as AF
    if hist is None or not any(x[0] == 'force' for x in paths):
        return
    got, names = [], {}
    for old in (False, True):
        w, o, wh = P.build(c, mod, cls, args, p('Rc'), None, names)
        AF.opaque_asperity(w, True)
        r = call(w, o, 'init_history', [])
        if is_unk(r):
            raise S.Undecided('init_history: %s' % r.why)
        if old:
            known = set(o.attrs)
            hist(w, o)
            for a in set(o.attrs) - known:
                del o.attrs[a]
            held = {a: P.ident(w, v) for a, v in o.attrs.items()}
            call(w, o, 'init_history', [])
        wi = where(c, wh, o, 'init_history')
        res = [call(w, o, 'force', [w.leaf('X1', w.Nd)], {'update_hist': True}), call(w, o, 'force', [w.leaf('X2', w.Nd)], {})]
        got.append((w, res, P.snapshot(w, o)))
    (w0, r0, s0), (w1, r1, s1) = got
    for n, t in enumerate(('first step', 'second step')):
        v, why = P.same_value(w0, r0[n], w1, r1[n])
        c.ob('%s after init_history the %s does not depend on earlier history' % (label, t), v, wi, why)

def interface(c):
    c.level = 'other'
    c.small = 0
    c.rule('R24 interface', 'every force class binds every call of the common interface (argument order, optional arguments and their defaults); '
           'every call made by the system and the post-processing, recorded on opaque forces of both types, binds to every class of '
           'that type; numbers and sizes of results are the common ones for symbolic dimensions')
    from checks import laws as L, prestress as P
    tasks = [('signatures', lambda: signatures(c), 100), ('uses', lambda: uses(c), 200), ('local forces', lambda: local(c), 200)]
    for name, m, cl in L.subclasses(c.repo, 'InstantaneousForce'):
        tasks.append((name, lambda a=(name, m, cl): instantaneous(c, *a), 100))
    for s in P.subjects() + iwan_subjects():
        tasks.append((s[0] + ' restart', lambda s=s: restart(c, *s), 200))
    for s in P.subjects():
        tasks.append((s[0], lambda s=s: evaluation(c, *s, None), 300))
    for b, n in (('InstantaneousForce', 3), ('HystereticForce', 3)):
        tasks.append((b + ' template', lambda b=b, n=n: templates(c, b, n), 100))
    def guardlost(g):
        def h():
            try:
                g()
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        return h
    c.parallel([(k, guardlost(g), s) for k, g, s in tasks])
