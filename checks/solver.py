"""C13: solver success implies the documented convergence criterion."""
from fractions import Fraction
from tsa import flow as F
from tsa.flow import K, NONE, TRUE, FALSE, mk, leaf, isk, show, poly, same, contains, subterms, term_of

MOD, CLS = 'tmdsimpy.jax.solvers', 'NonlinearSolverOMP'
BASE = 'tmdsimpy.solvers', 'NonlinearSolver'
KEYS = ('xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel')

class Run:
    """dataflow run of NonlinearSolverOMP.nsolve; `fun` is an arbitrary function, its value at x is written R(x), J(x)"""
    def __init__(self, repo, stopping, accepting, steps, reform=1, ls=0, xarg=True, verbose=False, raising=False, varg=None):
        self.fl = fl = F.Flow(repo, trace=self.trace)
        mod = repo.modules[MOD]
        cls = mod.classes[CLS]
        m = repo.method(mod, cls, 'nsolve')
        st = fl.start()
        cfg = fl.param(st, 'config', 'dict', owner='self', open=False)
        self.cfg = cfg
        f = st.mut(cfg.args[0]).fields
        for k in KEYS + ('max_steps', 'verbose', 'line_search_tol', 'line_search_same_sign'):
            f[k] = leaf('cfg:' + k)
        f['verbose'] = K(verbose)
        if steps is not None:
            f['max_steps'] = K(steps)
        f['reform_freq'] = K(reform)
        f['line_search_iters'] = K(ls)
        for k, xs in (('stopping_tol', stopping), ('accepting_tol', accepting)):
            f[k] = fl.alloc(st, None, 'list', leaf(k), 'self', tag=k, fields={i: K(x) for i, x in enumerate(xs)}, n=len(xs))
        self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
        st.mut(self_.args[0]).fields['config'] = cfg
        self.self_ = self_
        fl.hooks['call:fun'] = self.fun
        self.raising = raising
        if ls:
            fl.hooks['.line_search'] = self.line_search
        fl.keep = lambda t: contains(t, lambda x: x.op in ('R', 'J', 'phi') or x.op == 'leaf' and str(x.args[0]).startswith(('cfg:', 'xtol')), None)
        fl.soft = 200
        self.X0 = leaf('X0')
        fn, X0 = fl.param(st, 'fun', 'unk'), fl.param(st, 'X0', 'arr', owner='param:X0')
        st.facts[mk('is', leaf('fun'), NONE)] = False
        st.facts[mk('lt', K(0), leaf('cfg:max_steps'))] = True
        if xarg is None:
            st.facts[mk('is', leaf('cfg:xtol'), NONE)] = True
        elif not xarg:
            st.facts[mk('is', leaf('cfg:xtol'), NONE)] = False
        st.facts[mk('is', leaf('xtol'), NONE)] = False
        kw = {'xtol': leaf('xtol') if xarg else NONE}
        if varg is not None:
            kw['verbose'] = varg
        self.prints = []
        fl.hooks['builtins.print'] = self.output
        self.outs = fl.run(st, m[0], m[2], [fn, X0], kw, selfref=self_, cls=m[1], qual=CLS + '.nsolve')

    def fun(self, fl, st, args, kw, node, base):
        x = fl.val(st, args[0])
        fl.event(st, 'fun', x, (args, kw), node)
        return [(st, mk('tup', fl.alloc(st, node, 'arr', mk('R', x), tag='R'), fl.alloc(st, node, 'arr', mk('J', x), tag='J')))]

    def output(self, fl, st, args, kw, node, base):
        self.prints.append('%s:%s' % (fl.where if isinstance(getattr(fl, 'where', None), str) else 'line', getattr(node, 'lineno', 0)))
        return [(st, NONE)]

    def line_search(self, fl, st, args, kw, node, base):
        return [(st, mk('tup', K(1), fl.alloc(st, node, 'unk', leaf('ls'), tag='ls')))]

    def trace(self, e, st):
        return ('fun', e.what) if e.kind == 'fun' else None

    def deep(self, st, t):
        """t with the conditionals that the facts of st decide resolved"""
        memo = {}
        def go(t):
            if t.n in memo:
                return memo[t.n]
            r = t
            if t.op == 'ite':
                d = self.fl.decide(st, t.args[0])
                if d is not None:
                    memo[t.n] = r = go(t.args[1] if d else t.args[2])
                    return r
            if any(isinstance(a, F.T) for a in t.args):
                args = [go(a) if isinstance(a, F.T) else a for a in t.args]
                if any(p is not q for p, q in zip(args, t.args)):
                    r = mk(t.op, *args)
            memo[t.n] = r
            return r
        return go(t)

    def success_states(self):
        for st, v in self.outs:
            if v is None or v.op != 'tup' or len(v.args) != 4 or v.args[3].op != 'ref':
                yield st, v, None
                continue
            s = st.heap[v.args[3].args[0]].fields.get('success')
            if s is None:
                yield st, v, None
                continue
            y, n = self.fl.truth(st.copy(), s)
            for z in y:
                yield z, v, True
            for z in n:
                yield z, v, False

# ------------------------------------------------------------- norms as monomials
def pkey(v):
    """vector up to a scalar factor: (key, |factor|)"""
    p = poly(v)
    if not p:
        return ('zero',), Fraction(0)
    items = sorted(p.items())
    c = items[0][1]
    return tuple((m, Fraction(q) / c) for m, q in items), abs(Fraction(c))

def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if r[k] == 0:
            del r[k]
    return r

def scale(a, s):
    return {k: v * s for k, v in a.items() if v * s}

def dot(u, v):
    (a, ca), (b, cb) = pkey(u), pkey(v)
    m = {('dot',) + tuple(sorted((a, b), key=str)): Fraction(1)}
    c = ca * cb
    return add(m, {('num', c): Fraction(1)} if c != 1 else {})

def monomial(t):
    """|t| as a product of powers of inner products, numbers and leaves; None when t is infinite or not a number"""
    if isk(t) and isinstance(t.args[0], (int, float)):
        v = t.args[0]
        if v != v or v in (float('inf'), float('-inf')):
            return None
        return {('num', abs(Fraction(repr(v)))): Fraction(1)} if abs(v) != 1 else {}
    op, a = t.op, t.args
    if op == 'ext' and str(a[0]).rpartition('.')[2] in ('inf', 'nan', 'infty', 'Inf', 'NaN'):
        return None
    if op in ('np.abs', 'np.absolute', 'abs', 'float', 'neg', 'np.fabs', 'bool', 'np.real') and len(a) >= 1:
        return monomial(a[0])
    if op in ('np.sqrt', 'math.sqrt'):
        m = monomial(a[0])
        return None if m is None else scale(m, Fraction(1, 2))
    if op == 'pow' and isk(a[1]) and isinstance(a[1].args[0], (int, float)):
        m = monomial(a[0])
        return None if m is None else scale(m, Fraction(repr(a[1].args[0])))
    if op in ('mult', 'div', 'np.multiply', 'np.divide'):
        x, y = monomial(a[0]), monomial(a[1])
        return None if x is None or y is None else add(x, y, -1 if op in ('div', 'np.divide') else 1)
    if op in ('matmult', 'np.dot', 'np.vdot', 'np.inner', 'm.dot', 'np.matmul') and len(a) == 2:
        return dot(a[0], a[1])
    if op in ('np.linalg.norm', 'scipy.linalg.norm', 'np.scipy.linalg.norm') and (len(a) == 1 or len(a) == 2 and isk(a[1]) and a[1].args[0] in (2, None)):
        return scale(dot(a[0], a[0]), Fraction(1, 2))
    if op in ('np.sum', 'sum', 'm.sum') and len(a) == 1:
        b = a[0]
        if b.op in ('np.square',):
            return dot(b.args[0], b.args[0])
        if b.op == 'pow' and b.args[1] is K(2):
            return dot(b.args[0], b.args[0])
        if b.op == 'mult':
            return dot(b.args[0], b.args[1])
    return {('t', t.n): Fraction(1)}

def ratio(a, b):
    """normal form of a/b, solved for b"""
    x, y = monomial(a), monomial(b)
    if x is None or y is None:
        return None
    return add(x, y, -1)

def normal(m, tol):
    p = m.get(('t', tol.n))
    if not p or p > 0:
        return None
    return {k: v for k, v in scale(m, -1 / p).items()}

def facts_of(run, st):
    for t, v in st.facts.items():
        if t.op not in ('lt', 'le'):
            continue
        a, b = (run.deep(st, x) for x in t.args)
        if v:
            yield a, b
        else:
            yield b, a

def impossible(run, st):
    """a comparison with an infinite or undefined quantity cannot have succeeded"""
    for t, v in st.facts.items():
        if v and t.op in ('lt', 'le') and any(x.op == 'leaf' and str(x.args[0]).startswith(('cfg:', 'xtol')) for x in subterms(t.args[1])):
            if monomial(run.deep(st, t.args[0])) is None:
                return True
    return False

def finite_known(run, st, d, key):
    if key in ('xtol', 'xtol_rel'):
        return True            # a bound on the norm of the step was verified
    nan = inf = False
    dk = pkey(d)[0]
    def isd(t):
        """quantity that is finite only if every entry of d is"""
        while t.op in ('np.sum', 'm.sum', 'np.abs', 'np.linalg.norm', 'np.max', 'm.max', 'np.sqrt', 'np.ravel', 'neg') and len(t.args) >= 1:
            t = t.args[0]
        if t.op in ('matmult', 'np.dot', 'm.dot') and pkey(t.args[0])[0] == pkey(t.args[1])[0]:
            t = t.args[0]
        return pkey(t)[0] == dk
    for t, v in st.facts.items():
        t = run.deep(st, t)
        while t.op in ('bool', 'not'):
            v = v if t.op == 'bool' else not v
            t = t.args[0]
        # reductions
        q = t
        if q.op in ('np.all', 'm.all', 'all') and v:
            q, each = q.args[0], True
        elif q.op in ('np.any', 'm.any', 'any') and not v:
            q, each = q.args[0], True
        w = v
        while q.op in ('invert', 'np.logical_not', 'not'):
            q, w = q.args[0], not w
        if q.op in ('np.isfinite', 'math.isfinite') and w and isd(q.args[0]):
            return True
        if q.op in ('np.isnan', 'math.isnan') and not w and isd(q.args[0]):
            nan = True
        if q.op in ('np.isinf', 'math.isinf') and not w and isd(q.args[0]):
            inf = True
    return nan and inf

def phi_value(run, t, memo=None):
    """replaces loop values that always hold one and the same value by that value"""
    memo = {} if memo is None else memo
    if t.n in memo:
        return memo[t.n]
    memo[t.n] = t
    r = t
    if t.op == 'phi' and t in run.fl.phi:
        src = set()
        todo = [x for x in run.fl.phi[t]]
        while todo:
            x = todo.pop()
            if x is t or x is leaf('undef'):
                continue
            if x.op == 'ite':
                todo += x.args[1:]
                continue
            src.add(x)
        if len(src) == 1:
            r = src.pop()
    elif any(isinstance(a, F.T) for a in t.args):
        r = mk(t.op, *[phi_value(run, a, memo) if isinstance(a, F.T) else a for a in t.args])
    memo[t.n] = r
    return r

def solver(c):
    repo = c.repo
    c.level, c.small = 'other', 0
    if MOD not in repo.modules or CLS not in repo.modules[MOD].classes:
        c.anchor_lost(MOD)
        return
    c.rule('criterion', 'every path of nsolve that reports success carries the fact that the quantity selected by the user is below the tolerance stored '
                        'under the same key (inner products of residual and step in a normal form)')
    c.rule('finite', 'every path that reports success carries the fact that the step is finite')
    c.rule('loop', 'checked for three unrolled iterations and for an arbitrary later iteration (loop-carried values replaced by arbitrary ones)')
    W = 'tmdsimpy/jax/solvers.py:NonlinearSolverOMP.nsolve'
    jobs = []
    for key in KEYS:
        for mode in ('stopping_tol', 'accepting_tol'):
            for steps, reform, ls in ((3, 1, 0), (3, 2, 0), (None, 1, 0), (None, 2, 0), (2, 1, 3)):
                tag = '%s=[%s],max_steps=%s,reform_freq=%d,line_search_iters=%d' % (mode, key, steps or 'any', reform, ls)
                jobs.append((tag, lambda key=key, mode=mode, steps=steps, reform=reform, ls=ls, tag=tag: criterion(c, repo, key, mode, steps, reform, ls, tag, W), 200))
    jobs.append(('none', lambda: empty(c, repo, W), 200))
    jobs.append(('default tolerance', lambda: default_xtol(c, repo, W), 200))
    jobs.append(('line search', lambda: line_search(c, repo), 200))
    jobs.append(('scipy wrapper', lambda: base_solver(c, repo), 200))
    c.parallel(jobs)

def criterion(c0, repo, key, mode, steps, reform, ls, tag, W):
    from .contin import Agg
    c = Agg(c0)
    try:
        criterion_(c, repo, key, mode, steps, reform, ls, tag, W)
    finally:
        c.flush()

def criterion_(c, repo, key, mode, steps, reform, ls, tag, W):
    r = Run(repo, [key] if mode == 'stopping_tol' else [], [key] if mode == 'accepting_tol' else [], steps, reform, ls)
    fl = r.fl
    tol = leaf('xtol') if key == 'xtol' else leaf('cfg:' + key)
    n = 0
    for st, v, ok in r.success_states():
        if ok is None:
            c.ob('returns[%s]' % tag, None, W, 'the returned tuple is not understood')
            continue
        if v.args[3].op == 'ref':
            msg = fl.resolve(st, st.heap[v.args[3].args[0]].fields.get('message', NONE))
            c.ob('message[%s]' % tag, (msg is K('Converged')) is ok if isk(msg) else None, W, "success is %s but the message is %s" % (ok, show(msg)))
        if not ok or impossible(r, st):
            continue
        n += 1
        X = r.deep(st, fl.val(st, v.args[0]))
        calls = [r.deep(st, x) for k, x in st.trace if k == 'fun']
        if not calls:
            c.ob('criterion[%s]' % tag, False, W, 'success without evaluating the residual')
            continue
        if calls[0] is not leaf('X0'):
            calls.insert(0, leaf('X0'))
        Xk = calls[-1]
        R, d = mk('R', Xk), mk('sub', X, Xk)
        c.ob('residual[%s]' % tag, same(r.deep(st, fl.val(st, v.args[1])), R), W, 'the returned residual is not the one last evaluated: %s' %
             show(fl.val(st, v.args[1]))[:200])
        ev = [r.deep(st, x) for k, x in st.trace if k == 'fun']
        Jv = r.deep(st, fl.val(st, v.args[2]))
        c.ob('jacobian[%s]' % tag, Jv.op == 'J' and any(same(Jv.args[0], x) for x in ev) or Jv.op == 'phi', W,
             'the returned Jacobian was not evaluated by the function: %s' % show(Jv)[:200])
        first = len(calls) == 1
        R0, d0 = mk('R', calls[0]), (mk('sub', calls[1], calls[0]) if len(calls) > 1 else d)
        if Xk.op == 'phi':                  # arbitrary later iterate: the first step is the one leading from X0 into the loop values
            src = [x for x in fl.phi.get(Xk, ()) if x is not Xk and x is not leaf('X0') and not any(z is Xk for z in subterms(x))]
            d0 = mk('sub', src[0], leaf('X0')) if len(src) == 1 else d0
        dp = mk('sub', Xk, calls[-2]) if len(calls) > 1 else None
        generic = any(x.op == 'phi' for x in subterms(Xk))
        want = None
        nn = lambda u, w: dot(u, w)
        h = Fraction(1, 2)
        if key in ('xtol', 'xtol_rel'):
            want = scale(dot(d, d), h)
            base = scale(dot(d0, d0), h)
        elif key in ('rtol', 'rtol_rel'):
            want = scale(dot(R, R), h)
            base = scale(dot(R0, R0), h)
        else:
            if first:
                c.ob('criterion[%s]' % tag, False, W, 'energy criterion accepted at the first step, where there is no previous step')
                continue
            want = dot(R, dp)
            base = dot(mk('R', calls[1]), mk('sub', calls[1], calls[0])) if len(calls) > 1 else None
        if generic and key.startswith('etol'):
            # previous step = loop-carried value: its sources must be X - (previous X)
            want = base = None
        if key.endswith('_rel') and want is not None:
            want = add(want, base, -1)
        hit = None
        for a, b in facts_of(r, st):
            q = ratio(a, b)
            q = q if q is None else normal(q, tol)
            if q is None or key.startswith('etol') and not nonneg(r, a):
                continue
            q = {k2: p for k2, p in q.items() if k2 != ('t', tol.n)}
            if want is not None:
                if q == want:
                    hit = True
                elif generic:
                    a2, b2 = phi_value(r, a), b
                    q2 = normal(ratio(a2, b2) or {}, tol)
                    if q2 is not None and {k2: p for k2, p in q2.items() if k2 != ('t', tol.n)} == want:
                        hit = True
            else:
                hit = hit or energy(r, key, q, R, X, Xk, st)
            if hit:
                break
            hit = hit if hit is not None else False
        others = [show(t)[:160] for t, v2 in st.facts.items() if t.op in ('lt', 'le') and v2]
        c.ob('criterion[%s]' % tag, bool(hit) or (None if fl.forgot else False), W, 'success is reported on a path where the quantity of %r is not compared with the tolerance %r; '
             'comparisons on the path: %s' % (key, key, '; '.join(others) or 'none'))
        c.ob('finite[%s]' % tag, finite_known(r, st, d, key) or (None if fl.forgot else False), W, 'success is reported on a path that does not exclude an infinite or undefined step')
        if mode == 'accepting_tol' and steps is not None:
            c.ob('only after the last step[%s]' % tag, len(calls) == steps, W,
                 'the accepting tolerance ends the iteration after %d of %d steps' % (len(calls), steps))
    c.ob('success is possible[%s]' % tag, True if n > 0 else None, W, 'no path reports success')

def energy(r, key, q, R, X, Xk, st):
    """generic iteration: |R(Xk) . dprev| (divided by a loop-carried initial value)"""
    rest = dict(q)
    dots = [k for k in rest if k[0] == 'dot' and rest[k] == 1]
    for k in dots:
        for u in k[1:]:
            if u == pkey(R)[0]:
                other = k[2] if k[1] == u else k[1]
                if len(other) == 1 and len(other[0][0]) == 1:
                    ph = term_of(other[0][0][0][0])
                    if ph.op == 'phi' and steps_match(r, ph, Xk):
                        left = {x: p for x, p in rest.items() if x != k}
                        if key == 'etol':
                            return left == {}
                        return len(left) == 1 and list(left.values()) == [-1]
    return None

def steps_match(r, ph, Xk):
    """every value of the loop-carried step is the difference of two successive iterates"""
    if Xk.op != 'phi':
        return False
    xs = list(r.fl.phi.get(Xk, ()))
    for s in r.fl.phi.get(ph, ()):
        if s is ph or any(z.op == 'ext' and str(z.args[0]).endswith('nan') or isk(z) and z.args[0] != z.args[0] for z in subterms(s)):
            continue
        if not any(same(mk('sub', x, s), leaf('X0')) or same(mk('sub', x, s), Xk) for x in xs):
            return False
    return True

def empty(c, repo, W):
    r = Run(repo, [], [], 2)
    bad = [st for st, v, ok in r.success_states() if ok is not False]
    c.ob('no criterion, no success', not bad, W, 'success is reported although no criterion is selected')

def default_xtol(c, repo, W):
    r = Run(repo, ['xtol'], [], 1, xarg=False)
    hits = []
    for st, v, ok in r.success_states():
        if ok:
            fl = r.fl
            X = r.deep(st, fl.val(st, v.args[0]))
            d = mk('sub', X, leaf('X0'))
            w = scale(dot(d, d), Fraction(1, 2))
            hits.append(any(normal(ratio(a, b) or {}, leaf('cfg:xtol')) == add(w, {('t', leaf('cfg:xtol').n): Fraction(-1)}) for a, b in facts_of(r, st)))
    c.ob('configured step tolerance', bool(hits) and all(hits), W, "without an argument the configured 'xtol' is not the one compared")

    # neither an argument nor a setting: 1e-6 times the number of unknowns (documented)
    r = Run(repo, ['xtol'], [], 1, xarg=None)
    hits = []
    for st, v, ok in r.success_states():
        if ok:
            for a, b in facts_of(r, st):
                if contains(mk('tup', a, b), lambda x: x.op == 'R'):
                    small = b if contains(a, lambda x: x.op == 'R') else a
                    hits.append(expected_default(r, st, small))
    v = False if False in hits else True if hits and all(hits) else None
    c.ob('default step tolerance', v, W, "with xtol None in the call and in config the step is not compared with 1e-6*X0.shape[0]")

def expected_default(r, st, t):
    """is t 1e-6 times the number of unknowns?"""
    sizes = [x for x in subterms(t) if contains(x, lambda y: y == r.X0) and x.op in ('shape', 'len', 'size', 'attr', 'call', 'item')]
    if contains(t, lambda x: x.op == 'leaf' and str(x.args[0]).startswith('cfg:')):
        return None
    if not sizes:
        return False                            # a constant
    top = max(sizes, key=lambda x: len(list(subterms(x))))
    try:
        from .hyst import number
        return all(abs(number(t, {top: float(n)}) / (1e-6 * n) - 1) < 1e-9 for n in (1, 7, 1000))
    except Exception:
        return None

def line_search(c, repo):
    """the step factor and the residual returned by the line search belong together"""
    from .contin import Agg
    mod = repo.modules[MOD]
    cls = mod.classes[CLS]
    m = repo.method(mod, cls, 'line_search')
    if m is None:
        c.ob('line search', True, MOD, 'no line search')
        return
    W = 'tmdsimpy/jax/solvers.py:NonlinearSolverOMP.line_search'
    a = Agg(c)
    for same_sign in (True, False):
        fl = F.Flow(repo)
        st = fl.start()
        cfg = fl.param(st, 'config', 'dict', owner='self', open=False)
        f = st.mut(cfg.args[0]).fields
        f.update({'verbose': FALSE, 'line_search_iters': K(2), 'line_search_tol': leaf('cfg:line_search_tol'), 'line_search_same_sign': K(same_sign)})
        self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
        st.mut(self_.args[0]).fields['config'] = cfg
        def fun(fl, st, args, kw, node, base):
            return [(st, mk('tup', fl.alloc(st, node, 'arr', mk('R', fl.val(st, args[0])), tag='R')))]
        fl.hooks['call:fun'] = fun
        fl.soft = 200
        fn = fl.param(st, 'fun', 'unk')
        args = [fn, fl.param(st, 'X', 'arr', owner='param:X'), fl.param(st, 'Rx', 'arr', owner='param:Rx', content=mk('R', leaf('X'))),
                fl.param(st, 'deltaX', 'arr', owner='param:deltaX')]
        for st, v in fl.run(st, m[0], m[2], args, {}, selfref=self_, cls=m[1], qual=CLS + '.line_search'):
            if v.op != 'tup' or len(v.args) != 2 or v.args[1].op != 'ref':
                a.ob('line search result', None, W, 'result not understood')
                continue
            alpha = fl.val(st, v.args[0])
            Ra = st.heap[v.args[1].args[0]].fields.get('R(alpha)')
            if Ra is None:
                a.ob('line search result', None, W, "no entry 'R(alpha)'")
                continue
            pairs = leaves(fl, st, alpha, fl.val(st, Ra))
            for al, rv, sx in pairs:
                at = mk('add', leaf('X'), mk('mult', al, leaf('deltaX')))
                ok = rv.op == 'R' and same(rv.args[0], at)
                if not ok and contains(mk('tup', al, rv), lambda x: x.op in ('weak', 'ref', 'phi', 'rd', 'call')):
                    ok = None
                a.ob('line search: residual belongs to the step factor[same_sign=%s]' % same_sign, ok, W,
                     'the factor %s is returned with the residual %s' % (show(al), show(rv)[:200]))
                bracketing(a, al, fl, sx, same_sign, W)
                a.ob('line search: factor in (0, 1][same_sign=%s]' % same_sign, factor_range(al), W, 'the factor %s may vanish or leave (0, 1]' % show(al))
    a.flush()

POINTS = (0.0, 0.25, 0.5, 0.75, 1.0)

def samples():
    """values of deltaX @ R(X + alpha deltaX) at the points of two bisections"""
    for s in (1.0, -1.0):
        for g1 in (-0.9, -0.3, 0.8):
            for h in (0.7, 0.2, -0.21, -0.71):
                for q in (0.72, 0.19, -0.22, -0.73):
                    yield dict(zip(POINTS, (s, s * q, s * h, s * q, s * g1)))

def bracketing(a, al, fl, st, same_sign, W):
    """bisection of the sign change of deltaX @ R: which points may be evaluated and which factor may be returned on this path"""
    from .hyst import number, NoValue
    dX, X = leaf('deltaX'), leaf('X')
    where = {}
    for f in st.facts:
        for t in subterms(f):
            if t.op in ('matmult', 'np.dot', 'dot') and len(t.args) == 2:
                r = next((x for x in t.args if x.op == 'R'), None)
                if r is not None and dX in t.args:
                    for p in POINTS:
                        if same(r.args[0], mk('add', X, mk('mult', K(p), dX)) if p else X):
                            where[t] = p
    key = 'line search: bisects the interval with the sign change[same_sign=%s]' % same_sign
    p = poly(al)
    if not set(p) <= {()}:
        a.ob(key, None, W, 'factor %s not a number' % show(al))
        return
    x = float(p.get((), 0))
    for g in samples():
        env = {t: g[q] for t, q in where.items()}
        env[leaf('cfg:line_search_tol')] = 0.5
        try:
            on = all(({'lt': lambda u, v: u < v, 'le': lambda u, v: u <= v, 'eq': lambda u, v: u == v}[t.op])(number(t.args[0], env), number(t.args[1], env)) is v
                     for t, v in st.facts.items() if t.op in ('lt', 'le', 'eq') and not contradict_free(t))
        except (NoValue, KeyError, TypeError):
            a.ob(key, None, W, 'a condition of the path was not understood')
            return
        if not on:
            continue
        seen = set(where.values())
        ok = not (0.25 in seen and g[0.5] * g[0.0] > 0) and not (0.75 in seen and g[0.5] * g[1.0] > 0 and g[0.5] * g[0.0] < 0)
        a.ob(key, ok, W, 'with deltaX @ R = %s at alpha = 0, 0.5, 1 the next point %s lies outside the interval with the sign change'
             % ((g[0.0], g[0.5], g[1.0]), sorted(seen - {0.0, 0.5, 1.0})))
        if same_sign and x in g:
            ok = g[x] * g[0.0] > 0 or x == min(seen - {0.0})
            a.ob('line search: no sign change up to the returned factor', ok, W,
                 'deltaX @ R is %s at 0 and %s at the returned factor %s although a smaller factor keeps the sign' % (g[0.0], g[x], x))

def contradict_free(t):
    """conditions that do not speak about the evaluated points"""
    return not contains(t, lambda x: x.op == 'R')

def factor_range(al):
    p = poly(al)
    if set(p) <= {()}:
        x = p.get((), 0)
        return bool(0 < x <= 1)
    return None

def leaves(fl, st, x, y):
    """pairs of simultaneous values of two gated terms"""
    todo, out = [(st, x, y)], []
    while todo:
        s, a, b = todo.pop()
        g = next((t for u in (a, b) for t in subterms(u) if t.op == 'ite'), None)
        if g is None:
            if not contradictory(fl, s):
                out.append((a, b, s))
            continue
        yes, no = fl.truth(s.copy(), g.args[0])
        for z in yes + no:
            r = lambda t, z=z: deep(fl, z, t)
            todo.append((z, r(a), r(b)))
    return out

def contradictory(fl, st):
    for t, v in st.facts.items():
        if t.op in ('eq', 'lt', 'le'):
            a, b = (deep(fl, st, x) for x in t.args)
            if isk(a) and isk(b) and all(isinstance(x.args[0], (int, float)) for x in (a, b)):
                x, y = a.args[0], b.args[0]
                if {'eq': x == y, 'lt': x < y, 'le': x <= y}[t.op] is not v:
                    return True
    return False

def nonneg(run, t):
    op, a = t.op, t.args
    if isk(t):
        return isinstance(a[0], (int, float)) and a[0] >= 0
    if op in ('np.abs', 'np.absolute', 'abs', 'np.fabs', 'np.sqrt', 'math.sqrt', 'np.linalg.norm', 'scipy.linalg.norm', 'np.scipy.linalg.norm', 'np.square'):
        return True
    if op in ('float', 'np.real', 'bool') and a:
        return nonneg(run, a[0])
    if op in ('mult', 'div', 'np.multiply', 'np.divide', 'add'):
        return nonneg(run, a[0]) and nonneg(run, a[1])
    if op == 'pow':
        return isk(a[1]) and (a[1].args[0] in (2, 4) or nonneg(run, a[0]))
    if op in ('matmult', 'np.dot', 'np.vdot', 'np.inner', 'm.dot') and len(a) == 2:
        return pkey(a[0])[0] == pkey(a[1])[0]
    if op in ('np.sum', 'm.sum', 'sum') and len(a) == 1:
        return nonneg(run, a[0])
    if op == 'leaf':
        return True                 # a tolerance
    return False

def deep(fl, st, t):
    if t.op == 'ite':
        d = fl.decide(st, t.args[0])
        if d is not None:
            return deep(fl, st, t.args[1] if d else t.args[2])
    if any(isinstance(a, F.T) for a in t.args):
        return mk(t.op, *[deep(fl, st, a) if isinstance(a, F.T) else a for a in t.args])
    return t

def base_solver(c, repo):
    """NonlinearSolver.nsolve: the returned values belong to the point returned by scipy's root, tolerances are passed on"""
    mod = repo.modules.get(BASE[0])
    if mod is None or BASE[1] not in mod.classes:
        c.anchor_lost(BASE[0])
        return
    cls = mod.classes[BASE[1]]
    m = repo.method(mod, cls, 'nsolve')
    W = 'tmdsimpy/solvers.py:NonlinearSolver.nsolve'
    for xarg in (True, False):
        for verbose in (True, False):
            fl = F.Flow(repo)
            st = fl.start()
            self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls), open=True)
            def fun(fl, st, args, kw, node, base):
                x = fl.val(st, args[0])
                return [(st, mk('tup', fl.alloc(st, node, 'arr', mk('R', x), tag='R'), fl.alloc(st, node, 'arr', mk('J', x), tag='J')))]
            calls = []
            def root(fl, st, args, kw, node, base):
                calls.append((st, args, kw))
                return [(st, fl.alloc(st, node, 'dict', leaf('sol'), tag='sol', open=True, fields={
                    'x': fl.alloc(st, node, 'arr', leaf('sol.x'), tag='x'), 'success': leaf('sol.success'), 'nfev': leaf('sol.nfev'), 'njev': leaf('sol.njev'),
                    'message': leaf('sol.message')}))]
            fl.hooks['call:fun'] = fun
            for name in ('scipy.optimize.root', 'scipy.optimize._root.root'):
                fl.hooks[name] = root
            fn, X0 = fl.param(st, 'fun', 'unk'), fl.param(st, 'X0', 'arr', owner='param:X0')
            if xarg:
                st.facts[mk('is', leaf('xtol'), NONE)] = False
            outs = fl.run(st, m[0], m[2], [fn, X0], {'verbose': K(verbose), 'xtol': leaf('xtol') if xarg else NONE}, selfref=self_, cls=m[1],
                          qual='NonlinearSolver.nsolve')
            tag = 'xtol %s,verbose=%s' % ('given' if xarg else 'default', verbose)
            if len(calls) != 1:
                c.ob('root[%s]' % tag, None, W, '%d calls of scipy.optimize.root' % len(calls))
                continue
            s0, args, kw = calls[0]
            opt = kw.get('options', NONE)
            x = None
            if opt.op == 'ref' and s0.heap[opt.args[0]].kind == 'dict':
                x = s0.heap[opt.args[0]].fields.get('xtol')
            if x is None:
                x = kw.get('tol')
            if xarg:
                c.ob('tolerance[%s]' % tag, x is not None and fl.val(s0, x) is leaf('xtol'), W, "the step tolerance given by the user is not passed to "
                     "scipy: %s" % (show(x) if x is not None else 'absent'))
            else:
                n = [t for t in (subterms(fl.val(s0, x)) if x is not None else ()) if t.op in ('attr', 'rd', 'len', 'shape')]
                c.ob('tolerance[%s]' % tag, x is not None and bool(n), W, 'no default step tolerance proportional to the size is passed: %s' %
                     (show(x) if x is not None else 'absent'))
            c.ob('start[%s]' % tag, len(args) > 1 and same(fl.val(s0, args[1]), leaf('X0')) or fl.val(s0, kw.get('x0', NONE)) is leaf('X0'), W,
                 'the solve does not start at X0')
            c.ob('jacobian[%s]' % tag, kw.get('jac') is TRUE or kw.get('jac') is not None and kw['jac'].op in ('fn', 'bound'), W,
                 'the exact Jacobian is not passed to scipy')
            for st, v in outs:
                if v.op != 'tup' or len(v.args) != 4:
                    c.ob('returns[%s]' % tag, None, W, 'result not understood')
                    continue
                X, R, J = (fl.val(st, a) for a in v.args[:3])
                c.ob('point[%s]' % tag, same(X, leaf('sol.x')), W, 'the returned point is %s, not the one found' % show(X)[:200])
                c.ob('residual[%s]' % tag, R.op == 'R' and same(R.args[0], X), W, 'the returned residual is %s, not the value at the returned point' % show(R)[:200])
                c.ob('jacobian value[%s]' % tag, J.op == 'J' and same(J.args[0], X), W, 'the returned Jacobian is %s, not the value at the returned point' % show(J)[:200])
                s = v.args[3]
                ok = s.op == 'ref' and fl.val(st, st.heap[s.args[0]].fields.get('success', NONE)) is leaf('sol.success')
                c.ob('success[%s]' % tag, ok, W, "the 'success' entry is not the one reported by scipy")
