"""C12: typestate of the continuation loop (accept / store / callback protocol)."""
from tsa import flow as F
from tsa.flow import K, NONE, TRUE, FALSE, mk, leaf, ref, isk, show, poly, same, contains, subterms

MOD, CLS = 'tmdsimpy.continuation', 'Continuation'

class Run:
    """one dataflow run of Continuation.continuation for a given verbosity and callback setting"""
    def __init__(self, repo, verbose, callback, dynamic=None):
        self.fl = fl = F.Flow(repo, trace=self.trace)
        mod = repo.modules[MOD]
        cls = mod.classes[CLS]
        m = repo.method(mod, cls, 'continuation')
        self.where = 'tmdsimpy/continuation.py:Continuation.continuation'
        st = fl.start()
        self.cfg = fl.param(st, 'config', 'dict', owner='self', open=True)
        cc = st.mut(self.cfg.args[0])
        if verbose is not None:
            cc.fields['verbose'] = K(verbose)
        cc.fields['nsolve_verbose'] = leaf('cfg:nsolve_verbose')
        if dynamic is not None:
            cc.fields['DynamicCtoP'] = K(dynamic)
        cc.fields['FracLamList'] = fl.param(st, 'FracLamList', 'list', owner='self', open=True)
        st.facts[mk('lt', K(0), mk('len', leaf('FracLamList')))] = True
        for k in ('dsmin', 'dsmax', 'ds0', 'MaxSteps', 'TargetNfev', 'MaxIncrease', 'backtrackStop', 'xtol'):
            cc.fields[k] = leaf('cfg:' + k)
        self.cb = fl.param(st, 'callback', 'unk', owner=None) if callback else NONE
        cc.fields['callback'] = self.cb
        self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
        self.self_, self.scale, self.corrs = self_, {}, {}
        c = st.mut(self_.args[0])
        c.fields['config'] = self.cfg
        c.fields['solver'] = fl.param(st, 'solver', 'unk', owner=None)
        c.fields['setCtoPto1'] = FALSE
        c.fields['setRPtoCto1'] = FALSE
        c.fields['CtoP'] = fl.param(st, 'CtoP', 'arr', owner='self')
        c.fields['RPtoC'] = fl.param(st, 'RPtoC', 'num', owner='self')
        c.fields['CtoP0'] = fl.param(st, 'CtoP0', 'arr', owner='self')
        if self.cb is not NONE:
            st.facts[mk('is', leaf('callback'), NONE)] = False
        self.solves = []                 # (call id, start value, function, state snapshot)
        self.stores, self.calls, self.errors = [], [], []
        self.hist = None
        self.corr = []
        fl.hooks.update({'.nsolve': self.nsolve, '.predict': self.predict, '.conditioning_wrapper': self.wrapper, '.correct_res': self.correct,
                         'call:callback': self.callback, '_initial_wrapper_fun': self.initial})
        fl.keep = lambda t: 'success' in show(t) or contains(t, lambda x: x is leaf('lam1') or x is leaf('lam0') or x is leaf('cfg:MaxSteps') or x is leaf('callback') or x is leaf('FracLamList'))
        self.n = 0
        fun = fl.param(st, 'fun', 'unk', owner=None)
        X = fl.param(st, 'XlamP0', 'arr', owner='param:XlamP0')
        self.outs = fl.run(st, m[0], m[2], [fun, X, leaf('lam0'), leaf('lam1')], selfref=self_, cls=m[1], qual='Continuation.continuation')
        self.events = fl.events

    # ---------------------------------------------------------------- hooks
    def nsolve(self, fl, st, args, kw, node, base):
        site = (node.lineno, node.col_offset) + fl.ctx + fl.havoc_tag
        n = st.cnt.get(site, 0) + 1
        st.cnt[site] = n
        c = mk('solve', '%s#%d' % (site, n))
        e = self.event(fl, st, 'solve', c, (args, kw, [fl.val(st, a) for a in args]), node)
        self.scale[c] = fl.val(st, st.heap[self.self_.args[0]].fields['CtoP'])
        mkc = lambda i: fl.alloc(st, node, 'arr', mk('item', c, i), tag='sol%d' % i)
        sol = fl.alloc(st, node, 'dict', mk('item', c, 3), tag='sol', fields={'success': mk('success', c)}, open=True)
        fn = args[0] if args else None
        if fn is not None and fn.op in ('fn', 'bound'):
            probe = fl.param(st, 'probe', 'arr', content=leaf('probe'))
            mark = len(self.corr)
            saved, tr = fl.tracef, st.trace
            fl.tracef = None
            ev = len(fl.events)
            for s2, v in fl.call(st.copy(), fn, [probe], {}, node):
                pass
            self.corrs[e] = self.corr[mark:]
            del fl.events[ev:]
            fl.tracef = saved
        return [(st, mk('tup', mkc(0), mkc(1), mkc(2), sol))]

    def wrapper(self, fl, st, args, kw, node, base):
        r = mk('cond', *[fl.val(st, a) for a in args], *[mk('kw', k, fl.val(st, v)) for k, v in sorted(kw.items())])
        self.event(fl, st, 'wrapper', r, (args, kw, [fl.val(st, a) for a in args]), node)
        return [(st, r)]

    def predict(self, fl, st, args, kw, node, base):
        site = (node.lineno, node.col_offset) + fl.ctx + fl.havoc_tag
        n = st.cnt.get(site, 0) + 1
        st.cnt[site] = n
        d = mk('dir', '%s#%d' % (site, n))
        self.scale[d] = fl.val(st, st.heap[self.self_.args[0]].fields['CtoP'])
        self.event(fl, st, 'predict', d, ([fl.val(st, a) for a in args], {k: fl.val(st, v) for k, v in kw.items()}), node)
        return [(st, fl.alloc(st, node, 'arr', d, tag='dir'))]

    def correct(self, fl, st, args, kw, node, base):
        c = base.args[0]
        self.corr.append(([fl.val(st, a) for a in args], {k: fl.val(st, v) for k, v in kw.items()}, node))
        return [(st, leaf('Raug'))]

    def initial(self, fl, st, args, kw, node, base):
        return [(st, leaf('R0'))]

    def callback(self, fl, st, args, kw, node, base):
        self.event(fl, st, 'callback', None, ([fl.val(st, a) for a in args], args), node)
        return [(st, NONE)]

    def event(self, fl, st, kind, what, data, node):
        e = fl.event(st, kind, what, data, node)
        e.st = st
        return e

    # ------------------------------------------------- store/callback automaton
    def trace(self, e, st):
        pend = dict(st.trace)
        if e.kind == 'write' and e.data[1] in ('arr', 'list') and e.what[2] in ('set', 'append', 'aug'):
            cid = e.what[0]
            v = e.data[4]
            vv = self.fl.val(st, v)
            if not contains(vv, lambda x: x.op == 'item' and isinstance(x.args[0], F.T) and x.args[0].op == 'solve', self.fl.phi):
                return None
            st.trace = self.step(st.trace, ('store', vv), e)
            e.data = e.data[:3] + (self.fl.val(st, e.data[3]), vv) + ([self.fl.val(st, x) for x in e.what[1]],)
        elif e.kind == 'callback':
            vv = e.data[0][0] if e.data[0] else NONE
            if contains(vv, lambda x: x.op == 'ext' and x.args[0].endswith('.nan')):
                return None
            st.trace = self.step(st.trace, ('callback', vv), e)
        return None

    def step(self, tr, ev, e):
        kind, v = ev
        if self.cb is NONE:
            return tr
        if not tr:
            return ((kind, v),)
        k0, v0 = tr[0]
        if k0 == kind:
            self.errors.append((e.where, 'two consecutive %s events without the matching %s' % (kind, 'callback' if kind == 'store' else 'store')))
            return ((kind, v),)
        if not same(v, v0):
            self.errors.append((e.where, 'the callback receives %s but %s is stored' % ((show(v), show(v0)) if kind == 'callback' else (show(v0), show(v)))))
        return ()

def assoc(t, item):
    """replace item(solve, i) by the solve itself"""
    m = {}
    for x in subterms(t):
        if x.op == 'item' and isinstance(x.args[0], F.T) and x.args[0].op == 'solve' and x.args[1] == item:
            m[x] = x.args[0]
        if x.op == 'success':
            m[x] = x.args[0]
    return m

def solved_parts(v, phi):
    return [x for x in subterms(v) if x.op == 'item' and isinstance(x.args[0], F.T) and x.args[0].op == 'solve']

def success_known(fl, v, facts):
    """the stored value comes from a solve that is known to have succeeded: True / False / None"""
    parts = solved_parts(v, fl.phi)
    # innermost variable holding the iterate: any phi/item term built from item(.,0)
    cands = [x for x in subterms(v) if x.op in ('item', 'phi') and contains(x, lambda y: y.op == 'solve')]
    tops = [x for x in cands if not any(x is not y and contains(y, lambda z: z is x) for y in cands)]
    if not tops:
        return None
    for x in tops:
        sub = {}
        for y in subterms(x):
            if y.op == 'item' and isinstance(y.args[0], F.T) and y.args[0].op == 'solve' and y.args[1] == 0:
                sub[y] = mk('success', y.args[0])
        want = fl.subst(x, sub)
        if facts.get(want) is True:
            continue
        anyf = [k for k, val in facts.items() if val and contains(k, lambda z: z.op == 'success') and
                contains(k, lambda z: z.op == 'solve' and contains(x, lambda w: w is z))]
        if x.op == 'item' or not anyf:
            return False
        return None
    return True

def step_roots(fl, ph):
    """leaves the loop variable starts from (through phi terms, limits and scalings only)"""
    seen, todo, out = set(), [ph], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'phi':
            todo += [y for y in fl.phi.get(x, ())] + [y for y in x.args[1:] if isinstance(y, F.T)]
        elif x.op == 'leaf':
            out.add(x)
    return out

def all3(rs):
    rs = list(rs)
    return False if False in rs else None if None in rs else True

def any3(rs):
    rs = list(rs)
    return True if True in rs else None if None in rs else False

DSMIN, DSMAX = leaf('cfg:dsmin'), leaf('cfg:dsmax')

def bounded(t, upper, fl, facts=(), depth=0):
    """t <= dsmax (upper) / t >= dsmin, by induction over loop-carried values; ds0 lies between the limits"""
    lim = DSMAX if upper else DSMIN
    if t in (leaf('cfg:ds0'), DSMIN, DSMAX):
        return True
    for k, v in facts:
        if k.op in ('lt', 'le'):
            a, b = k.args if v else k.args[::-1]
            if (a, b) == ((t, lim) if upper else (lim, t)):
                return True
    go = lambda x, fs=facts: bounded(x, upper, fl, fs, depth + 1)
    if t.op == 'phi':
        if t.args[0] == 'join' and depth < 40:
            r = all3(go(x) for x in t.args[1:])
            return None if r is False and any(x in (DSMIN, DSMAX) for x in t.args[1:]) else r
        return True
    if t.op == 'ite':
        c = t.args[0]
        neg = c.op == 'not'
        c = c.args[0] if neg else c
        return all3([go(t.args[1], tuple(facts) + ((c, not neg),)), go(t.args[2], tuple(facts) + ((c, neg),))])
    if t.op in ('max', 'np.maximum', 'np.max', 'min', 'np.minimum', 'np.min', 'np.fmax', 'np.fmin'):
        rs = [go(x) for x in t.args]
        return all3(rs) if ('max' in t.op) == upper else any3(rs)
    if t.op == 'np.clip' and len(t.args) == 3:
        return go(t.args[2]) if upper else go(t.args[1])
    if upper and t.op == 'div' and isk(t.args[1]) and t.args[1].args[0] >= 1:
        return go(t.args[0])
    if upper and t.op == 'mult' and any(isk(x) and isinstance(x.args[0], (int, float)) and 0 < x.args[0] <= 1 for x in t.args):
        return all3(go(x) for x in t.args if not isk(x))
    return False if t.op in ('mult', 'div', 'add', 'sub', 'leaf', 'k') else None

def accept(c):
    repo = c.repo
    if MOD not in repo.modules or CLS not in repo.modules[MOD].classes:
        c.anchor_lost(MOD)
        return
    c.level = 'other'
    c.small = 0
    c.rule('accept', 'every row written to the returned history, and every solution passed to the callback, is a value of a nonlinear solve whose '
                     "'success' entry is known to be true there (facts of the dominating branches)")
    c.rule('protocol', 'automaton over store and callback events: they alternate, with identical values, on every path')
    c.rule('guard', 'each corrector solve is dominated by the interval test on the last stored parameter and by the step limit')
    c.rule('step', 'the step length multiplying the predictor direction is bounded by dsmin and dsmax (abstract bounds, induction over loop values)')
    c.rule('verbosity', 'the set of stores, callbacks and solves with their facts is the same for verbose = -1, 0, 1, 100')
    W = 'tmdsimpy/continuation.py:Continuation.continuation'
    runs = {}
    def job(verb, cb):
        def thunk():
            tag = 'verbose=%s,callback=%s' % (verb, cb)
            r = Run(repo, verb, cb)
            analyse(c, r, tag, W)
        return thunk
    c.parallel([('continuation[verbose=%s,callback=%s]' % (v, cb), job(v, cb), 200) for v in (-1, 0, 1, 100) for cb in (True, False)])
    c.guard('verbosity', lambda: verbosity(c, repo, W), 300)

def norm_facts(e):
    return frozenset((k.n, v) for k, v in e.facts.items() if 'success' in show(k))

def signature(r):
    out = set()
    for e in r.events:
        if e.kind == 'write' and len(e.data) > 5:
            out.add(('store', e.where, e.data[4].n, norm_facts(e)))
        if e.kind == 'callback':
            out.add(('callback', e.where, e.data[0][0].n, norm_facts(e)))
        if e.kind == 'solve':
            out.add(('solve', e.where, tuple(x.n for x in e.data[2][1:2])))
    return out

def verbosity(c, repo, W):
    sig = {}
    for v in (-1, 0, 100):
        sig[v] = signature(Run(repo, v, True, dynamic=False))
    for v in (-1, 0):
        d = sig[v] ^ sig[100]
        lines = sorted({x[0] + ' at ' + x[1] for x in d})
        c.ob('verbose=%d changes nothing but output' % v, not d, W, 'differs from verbose=100 in: ' + '; '.join(lines[:4]))

class Agg:
    """one obligation per rule: worst verdict over the program points it applies to"""
    def __init__(self, c):
        self.c, self.d = c, {}
    def ob(self, key, verdict, construct, detail=''):
        self.d.setdefault(key, []).append((verdict, construct, detail))
    def flush(self):
        for k, vs in self.d.items():
            w = [v for v in vs if v[0] is False] or [v for v in vs if v[0] is None] or vs
            self.c.ob('%s (%d states)' % (k, len(vs)) if w[0][0] is True else k, *w[0])

def analyse(c0, r, tag, W):
    fl = r.fl
    c = Agg(c0)
    try:
        analyse_(c, r, tag, W, fl)
    finally:
        c.flush()

def analyse_(c, r, tag, W, fl):
    if not r.outs:
        c.ob('continuation[%s] returns' % tag, None, W, 'no return state')
        return
    # ------------------------------------------------------------ history
    roots = set()
    for st, v in r.outs:
        if v.op == 'ref':
            roots.add(v.args[0])
    stores = [e for e in r.events if e.kind == 'write' and len(e.data) > 5 and e.what[0] in roots]
    others = [e for e in r.events if e.kind == 'write' and len(e.data) > 5 and e.what[0] not in roots]
    c.ob('continuation[%s] stores points in the returned history' % tag, True if stores else None, W, 'no store recognised')
    for i, e in enumerate(stores):
        ok = success_known(fl, e.data[4], e.facts)
        c.ob('continuation[%s] stores only after success' % tag, ok, e.where,
             'stored value %s is not dominated by success of its solve' % show(e.data[4]))
    cbs = [e for e in r.events if e.kind == 'callback']
    real = [e for e in cbs if not contains(e.data[0][0], lambda x: x.op == 'ext' and x.args[0].endswith('.nan'))]
    if r.cb is not NONE:
        c.ob('continuation[%s] invokes the callback' % tag, True if real else None, W)
        for i, e in enumerate(real):
            ok = success_known(fl, e.data[0][0], e.facts)
            c.ob('continuation[%s] callbacks only after success' % tag, ok, e.where,
                 'callback value %s is not dominated by success of its solve' % show(e.data[0][0]))
        for w, t in sorted(set(r.errors)):
            c.ob('continuation[%s] store/callback protocol: %s' % (tag, t[:80]), False, w, t)
        left = [st for st, v in r.outs if st.trace]
        c.ob('continuation[%s] every store has its callback' % tag, not left, W,
             'on a path to the return the last event is an unmatched %s' % (left[0].trace[0][0] if left else ''))
    else:
        c.ob('continuation[%s] no callback when none is configured' % tag, not cbs, W)
    hist = stores
    for st, v in r.outs:
        ok = returned(fl, st, v, stores)
        c.ob('continuation[%s] returns exactly the stored rows' % tag, ok, W, 'returned %s' % show(v))
    # -------------------------------------------------------------- guards
    solves = [e for e in r.events if e.kind == 'solve']
    steps = [e for e in solves if contains(e.data[2][1], lambda x: x.op == 'dir')] if solves else []
    c.ob('continuation[%s] has an initial and a corrector solve' % tag, True if steps and len(steps) < len(solves) else None, W)
    for key, v, why in travel(fl, steps, hist):
        c.ob('continuation[%s] %s' % (tag, key), v, W, why)
    for i, e in enumerate(steps):
        g = guard_lam1(fl, e, hist)
        c.ob('continuation[%s] corrector guarded by the end of the interval' % tag, g, e.where,
             'no dominating test that the last stored parameter has not reached lam1')
        g2 = max_steps(fl, e, hist)
        c.ob('continuation[%s] corrector guarded by MaxSteps' % tag, g2, e.where, 'no dominating test that the next row is inside MaxSteps')
        g3 = any(contains(k, lambda x: x is leaf('cfg:backtrackStop')) for k, val in e.facts.items())
        c.ob('continuation[%s] corrector guarded by backtrackStop' % tag, True if g3 else False, e.where, 'no dominating test of backtrackStop')
        # predictor: start = last/CtoP + dir*ds
        p = poly(e.data[2][1])
        dm = [(m, k) for m, k in p.items() if any(F.term_of(t).op == 'dir' or contains(F.term_of(t), lambda x: x.op == 'dir') for t, _ in m)]
        if len(dm) != 1:
            c.ob('continuation[%s] corrector start is last point plus direction times step' % tag, None, e.where, show(e.data[2][1]))
            continue
        rest = [(F.term_of(t), q) for t, q in dm[0][0] if not contains(F.term_of(t), lambda x: x.op == 'dir')]
        if len(rest) != 1 or rest[0][1] != 1:
            c.ob('continuation[%s] corrector step length' % tag, None, e.where, show(e.data[2][1]))
            continue
        ds = rest[0][0] if dm[0][1] == 1 else mk('mult', K(dm[0][1]), rest[0][0])
        fs = tuple(e.facts.items())
        lo, hi = bounded(ds, False, fl, fs), bounded(ds, True, fl, fs)
        c.ob('continuation[%s] corrector step not below dsmin' % tag, lo, e.where, 'step length %s has no lower bound dsmin' % show(ds))
        c.ob('continuation[%s] corrector step not above dsmax' % tag, hi, e.where, 'step length %s has no upper bound dsmax' % show(ds))
    # loop-carried step values must satisfy the bounds as well
    for ph, srcs in list(fl.phi.items()):
        if ph.args[0] == 'join' or leaf('cfg:ds0') not in step_roots(fl, ph):
            continue
        for x in srcs:
            if x is leaf('undef'):
                continue
            lo, hi = bounded(x, False, fl), bounded(x, True, fl)
            c.ob('continuation[%s] carried step length stays in [dsmin, dsmax]' % tag, all3([lo, hi]), W, 'step length becomes %s' % show(x))
    c.ob('continuation[%s] carried step lengths' % tag, True, W)

def travel(fl, steps, stores):
    """for which last parameters another step is attempted, in both directions of travel (conditions of the paths evaluated at numbers)"""
    from .hyst import number, NoValue
    L0, L1, BT = leaf('lam0'), leaf('lam1'), leaf('cfg:backtrackStop')
    OPS = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b}
    first, later = [], []
    for e in steps:
        facts, lasts, ok = [], set(), True
        for t, v in e.facts.items():
            if not contains(t, lambda x: x is L0 or x is L1 or x is BT):
                continue
            here = [x for x in subterms(t) if x.op == 'rd' and point(fl, x, e, stores) is True]
            here = [x for x in here if not any(y is not x and contains(y, lambda z, x=x: z is x) for y in here)]
            lasts |= set(here)
            if t.op not in OPS:
                ok = False
                continue
            facts.append((t, v))
        start = lasts and all(x.args[0].op == 'np.hstack' for x in lasts)
        (first if start else later).append((e, facts, lasts, ok))
    def runs(group, l0, l1, last):
        any_unknown = False
        for e, facts, lasts, ok in group:
            env = {L0: l0, L1: l1, BT: 0.5}
            env.update({x: last for x in lasts})
            try:
                go = all(OPS[t.op](number(t.args[0], env), number(t.args[1], env)) is v for t, v in facts)
            except (NoValue, KeyError, TypeError, ZeroDivisionError):
                any_unknown = True
                continue
            if go:
                return True if ok else None
        return None if any_unknown else False
    out = []
    for l0, l1 in ((0.0, 4.0), (4.0, 0.0), (-2.0, -9.0), (-1.0, 2.0), (-9.0, -2.0)):
        d = 1.0 if l1 > l0 else -1.0
        way = 'upwards' if d > 0 else 'downwards'
        v = runs(first, l0, l1, l0)
        out.append(('a first step is attempted %s' % way, v, 'from %g to %g no step is taken' % (l0, l1)))
        for last, want, what in ((l0 + 0.7 * d, True, 'goes on inside the interval'), (l0 - 0.2 * d, True, 'goes on less than backtrackStop behind lam0'),
                                 (l0 - 0.8 * d, False, 'stops further than backtrackStop behind lam0'), (l1 + 0.1 * d, False, 'stops behind lam1')):
            v = runs(later, l0, l1, last)
            out.append(('%s %s' % (what, way), None if v is None else v is want, 'from %g to %g with the last parameter %g, backtrackStop 0.5' % (l0, l1, last)))
    merged = {}
    for k, v, w in out:
        o = merged.get(k)
        if o is None or (o[0] is True and v is not True) or v is False:
            merged[k] = (v, w)
    return [(k, v, w) for k, (v, w) in merged.items()]

def guard_lam1(fl, e, stores):
    """True if a dominating fact bounds the last stored parameter by lam1, in the direction of travel"""
    L1, res = leaf('lam1'), False
    for k, v in e.facts.items():
        if k.op not in ('lt', 'le') or not contains(k, lambda x: x is L1):
            continue
        a, b = k.args if v else k.args[::-1]         # a < b (or <=)
        d = poly(mk('sub', b, a))                    # expected: sign(lam1 - lam0) * (lam1 - last)
        for s in [t for t in subterms(mk('tup', a, b)) if t.op == 'np.sign']:
            fwd = poly(s.args[0]).get(((L1.n, 1),), 0)
            mine = [(m, q) for m, q in d.items() if dict(m) == {L1.n: 1, s.n: 1}]
            rest = [(m, q) for m, q in d.items() if dict(m) != {L1.n: 1, s.n: 1}]
            if len(mine) != 1 or len(rest) != 1 or not fwd:
                continue
            pt = {t: p for t, p in rest[0][0] if t != s.n}
            if dict(rest[0][0]).get(s.n) != 1 or len(pt) != 1 or list(pt.values()) != [1]:
                continue
            if mine[0][1] * fwd <= 0 or rest[0][1] != -mine[0][1]:
                return False
            p = point(fl, F.term_of(list(pt)[0]), e, stores)
            if p is True:
                return True
            res = p if res is not None else None
    return res

def unmaybe(t):
    return t.args[0] if t.op == 'maybe' else t

def point(fl, t, e, stores):
    """t is the parameter of the last stored solution"""
    if t is leaf('lam0'):
        return True
    if t.op == 'rd' and len(t.args[1].args) == 1:
        ix = unmaybe(t.args[1].args[0])
        if isk(ix):
            if ix.args[0] != -1:
                return False
            v = t.args[0]
            if v.op == 'np.hstack' and v.args[0].op == 'tup' and v.args[0].args[-1] is leaf('lam0'):
                return True
            if contains(v, lambda x: x.op == 'solve' or x.op == 'phi'):
                return True
            return None
        if ix.op == 'tup' and len(ix.args) == 2:
            if ix.args[1] is not K(-1):
                return False
            for s in stores:                         # the next store goes to the following row
                if not s.data[5] and F.contains(unmaybe(s.data[3]), lambda x: x.op == 'phi') == F.contains(ix.args[0], lambda x: x.op == 'phi'):
                    d = poly(mk('sub', unmaybe(s.data[3]), ix.args[0]))
                    return d == {(): 1}
    return None

def store_index(fl, stores, like):
    """row index of the stores made in the same (first or generic) iteration as the term `like`"""
    gen = lambda t: contains(t, lambda x: x.op == 'phi')
    for s in stores:
        if not s.data[5] and s.data[3] is not K(0) and gen(unmaybe(s.data[3])) == gen(like):
            return unmaybe(s.data[3])
    return None

def max_steps(fl, e, stores):
    M = leaf('cfg:MaxSteps')
    hits = [(k, v) for k, v in e.facts.items() if contains(k, lambda x: x is M)]
    res = False
    for k, v in hits:
        res = None
        if k.op not in ('lt', 'le'):
            continue
        (a, b), strict = (k.args, k.op == 'lt') if v else (k.args[::-1], k.op == 'le')
        d = poly(mk('sub', b, a))
        if d.get(((M.n, 1),), 0) < 0:
            return False
        if b is not M:
            continue
        i = store_index(fl, stores, a)
        if i is None:
            continue
        gap = poly(mk('sub', i, a))                   # row < MaxSteps  <=  a (<|<=) MaxSteps
        if set(gap) - {()}:
            continue
        return gap.get((), 0) <= (0 if strict else -1)
    return res

def returned(fl, st, v, stores):
    if v.op != 'ref' or len(v.args) != 2 or v.args[1].op != 'slice':
        return None
    lo, hi, step = v.args[1].args
    if step not in (NONE, K(1)) or lo not in (NONE, K(0)):
        return False
    return rows(fl, st.heap[v.args[0]].content, hi, stores)

def rows(fl, content, hi, stores):
    if content.op == 'phi' and content.args[0] == 'join' and not (hi.op == 'phi' and hi.args[0] == 'join'):
        rs = [rows(fl, x, hi, stores) for x in content.args[1:]]
        return False if False in rs else None if None in rs else True
    if content.op == 'st' and content.args[1].op == 'ix' and len(content.args[1].args) == 1:
        last = unmaybe(content.args[1].args[0])
        d = poly(mk('sub', hi, last))
        return None if set(d) - {()} else d == {(): 1}
    if content.op == 'phi' and content.args[0] != 'join':
        i = store_index(fl, stores, hi)
        if i is None:
            return None
        d = poly(mk('sub', hi, i))
        return None if set(d) - {()} else not d
    return None

# ------------------------------------------------------------------- C10 / C11
def consistent(c):
    """C10: the corrector measures from the point and along the direction of its predictor"""
    repo = c.repo
    W = 'tmdsimpy/continuation.py:Continuation.continuation'
    for dyn in (False, True):
        r = Run(repo, 0, False, dyn)
        fl, a = r.fl, Agg(c)
        tag = 'continuation[dynamic=%s]' % dyn
        for e in r.events:
            if e.kind != 'solve' or not contains(e.data[2][1], lambda x: x.op == 'dir'):
                continue
            cs = r.corrs.get(e)
            if not cs:
                a.ob(tag + ' corrector equations', None, e.where, 'correct_res is not reached from the function handed to nsolve')
                continue
            for args, kw, node in cs:
                b = dict(zip(('fun', 'XlamC', 'XlamC0', 'ds', 'dirC'), args))
                b.update(kw)
                if any(k not in b for k in ('fun', 'XlamC', 'XlamC0', 'ds', 'dirC')):
                    a.ob(tag + ' corrector receives point, step and direction', None, e.where, sorted(b))
                    continue
                want = mk('add', b['XlamC0'], mk('mult', b['dirC'], b['ds']))
                a.ob(tag + ' the solve starts at the predicted point of the same arc-length equation', same(e.data[2][1], want), e.where,
                     'start %s, equation from %s' % (show(e.data[2][1]), show(want)))
                a.ob(tag + ' the corrector evaluates the user function', b['fun'] is leaf('fun') or contains(b['fun'], lambda x: x is leaf('fun')) or None, e.where)
                a.ob(tag + ' the corrector evaluates the iterate of the solver', b['XlamC'] is leaf('probe'), e.where, show(b['XlamC']))
                dirs = [x for x in subterms(b['dirC']) if x.op == 'dir']
                a.ob(tag + ' the corrector follows the latest prediction', True if b['dirC'].op == 'dir' else None, e.where, show(b['dirC']))
        first = [e for e in r.events if e.kind == 'predict' and not any(contains(x, lambda y: y.op == 'phi') for x in e.data[0][1:3])]
        for e in first:
            x, p = e.data[0][1:3]
            v = orientation(mk('sub', x, p))
            a.ob(tag + ' first prediction is oriented towards lam1', v, e.where, 'previous point %s' % show(p))
        later = [e for e in r.events if e.kind == 'predict' and e not in first]
        a.ob(tag + ' predictions recognised', True if first and later else None, W)
        for e in later:
            x, p = e.data[0][1:3]
            if x.op == 'phi':
                a.ob(tag + ' later predictions start at the last stored point', advances(r, x), e.where, 'the point of departure is not the row stored last')
            if x.op == 'phi' and p.op == 'phi':
                src = list(fl.phi.get(p, ()))
                new = {s.what for s in r.events if s.kind == 'solve' and s in r.corrs and r.corrs[s]}
                fresh = [y for y in src if y is not x and contains(y, lambda z: z in new)]
                a.ob(tag + ' previous point of later predictions is the point before the last', False if fresh else True if x in src and all(
                    y is x or not contains(y, lambda z: z.op == 'phi') for y in src) else None, e.where, [show(y) for y in fresh or src])
        a.flush()

def advances(r, x):
    """the loop-carried point of departure is replaced by the row stored in the same pass"""
    new = {s.what for s in r.events if s.kind == 'solve' and r.corrs.get(s)}
    got = []
    for y in r.fl.phi.get(x, ()):
        if not contains(y, lambda z: z in new):
            continue
        if y.op == 'rd':
            at, val = y.args[1], y.args[0]
            ix = unmaybe(at.args[0]) if len(at.args) == 1 else None
            if val.op == 'st' and ix is not None and len(val.args[1].args) == 1:
                d = poly(mk('sub', unmaybe(ix), unmaybe(val.args[1].args[0])))
                got.append(True if not d else False if set(d) == {()} else None)
            else:
                got.append(None)
        else:
            got.append(True)
    return False if False in got or not got else None if None in got else True

DIRECTIONS = ((0.0, 1.0), (1.0, 0.0), (-2.0, -5.0), (3.0, 7.5), (-1.0, 2.0))

def direction_of(t):
    """signs of a term in lam0 and lam1 (anything else of the start value is arbitrary) compared with the direction of travel"""
    from .hyst import number, NoValue
    free = [x for x in subterms(t) if x.op in ('rd', 'item', 'sub', 'leaf') and contains(x, lambda y: y == leaf('XlamP0')) and x.op != 'sub']
    top = [x for x in free if not any(x is not y and contains(y, lambda z, x=x: z is x) for y in free)]
    out = []
    for l0, l1 in DIRECTIONS:
        for g in ((0.0,) if not top else (-9.0, 9.0)):
            env = {leaf('lam0'): l0, leaf('lam1'): l1}
            env.update({x: g for x in top})
            try:
                out.append(number(t, env) * (l1 - l0) > 0)
            except (NoValue, KeyError, TypeError, ZeroDivisionError):
                return None
    return all(out)

def orientation(d):
    """hstack(X, a) - hstack(X, b): a - b is a positive multiple of sign(lam1 - lam0)"""
    x, p = d.args
    if x.op == p.op == 'np.hstack' and x.args[0].op == p.args[0].op == 'tup' and len(x.args[0].args) == len(p.args[0].args) == 2:
        if not same(x.args[0].args[0], p.args[0].args[0]):
            return None
        q = poly(mk('sub', x.args[0].args[1], p.args[0].args[1]))
        if len(q) == 1:
            (m, k), = q.items()
            if len(m) == 1 and m[0][1] == 1 and F.term_of(m[0][0]).op == 'np.sign':
                ins = poly(F.term_of(m[0][0]).args[0])
                f = ins.get(((leaf('lam1').n, 1),), 0)
                if f and ins.get(((leaf('lam0').n, 1),), 0) == -f and len(ins) == 2:
                    return k * f > 0
        if set(q) == {((leaf('lam1').n, 1),), ((leaf('lam0').n, 1),)}:
            return q[((leaf('lam1').n, 1),)] > 0
        if not q:
            return False
        return direction_of(mk('sub', x.args[0].args[1], p.args[0].args[1]))
    return None

class Units:
    """physical (P), conditioned (C), scale (S) and neutral (1) quantities"""
    def __init__(self, r):
        self.r, self.fl, self.memo, self.bad = r, r.fl, {}, {}
    def unit(self, t):
        if t.n in self.memo:
            return self.memo[t.n]
        self.memo[t.n] = 'any'                     # loop-carried: assume, joined below
        u = self.calc(t)
        self.memo[t.n] = u
        return u
    def join(self, us):
        us = {u for u in us if u != 'any'}
        if not us:
            return 'any'
        if len(us) > 1:
            us -= {'1'}
        return us.pop() if len(us) == 1 else 'mixed' if 'mixed' in us or not us & {'?'} else '?'
    def calc(self, t):
        op, u = t.op, self.unit
        ts = [a for a in t.args if isinstance(a, F.T)]
        if op == 'k':
            return 'any' if t.args[0] is None else '1'
        if t in (leaf('XlamP0'), leaf('lam0'), leaf('lam1')):
            return 'P'
        if t in (leaf('CtoP'), leaf('CtoP0')):
            return 'S'
        if op == 'leaf':
            return '1' if str(t.args[0]).startswith('cfg:') else 'any' if str(t.args[0]) == 'undef' else '?'
        if op == 'dir':
            return 'C'
        if op == 'item':
            return '?' if t.args[0].op != 'solve' else 'C' if t.args[1] == 0 else '1' if t.args[1] == 3 else '?'
        if op == 'ext':
            return 'any' if t.args[0].endswith('nan') else '?'
        if op == 'phi':
            src = ts if t.args[0] == 'join' else list(self.fl.phi.get(t, ()))
            return self.join([u(x) for x in src])
        if op == 'ite':
            return self.join([u(x) for x in ts[1:]])
        if op in ('rd', 'np.copy', 'np.asarray', 'np.array', 'np.atleast_1d', 'neg', 'np.abs', 'abs', 'np.real'):
            return u(ts[0])
        if op in ('np.zeros', 'np.ones', 'np.zeros_like', 'np.ones_like', 'np.empty'):
            return 'any'
        if op == 'st':
            return self.join([u(ts[0]), u(ts[-1])])
        if op == 'np.sign':
            return '1'
        if op in ('tup', 'np.hstack', 'np.concatenate', 'np.append'):
            return self.join([u(x) for x in ts])
        if op in ('add', 'sub'):
            return self.join([u(x) for x in ts])
        if op in ('max', 'min', 'np.maximum', 'np.minimum', 'np.clip', 'np.fmax', 'np.fmin', 'np.max', 'np.min'):
            us = {u(x) for x in ts}
            return 'S' if us == {'P', 'S'} else self.join(us)
        if op == 'mult':
            p = 0
            us = [u(x) for x in ts]
            if '?' in us or 'mixed' in us:
                return '?' if '?' in us else 'mixed'
            if 'any' in us:
                return 'any'
            us = sorted(x for x in us if x != '1')
            return '1' if not us else us[0] if len(us) == 1 else 'P' if us == ['C', 'S'] else 'mixed'
        if op == 'div':
            a, b = u(ts[0]), u(ts[1])
            if '?' in (a, b) or 'mixed' in (a, b):
                return '?' if '?' in (a, b) else 'mixed'
            if 'any' in (a, b):
                return 'any'
            return a if b == '1' else '1' if a == b else {('P', 'S'): 'C', ('P', 'C'): 'S'}.get((a, b), 'mixed')
        return '?'

def units(c):
    """C11: unit inference over the values flowing through the continuation loop"""
    repo = c.repo
    W = 'tmdsimpy/continuation.py:Continuation.continuation'
    for dyn in (False, True):
        r = Run(repo, 0, True, dyn)
        U, a = Units(r), Agg(c)
        tag = 'continuation[dynamic=%s]' % dyn
        def want(what, t, unit, where, skip=()):
            g = U.unit(t)
            ok = True if g in (unit, 'any') + tuple(skip) else None if g == '?' else False
            names = {'P': 'physical', 'C': 'conditioned', 'S': 'scale', 'mixed': 'inconsistent', '1': 'neutral'}
            a.ob('%s %s is %s' % (tag, what, names[unit]), ok, where, '%s is %s' % (show(t), names.get(g, g)))
        for e in r.events:
            if e.kind == 'solve':
                want('start of the nonlinear solve', e.data[2][1], 'C', e.where)
                for args, kw, node in r.corrs.get(e, ()):
                    b = dict(zip(('fun', 'XlamC', 'XlamC0', 'ds', 'dirC'), args))
                    b.update(kw)
                    if 'XlamC0' in b:
                        want('reference point of the corrector', b['XlamC0'], 'C', e.where)
                    if 'dirC' in b:
                        want('direction of the corrector', b['dirC'], 'C', e.where)
                        if b['dirC'] in r.scale:
                            same_scale = r.scale[b['dirC']] is r.scale[e.what]
                            a.ob('%s the prediction and the corrector use one scale' % tag, True if same_scale else False, e.where,
                                 'predicted with CtoP = %s, corrected with CtoP = %s' % (show(r.scale[b['dirC']]), show(r.scale[e.what])))
            elif e.kind == 'predict':
                b = dict(zip(('fun', 'XlamP0', 'XlamPprev', 'dirC_prev'), e.data[0]))
                b.update(e.data[1])
                for k in ('XlamP0', 'XlamPprev'):
                    if k in b:
                        want('point handed to predict (%s)' % k, b[k], 'P', e.where)
            elif e.kind == 'wrapper':
                want('scale handed to the conditioning wrapper', e.data[2][1], 'S', e.where)
            elif e.kind == 'callback':
                for i, t in enumerate(e.data[0][:2]):
                    want('callback argument %d' % (i + 1), t, 'P', e.where)
                    a.ob('%s callback argument %d uses the scale of its solve' % (tag, i + 1), scale_ok(r, t), e.where, show(t))
            elif e.kind == 'write' and len(e.data) > 5:
                want('stored row', e.data[4], 'P', e.where)
                a.ob('%s stored row uses the scale of its solve' % tag, scale_ok(r, e.data[4]), e.where, show(e.data[4]))
        a.flush()

def scale_ok(r, t):
    """every scaled solution inside t is multiplied by the CtoP that was in effect for its solve"""
    res = True
    for x in subterms(t):
        if x.op != 'mult':
            continue
        sol = {y for a in x.args for y in subterms(a) if y in r.scale and y.op == 'solve'} if not any(a.op == 'mult' for a in x.args) else set()
        direct = [a for a in x.args if a.op in ('item', 'phi') and sol]
        if not direct:
            continue
        other = [a for a in x.args if a not in direct]
        if len(other) != 1 or not all(y in r.scale for y in sol):
            continue
        base = other[0]
        while base.op == 'rd' and base.args[0].op != 'st' and base not in (r.scale[y] for y in sol):
            base = base.args[0]
        if isk(base):
            continue
        mine = {y for a in direct for y in subterms(a) if y in r.scale and y.op == 'solve'}
        for y in mine:
            if r.scale[y] is not base:
                res = False if Units(r).unit(base) == 'S' and res is not None else None
    return res
