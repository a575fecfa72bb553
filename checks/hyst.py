"""C18: cycles of a hysteretic evaluation (NumPy forces and accelerated forces)."""
import ast, itertools, os, random
from tsa import flow as F
from tsa.flow import K, NONE, mk, leaf, isk, show, contains, subterms

BASE = ('tmdsimpy.nlforces.nonlinear_force', 'HystereticForce')
NT = 3

# ------------------------------------------------------------ numbers for terms
class Vec(tuple):
    """values of several DOFs"""
    def bin(self, o, f):
        return Vec(f(x, y) for x, y in zip(self, o if isinstance(o, Vec) else [o] * len(self)))
    __add__ = lambda a, b: a.bin(b, lambda x, y: x + y)
    __radd__ = __add__
    __mul__ = lambda a, b: a.bin(b, lambda x, y: x * y)
    __rmul__ = __mul__
    __sub__ = lambda a, b: a.bin(b, lambda x, y: x - y)
    __rsub__ = lambda a, b: a.bin(b, lambda x, y: y - x)
    __truediv__ = lambda a, b: a.bin(b, lambda x, y: x / y)
    __rtruediv__ = lambda a, b: a.bin(b, lambda x, y: y / x)
    __neg__ = lambda a: Vec(-x for x in a)
    __abs__ = lambda a: Vec(abs(x) for x in a)
REDUCE = {'max': max, 'amax': max, 'min': min, 'amin': min, 'sum': sum, 'mean': lambda x: sum(x) / len(x), 'norm': lambda x: sum(y * y for y in x) ** 0.5}

class NoValue(Exception):
    pass

def number(t, env):
    """value of an arithmetic term under an assignment of its atoms"""
    if t in env:
        return env[t]
    op, a = t.op, t.args
    if op == 'k' and isinstance(a[0], (int, float)):
        return float(a[0])
    n = op.rpartition('.')[2]
    v = lambda i: number(a[i], env)
    if contains(t, lambda x: str(x.args[0]).endswith('eps') if x.op in ('ext', 'attr', 'leaf', 'k', 'call') and x.args else False) and op in ('attr', 'ext', 'leaf', 'call'):
        return 2.2e-16
    if op in ('attr', 'bm') and a[-1] == 'eps':
        return 2.2e-16
    if n in ('abs', 'absolute', 'fabs'):
        return abs(v(0))
    if n == 'sign' and not isinstance(v(0), Vec):
        return float((v(0) > 0) - (v(0) < 0))
    if n == 'sqrt' and not isinstance(v(0), Vec) and v(0) >= 0:
        return v(0) ** 0.5
    if n in ('max', 'amax', 'min', 'amin', 'sum', 'mean', 'float', 'atleast_1d', 'asarray', 'array', 'copy', 'any', 'all', 'ravel', 'squeeze', 'norm') and len(a) == 1:
        x = v(0)
        if isinstance(x, Vec) and n in REDUCE:
            return REDUCE[n](x)
        if n == 'norm':
            return abs(x)
        if isinstance(x, Vec) and n in ('any', 'all', 'float'):
            raise NoValue('any/all of several DOFs')
        return x
    if n in ('max', 'maximum', 'fmax') and len(a) == 2:
        x, y = v(0), v(1)
        return x.bin(y, max) if isinstance(x, Vec) else y.bin(x, max) if isinstance(y, Vec) else max(x, y)
    if n in ('add',):
        return v(0) + v(1)
    if n in ('sub', 'subtract'):
        return v(0) - v(1)
    if n in ('mult', 'multiply', 'mul'):
        return v(0) * v(1)
    if n in ('div', 'divide', 'truediv'):
        return v(0) / v(1)
    if n in ('neg', 'usub', 'negative'):
        return -v(0)
    raise NoValue(show(t)[:120])

# ---------------------------------------------------------------- numpy forces
class Cycles:
    """dataflow run of a cycle loop; the force law is an unknown function of the
    history state and the instant: force F(H, u), new state H'(H, u)"""
    def __init__(self, repo, mod, cls, fname, repeats):
        self.repo = repo
        self.fl = fl = F.Flow(repo, trace=self.trace)
        m = repo.method(mod, cls, fname)
        st = fl.start()
        fl.unroll = 8
        fl.keep, fl.soft = None, 10**6
        self.attrs = history_attrs(repo, mod, cls)
        ob = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
        self.obj = ob
        for nm in self.attrs:
            st.mut(ob.args[0]).fields[nm] = fl.alloc(st, None, 'arr', leaf('stale:' + nm), 'self', tag='a' + nm)
        st.mut(ob.args[0]).fields['__H'] = leaf('stale')
        st.mut(ob.args[0]).open = True
        fl.hooks['.init_history_harmonic'] = self.init
        fl.hooks['.init_history'] = self.init
        fl.hooks['.instant_force_harmonic'] = self.instant
        fl.hooks['attr:shape'] = lambda fl, st, b, name, node: None
        par = {}
        for p in ('unlt', 'unltdot', 'cst'):
            par[p] = fl.param(st, p, 'arr', owner='param:' + p)
        self.shapes = {'unlt': (NT, 1), 'unltdot': (NT, 1)}
        fl.shapes = {leaf(k): mk('tup', *[K(x) for x in v]) for k, v in self.shapes.items()}
        par['unlth0'] = fl.param(st, 'unlth0', 'arr', owner='param:unlth0')
        par['h'] = fl.param(st, 'h', 'arr', owner='param:h')
        names = [a.arg for a in m[2].args.args][1:]
        args = [par[n] for n in names if n in par]
        self.outs = fl.run(st, m[0], m[2], args, {'max_repeats': K(repeats), 'atol': leaf('atol'), 'rtol': leaf('rtol')},
                           selfref=ob, cls=m[1], qual='%s.%s' % (m[1].name, fname))

    def trace(self, e, st):
        return e.what if e.kind == 'cyc' else None

    def fields(self, st):
        return st.heap[self.obj.args[0]].fields

    def snapshot(self, st):
        return tuple(self.fl.val(st, self.fields(st)[a]) for a in self.attrs if a in self.fields(st))

    def put(self, st, H, node, f=None):
        fs = st.mut(self.obj.args[0]).fields
        for nm in self.attrs:
            fs[nm] = f if nm == 'fp' and f is not None else self.fl.alloc(st, node, 'arr', mk('hist', nm, H), 'self', tag='h' + nm)
        fs['__H'] = H
        fs['__S'] = mk('snap', *self.snapshot(st))

    def touched(self, st):
        """history modified since the last call of the force law"""
        s = self.fields(st).get('__S')
        return s is not None and s is not mk('snap', *self.snapshot(st))

    def init(self, fl, st, args, kw, node, base):
        if base is not self.obj:
            return None
        av = tuple(fl.val(st, a) for a in args) + tuple(fl.val(st, v) for v in kw.values())
        H = mk('H0', *av)
        self.put(st, H, node)
        fl.event(st, 'cyc', ('init', H.n), None, node)
        return [(st, NONE)]

    def instant(self, fl, st, args, kw, node, base):
        if base is not self.obj:
            return None
        names = ['unl', 'unldot', 'h', 'cst', 'update_prev']
        b = dict(zip(names, args))
        b.update(kw)
        u, ud = fl.val(st, b.get('unl', NONE)), fl.val(st, b.get('unldot', NONE))
        cs = fl.val(st, b.get('cst', NONE))
        H = self.fields(st)['__H']
        upd = b.get('update_prev', K(False))
        e = ('step', H.n, (u.n, ud.n, cs.n), self.touched(st), upd.args[0] if isk(upd) else None)
        fv = mk('F', H, u, ud, cs)
        f = fl.alloc(st, node, 'arr', fv, tag='F')
        d = fl.alloc(st, node, 'arr', mk('dF', H, u, ud, cs), tag='dF')
        dd = fl.alloc(st, node, 'arr', mk('dFd', H, u, ud, cs), tag='dFd')
        if isk(upd) and upd.args[0]:
            self.put(st, mk('H', H, u, ud, cs), node, f)
        fl.event(st, 'cyc', e, None, node)
        return [(st, mk('tup', f, d, dd))]

def history_attrs(repo, mod, cls):
    """attributes that the force law keeps between calls"""
    out = {'fp', 'up'}
    for m, c in repo.mro(mod, cls):
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name in ('init_history', 'init_history_harmonic', 'instant_force', 'instant_force_harmonic', 'update_history'):
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.args.args[0].arg:
                        out.add(n.attr)
    return sorted(out)

def rows(fl, st, v):
    """{i: value} of an array filled row by row; None if it is not"""
    t = fl.val(st, v)
    out = {}
    while True:
        t = fl.resolve(st, t)
        if t.op in ('np.asarray', 'np.array', 'np.copy', 'np.reshape') and t.args:
            t = t.args[0]
            continue
        if t.op == 'st' and t.args[1].op == 'ix':
            ix = t.args[1].args
            k = ix[0]
            if k.op == 'tup' and k.args:
                if not all(x.op == 'slice' and all(y is NONE for y in x.args) for x in k.args[1:]):
                    return None
                k = k.args[0]
            for x in ix[1:]:
                if not (x.op == 'slice' and all(y is NONE for y in x.args)):
                    return None
            if not (isk(k) and isinstance(k.args[0], int)):
                return None
            i = k.args[0] % NT
            out.setdefault(i, t.args[2])
            t = t.args[0]
            continue
        break
    for i in range(NT):
        out.setdefault(i, mk('rd', t, K(i)))
    return out

def inst_index(t, name):
    """the instant of a read of one row of a parameter"""
    if t.op == 'rd' and t.args[0] is leaf(name) and t.args[1].op == 'ix':
        k = t.args[1].args[0]
        if k.op == 'tup' and k.args:
            k = k.args[0]
        if isk(k) and isinstance(k.args[0], int):
            return k.args[0] % NT
    return None

def cycle_loop(c, mod, cls, fname, label):
    rel = os.path.relpath(mod.path, c.repo.root)
    for m in range(1, 5 if c.thorough else 4):
        c.parallel([('%s.%s max_repeats=%d' % (label, fname, m), lambda m=m: one(c, mod, cls, fname, label, m, rel), 60)])

def one(c, mod, cls, fname, label, m, rel):
    fn = c.repo.method(mod, cls, fname)
    wh = '%s:%s.%s' % (os.path.relpath(fn[0].path, c.repo.root), fn[1].name, fname)
    key = '%s.%s[max_repeats=%d] ' % (label, fname, m)
    try:
        r = Cycles(c.repo, mod, cls, fname, m)
    except F.FlowUndecided as e:
        c.ob(key + 'analysis', None, wh, e)
        return
    r.several = fn[1].name == BASE[1]
    fl = r.fl
    seen = set()
    verdict = {k: [True, ''] for k in ('initialised once', 'instants', 'continuity', 'count', 'independent', 'converged', 'returned')}
    def fail(k, v, why):
        if verdict[k][0] is True or verdict[k][0] is None and v is False:
            verdict[k] = [v, why]
    byn = F.term_of
    for st, v in r.outs:
        tr = [e for e in st.trace if isinstance(e, tuple)]
        inits = [i for i, e in enumerate(tr) if e[0] == 'init']
        steps = [e for e in tr if e[0] == 'step']
        if not steps:
            fail('count', False, 'a path evaluates no instant at all')
            continue
        fs = []
        if len(inits) != 1 or inits[0] != 0:
            fail('initialised once', False, 'history initialised %d time(s), %s the first instant' % (len(inits), 'before' if inits and inits[0] == 0 else 'not before'))
            continue
        if len(steps) % NT:
            fail('instants', False, '%d instants evaluated for a cycle of %d' % (len(steps), NT))
            continue
        H = byn(tr[0][1])
        if not contains(H, lambda x: x is leaf('unlth0')):
            fail('initialised once', None, 'initial state %s' % show(H)[:80])
        for i, e in enumerate(steps):
            u, ud, cs = [byn(x) for x in e[2]]
            idx = [inst_index(u, 'unlt'), inst_index(ud, 'unltdot'), inst_index(cs, 'cst')]
            if None in idx:
                fail('instants', None, 'argument of the force law %s' % show([u, ud, cs][idx.index(None)])[:80])
            elif any(q != i % NT for q in idx):
                fail('instants', False, 'step %d of a cycle evaluates rows %s of displacement, velocity, basis' % (i % NT, idx))
            if e[4] is not True:
                fail('continuity', False if e[4] is False else None, 'instant %d does not advance the history' % (i % NT))
            if byn(e[1]) is not H or e[3]:
                fail('continuity', False, 'step %d of cycle %d does not start from the state left by the previous step' % (i % NT, i // NT + 1))
            fs.append(mk('F', byn(e[1]), u, ud, cs))
            H = mk('H', byn(e[1]), u, ud, cs)
        k = len(steps) // NT
        seen.add(k)
        if k > max(m, 1):
            fail('count', False, '%d cycles with a limit of %d' % (k, m))
        last, prev = fs[-1], fs[-NT-1] if k > 1 else None
        if k < m:
            conv(fl, st, r, last, prev, k, fail)
        # returned values
        if v is None or v.op != 'tup' or len(v.args) < 3:
            fail('returned', None, 'result %s' % (show(v) if v is not None else v))
            continue
        for q, (op, what) in enumerate((('F', 'force'), ('dF', 'derivative'), ('dFd', 'velocity derivative'))):
            rw = rows(fl, st, v.args[q])
            if rw is None:
                fail('returned', None, '%s %s' % (what, show(fl.val(st, v.args[q]))[:100]))
                continue
            for i in range(NT):
                want = mk(op, *fs[(k-1)*NT + i].args)
                got = fl.resolve(st, rw[i])
                if got is want:
                    continue
                bad = got.op in ('F', 'dF', 'dFd') or got.op == 'rd' and not contains(got, lambda x: x.op in ('F', 'dF', 'dFd', 'call'))
                fail('returned', False if bad else None, '%s of instant %d is %s, not the value of the last cycle (%d)' % (what, i, show(got)[:90], k))
    if not r.outs:
        fail('count', False, 'no path returns')
    if max(seen, default=0) < m and verdict['count'][0] is True:
        fail('count', False, 'never more than %d cycle(s) with a limit of %d' % (max(seen, default=0), m))
    texts = {'initialised once': 'the history is initialised once, before the first instant, at the given position',
             'instants': 'each cycle evaluates every instant once, in order, with its own displacement, velocity and basis row',
             'continuity': 'each step (and each cycle) starts from the state left by the one before',
             'count': 'at least one and at most max_repeats complete cycles, and as many as the limit allows',
             'independent': 'the stopping test compares the end forces of two different cycles',
             'converged': 'cycles end early only when the absolute or relative change of the force is within tolerance',
             'returned': 'the returned forces and derivatives are those of the last cycle'}
    for k, (ok, why) in verdict.items():
        c.ob(key + texts[k], ok, wh, why)

def simple_rows(fl, st, t):
    """term in which reads of single rows of filled arrays are replaced by the stored values"""
    memo = {}
    def go(t):
        if t in memo:
            return memo[t]
        if not hasattr(t, 'op'):
            return t
        r = t
        if t.op in ('F', 'dF', 'dFd', 'H', 'H0', 'hist'):
            r = t
        elif t.op == 'rd' and t.args[1].op == 'ix' and contains(t.args[0], lambda x: x.op == 'st'):
            ix = list(t.args[1].args)
            k = ix[0]
            if k.op == 'tup' and k.args:
                ix = list(k.args) + ix[1:]
                k = ix[0]
            rest = ix[1:]
            if isk(k) and isinstance(k.args[0], int) and all(x.op == 'slice' and all(y is NONE for y in x.args) for x in rest):
                rw = rows(fl, st, t.args[0])
                if rw is not None and k.args[0] % NT in rw:
                    r = fl.resolve(st, rw[k.args[0] % NT])
        elif t.op in ('np.copy', 'copy') and len(t.args) == 1:
            r = go(t.args[0])
        elif any(hasattr(x, 'op') for x in t.args):
            r = mk(t.op, *[go(x) if hasattr(x, 'op') else x for x in t.args])
        memo[t] = r
        return r
    return go(t)

def conv(fl, st, r, last, prev, k, fail):
    """facts of a path that stops before the limit"""
    ends = {last}
    good, doubt, seen = False, None, []
    fp0 = [t for t in (mk('hist', 'fp', x) for x in [q for q in subterms(last) if q.op == 'H0'])]
    rng = random.Random(7)
    for t, truth in st.facts.items():
        if t.op not in ('lt', 'le') or not contains(t, lambda x: x is leaf('atol') or x is leaf('rtol')):
            continue
        a, b = t.args[:2]
        a, b = simple_rows(fl, st, a), simple_rows(fl, st, b)
        tol, m, ok = (a, b, not truth) if a in (leaf('atol'), leaf('rtol')) else (b, a, truth) if b in (leaf('atol'), leaf('rtol')) else (None, None, None)
        if tol is None:
            doubt = 'condition %s' % show(t)[:100]
            continue
        atoms = {x for x in subterms(m) if x.op in ('F', 'hist', 'rd') and not any(x is not y and contains(y, lambda z: z is x) for y in subterms(m) if y.op in ('F', 'hist', 'rd'))}
        mine = {x for x in atoms if x.op == 'F' or x.op == 'hist' or x.op == 'rd'}
        ref = prev if prev is not None else (fp0[0] if fp0 else None)
        if last not in mine and contains(m, lambda x: x.op == 'F') or (last in mine and ref not in mine and prev is not None):
            current = [x for x in mine if x.op == 'F']
            # current cycle against itself, or not this cycle at all
            about_now = last in mine
            if about_now:
                fail('independent', False, 'after cycle %d the test %s compares %s' % (k, show_small(t), 'the end force with itself' if len(current) == 1 else 'other instants'))
                continue
        if not ok:
            continue                     # this measure has not converged
        if last not in mine:
            if not any(x.op == 'F' for x in mine) and any(x.op != 'F' for x in mine if x is not ref):
                doubt = 'measure %s' % show_small(m)
            continue                     # belongs to an earlier cycle
        try:
            res = []
            for _ in range(6):
                x, y = rng.uniform(.5, 3) * rng.choice([1, -1]), rng.uniform(.5, 3) * rng.choice([1, -1])
                env = {last: x, ref: y}
                got = number(m, env)
                d = abs(x - y)
                if tol is leaf('atol'):
                    res.append(abs(got - d) < 1e-6 * d)
                else:
                    s = [d / abs(q) for q in (x, y) if q] + [d / max(abs(x), abs(y), 1e-300)]
                    res.append(any(abs(got - q) < 1e-6 * q for q in s))
            if all(res) and r.several:
                # several local DOFs: one number, that notices a change of any single DOF
                x = Vec((1.3, -0.7))
                for j in (0, 1):
                    y = Vec(z + 0.5 * (i == j) for i, z in enumerate(x))
                    got = number(m, {last: x, ref: y})
                    if isinstance(got, Vec):
                        fail('converged', False, 'the measure compared with %s has one value per local DOF: it cannot be tested for models with several local DOFs' % show(tol))
                        return
                    if not got > 0.05:
                        fail('converged', False, 'the measure compared with %s does not notice a change of one of several local DOFs: %s' % (show(tol), show_small(m)))
                        return
            if all(res):
                good = True
            else:
                fail('converged', False, 'the measure compared with %s is not the change of the force: %s' % (show(tol), show_small(m)))
                return
        except (NoValue, ZeroDivisionError) as e:
            doubt = str(e)
    if not good:
        fail('converged', None if doubt else False, doubt or 'cycle %d ends a run of several allowed cycles without a converged measure' % k)

def show_small(t):
    s = show(t)
    return s if len(s) < 90 else s[:87] + '...'

def subclasses(repo, base):
    out = []
    for m in repo.modules.values():
        for nm, cl in m.classes.items():
            if any(x[1].name == base for x in repo.mro(m, cl)):
                out.append((nm, m, cl))
    return sorted(out, key=lambda x: x[0])

def cycles(c):
    repo = c.repo
    tasks, done = [], set()
    for nm, m, cl in subclasses(repo, BASE[1]):
        for s in [s for q in repo.mro(m, cl) for s in q[1].body]:
            if isinstance(s, ast.FunctionDef) and s.name.startswith('local_force_history'):
                fn = repo.method(m, cl, s.name)
                if fn is None or (fn[1].name, s.name) in done:
                    continue
                calls = {x.func.attr for x in ast.walk(fn[2]) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
                done.add((fn[1].name, s.name))
                if 'roll' in calls:
                    continue
                for k in range(1, 5 if c.thorough else 4):
                    tasks.append(('%s.%s[max_repeats=%d]' % (fn[1].name, s.name, k),
                                  lambda m=m, cl=cl, s=s, fn=fn, k=k: one(c, m, cl, s.name, fn[1].name, k, ''), 100))
    c.parallel(tasks)
