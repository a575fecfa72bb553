"""Configuration (C28): documented keys, defaults, precedence of user values, restoration, damping update."""
import ast, re
from tsa import flow as F, sym as S, model as M
from tsa.flow import K, NONE, TRUE, FALSE, mk, leaf, ref, isk, show, poly, same, subterms
from checks import effects as E, contin, solver

CLASSES = ((contin.MOD, contin.CLS), (solver.MOD, solver.CLS))

def plain(fl, st, v):
    """the value of a number or array, the reference of a container"""
    if v.op == 'ref' and v.args[0] in st.heap and st.heap[v.args[0]].kind in ('dict', 'list', 'inst'):
        return v
    return fl.val(st, v)

def documented(doc):
    """{key: text} of the settings listed below the parameter `config` of a numpydoc docstring"""
    lines = (doc or '').expandtabs().split('\n')
    out, i = {}, 0
    while i < len(lines) and not re.match(r'\s*config\s*:', lines[i]):
        i += 1
    if i == len(lines):
        return out
    base = len(lines[i]) - len(lines[i].lstrip())
    ent = []
    for j in range(i + 1, len(lines)):
        l = lines[j]
        if not l.strip():
            continue
        ind = len(l) - len(l.lstrip())
        if ind <= base:
            break
        m = re.match(r'\s*([A-Za-z_]\w*)\s*:\s+(\S.*)', l)
        if m:
            ent.append((ind, j, m.group(1), m.group(2)))
    if not ent:
        return out
    lvl = min(e[0] for e in ent)
    ent = [e for e in ent if e[0] == lvl]
    for n, (ind, j, k, head) in enumerate(ent):
        body = [head]
        for l in lines[j + 1:]:
            if l.strip() and len(l) - len(l.lstrip()) <= lvl:
                break
            body.append(l.strip())
        out[k] = ' '.join(body)
    return out

def doc_default(text):
    """ast of the documented default or None"""
    m = re.search(r'[Dd]efault is ([^\n]*?)(?:\.\s|\.$|$)', text) or re.search(r'\bdefault\s+(\[[^\]]*\]|[\w.+-]+)', text)
    if not m:
        return None
    t = m.group(1).strip().strip('`').strip()
    t = re.sub(r'\s*\(.*\)$', '', t)
    m2 = re.match(r'the input parameter `(\w+)`?$', t)
    if m2:
        t = m2.group(1)
    try:
        return ast.parse(t, mode='eval').body
    except SyntaxError:
        return None

def matches(node, fl, st, v, params):
    """does the default v agree with the documented expression?  None when not comparable"""
    v = plain(fl, st, v)
    if isinstance(node, ast.List):
        if v.op == 'ref':
            c = st.heap[v.args[0]]
            if c.n is None:
                return None
            want = [x.value for x in node.elts if isinstance(x, ast.Constant)]
            got = [fl.val(st, c.fields[i]) for i in range(c.n) if i in c.fields]
            if not want:
                return None
            return len(got) == len(want) and all(isk(g) and g.args[0] == w for g, w in zip(got, want))
        return None
    if isinstance(node, ast.Attribute) and node.attr == 'inf':
        return (v.op == 'ext' and str(v.args[0]).endswith('.inf')) or (isk(v) and v.args[0] == float('inf'))
    if isinstance(node, ast.Name) and node.id not in params:
        return isk(v) and isinstance(v.args[0], str) and v.args[0].upper() == node.id.upper() if isk(v) else None
    if isinstance(node, ast.Constant):
        if not isk(v):
            return None if v.op not in ('leaf', 'mult', 'div', 'add') else False
        a, b = v.args[0], node.value
        if isinstance(a, str) and isinstance(b, str):
            return a.upper() == b.upper()
        return a == b
    def term(n):
        if isinstance(n, ast.Name) and n.id in params:
            return leaf(n.id)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return K(n.value)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Div, ast.Add, ast.Sub)):
            a, b = term(n.left), term(n.right)
            if a is None or b is None:
                return None
            return mk({ast.Mult: 'mult', ast.Div: 'div', ast.Add: 'add', ast.Sub: 'sub'}[type(n.op)], a, b)
        return None
    t = term(node)
    return None if t is None else same(t, v)

def constructed(repo, modname, clsname, given=None):
    """states of the object built with the given configuration: [(flow, state, config cell or None)]"""
    mod = repo.modules[modname]
    cls = mod.classes[clsname]
    m, c, node = repo.method(mod, cls, '__init__')[0], repo.method(mod, cls, '__init__')[1], repo.method(mod, cls, '__init__')[2]
    fl = F.Flow(repo)
    st = fl.start()
    self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
    kw = {}
    for a in node.args.args[1:]:
        if a.arg == 'config':
            kw['config'] = fl.alloc(st, None, 'dict', leaf('config'), 'param:config', tag='config', fields=dict(given or {}), open=False)
        elif a.arg == 'solver':
            kw['solver'] = fl.param(st, 'solver', 'unk')
        elif a.arg in ('CtoP', 'RPtoC'):
            kw[a.arg] = NONE
        else:
            kw[a.arg] = leaf(a.arg)
    outs = fl.run(st, m, node, [], kw, selfref=self_, cls=c, qual=clsname + '.__init__')
    return fl, [(s, self_) for s, v in outs], kw

def config_cell(st, self_):
    r = st.heap[self_.args[0]].fields.get('config')
    if r is None or r.op != 'ref' or len(r.args) != 1 or r.args[0] not in st.heap:
        return None
    c = st.heap[r.args[0]]
    return c if c.kind == 'dict' else None

def reads(tree, cls):
    """(keys mentioned as constants outside dictionary displays and docstrings, keys read directly from self.config)"""
    docs, keys = set(), set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(id(n.value))
        if isinstance(n, ast.Dict):
            keys.update(id(k) for k in n.keys if k is not None)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.slice, ast.Constant):
            keys.add(id(n.slice))
    used, direct = set(), {}
    init = {id(x) for f in cls.body if isinstance(f, ast.FunctionDef) and f.name == '__init__' for x in ast.walk(f)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in docs and id(n) not in keys and id(n) not in init:
            used.add(n.value)
    for n in ast.walk(cls):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str) \
                and isinstance(n.value, ast.Attribute) and n.value.attr == 'config':
            direct.setdefault(n.slice.value, n.lineno)
    return used, direct

def keys_job(c, modname, clsname):
    repo = c.repo
    mod = repo.modules.get(modname)
    cls = mod and mod.classes.get(clsname)
    if not cls:
        c.anchor_lost('%s.%s not found' % (modname, clsname))
        return
    rel = modname.replace('.', '/') + '.py:' + clsname
    docs = documented(ast.get_docstring(cls))
    if len(docs) < 3:
        c.ob(clsname + ' documented settings', None, rel, 'no list of settings found in the documentation')
    fl, outs, kw = constructed(repo, modname, clsname)
    used, direct = reads(mod.tree, cls)
    params = set(kw)
    for st, self_ in outs[:1]:
        cell = config_cell(st, self_)
        if cell is None:
            c.ob(clsname + ' defaults', None, rel + '.__init__', 'the configuration is not a dictionary the analysis can follow')
            return
        have = set(cell.fields)
        for k in sorted(docs):
            c.ob('%s: documented setting %s has a default' % (clsname, k), True if k in have else None if cell.open else False, rel + '.__init__',
                 'the documented setting %r is not among the defaults %s' % (k, sorted(have)))
            if k in have:
                d = doc_default(docs[k])
                v = matches(d, fl, st, cell.fields[k], params) if d is not None else None
                if v is not None:
                    c.ob('%s: default of %s is the documented one' % (clsname, k), v, rel + '.__init__',
                         'documented %s, code %s' % (ast.unparse(d), show(fl.val(st, cell.fields[k]))))
            if k in solver.KEYS and k not in used:
                continue                # read through a variable; their use is decided by C13
            c.ob('%s: documented setting %s is read' % (clsname, k), k in used, rel,
                 'no statement outside the constructor refers to the documented setting %r' % k)
        for k, line in sorted(direct.items()):
            c.ob('%s: setting %s which is read has a default' % (clsname, k), True if k in have else None if cell.open else False, '%s:%d' % (rel, line),
                 'self.config[%r] is read but has no default' % k)
            c.ob('%s: setting %s which is read is documented' % (clsname, k), k in docs or not docs or None, '%s:%d' % (rel, line),
                 'self.config[%r] is read but not documented' % k)
    # user values take precedence, in the constructor
    for k in sorted(set(docs) & have):
        v0 = leaf('user:' + k)
        bad, und = None, None
        fl, outs, kw = constructed(repo, modname, clsname, {k: v0})
        for st, self_ in outs:
            cell = config_cell(st, self_)
            if cell is None:
                und = 'not a dictionary'
                continue
            v = cell.fields.get(k)
            if v is None:
                bad = 'missing'
                continue
            t = plain(fl, st, v)
            if t is v0 or same(t, v0):
                continue
            if v.op == 'ref' and any(x is v0 for f in [st.heap[v.args[0]].content] for x in subterms(f)):
                continue
            if any(x is v0 for x in subterms(deep(fl, st, v))):
                if k.endswith('List'):
                    continue
                und = show(t)[:200]
            else:
                bad = show(t)[:200]
        c.ob('%s: a given %s overrides the default' % (clsname, k), False if bad else None if und or not outs else True, rel + '.__init__',
             'config[%r] given by the user becomes %s' % (k, bad or und))
    # and after editing
    r = repo.method(mod, cls, 'edit_config')
    if r:
        for k in sorted(set(docs) & have):
            fl = F.Flow(repo)
            st = fl.start()
            cfg = fl.alloc(st, None, 'dict', leaf('config'), 'self', tag='config', fields={q: leaf('cfg:' + q) for q in have})
            self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls), fields={'config': cfg})
            new = fl.alloc(st, None, 'dict', leaf('new'), 'param:new_config', tag='new', fields={k: leaf('user:' + k)})
            outs = fl.run(st, r[0], r[2], [new], {}, selfref=self_, cls=r[1], qual=clsname + '.edit_config')
            ok, what = True, ''
            for s, v in outs:
                cell = config_cell(s, self_)
                if cell is None:
                    ok = None if ok else ok
                    continue
                for q in have:
                    w = leaf('user:' + q) if q == k else leaf('cfg:' + q)
                    t = cell.fields.get(q)
                    if t is None or not same(fl.val(s, t), w):
                        ok, what = False, '%s becomes %s' % (q, t is not None and show(fl.val(s, t)))
            c.ob('%s.edit_config changes exactly %s' % (clsname, k), ok if outs else None, rel + '.edit_config', what)

def deep(fl, st, v, d=0):
    if v.op == 'ref' and d < 5 and v.args[0] in st.heap:
        cell = st.heap[v.args[0]]
        return mk('deep', cell.content, *[deep(fl, st, x, d + 1) for x in cell.fields.values()])
    return v

# ------------------------------------------------------------- restoration
class Cont(contin.Run):
    """the continuation with every opaque call allowed to raise"""
    def __init__(self, repo, cb, dynamic):
        self.first = True
        super().__init__(repo, 0, cb, dynamic=dynamic)
    def note(self, fl, st):
        fl.sinks[-1].append(st.copy())
    def nsolve(self, fl, st, args, kw, node, base):
        self.note(fl, st)
        return super().nsolve(fl, st, args, kw, node, base)
    def predict(self, fl, st, args, kw, node, base):
        self.note(fl, st)
        return super().predict(fl, st, args, kw, node, base)
    def callback(self, fl, st, args, kw, node, base):
        self.note(fl, st)
        return super().callback(fl, st, args, kw, node, base)

class Omp(solver.Run):
    def fun(self, fl, st, args, kw, node, base):
        fl.sinks[-1].append(st.copy())
        return super().fun(fl, st, args, kw, node, base)

def compare_config(c, key, where, fl, self_, first, states):
    """first: {key: term} at entry; states: [(label, state)]"""
    bad, und = {}, {}
    for lab, st in states:
        cell = config_cell(st, self_)
        if cell is None:
            und[lab] = 'self.config is replaced'
            continue
        for k, v in first.items():
            t = cell.fields.get(k)
            if t is None:
                bad.setdefault(k, (lab, 'removed'))
                continue
            tv = plain(fl, st, t)
            if tv is v or same(tv, v) or t is v:
                continue
            d = fl.resolve(st, tv) if hasattr(fl, 'resolve') else tv
            if d is v:
                continue
            if d.op == 'phi' or d.op == 'ite':
                vs = set(subterms(d, fl.phi)) - {d}
                leaves = [x for x in vs if x.op == 'leaf']
                if all(x is v for x in leaves) and leaves:
                    continue
            bad.setdefault(k, (lab, show(tv)[:160]))
        for k in set(cell.fields) - set(first):
            v = cell.fields[k]
            if not (v.op in ('item', 'leaf') or v.op == 'ref'):
                bad.setdefault(k, (lab, show(v)[:160]))
    for k in sorted(first):
        if k in bad:
            c.ob('%s leaves config[%r] as it was' % (key, k), False, where, 'on %s the setting is %s' % bad[k])
        else:
            c.ob('%s leaves config[%r] as it was' % (key, k), None if und or not states else True, where, '; '.join(sorted(set(und.values()))))

def initial_fields(run):
    c = run.fl
    return None

def restore_cont(c, cb, dynamic):
    init = {}
    class R(Cont):
        def __init__(self, repo, cb, dynamic):
            start = F.Flow.run
            def run(fl, st, *a, **k):
                cell = st.mut(self.cfg.args[0])
                for q in ('FracLam', 'corrector', 'DynamicCtoP'):
                    cell.fields.setdefault(q, leaf('cfg:' + q))
                if not init:
                    init.update(cell.fields)
                return start(fl, st, *a, **k)
            F.Flow.run = run
            try:
                super().__init__(repo, cb, dynamic)
            finally:
                F.Flow.run = start
    r = R(c.repo, cb, dynamic)
    states = [('normal return', s) for s, v in r.outs] + [('an exception of the user function', s) for s in r.fl.sinks[0]]
    key = 'Continuation.continuation[callback=%s,dynamic=%s]' % (bool(cb), dynamic)
    compare_config(c, key, r.where, r.fl, r.self_, init, states)
    if not r.outs:
        c.ob(key + ' returns', None, r.where, 'no return found')
    bad = und = None
    n = 0
    for call, e in [(e.what, e) for e in r.fl.events if e.kind == 'solve']:
        n += 1
        kw = e.data[1]
        for k, want in (('xtol', leaf('cfg:xtol')), ('verbose', leaf('cfg:nsolve_verbose'))):
            v = kw.get(k)
            if v is None and len(e.data[0]) <= 2:
                bad = '%s is not passed at %s' % (k, e.where)
            elif v is None:
                und = und or '%s not passed by keyword at %s' % (k, e.where)
            elif not same(r.fl.val(e.st, v), want):
                bad = '%s=%s at %s' % (k, show(r.fl.val(e.st, v)), e.where)
    c.ob(key + ' passes its xtol and nsolve_verbose to the solver', False if bad else None if und or not n else True, r.where, bad or und or '%d calls' % n)

def restore_omp(c, steps, reform, ls, xarg):
    init = {}
    class R(Omp):
        def __init__(self, *a, **k):
            start = F.Flow.run
            me = self
            def run(fl, st, *aa, **kk):
                if not init:
                    init.update(st.heap[me.cfg.args[0]].fields)
                return start(fl, st, *aa, **kk)
            F.Flow.run = run
            try:
                super().__init__(*a, **k)
            finally:
                F.Flow.run = start
    r = R(c.repo, ('xtol',), ('rtol',), steps, reform=reform, ls=ls, xarg=xarg)
    states = [('normal return', s) for s, v in r.outs] + [('an exception of the user function', s) for s in r.fl.sinks[0]]
    key = 'NonlinearSolverOMP.nsolve[%s,reform_freq=%d,line_search=%d,%s]' % (steps or 'any number of steps', reform, ls, 'xtol given' if xarg else 'xtol from config')
    compare_config(c, key, 'tmdsimpy/jax/solvers.py:NonlinearSolverOMP.nsolve', r.fl, r.self_, init, states)

def damping_update(c):
    w = M.World(c.repo, 0)
    from checks import frf
    vs = w.system()
    wh = 'tmdsimpy/vibration_system.py:VibrationSystem.set_new_C'
    old = w.leaf('Cold', w.Nd, w.Nd)
    for ab in (None, w.leaf('ab', 2)):
        vs.attrs['C'], vs.attrs['ab'] = old, ab
        before = dict(vs.attrs)
        w.it.call(frf.method(w, vs, 'set_new_C'), [], {})
        tag = 'set_new_C without arguments[%s]' % ('proportional damping' if ab is not None else 'no proportional damping')
        frf.same_array(c, tag + ' keeps C', w, vs.attrs.get('C'), (w.Nd, w.Nd), lambda i, j: S.elem('Cold', (i, j)), wh)
        c.ob(tag + ' keeps the other attributes', all(vs.attrs.get(k) is v for k, v in before.items() if k != 'C'), wh,
             [k for k, v in before.items() if vs.attrs.get(k) is not v])
    vs.attrs['C'], vs.attrs['ab'] = old, None
    w.it.call(frf.method(w, vs, 'set_new_C'), [], {'C': w.leaf('Cn', w.Nd, w.Nd)})
    frf.same_array(c, 'set_new_C stores a given matrix', w, vs.attrs.get('C'), (w.Nd, w.Nd), lambda i, j: S.elem('Cn', (i, j)), wh)
    vs.attrs['C'], vs.attrs['ab'] = old, None
    w.it.call(frf.method(w, vs, 'set_new_C'), [], {'ab': w.leaf('ab', 2), 'C': w.leaf('Cn', w.Nd, w.Nd)})
    frf.same_array(c, 'set_new_C prefers proportional coefficients', w, vs.attrs.get('C'), (w.Nd, w.Nd),
                   lambda i, j: S.elem('ab', (S.ZERO,)) * S.elem('M', (i, j)) + S.elem('ab', (S.ONE,)) * S.elem('K', (i, j)), wh)

def output_arg(c):
    """the argument `verbose` of nsolve takes precedence over the configuration; without it the configuration decides"""
    key, wh = 'NonlinearSolverOMP.nsolve verbose=%s with configuration %s', 'tmdsimpy/jax/solvers.py:NonlinearSolverOMP.nsolve'
    for cfg in (True, False):
        for arg, name in ((F.NONE, 'None'), (F.TRUE, 'True'), (F.FALSE, 'False')):
            r = Omp(c.repo, ('xtol',), (), 2, verbose=cfg, varg=arg)
            want = cfg if arg is F.NONE else arg is F.TRUE
            k = key % (name, cfg)
            if not r.outs:
                c.ob(k, None, wh, 'no result')
            else:
                c.ob(k, bool(r.prints) == want, wh, '%s: %s' % ('prints' if r.prints else 'prints nothing', sorted(set(r.prints))[:4]))

def base_solver(c):
    """the documented default of the step tolerance of both solvers, and the documented output switch of the base class"""
    from .solver import BASE
    mod = c.repo.modules[BASE[0]]
    cls = mod.classes[BASE[1]]
    m = c.repo.method(mod, cls, 'nsolve')
    wh = 'tmdsimpy/solvers.py:NonlinearSolver.nsolve'
    if m is None:
        c.anchor_lost('NonlinearSolver.nsolve')
        return
    for xt in ('given', 'default'):
        for vb in (True, False):
            fl = F.Flow(c.repo)
            st = fl.start()
            self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
            fun, X0 = fl.param(st, 'fun', 'unk'), fl.param(st, 'X0', 'arr', owner='param:X0')
            st.facts[F.mk('is', leaf('xtol'), F.NONE)] = False
            prints, opts = [], []
            fl.hooks['builtins.print'] = lambda fl, st, a, kw, node, base: prints.append(getattr(node, 'lineno', 0)) or [(st, F.NONE)]
            fl.hooks['call:fun'] = lambda fl, st, a, kw, node, base: [(st, F.mk('tup', fl.alloc(st, node, 'arr', F.mk('R', fl.val(st, a[0])), tag='R'), fl.alloc(st, node, 'arr', F.mk('J', fl.val(st, a[0])), tag='J')))]
            def root(fl, st, a, kw, node, base):
                v = kw.get('tol', F.NONE)
                o = kw.get('options')
                if o is not None and o.op == 'ref' and st.heap[o.args[0]].kind == 'dict':
                    v = st.heap[o.args[0]].fields.get('xtol', v)
                elif o is not None:
                    v = None
                opts.append(v if v is None else fl.val(st, v))
                return [(st, fl.alloc(st, node, 'dict', F.mk('sol'), tag='sol', fields={'x': fl.alloc(st, node, 'arr', leaf('xsol'), tag='x')}, open=True))]
            fl.hooks['scipy.optimize.root'] = root
            outs = fl.run(st, m[0], m[2], [fun, X0], {'verbose': F.K(vb), 'xtol': leaf('xtol') if xt == 'given' else F.NONE}, selfref=self_, cls=m[1], qual='NonlinearSolver.nsolve')
            key = 'NonlinearSolver.nsolve[xtol %s,verbose=%s] ' % (xt, vb)
            c.ob(key + 'prints only when asked', None if not outs else bool(prints) == vb, wh, 'prints at lines %s' % sorted(set(prints)))
            want = leaf('xtol') if xt == 'given' else None
            for o in opts or [None]:
                ok = None if o is None else same(o, want) if want is not None else default_tol(o)
                c.ob(key + 'step tolerance', ok, wh, 'the tolerance handed to scipy is %s' % (o is not None and show(o)))

def default_tol(t):
    """t is 1e-6 times the number of unknowns (True), something else built from constants and sizes (False) or unknown (None)"""
    p = F.poly(t)
    if p is None or len(p) != 1:
        return None if p is None else False
    (m, q), = p.items()
    if abs(float(q) - 1e-6) > 1e-15:
        return False
    s = [x for x in subterms(t) if x.op in ('len', 'shape', 'size', 'np.size', 'dim')]
    return True if s and all(any(y is leaf('X0') for y in subterms(x)) for x in s) else None

def omp_default(c):
    from . import solver
    r = Omp(c.repo, ('xtol',), (), 1, xarg=None)
    wh = 'tmdsimpy/jax/solvers.py:NonlinearSolverOMP.nsolve'
    n, bad, und = 0, None, None
    for st, v, ok in r.success_states():
        if not ok:
            continue
        n += 1
        ts = [x for f, val in st.facts.items() if val is True and f.op == 'lt' for x in f.args[1:2]]
        good = [x for x in ts if default_tol(r.deep(st, x))]
        if not good:
            bad = [show(x) for x in ts][:4]
    c.ob('NonlinearSolverOMP.nsolve default step tolerance', None if not n else not bad, wh, 'without argument and configuration the compared tolerances are %s' % bad)

def config(c):
    c.level = 'other'
    c.small = 0
    c.rule('R28a keys', 'every setting listed in the class documentation has a default in the configuration the constructor builds, with the '
           'documented value where that is an expression, and is referred to by the code; every key read from self.config has a default')
    c.rule('R28b precedence', 'the constructor (and edit_config) called with an arbitrary value for one key stores exactly that value under that key')
    c.rule('R28c restoration', 'at every normal and exceptional exit of the continuation and of the solver every entry of self.config equals its value at '
           'entry; any call of the user function, solver or callback may raise')
    c.rule('R28d arguments', 'an argument of nsolve (verbose, xtol) takes precedence over the configuration, which takes precedence over the documented '
           'default 1e-6 times the number of unknowns; print is reached exactly when output is asked for')
    c.repo
    tasks = []
    def add(key, fn, *a, t=300):
        def go():
            try:
                fn(c, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        tasks.append((key, go, t))
    for m, k in CLASSES:
        add('keys of ' + k, keys_job, m, k)
    for cb in (True, False):
        for dyn in (True, False):
            add('continuation %s %s' % (cb, dyn), restore_cont, cb, dyn)
    for steps, reform, ls, xarg in ((2, 1, 0, True), (2, 1, 0, False), (3, 2, 0, True), (2, 1, 2, True), (None, 1, 0, True)):
        add('omp %s %s %s %s' % (steps, reform, ls, xarg), restore_omp, steps, reform, ls, xarg)
    add('set_new_C', damping_update)
    add('verbose argument', output_arg)
    add('base solver', base_solver)
    add('default tolerance', omp_default)
    c.parallel(tasks)
