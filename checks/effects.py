"""C14 (caller-owned storage), C15 (purity of force evaluations): ownership and effect analysis."""
import ast, re
from tsa import flow as F
from tsa.flow import K, NONE, TRUE, FALSE, mk, leaf, isk, show, subterms

SCALAR = re.compile(r'\b(int|integer|float|double|bool|boolean|str|string|complex|scalar|number)\b', re.I)
ARRAY = re.compile(r'ndarray|\barray|\bmatrix|\bvector|jax\.Array|array_like|\bArray', re.I)
FUNC = re.compile(r'function|callable|handle|lambda', re.I)

def doc_types(doc):
    """{parameter: type text} of a numpydoc docstring"""
    out = {}
    if not doc:
        return out
    lines = doc.expandtabs().split('\n')
    sec = None
    for i, l in enumerate(lines):
        if i + 1 < len(lines) and re.match(r'^\s*-{3,}\s*$', lines[i+1]) and l.strip():
            sec = l.strip().lower()
            indent = len(l) - len(l.lstrip())
            continue
        if sec in ('parameters', 'other parameters'):
            if len(l) - len(l.lstrip()) == indent and l.strip():
                m = re.match(r'^\s*([\w\s,*`]+?)\s*:\s*(.*)$', l)
                if m:
                    t = m.group(2)
                    j = i + 1
                    for n in re.split(r'[,\s]+', m.group(1).replace('*', '').replace('`', '')):
                        if n:
                            out[n] = t
    return out

def doc_kind(t):
    if t is None:
        return None
    if ARRAY.search(t):
        return 'arr'
    if re.search(r'\bdict', t, re.I):
        return 'dict'
    if re.search(r'\blist\b', t, re.I):
        return 'list'
    if FUNC.search(t):
        return 'unk'
    if SCALAR.search(t):
        return 'scal'
    return None

def make_param(fl, st, name, kind, owner):
    if kind == 'scal':
        return leaf(owner.split(':')[0] + ':' + name) if False else leaf(name)
    return fl.param(st, name, kind if kind else 'unk', owner=owner, open=True)

def args_of(fnode, skip_self):
    a = fnode.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if skip_self and names:
        names = names[1:]
    return names, [x.arg for x in a.kwonlyargs]

def is_static(fnode):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in fnode.decorator_list)

def default_map(fnode):
    a = fnode.args
    names = [x.arg for x in a.posonlyargs + a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d

def variants(fnode):
    """sets of optional arguments left out: none, all, and for several optional arguments each one alone given or alone left out"""
    d = default_map(fnode)
    none = [k for k, v in d.items() if isinstance(v, ast.Constant) and v.value is None]
    out = [frozenset(), frozenset(d)]
    if len(none) >= 2:
        for k in none:
            out += [frozenset(none) - {k}, frozenset({k})]
    elif none:
        out.append(frozenset(none))
    return list(dict.fromkeys(out))

def string_keys(mod):
    out = set()
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            out.add(n.slice.value)
        if isinstance(n, ast.Dict):
            out |= {k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str)}
    return sorted(out)

def build_args(fl, st, fnode, types, prefix, method, use_defaults=(), mod=None):
    names, kwonly = args_of(fnode, method and not is_static(fnode))
    defs = default_map(fnode)
    kw = {}
    for n in names + kwonly:
        if n in use_defaults:
            continue
        kind = doc_kind(types.get(n))
        if kind is None and n in defs and isinstance(defs[n], ast.Constant) and isinstance(defs[n].value, (int, float, str, bool)) and defs[n].value is not None:
            kind = 'scal'
        if kind is None and n in defs and isinstance(defs[n], (ast.Dict, ast.List)):
            kind = 'dict' if isinstance(defs[n], ast.Dict) else 'list'
        kw[n] = make_param(fl, st, n, kind, prefix + n)
        ks = string_keys(mod) if kind == 'dict' and mod is not None else ()
        if ks and len(ks) <= 35:
            c = st.mut(kw[n].args[0])
            c.open = False
            for k in ks:
                c.fields[k] = fl.param(st, '%s[%r]' % (n, k), 'unk', owner='item:' + prefix + n, open=True)
    if fnode.args.vararg:
        pass
    return kw

class Unit:
    """one public function, or one method of one class"""
    def __init__(self, mod, cls, fnode, name, owner_cls=None):
        self.mod, self.cls, self.fnode, self.name, self.owner_cls = mod, cls, fnode, name, owner_cls
    @property
    def label(self):
        p = self.mod.path
        i = p.find('tmdsimpy/')
        return '%s:%s%s' % (p[i:] if i >= 0 else p, (self.cls.name + '.') if self.cls is not None else '', self.name)

def units(repo):
    fs, cs = [], []
    for name in sorted(repo.modules):
        mod = repo.modules[name]
        for f, node in sorted(mod.funcs.items()):
            fs.append(Unit(mod, None, node, f))
        for cn, c in sorted(mod.classes.items()):
            cs.append((mod, c))
    return fs, cs

def methods(repo, mod, cls):
    """{name: (mod, class, node)} including inherited ones"""
    out = {}
    for m, c in repo.mro(mod, cls):
        for n in c.body:
            if isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, (m, c, n))
    return out

def outside(owner):
    while owner is not None and owner.startswith('item:'):
        owner = owner[5:]
    return owner is not None and owner.split(':')[0] in ('param', 'ctor', 'default', 'retained')

class Analysis:
    """effects of one function, or of a class: constructor, then every method on the constructed object"""
    def __init__(self, repo):
        self.repo = repo
        self.found = {}            # (where, owner, via) -> event kind
        self.maybe = {}
        self.functions = set()
        self.problems = []

    def flow(self):
        fl = F.Flow(self.repo)
        fl.keep = lambda t: False
        fl.soft = 8
        return fl

    def collect(self, fl, label):
        self.functions |= fl.functions
        for e in fl.events:
            if e.kind == 'write' and outside(e.data[0]):
                cid, view, how = e.what
                certain = e.data[2] and e.data[1] != 'num'
                (self.found if certain else self.maybe).setdefault((e.where, e.data[0], label), how)
            elif e.kind == 'maybe-write' and outside(e.data):
                self.maybe.setdefault((e.where, e.data, label), 'aug')

    def function(self, u):
        types = doc_types(ast.get_docstring(u.fnode))
        for left in variants(u.fnode):
            fl = self.flow()
            st = fl.start()
            try:
                kw = build_args(fl, st, u.fnode, types, 'param:', False, use_defaults=left, mod=u.mod)
                fl.run(st, u.mod, u.fnode, [], kw, qual=u.name)
            finally:
                self.collect(fl, u.label)

    # ------------------------------------------------------------------ classes
    def construct(self, mod, cls, defaults=frozenset()):
        """states after the constructor, with the created object"""
        ms = methods(self.repo, mod, cls)
        fl = self.flow()
        st = fl.start()
        self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls))
        if '__init__' not in ms:
            return fl, [(st, self_)]
        m, c, node = ms['__init__']
        types = doc_types(ast.get_docstring(c))
        types.update(doc_types(ast.get_docstring(cls)))
        types.update(doc_types(ast.get_docstring(node)))
        kw = build_args(fl, st, node, types, 'param:', True, use_defaults=defaults, mod=m)
        outs = fl.run(st, m, node, [], kw, selfref=self_, cls=c, qual=cls.name + '.__init__')
        return fl, [(s, self_) for s, v in outs]

    def retained(self, st, self_, tag):
        """{attribute: origin} of attributes that are (views of) storage owned by the caller"""
        out = {}
        for k, v in st.heap[self_.args[0]].fields.items():
            for x in subterms(v):
                if x.op == 'ref' and x.args[0] in st.heap:
                    cell = st.heap[x.args[0]]
                    if outside(cell.owner) and cell.kind in ('arr', 'dict', 'list', 'unk', 'num'):
                        out[k] = (cell.owner, cell.kind, tag)
        return out

    def cls(self, mod, cls):
        """two rounds: the first finds attributes that keep caller storage, the second runs every method with those"""
        ms = methods(self.repo, mod, cls)
        p = mod.path
        lab = lambda n: '%s:%s.%s' % (p[p.find('tmdsimpy/'):], cls.name, n)
        base, kept = {}, {}
        for defaults in variants(methods(self.repo, mod, cls)['__init__'][2]) if '__init__' in methods(self.repo, mod, cls) else [frozenset()]:
            fl, outs = self.construct(mod, cls, defaults)
            self.collect(fl, lab('__init__'))
            for st, self_ in outs[:6]:
                for k, v in st.heap[self_.args[0]].fields.items():
                    base.setdefault(k, []).append((st, v))
                kept.update({k: v for k, v in self.retained(st, self_, '__init__').items() if k not in kept})
        names = [n for n in ms if n != '__init__']
        for rnd in range(2):
            for n in names:
                if rnd == 1 and not kept:
                    break
                m, c, node = ms[n]
                types = doc_types(ast.get_docstring(node))
                if not types:
                    for m2, c2 in self.repo.mro(mod, cls):
                        for x in c2.body:
                            if isinstance(x, ast.FunctionDef) and x.name == n:
                                types = types or doc_types(ast.get_docstring(x))
                for left in variants(node):
                    fl = self.flow()
                    st = fl.start()
                    self_ = self.object(fl, st, mod, cls, base, kept if rnd else {})
                    try:
                        kw = build_args(fl, st, node, types, 'param:', True, use_defaults=left, mod=m)
                        outs = fl.run(st, m, node, [], kw, selfref=None if is_static(node) else self_, cls=c, qual=cls.name + '.' + n)
                        if rnd == 0:
                            for s, v in outs:
                                if self_.args[0] in s.heap:
                                    kept.update({k: v for k, v in self.retained(s, self_, n).items() if k not in kept})
                    except F.FlowUndecided as e:
                        self.problems.append((lab(n), str(e)))
                    self.collect(fl, lab(n))
        return kept

    def object(self, fl, st, mod, cls, base, kept):
        """an object of the class after an arbitrary history: attributes hold arbitrary values, storage owned by the object unless kept from a caller"""
        self_ = fl.alloc(st, cls, 'inst', leaf('self'), 'self', cls=(mod, cls), open=True)
        f = st.mut(self_.args[0]).fields
        for k in sorted(set(base) | set(kept)):
            name = 'self.%s' % k
            if k in kept:
                owner, kind, tag = kept[k]
                f[k] = fl.param(st, name, kind if kind != 'num' else 'unk', owner='retained:%s (kept by %s)' % (owner.split(':', 1)[1], tag), open=True)
                continue
            vals = base.get(k, [])
            kinds = set()
            for s, v in vals:
                kinds.add(s.heap[v.args[0]].kind if v.op == 'ref' else 'scal' if isk(v) and v is not NONE or v.op not in ('k', 'fn', 'bound', 'gfn', 'tup') else v.op)
            kinds.discard('k')
            if len(kinds) == 1 and list(kinds)[0] in ('fn', 'bound', 'gfn', 'tup', 'partial') and len(vals) == 1:
                f[k] = leaf(name)
                continue
            if kinds == {'scal'}:
                f[k] = leaf(name)
            elif len(kinds) == 1 and list(kinds)[0] in ('arr', 'dict', 'list'):
                f[k] = fl.param(st, name, list(kinds)[0], owner='self', open=True)
                if kinds == {'dict'}:
                    for s, v in vals:
                        for key, w in s.heap[v.args[0]].fields.items():
                            if w.op == 'ref' and outside(s.heap[w.args[0]].owner):
                                d = s.heap[w.args[0]]
                                st.mut(f[k].args[0]).fields[key] = fl.param(st, '%s[%r]' % (name, key), d.kind if d.kind != 'num' else 'unk',
                                    owner='retained:%s (kept in %s)' % (d.owner.split(':', 1)[1], k), open=True)
            else:
                f[k] = fl.param(st, name, 'unk', owner='self', open=True)
        return self_

# ---------------------------------------------------------------------- C14
def ownership(c):
    repo = c.repo
    c.level, c.small = 'other', 0
    c.rule('ownership', 'every storage cell reachable from a parameter, a constructor argument kept by an object or a mutable default is owned by the caller; '
                        'no in-place store, mutating method or out= argument may reach such a cell')
    fs, cs = units(repo)
    jobs = []
    def fjob(u):
        def thunk():
            a = Analysis(repo)
            a.function(u)
            report(c, a, u.label)
        return thunk
    def cjob(mod, cls):
        def thunk():
            a = Analysis(repo)
            kept = a.cls(mod, cls)
            p = mod.path
            lab = '%s:%s' % (p[p.find('tmdsimpy/'):], cls.name)
            for n in methods(repo, mod, cls):
                report(c, a, '%s.%s' % (lab, n))
            if kept:
                c.ob('%s: methods analysed again with kept caller storage' % lab, True, lab,
                     ', '.join('%s (%s)' % (k, v[0]) for k, v in sorted(kept.items())))
        return thunk
    for u in fs:
        jobs.append((u.label, fjob(u), 120))
    for mod, cls in cs:
        p = mod.path
        jobs.append(('%s:%s' % (p[p.find('tmdsimpy/'):], cls.name), cjob(mod, cls), 200))
    c.parallel(jobs)

def report(c, a, label):
    bad = [(k, h) for k, h in a.found.items() if k[2] == label]
    may = [(k, h) for k, h in a.maybe.items() if k[2] == label]
    prob = [x for x in a.problems if x[0] == label]
    if bad:
        seen = set()
        for (where, owner, _), h in bad:
            site = where.rsplit(':', 1)[0]
            if (site, owner) in seen:
                continue
            seen.add((site, owner))
            c.ob('%s modifies %s in %s' % (label, owner, site), False, where, 'storage owned by the caller (%s) is modified in place (%s)' % (owner, h))
        return
    v = None if may or prob else True
    c.ob('%s leaves caller-owned storage unchanged' % label, v, label,
         '; '.join(['possible write to %s at %s' % (k[1], k[0]) for k, h in may] + [x[1] for x in prob]))

# ---------------------------------------------------------------------- C15
MUTATORS = ('init_', 'update_', 'set_', 'reset_', 'add_', 'edit_', '__init__')
FORCE = ('tmdsimpy.nlforces.nonlinear_force', 'NonlinearForce')

def is_force(repo, mod, cls):
    return any(m.name == FORCE[0] and k.name == FORCE[1] for m, k in repo.mro(mod, cls))

def mutator(n):
    return n.startswith(MUTATORS)

class Purity:
    def __init__(self, repo, mod, cls):
        self.repo, self.mod, self.k = repo, mod, cls
        self.a = Analysis(repo)
        p = mod.path
        self.label = '%s:%s' % (p[p.find('tmdsimpy/'):], cls.name)
        self.ms = methods(repo, mod, cls)
        self.base = {}
        for n in ('__init__',):
            for defaults in variants(self.ms[n][2]) if n in self.ms else [frozenset()]:
                fl, outs = self.a.construct(mod, cls, defaults)
                for st, self_ in outs[:6]:
                    for k, v in st.heap[self_.args[0]].fields.items():
                        self.base.setdefault(k, []).append((st, v))
        # attributes created by the history methods
        self.history = set()
        for n, (m, c, node) in self.ms.items():
            if n.startswith(('init_', 'update_')):
                for x in ast.walk(node):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                        self.history.add(x.attr)
        self.attrs = set(self.base) | self.history
        # a class whose constructor calls the history methods: same attributes
    def run(self, n, fixed=None):
        m, c, node = self.ms[n]
        fl = self.a.flow()
        fl.soft = 12
        st = fl.start()
        base = dict(self.base)
        for k in self.attrs:
            base.setdefault(k, [])
        self_ = self.a.object(fl, st, self.mod, self.k, base, {})
        types = doc_types(ast.get_docstring(node))
        for m2, c2 in self.repo.mro(self.mod, self.k):
            for x in c2.body:
                if isinstance(x, ast.FunctionDef) and x.name == n:
                    types = types or doc_types(ast.get_docstring(x))
        kw = build_args(fl, st, node, types, 'param:', True, mod=m)
        for k, v in (fixed or {}).items():
            if k in kw:
                kw[k] = v
        init = {k: v for k, v in st.heap[self_.args[0]].fields.items()}
        vals = {k: fl.val(st, v) for k, v in init.items()}
        outs = fl.run(st, m, node, [], kw, selfref=None if is_static(node) else self_, cls=c, qual=self.k.name + '.' + n)
        return fl, self_, init, vals, outs

    def changed(self, fl, self_, init, vals, outs):
        """{attribute: where} whose value after the call differs from the value before"""
        out = {}
        for st, v in outs:
            f = st.heap[self_.args[0]].fields
            for k in set(f) | set(init):
                if k in init:
                    if f.get(k) is None:
                        out.setdefault(k, 'deleted')
                    elif fl.val(st, f[k]) is not vals[k]:
                        out.setdefault(k, show(fl.val(st, f[k]))[:160])
                elif k in self.attrs:
                    out.setdefault(k, show(fl.val(st, f[k]))[:160])
        return out

    def sites(self, fl, attr, self_):
        w = sorted({e.where for e in fl.events if e.kind == 'setattr' and e.what[1] == attr} |
                   {e.where for e in fl.events if e.kind == 'write' and e.what[0] == ('param', 'self.' + attr)})
        return w[0] if w else self.label

def flag(node, names=('update_hist',)):
    a, k = args_of(node, True)
    return [n for n in a + k if n in names]

def purity(c):
    repo = c.repo
    c.level, c.small = 'other', 0
    c.rule('pure', 'final value of every attribute of the object equals its value before the call, for every method that is not an initialisation, update or setter '
                   'and for force evaluations without update_hist')
    c.rule('independent', 'no value reachable from the result of aft depends on the contents of a history attribute before the call')
    c.rule('update', 'with update_hist the returned values are those of the call without it')
    fs, cs = units(repo)
    jobs = []
    for mod, cls in cs:
        if is_force(repo, mod, cls) or (mod.name, cls.name) == ('tmdsimpy.vibration_system', 'VibrationSystem'):
            p = mod.path
            jobs.append(('%s:%s' % (p[p.find('tmdsimpy/'):], cls.name), lambda mod=mod, cls=cls: class_purity(c, repo, mod, cls), 250))
    if not jobs:
        c.anchor_lost(FORCE[0])
    c.parallel(jobs)

def class_purity(c, repo, mod, cls):
    p = Purity(repo, mod, cls)
    scratch = any('init_history_harmonic' in {x.name for x in k.body if isinstance(x, ast.FunctionDef)} for m, k in repo.mro(mod, cls)
                  if k.name not in ('HystereticForce', 'NonlinearForce'))
    sequential = {'aft', 'instant_force', 'instant_force_harmonic', 'local_force_history', 'local_force_history_crit'} if scratch else set()
    for n in sorted(p.ms):
        m, k, node = p.ms[n]
        if mutator(n) or n.startswith('_') and not n.startswith('_local'):
            continue
        lab = '%s.%s' % (p.label, n)
        fl_ = flag(node)
        fixed = {x: FALSE for x in fl_}
        r = p.run(n, fixed)
        fl = r[0]
        ch = p.changed(*r)
        if n in sequential:
            ch = {a: w for a, w in ch.items() if a not in p.history}
        where = p.sites(fl, sorted(ch)[0], r[1]) if ch else lab
        c.ob('pure: %s%s' % (lab, ' without update' if fl_ else ''), not ch, where, 'the call changes the attribute %s' %
             '; '.join('%s -> %s' % kv for kv in sorted(ch.items())))
        if fl_:
            r2 = p.run(n, {x: TRUE for x in fl_})
            v1 = sorted({show(deep_val(r[0], s, v)) for s, v in r[4]})
            v2 = sorted({show(deep_val(r2[0], s, v)) for s, v in r2[4]})
            c.ob('update does not alter the result: %s' % lab, v1 == v2 or None, lab, '%s / %s' % (v1[:1], v2[:1]))
            ch2 = p.changed(*r2)
            c.ob('update is recorded: %s' % lab, bool(set(ch2) & p.history) if p.history else None, lab, 'no history attribute changes although an update is requested')
        if n == 'aft' and p.history:
            fl, self_, init, vals, outs = r
            dep = set()
            for st, v in outs:
                for t in subterms(deep_val(fl, st, v), fl.phi):
                    if t.op == 'leaf' and str(t.args[0]).startswith('self.') and str(t.args[0])[5:] in p.history:
                        dep.add(str(t.args[0])[5:])
            c.ob('independent of history: %s' % lab, not dep, lab, 'the result of aft depends on the history attributes %s' % ', '.join(sorted(dep)))

def deep_val(fl, st, v):
    return fl.val(st, v)
