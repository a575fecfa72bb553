"""C22: names, exports, import paths.  C23 (first part): configuration order."""
import ast, builtins, json, os, symtable, glob
from tsa.interp import Repo, dotted_name
from checks.interface import bindable

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'specs', 'public_api.json')
EXTERNAL = ('numpy', 'scipy', 'jax', 'os', 'warnings', 'functools', 'pathlib')
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__dict__', '__class__'}

# ----------------------------------------------------------- module contents
def walk_scope(stmts):
    """statements executed in a scope, nested blocks included, function and class bodies excluded"""
    for s in stmts:
        yield s
        for f in ('body', 'orelse', 'finalbody'):
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                b = getattr(s, f, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    yield from walk_scope(b)
        for h in getattr(s, 'handlers', []) or []:
            yield from walk_scope(h.body)
        for cs in getattr(s, 'cases', []) or []:
            yield from walk_scope(cs.body)

def targets(s):
    out = set()
    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
    if isinstance(s, ast.Assign):
        for t in s.targets:
            tgt(t)
    elif isinstance(s, (ast.AugAssign, ast.AnnAssign, ast.For)):
        tgt(s.target)
    elif isinstance(s, ast.With):
        for i in s.items:
            if i.optional_vars is not None:
                tgt(i.optional_vars)
    elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        out.add(s.name)
    if isinstance(s, ast.stmt) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        for n in ast.walk(s):
            if isinstance(n, ast.NamedExpr):
                tgt(n.target)
    return out

def absolute(modname, is_pkg, node):
    """module named by a from-import"""
    base = node.module or ''
    if not node.level:
        return base
    pk = (modname if is_pkg else modname.rpartition('.')[0]).split('.')
    up = pk[:len(pk) - (node.level - 1)] if node.level > 1 else pk
    return '.'.join(up + ([node.module] if node.module else []))

class Names:
    """names bound in modules of the package"""
    def __init__(self, repo):
        self.repo, self.cache = repo, {}
        self.top = repo.package
    def submodules(self, mod):
        return {k[len(mod)+1:] for k in self.repo.modules if k.startswith(mod + '.') and '.' not in k[len(mod)+1:]}
    def bound(self, mod):
        """{name: origin} bound by executing the module"""
        if mod in self.cache:
            return self.cache[mod]
        m = self.repo.modules[mod]
        out = self.cache[mod] = {}
        for s in walk_scope(m.tree.body):
            if isinstance(s, ast.Import):
                for a in s.names:
                    out[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(s, ast.ImportFrom):
                base = absolute(mod, m.is_pkg, s)
                for a in s.names:
                    if a.name == '*':
                        for n in self.star(base):
                            out[n] = ('from', base, n)
                    else:
                        out[a.asname or a.name] = ('from', base, a.name)
            else:
                for n in targets(s):
                    out[n] = ('def', s)
            if isinstance(s, ast.Delete):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        out.pop(t.id, None)
        return out
    def imported_subs(self, mod):
        """submodules loaded as a consequence of executing any module of the package once `mod` is imported (closure)"""
        return self.submodules(mod)
    def star(self, base):
        if base in self.repo.modules:
            al = self.all_of(base)
            if al is not None:
                return al
            return [n for n in self.bound(base) if not n.startswith('_')]
        e = external(base)
        return [n for n in e if not n.startswith('_')] if e else []
    def attribute(self, mod, name):
        """does module attribute access succeed: True/False"""
        return name in self.bound(mod) or name in self.submodules(mod) or name in ('__name__', '__file__', '__doc__', '__all__', '__path__', '__dict__', '__version__') and True
    def origin(self, mod, name, depth=0):
        """('func'|'class'|'const'|'mod', module, node) following re-exports"""
        if depth > 8:
            return None
        b = self.bound(mod).get(name)
        if b is None:
            if name in self.submodules(mod):
                return ('mod', mod + '.' + name, None)
            return None
        if b[0] == 'def':
            s = b[1]
            return ('func' if isinstance(s, ast.FunctionDef) else 'class' if isinstance(s, ast.ClassDef) else 'const', mod, s)
        if b[0] == 'mod':
            return ('mod', b[1], None) if b[1] in self.repo.modules else ('ext', b[1], None)
        base, n = b[1], b[2]
        if base in self.repo.modules:
            if base == mod and n in self.submodules(mod):        # from . import x
                return ('mod', base + '.' + n, None)
            return self.origin(base, n, depth + 1)
        return ('ext', base, n)
    def all_of(self, mod):
        """value of __all__ by abstract evaluation of the initialiser; None when there is none, Exception when not understood"""
        m = self.repo.modules[mod]
        env, seen = {}, False
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(t, ast.Name):
                    try:
                        v = evaluate(s.value, env, os.path.dirname(m.path))
                        env[t.id] = v if isinstance(s, ast.Assign) else env[t.id] + v
                    except NotUnderstood:
                        if t.id == '__all__':
                            raise
                        env.pop(t.id, None)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                    and isinstance(s.value.func.value, ast.Name) and isinstance(env.get(s.value.func.value.id), list):
                a = s.value.func.attr
                try:
                    v = [evaluate(x, env, os.path.dirname(m.path)) for x in s.value.args]
                    getattr(env[s.value.func.value.id], a)(*v)
                except (NotUnderstood, ValueError, AttributeError):
                    raise NotUnderstood(ast.unparse(s))
            elif isinstance(s, (ast.For, ast.If, ast.While, ast.Try)) and any(isinstance(n, ast.Name) and n.id == '__all__' and isinstance(n.ctx, ast.Store)
                                                                            or isinstance(n, ast.Name) and n.id == '__all__' for n in ast.walk(s)):
                raise NotUnderstood('__all__ changed in a block')
            elif isinstance(s, ast.FunctionDef):
                env[s.name] = s
        return env.get('__all__')

class NotUnderstood(Exception):
    pass

def evaluate(n, env, here):
    """constant evaluation of list expressions over the names of the directory"""
    ev = lambda x: evaluate(x, env, here)
    if isinstance(n, ast.Constant):
        return n.value
    if isinstance(n, ast.Name):
        if n.id in env:
            return env[n.id]
        if n.id == '__file__':
            return os.path.join(here, '__init__.py')
        raise NotUnderstood(n.id)
    if isinstance(n, (ast.List, ast.Tuple, ast.Set)):
        out = []
        for e in n.elts:
            out += list(ev(e.value)) if isinstance(e, ast.Starred) else [ev(e)]
        return out
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(n.generators) == 1 and isinstance(n.generators[0].target, ast.Name):
        g = n.generators[0]
        out = []
        for x in ev(g.iter):
            e2 = dict(env)
            e2[g.target.id] = x
            if all(evaluate(i, e2, here) for i in g.ifs):
                out.append(evaluate(n.elt, e2, here))
        return out
    if isinstance(n, ast.Call):
        d = dotted_name(n.func) or ''
        last = d.rpartition('.')[2]
        if last == 'listdir':
            return sorted(os.listdir(ev(n.args[0])))
        if last in ('dirname', 'abspath', 'realpath'):
            return getattr(os.path, last)(ev(n.args[0]))
        if last == 'Path':
            return Stem(ev(n.args[0]))
        if d in ('sorted', 'list', 'set', 'tuple'):
            return sorted(ev(n.args[0])) if d == 'sorted' else list(ev(n.args[0]))
        if isinstance(n.func, ast.Attribute):
            v = ev(n.func.value)
            if isinstance(v, str) and n.func.attr in ('startswith', 'endswith', 'split', 'replace', 'removesuffix', 'strip'):
                return getattr(v, n.func.attr)(*[ev(a) for a in n.args])
        if isinstance(n.func, ast.Name) and isinstance(env.get(n.func.id), ast.FunctionDef):
            f = env[n.func.id]
            e2 = dict(env)
            for a, v in zip(f.args.args, n.args):
                e2[a.arg] = ev(v)
            for k in n.keywords:
                e2[k.arg] = ev(k.value)
            for s in f.body:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    e2[s.targets[0].id] = evaluate(s.value, e2, here)
                elif isinstance(s, ast.Return):
                    return evaluate(s.value, e2, here)
                elif not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    raise NotUnderstood(ast.unparse(s))
        raise NotUnderstood(ast.unparse(n))
    if isinstance(n, ast.Attribute):
        v = ev(n.value)
        if isinstance(v, Stem) and n.attr in ('stem', 'name'):
            return os.path.splitext(os.path.basename(v.p))[0] if n.attr == 'stem' else os.path.basename(v.p)
        raise NotUnderstood(ast.unparse(n))
    if isinstance(n, ast.Subscript):
        v = ev(n.value)
        if isinstance(n.slice, ast.Slice):
            g = lambda x: None if x is None else ev(x)
            return v[g(n.slice.lower):g(n.slice.upper):g(n.slice.step)]
        return v[ev(n.slice)]
    if isinstance(n, ast.UnaryOp):
        v = ev(n.operand)
        return (not v) if isinstance(n.op, ast.Not) else -v if isinstance(n.op, ast.USub) else v
    if isinstance(n, ast.BoolOp):
        vs = [ev(x) for x in n.values]
        return all(vs) if isinstance(n.op, ast.And) else any(vs)
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = ev(n.left), ev(n.right)
        return a + b
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        a, b = ev(n.left), ev(n.comparators[0])
        o = n.ops[0]
        return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.In: lambda: a in b, ast.NotIn: lambda: a not in b,
                ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b}.get(type(o), lambda: (_ for _ in ()).throw(NotUnderstood('comparison')))()
    raise NotUnderstood(ast.unparse(n))

class Stem:
    def __init__(self, p):
        self.p = p

# ------------------------------------------------------------------ externals
_EXT, _OBJ = {}, {}
def search_path():
    out = []
    for p in ('/opt/venv/lib/python3*/site-packages', '/opt/veriftools/pyvenv/lib/python3*/site-packages', '/usr/lib/python3*', '/usr/local/lib/python3*'):
        out += sorted(glob.glob(p))
    return out

def external(mod, depth=0):
    """names defined by an installed module, from its stub or source; None when not available"""
    if mod in _EXT:
        return _EXT[mod]
    _EXT[mod] = None
    up, _, last = mod.rpartition('.')
    if up:                      # an object of the same name hides the submodule
        external(up)
        if last in _OBJ.get(up, ()):
            return None
    rel = mod.replace('.', '/')
    for root in search_path():
        for f in ('%s/%s/__init__.pyi', '%s/%s.pyi', '%s/%s/__init__.py', '%s/%s.py'):
            p = f % (root, rel)
            if os.path.isfile(p):
                try:
                    t = ast.parse(open(p, errors='replace').read())
                except SyntaxError:
                    continue
                names = set()
                pkg = '__init__' in p
                complete = True
                for s in walk_scope(t.body):
                    if isinstance(s, ast.Import):
                        names |= {a.asname or a.name.split('.')[0] for a in s.names}
                    elif isinstance(s, ast.ImportFrom):
                        if absolute(mod, pkg, s) not in ('', mod):
                            _OBJ.setdefault(mod, set()).update(a.asname or a.name for a in s.names)
                        for a in s.names:
                            if a.name == '*':
                                sub = external(absolute(mod, pkg, s), depth + 1)
                                if sub is None:
                                    complete = False
                                else:
                                    names |= sub
                            else:
                                names.add(a.asname or a.name)
                    else:
                        names |= targets(s)
                    if isinstance(s, ast.FunctionDef) and s.name == '__getattr__' and p.endswith('.py'):
                        complete = complete and True
                if pkg:
                    d = os.path.dirname(p)
                    names |= {x[:-3] for x in os.listdir(d) if x.endswith('.py')} | {x for x in os.listdir(d) if os.path.isdir(os.path.join(d, x))}
                if p.endswith('.pyi') and pkg:      # stub and source together
                    src = p[:-1]
                    if os.path.isfile(src):
                        try:
                            for s in walk_scope(ast.parse(open(src, errors='replace').read()).body):
                                names |= targets(s)
                                if isinstance(s, (ast.Import, ast.ImportFrom)):
                                    names |= {a.asname or a.name.split('.')[0] for a in s.names}
                        except SyntaxError:
                            pass
                _EXT[mod] = names if complete else None
                return _EXT[mod]
    return None

# -------------------------------------------------------------- unresolved
def undefined(c, nm, mod, m):
    """names that no scope binds; local names read where no assignment can have happened"""
    src = open(m.path).read()
    rel = os.path.relpath(m.path, c.repo.root)
    try:
        top = symtable.symtable(src, m.path, 'exec')
    except SyntaxError as e:
        c.ob(mod + ' parses', False, rel, e)
        return
    glob_ = set(nm.bound(mod)) | BUILTIN
    cnt, bad = [0], []
    def shadowed(n):
        """every read of the name lies in a comprehension or function that binds it (comprehensions may be merged into their scope)"""
        def free(x, sh):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) and any(
                    isinstance(y, ast.Name) and y.id == n for g in x.generators for y in ast.walk(g.target)):
                return free(x.generators[0].iter, sh)
            if isinstance(x, (ast.FunctionDef, ast.Lambda)) and (any(a.arg == n for a in ast.walk(x.args) if isinstance(a, ast.arg)) or
                                                                 isinstance(x, ast.FunctionDef) and any(n in targets(y) for y in walk_scope(x.body))):
                return False
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == n:
                return True
            return any(free(y, sh) for y in ast.iter_child_nodes(x))
        return not free(m.tree, False)
    def scope(t, chain):
        for s in t.get_symbols():
            n = s.get_name()
            if not s.is_referenced():
                continue
            cnt[0] += 1
            if t.get_type() == 'module':
                ok = n in glob_
            elif s.is_global() or (not s.is_local() and not s.is_free() and not s.is_parameter()):
                ok = n in glob_
            else:
                ok = True
            if not ok and not shadowed(n):
                bad.append((t.get_lineno(), t.get_name(), n))
        # names declared global and assigned in functions are module names too
        for ch in t.get_children():
            scope(ch, chain + [t.get_name()])
    decl = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            decl |= set(n.names)
    glob_ |= decl
    scope(top, [])
    byname = {}
    for l, s, n in bad:
        lines = [x.lineno for x in ast.walk(m.tree) if isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Load)]
        byname.setdefault((s, n), lines)
    c.ob('%s: every name used is defined (%d uses)' % (mod, cnt[0]), not bad, rel,
         '; '.join('%s in %s (line %s)' % (n, s, l[:3]) for (s, n), l in byname.items()))
    # function scopes
    loc = []
    for f in [x for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.Lambda))]:
        if isinstance(f, ast.FunctionDef):
            loc += [(f.name, n, l) for n, l in unbound(f)]
    c.ob('%s: no local name is read before every assignment' % mod, not loc, rel, '; '.join('%s in %s (line %d)' % (n, f, l) for f, n, l in loc[:4]))

def unbound(f):
    """(name, line) of reads of a local name which no assignment can precede"""
    a = f.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    local, glob_ = set(params), set()
    for s in walk_scope(f.body):
        local |= targets(s)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            local |= {x.asname or x.name.split('.')[0] for x in s.names}
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            glob_ |= set(s.names)
        if isinstance(s, ast.Try):
            local |= {h.name for h in s.handlers if h.name}
    local -= glob_
    bad = []
    def reads(e, have):
        if e is None:
            return
        todo = [(e, frozenset())]
        while todo:
            x, shadow = todo.pop()
            if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                continue
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                sh = set(shadow)
                for g in x.generators:
                    sh |= {y.id for y in ast.walk(g.target) if isinstance(y, ast.Name)}
                todo += [(y, frozenset(sh)) for y in ast.iter_child_nodes(x)]
                continue
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in local and x.id not in have and x.id not in shadow:
                bad.append((x.id, x.lineno))
            todo += [(y, shadow) for y in ast.iter_child_nodes(x)]
    def block(stmts, have):
        """names possibly assigned after the block"""
        for s in stmts:
            have = step(s, have)
        return have
    def step(s, have):
        have = set(have)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                reads(d, have)
            return have | {s.name}
        if isinstance(s, ast.If):
            reads(s.test, have)
            have |= {y.target.id for y in ast.walk(s.test) if isinstance(y, ast.NamedExpr) and isinstance(y.target, ast.Name)}
            return block(s.body, have) | block(s.orelse, have)
        if isinstance(s, (ast.For, ast.While)):
            reads(s.iter if isinstance(s, ast.For) else s.test, have)
            inner = set(have) | targets(s)
            for x in walk_scope(s.body):
                inner |= targets(x)                # earlier passes
            first = set(have) | targets(s)
            out = block(s.body, first if not isinstance(s, ast.While) or True else inner)
            # a read only reached by later passes is fine: keep complaints of names never assigned in the loop
            return out | block(s.orelse, have | out)
        if isinstance(s, ast.Try):
            out = block(s.body, have)
            res = set(out)
            for h in s.handlers:
                res |= block(h.body, out | ({h.name} if h.name else set()))
            res |= block(s.orelse, out)
            return block(s.finalbody, res)
        if isinstance(s, ast.With):
            for i in s.items:
                reads(i.context_expr, have)
            return block(s.body, have | targets(s))
        if isinstance(s, ast.AugAssign):
            reads(s.value, have)
            if isinstance(s.target, ast.Name):
                if s.target.id in local and s.target.id not in have:
                    bad.append((s.target.id, s.lineno))
            else:
                reads(s.target, have)
            return have | targets(s)
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return have | {x.asname or x.name.split('.')[0] for x in s.names}
        if isinstance(s, ast.Match):
            reads(s.subject, have)
            out = set(have)
            for cs in s.cases:
                names = {y.name for y in ast.walk(cs.pattern) if isinstance(y, (ast.MatchAs, ast.MatchStar)) and y.name}
                out |= block(cs.body, have | names)
            return out
        for ch in ast.iter_child_nodes(s):
            if isinstance(ch, ast.expr):
                reads(ch, have)
        have |= targets(s)
        return have
    block(f.body, params)
    # reads inside a loop body of names assigned later in the same loop happen on later passes
    loops = [x for x in ast.walk(f) if isinstance(x, (ast.For, ast.While))]
    out = []
    for n, l in bad:
        later = any(l0.lineno <= l <= max(y.lineno for y in ast.walk(l0) if hasattr(y, 'lineno')) and
                    any(n in targets(x) for x in walk_scope(l0.body)) for l0 in loops)
        if not later:
            out.append((n, l))
    return out

# ---------------------------------------------------------- attributes, calls
def attributes(c, nm, mod, m):
    rel = os.path.relpath(m.path, c.repo.root)
    b = nm.bound(mod)
    bad, cnt, ext_bad, calls_bad, ncalls = [], 0, [], [], 0
    # imports inside functions count as well
    local_imports = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                local_imports[a.asname or a.name.split('.')[0]] = ('mod', a.name if a.asname else a.name.split('.')[0])
                cnt += 1
                if a.name.split('.')[0] == nm.top and a.name not in c.repo.modules:
                    bad.append('import %s (line %d)' % (a.name, n.lineno))
        elif isinstance(n, ast.ImportFrom):
            base = absolute(mod, m.is_pkg, n)
            for a in n.names:
                cnt += 1
                if base.split('.')[0] == nm.top:
                    if base not in c.repo.modules:
                        bad.append('no module %s (line %d)' % (base, n.lineno))
                    elif a.name != '*' and not nm.attribute(base, a.name):
                        bad.append('%s has no %s (line %d)' % (base, a.name, n.lineno))
                elif base.split('.')[0] in EXTERNAL[:3] and a.name != '*':
                    e = external(base)
                    if e is not None and a.name not in e:
                        ext_bad.append('%s has no %s (line %d)' % (base, a.name, n.lineno))
                if a.name != '*':
                    local_imports[a.asname or a.name] = ('from', base, a.name)
    # local rebinding of a module alias hides it
    hidden = set()
    for f in ast.walk(m.tree):
        if isinstance(f, ast.FunctionDef):
            for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs:
                hidden.add(a.arg)
            for s in walk_scope(f.body):
                hidden |= targets(s)
        elif isinstance(f, (ast.comprehension,)):
            hidden |= {y.id for y in ast.walk(f.target) if isinstance(y, ast.Name)}
    def what(e):
        """static meaning of an expression: ('mod', name) / ('func'|'class', module, node) / ('ext', dotted)"""
        if isinstance(e, ast.Name):
            if e.id in hidden and e.id not in local_imports and not isinstance((b.get(e.id) or (0, 0))[1], ast.FunctionDef):
                return None
            o = b.get(e.id) or local_imports.get(e.id)
            if o is None:
                return None
            if o[0] == 'def':
                return ('func' if isinstance(o[1], ast.FunctionDef) else 'class' if isinstance(o[1], ast.ClassDef) else 'const', mod, o[1])
            if o[0] == 'mod':
                return ('mod', o[1]) if o[1] in c.repo.modules else ('ext', o[1])
            base, n = o[1], o[2]
            if base in c.repo.modules:
                r = nm.origin(base, n)
                if r is None and (base + '.' + n) in c.repo.modules:
                    return ('mod', base + '.' + n)
                if r is not None and r[0] == 'mod':
                    return ('mod', r[1])
                if r is not None and r[0] == 'ext':
                    return ('ext', r[1] + ('.' + r[2] if r[2] else ''))
                return r
            return ('ext', base + '.' + n)
        if isinstance(e, ast.Attribute):
            w = what(e.value)
            if w is None:
                return None
            if w[0] == 'mod':
                if not nm.attribute(w[1], e.attr):
                    return ('missing', w[1], e.attr)
                r = nm.origin(w[1], e.attr)
                if r is None and w[1] + '.' + e.attr in c.repo.modules:
                    return ('mod', w[1] + '.' + e.attr)
                if r and r[0] == 'mod':
                    return ('mod', r[1])
                if r and r[0] == 'ext':
                    return ('ext', r[1] + ('.' + r[2] if r[2] else ''))
                return r
            if w[0] == 'ext':
                return ('ext', w[1] + '.' + e.attr)
        return None
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            w = what(n.value)
            if w and w[0] == 'mod':
                cnt += 1
                if not nm.attribute(w[1], n.attr):
                    bad.append('%s has no %s (line %d)' % (w[1], n.attr, n.lineno))
            elif w and w[0] == 'ext' and w[1].split('.')[0] in EXTERNAL[:3]:
                e = external(w[1])
                if e is not None:
                    cnt += 1
                    if n.attr not in e:
                        ext_bad.append('%s has no %s (line %d)' % (w[1], n.attr, n.lineno))
        if isinstance(n, ast.Call):
            w = what(n.func)
            f, bound = None, False
            if w and w[0] == 'func':
                f = w[2]
            elif w and w[0] == 'class':
                init = c.repo.method(c.repo.modules[w[1]], w[2], '__init__')
                if init is not None:
                    f, bound = init[2], True
            if f is None or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            if f.decorator_list and not all(is_jit(d) for d in f.decorator_list):
                continue
            ncalls += 1
            e = bindable(f, len(n.args), [k.arg for k in n.keywords], bound)
            if e:
                calls_bad.append('%s (line %d): %s' % (ast.unparse(n.func), n.lineno, e))
    c.ob('%s: imported and module-qualified names exist (%d uses)' % (mod, cnt), not bad, rel, '; '.join(bad[:4]))
    c.ob('%s: names of the numerical libraries exist' % mod, not ext_bad, rel, '; '.join(ext_bad[:4]))
    c.ob('%s: calls of package functions bind (%d calls)' % (mod, ncalls), not calls_bad, rel, '; '.join(calls_bad[:4]))

def is_jit(d):
    t = ast.unparse(d)
    return 'jit' in t

def selves(c, nm, mod, m):
    """self.x: provided by the class, a base or a subclass, or assigned somewhere"""
    rel = os.path.relpath(m.path, c.repo.root)
    for cn, cl in m.classes.items():
        mro = c.repo.mro(m, cl)
        unknown_base = any(c.repo.resolve_name(x[0], b) is None and dotted_name(b) not in ('object',) for x in mro for b in x[1].bases)
        if unknown_base:
            continue
        have = set(dir(object)) | {'__dict__', '__class__'}
        fam = list(mro)
        for m2 in c.repo.modules.values():
            for c2 in m2.classes.values():
                ch = c.repo.mro(m2, c2)
                if any(x[1] is cl for x in ch):
                    fam += ch
        dynamic = False
        for x in fam:
            for s in x[1].body:
                if isinstance(s, ast.FunctionDef):
                    have.add(s.name)
                    have |= set()
                else:
                    have |= targets(s)
            for n in ast.walk(x[1]):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store,)) and isinstance(n.value, ast.Name):
                    have.add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' or isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    dynamic = True
        for m2 in c.repo.modules.values():
            for n in ast.walk(m2.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id not in ('self',):
                    have.add(n.attr)
        bad, cnt, calls, ncalls = [], 0, [], 0
        for s in cl.body:
            if not isinstance(s, ast.FunctionDef) or not s.args.args:
                continue
            if any(isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod') for d in s.decorator_list):
                continue
            me = s.args.args[0].arg
            for n in ast.walk(s):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                    cnt += 1
                    if n.attr not in have:
                        bad.append('self.%s in %s (line %d)' % (n.attr, s.name, n.lineno))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                    f = c.repo.method(m, cl, n.func.attr)
                    stored = any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == n.func.attr for x in fam for y in ast.walk(x[1]))
                    if f is None or stored or f[2].decorator_list or any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                        continue
                    ncalls += 1
                    e = bindable(f[2], len(n.args), [k.arg for k in n.keywords])
                    if e:           # every class the object can have provides another implementation
                        subs = [(m2, c2) for m2 in c.repo.modules.values() for c2 in m2.classes.values()
                                if c2 is not cl and any(x[1] is cl for x in c.repo.mro(m2, c2))]
                        impl = [c.repo.method(m2, c2, n.func.attr) for m2, c2 in subs]
                        if impl and all(x is None or x[2].decorator_list or not bindable(x[2], len(n.args), [k.arg for k in n.keywords]) for x in impl):
                            e = None
                    if e:
                        calls.append('self.%s (line %d): %s' % (n.func.attr, n.lineno, e))
        if not dynamic:
            c.ob('%s.%s: attributes of self are provided (%d uses)' % (mod, cn, cnt), not bad, rel, '; '.join(bad[:4]))
        c.ob('%s.%s: calls of own methods bind (%d calls)' % (mod, cn, ncalls), not calls, rel, '; '.join(calls[:4]))

def completes(stmts):
    """can control run past the statements"""
    for s in stmts:
        if isinstance(s, ast.Raise) or isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
        if isinstance(s, ast.If) and s.orelse and not completes(s.body) and not completes(s.orelse):
            return False
    return True

def constructed(repo, m, cl, meth='__init__', after=None, depth=0):
    """(attributes every completing path through the method stores, attributes some path stores); calls of own and inherited methods followed"""
    mro = repo.mro(m, cl)
    start = 0 if after is None else after + 1
    for i in range(start, len(mro)):
        for s in mro[i][1].body:
            if isinstance(s, ast.FunctionDef) and s.name == meth and s.args.args:
                me = s.args.args[0].arg
                def block(stmts):
                    must, may = set(), set()
                    for x in stmts:
                        if isinstance(x, ast.If):
                            a, b = block(x.body), block(x.orelse)
                            may |= a[1] | b[1]
                            if not completes(x.body):
                                must |= b[0]
                            elif not completes(x.orelse):
                                must |= a[0]
                            else:
                                must |= a[0] & b[0]
                            continue
                        if isinstance(x, (ast.For, ast.While)):
                            may |= block(x.body)[1] | block(x.orelse)[1]
                            continue
                        if isinstance(x, ast.Try):
                            a = block(x.body)
                            hs = [block(h.body) for h in x.handlers if completes(h.body)]
                            f = block(x.finalbody)
                            mu = set(a[0]) | block(x.orelse)[0]
                            for h in hs:
                                mu &= h[0] | (set(a[0]) & h[0])
                            must |= mu | f[0]
                            may |= a[1] | f[1] | set().union(*[h[1] for h in hs])
                            continue
                        if isinstance(x, ast.With):
                            a = block(x.body)
                            must |= a[0]
                            may |= a[1]
                            continue
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            continue
                        for n in ast.walk(x):
                            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                                must.add(n.attr)
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and depth < 6:
                                v = n.func.value
                                r = None
                                if isinstance(v, ast.Name) and v.id == me:
                                    r = constructed(repo, m, cl, n.func.attr, None, depth + 1)
                                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
                                    r = constructed(repo, m, cl, n.func.attr, i, depth + 1)
                                elif isinstance(v, ast.Name) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                                    for k, (m2, c2) in enumerate(mro):
                                        if c2.name == v.id:
                                            r = constructed(repo, m, cl, n.func.attr, k - 1 if k else None, depth + 1)
                                if r:
                                    must |= r[0]
                                    may |= r[1]
                        if isinstance(x, (ast.Return, ast.Raise)):
                            break
                    return must, may | must
                return block(s.body)
    return set(), set()

def ready(c, nm, mod, m):
    """attributes set up by the constructor are set up on every path through it"""
    rel = os.path.relpath(m.path, c.repo.root)
    for cn, cl in m.classes.items():
        must, may = constructed(c.repo, m, cl)
        mro = c.repo.mro(m, cl)
        given = set()
        for m2, c2 in mro:
            for s in c2.body:
                given |= targets(s)
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'hasattr', 'getattr') or
               isinstance(n, ast.Attribute) and n.attr == '__dict__' for m2, c2 in mro for n in ast.walk(c2)):
            continue
        bad = []
        # states that other methods store as well follow the protocol of those methods, not of the constructor alone
        for m2, c2 in mro:
            for s in c2.body:
                if isinstance(s, ast.FunctionDef) and s.name != '__init__':
                    given |= {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        for m2, c2 in mro:
            for s in c2.body:
                if isinstance(s, ast.FunctionDef) and s.name != '__init__' and s.args.args:
                    me = s.args.args[0].arg
                    for n in ast.walk(s):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me \
                                and n.attr in may and n.attr not in must | given:
                            bad.append('%s read in %s (line %d)' % (n.attr, s.name, n.lineno))
        c.ob('%s.%s: attributes set by the constructor are set on every path (%d)' % (mod, cn, len(may)), not bad, rel, '; '.join(bad[:4]))

# ------------------------------------------------------------------- imports
class Cycle(Exception):
    pass

def import_order(c, nm, start, absent=()):
    """simulate the execution of module-level imports with `start` imported first.
    Returns problems: names taken from a module that has not defined them yet, or absent external packages"""
    repo = c.repo
    state, problems, order = {}, [], []
    def load(mod):
        if mod in state:
            return
        parent = mod.rpartition('.')[0]
        if parent:
            load(parent)
        if mod in state or mod not in repo.modules:
            return
        have = state[mod] = set()
        m = repo.modules[mod]
        order.append(mod)
        def run(stmts, guarded=False):
            for s in stmts:
                if isinstance(s, ast.Import):
                    for a in s.names:
                        p = a.name.split('.')
                        if p[0] == nm.top:
                            for k in range(1, len(p) + 1):
                                load('.'.join(p[:k]))
                        elif p[0] in absent and not guarded:
                            problems.append('%s imports %s (line %d)' % (mod, a.name, s.lineno))
                        have.add(a.asname or p[0])
                elif isinstance(s, ast.ImportFrom):
                    base = absolute(mod, m.is_pkg, s)
                    if base.split('.')[0] == nm.top:
                        load(base)
                        for a in s.names:
                            if a.name == '*':
                                have.update(nm.star(base) if base in repo.modules else ())
                                continue
                            if a.name not in state.get(base, ()):
                                sub = base + '.' + a.name
                                if sub in repo.modules:
                                    load(sub)
                                else:
                                    problems.append('%s takes %s from %s before it is defined (line %d)' % (mod, a.name, base, s.lineno))
                            have.add(a.asname or a.name)
                    else:
                        if base.split('.')[0] in absent and not guarded:
                            problems.append('%s imports %s (line %d)' % (mod, base, s.lineno))
                        have.update(a.asname or a.name for a in s.names)
                elif isinstance(s, ast.Try):
                    g = any(h.type is None or 'Import' in ast.unparse(h.type) or 'ModuleNotFound' in ast.unparse(h.type) or ast.unparse(h.type) == 'Exception'
                            for h in s.handlers)
                    run(s.body, guarded or g)
                    run(s.orelse, guarded)
                    run(s.finalbody, guarded)
                elif isinstance(s, (ast.If, ast.With, ast.For, ast.While)):
                    run(s.body, guarded)
                    run(getattr(s, 'orelse', []), guarded)
                else:
                    have.update(targets(s))
        run(m.tree.body)
        if '.' in mod:
            p, _, last = mod.rpartition('.')
            state.setdefault(p, set()).add(last)
    load(start)
    return problems, order

# ----------------------------------------------------------------- public API
def public(nm, repo):
    """{module: {name: kind or {method: kind}}} of public names, including re-exports of package initialisers"""
    out = {}
    for mod, m in sorted(repo.modules.items()):
        if any(x.startswith('_') for x in mod.split('.')):
            continue
        d = {}
        for n in nm.bound(mod):
            if n.startswith('_') or n in ('add_to_all', 'remove_from_all', 'search_path'):
                continue
            o = nm.origin(mod, n)
            if o is None or o[0] not in ('func', 'class'):
                continue
            own = nm.bound(mod)[n][0] == 'def'
            reexport = m.is_pkg or mod in SHIMS(repo)
            if not own and not reexport:
                continue
            if o[0] == 'func':
                d[n] = 'function'
            else:
                d[n] = sorted(s.name for s in o[2].body if isinstance(s, ast.FunctionDef) and not s.name.startswith('_'))
        out[mod] = d
    return out

def SHIMS(repo):
    """modules that warn on import"""
    out = []
    for mod, m in repo.modules.items():
        for s in m.tree.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and (dotted_name(s.value.func) or '').rpartition('.')[2] == 'warn':
                out.append(mod)
    return sorted(set(out))

def api(c, nm):
    repo = c.repo
    spec = json.load(open(SPEC))
    for mod, names in sorted(spec['public'].items()):
        rel = os.path.relpath(repo.modules[mod].path, repo.root) if mod in repo.modules else mod.replace('.', '/')
        c.ob('%s is importable' % mod, mod in repo.modules, rel, 'no module')
        if mod not in repo.modules:
            continue
        miss = [n for n in names if nm.origin(mod, n) is None]
        c.ob('%s: %d documented names are importable from it' % (mod, len(names)), not miss, rel, 'missing: %s' % ', '.join(miss))
        kind = [n for n, k in names.items() if n not in miss and nm.origin(mod, n)[0] not in (('func',) if k == 'function' else ('class',)) and
                nm.origin(mod, n)[0] != 'const']
        c.ob('%s: documented functions and classes are such' % mod, not kind, rel, ', '.join(kind))
        for n, k in sorted(names.items()):
            o = nm.origin(mod, n)
            if k == 'function' or o is None or o[0] != 'class':
                continue
            lost = [x for x in k if repo.method(repo.modules[o[1]], o[2], x) is None and not any(
                isinstance(s, ast.Assign) and x in targets(s) for s in o[2].body)]
            c.ob('%s.%s: %d documented methods exist' % (mod, n, len(k)), not lost, rel, 'missing: %s' % ', '.join(lost))
    for mod, names in sorted(spec['all'].items()):
        rel = os.path.relpath(repo.modules[mod].path, repo.root) if mod in repo.modules else mod
        if mod not in repo.modules:
            continue
        try:
            al = nm.all_of(mod)
        except NotUnderstood as e:
            c.ob('%s: __all__' % mod, None, rel, 'not evaluated: %s' % e)
            continue
        if al is None:
            c.ob('%s: documented names are listed' % mod, False, rel, 'no __all__')
            continue
        miss = [n for n in names if n not in al]
        c.ob('%s: documented names are listed (%d)' % (mod, len(names)), not miss, rel, 'missing: %s' % ', '.join(miss))
    for mod, m in sorted(repo.modules.items()):
        if not any(isinstance(n, ast.Name) and n.id == '__all__' for n in ast.walk(m.tree)):
            continue
        rel = os.path.relpath(m.path, repo.root)
        try:
            al = nm.all_of(mod)
        except NotUnderstood as e:
            c.ob('%s: listed names exist' % mod, None, rel, 'not evaluated: %s' % e)
            continue
        bad = [n for n in al or [] if not nm.attribute(mod, n)]
        c.ob('%s: listed names exist (%d)' % (mod, len(al or [])), not bad, rel, 'no %s' % ', '.join(map(str, bad)))
        dup = sorted({n for n in al or [] if (al or []).count(n) > 1})
        c.ob('%s: no name is listed twice' % mod, not dup, rel, ', '.join(map(str, dup)))

def shims(c, nm):
    repo = c.repo
    spec = json.load(open(SPEC))
    for mod, target in sorted(spec['deprecated'].items()):
        m = repo.modules.get(mod)
        if m is None:
            c.ob('%s is importable' % mod, False, mod.replace('.', '/') + '.py', 'deprecated path removed')
            continue
        rel = os.path.relpath(m.path, repo.root)
        warns, hidden = [], False
        def search(stmts, mod2, cond, depth):
            """calls of warn made by executing the statements"""
            nonlocal hidden
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    continue
                for x in ast.walk(s):
                    if isinstance(x, ast.Call):
                        if (dotted_name(x.func) or '').rpartition('.')[2] in ('warn', 'warn_explicit'):
                            if cond or not isinstance(s, ast.Expr):
                                hidden = True
                            else:
                                warns.append(x)
                        elif depth < 3 and isinstance(x.func, ast.Name):
                            o = nm.origin(mod2, x.func.id)
                            if o and o[0] == 'func':
                                search(o[2].body, o[1], cond, depth + 1)
        search(m.tree.body, mod, False, 0)
        cat = [ast.unparse(a) for x in warns for a in list(x.args[1:2]) + [k.value for k in x.keywords if k.arg == 'category']]
        ok = any(x.rpartition('.')[2] in ('FutureWarning', 'DeprecationWarning', 'PendingDeprecationWarning') for x in cat)
        if not ok and (hidden or any(not x.endswith('Warning') for x in cat)):
            ok = None
        c.ob('%s warns on import' % mod, ok, rel, 'no unconditional warning of a deprecation category (%s)' % cat)
        bad = []
        for n in spec['public'].get(target, {}):
            a, b = nm.origin(mod, n), nm.origin(target, n)
            if a is None or b is None or a[2] is not b[2]:
                bad.append(n)
        c.ob('%s gives the same objects as %s (%d names)' % (mod, target, len(spec['public'].get(target, {}))), not bad, rel, ', '.join(bad))

def exports(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R22 names', 'symbol tables of every module: each name read resolves; each module-qualified name exists in the module it '
           'resolves to (library names against installed stubs); calls of package functions and own methods bind; __all__ evaluated from the '
           'initialiser contains only existing names and every documented one; deprecated modules warn and re-export the same objects; '
           'module-level imports simulated from every possible first import, also without the accelerator package')
    nm = Names(c.repo)
    for mod, m in sorted(c.repo.modules.items()):
        for f in (undefined, attributes, selves, ready):
            c.guard('%s %s' % (mod, f.__name__), lambda f=f, mod=mod, m=m: f(c, nm, mod, m), 120)
    c.guard('public names', lambda: api(c, nm), 60)
    c.guard('deprecated paths', lambda: shims(c, nm), 60)
    spec = json.load(open(SPEC))
    for mod in sorted(c.repo.modules):
        pr, order = import_order(c, nm, mod)
        rel = os.path.relpath(c.repo.modules[mod].path, c.repo.root)
        c.ob('%s can be the first import (%d modules)' % (mod, len(order)), not pr, rel, '; '.join(pr[:3]))
        if not mod.startswith(nm.top + '.jax'):
            pr, order = import_order(c, nm, mod, ('jax', 'jaxlib'))
            c.ob('%s is importable without the accelerator package' % mod, not pr, rel, '; '.join(pr[:3]))
