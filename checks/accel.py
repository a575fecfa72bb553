"""C23: accelerated modules: precision switch, purity of traced functions, binding times, hashable static arguments."""
import ast, os
from tsa.interp import dotted_name
from checks.exports import Names, walk_scope, targets, absolute

JAXPK = '.jax'
TRACERS = {'fori_loop', 'while_loop', 'scan', 'cond', 'switch', 'vmap', 'jacfwd', 'jacrev', 'grad', 'value_and_grad', 'jvp', 'vjp', 'linearize',
           'hessian', 'map', 'checkpoint', 'remat', 'custom_jvp', 'custom_vjp', 'pmap', 'associative_scan'}
DIFF = {'jacfwd', 'jacrev', 'grad', 'value_and_grad', 'hessian'}
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'add', 'discard', 'sort', 'reverse', 'fill', 'resize', 'put',
            'itemset', 'setflags'}
STATIC_ATTR = {'shape', 'ndim', 'dtype', 'size', 'itemsize', 'nbytes'}
NARROW = {'float32', 'float16', 'half', 'single', 'complex64', 'bfloat16', 'csingle', 'singlecomplex', 'f4', 'f2', 'c8', '<f4', '<f2', 'f', 'e', 'F'}
IO = {'print', 'open', 'input', 'exec', 'eval', 'setattr', 'delattr'}
IMPURE_EXT = ('numpy.random', 'random.', 'time.', 'datetime.', 'os.', 'warnings.', 'io.', 'sys.', 'logging.', 'numpy.save', 'numpy.savetxt', 'numpy.load', 'numpy.seterr')
# numpy functions which only inspect structure
NP_STRUCT = {'shape', 'ndim', 'size', 'result_type', 'iscomplexobj', 'isrealobj', 'isscalar', 'float64', 'int64'}

S, T = 'S', 'T'

class Fun:
    __slots__ = ('node', 'mod', 'env', 'static', 'given', 'kw', 'spec', 'cls')
    def __init__(self, node, mod, env=None, static=None, given=(), kw=None, cls=None):
        self.node, self.mod, self.env, self.static, self.given, self.kw, self.spec, self.cls = node, mod, env, static, tuple(given), kw or {}, None, cls
    def key(self):
        return ('fun', id(self.node), tuple(key(x) for x in self.given), tuple(sorted((k, key(v)) for k, v in self.kw.items())),
                None if self.env is None else tuple(sorted((k, key(v)) for k, v in self.env.items() if k in self.free())))
    def free(self):
        return {n.id for n in ast.walk(self.node) if isinstance(n, ast.Name)}
    def name(self):
        return getattr(self.node, 'name', 'lambda')

class Tup:
    __slots__ = ('v',)
    def __init__(self, v):
        self.v = tuple(v)

class Wrap:
    """jax.jacfwd(f) and the like"""
    __slots__ = ('kind', 'f', 'argnums', 'aux')
    def __init__(self, kind, f, argnums=(0,), aux=False):
        self.kind, self.f, self.argnums, self.aux = kind, f, argnums, aux

class Mod:
    __slots__ = ('name', 'pkg')
    def __init__(self, name, pkg):
        self.name, self.pkg = name, pkg

def key(v):
    if isinstance(v, Fun):
        return v.key() if v.env is None or len(v.env) < 60 else ('fun', id(v.node))
    if isinstance(v, Tup):
        return ('tup',) + tuple(key(x) for x in v.v)
    if isinstance(v, Wrap):
        return ('wrap', v.kind, key(v.f), v.argnums, v.aux)
    if isinstance(v, Mod):
        return ('mod', v.name)
    return v

def flat(v):
    """S or T"""
    if isinstance(v, Tup):
        return T if any(flat(x) == T for x in v.v) else S
    return T if v == T else S

def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if key(a) == key(b):
        return a
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
        return Tup(join(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, (Fun, Wrap)) and isinstance(b, (Fun, Wrap)):
        return a
    return T if T in (flat(a), flat(b)) else S

def is_const_num(n):
    if isinstance(n, ast.Constant):
        return isinstance(n.value, int)
    return isinstance(n, ast.UnaryOp) and is_const_num(n.operand)

def const_ints(n):
    """tuple of integers denoted by a static_argnums expression; None when not understood"""
    try:
        if isinstance(n, ast.Constant) and isinstance(n.value, int):
            return (n.value,)
        if isinstance(n, (ast.Tuple, ast.List)):
            return tuple(x for e in n.elts for x in const_ints(e))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('tuple', 'list', 'range', 'sorted'):
            if n.func.id == 'range':
                a = [ints1(x) for x in n.args]
                return tuple(range(*a))
            return const_ints(n.args[0])
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            return const_ints(n.left) + const_ints(n.right)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
            return None
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return (-const_ints(n.operand)[0],)
    except (TypeError, ValueError):
        pass
    return None

def ints1(n):
    v = const_ints(n)
    if v is None or len(v) != 1:
        raise ValueError
    return v[0]

def param_names(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args]

# ---------------------------------------------------------------- the analysis
class Accel:
    def __init__(self, c):
        self.c, self.repo = c, c.repo
        self.nm = Names(c.repo)
        self.top = c.repo.package
        self.memo, self.active = {}, []
        self.problems = {}           # (kind, function, line) -> text
        self.seen = {}               # function node -> (module, name)
        self.jits = {}               # function node -> (mod, static positions, static names)
        self.values = []             # package functions used as values
        self.unknown = set()
        self.required = {}           # jit node -> set of parameter positions needed as concrete values
        self.consts = {}
        self.collect()

    def rel(self, mod):
        return os.path.relpath(self.repo.modules[mod].path, self.repo.root)

    # -- names
    def lookup(self, mod, name):
        o = self.nm.origin(mod, name)
        if o is None:
            return None
        if o[0] == 'func':
            return self.funval(o[2], o[1])
        if o[0] == 'mod':
            return Mod(o[1], o[1] in self.repo.modules)
        if o[0] == 'ext':
            return Mod(o[1] + ('.' + o[2] if o[2] else ''), False)
        if o[0] == 'class':
            return ('class', o[1], o[2])
        return ('const', o[1], name)

    def funval(self, node, mod):
        return Fun(node, mod)

    def dotted(self, mod, n, env=None):
        """Mod / Fun / None denoted by a dotted expression"""
        if isinstance(n, ast.Name):
            if env is not None and n.id in env:
                return env[n.id]
            return self.lookup(mod, n.id)
        if isinstance(n, ast.Attribute):
            b = self.dotted(mod, n.value, env)
            if isinstance(b, Mod):
                if b.pkg:
                    r = self.lookup(b.name, n.attr)
                    if r is None and b.name + '.' + n.attr in self.repo.modules:
                        return Mod(b.name + '.' + n.attr, True)
                    return r
                return Mod(b.name + '.' + n.attr, False)
        return None

    # -- jit roots
    def jit_of(self, mod, d):
        """static parameter spec of a jit decorator / call; None when it is none"""
        if isinstance(d, ast.Call):
            f = self.dotted(mod, d.func)
            if isinstance(f, Mod) and f.name.rpartition('.')[2] == 'partial' and d.args:
                g = self.dotted(mod, d.args[0])
                if isinstance(g, Mod) and g.name in ('jax.jit', 'jax.pjit'):
                    return self.spec(d.keywords)
            if isinstance(f, Mod) and f.name in ('jax.jit',):
                return self.spec(d.keywords)
            return None
        g = self.dotted(mod, d)
        if isinstance(g, Mod) and g.name == 'jax.jit':
            return (), ()
        return None

    def spec(self, kws):
        nums, names = (), ()
        for k in kws:
            if k.arg == 'static_argnums':
                nums = const_ints(k.value)
                if nums is None:
                    return None, None
            elif k.arg == 'static_argnames':
                v = k.value
                if isinstance(v, ast.Constant):
                    names = (v.value,)
                elif isinstance(v, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Constant) for e in v.elts):
                    names = tuple(e.value for e in v.elts)
                else:
                    return None, None
        return nums, names

    def collect(self):
        for mod, m in self.repo.modules.items():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef):
                    for d in n.decorator_list:
                        s = self.jit_of(mod, d)
                        if s is not None:
                            self.jits[n] = (mod,) + self.positions(n, s)
                elif isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'partial'):
                    f = self.dotted(mod, n.func)
                    if isinstance(f, Mod) and f.name == 'jax.jit' and n.args:
                        g = self.dotted(mod, n.args[0]) if not isinstance(n.args[0], ast.Lambda) else Fun(n.args[0], mod)
                        if isinstance(g, Fun):
                            self.jits.setdefault(g.node, (mod,) + self.positions(g.node, self.spec(n.keywords)))
            callee = {id(n.func) for n in ast.walk(m.tree) if isinstance(n, ast.Call)}
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Name, ast.Attribute)) and id(n) not in callee and isinstance(n.ctx, ast.Load):
                    f = self.dotted(mod, n)
                    if isinstance(f, Fun):
                        self.values.append(f)

    def positions(self, node, s):
        ps = param_names(node)
        if s[0] is None:
            return None, ps
        pos = {p % len(ps) if -len(ps) <= p < len(ps) else p for p in s[0]}
        pos |= {ps.index(x) for x in s[1] if x in ps}
        return frozenset(pos), ps

    # -- reports
    def bad(self, kind, f, node, text, ok=False):
        self.problems.setdefault((kind, f.mod, f.name(), getattr(node, 'lineno', 0)), (ok, text))

    # -- evaluation of traced functions
    def run(self, f, args, kws, traced):
        """result of calling the package function with binding times args; traced: inside a trace"""
        node = f.node
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(f.given) + list(args)
        kws = {**f.kw, **kws}
        rest = []
        for i, v in enumerate(args):
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        for k, v in kws.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(rest)
        if a.kwarg:
            env[a.kwarg.arg] = T if any(flat(v) == T for k, v in kws.items() if k not in names) else S
        for p, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            env.setdefault(p, self.default(f, d))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            env.setdefault(p.arg, S)
        for p in names:
            env.setdefault(p, S)
        j = self.jits.get(node)
        if j is not None:
            mod, pos, ps = j
            if pos is not None:
                for i, p in enumerate(ps):
                    if i in pos:
                        if flat(env[p]) == T:
                            self.bad('static', f, node, 'a traced value reaches the static argument %s' % p)
                    elif not isinstance(env[p], (Fun, Wrap)):
                        env[p] = allT(env[p])
            traced = True
        if isinstance(node, ast.FunctionDef) and node.name == '<none>':
            return S
        k = (id(node), tuple(sorted((n, key(v)) for n, v in env.items())), None if f.env is None else f.key(), traced)
        if k in self.memo:
            return self.memo[k]
        if self.active.count(id(node)) > 2:
            return T
        self.memo[k] = None
        self.seen.setdefault(node, (f.mod, f.name()))
        self.active.append(id(node))
        try:
            ev = Eval(self, f, env, traced)
            if isinstance(node, ast.Lambda):
                r = ev.expr(node.body)
            else:
                ev.block(node.body)
                r = ev.ret
        finally:
            self.active.pop()
        self.memo[k] = r if r is not None else S
        return self.memo[k]

    def default(self, f, d):
        v = self.dotted(f.mod, d) if isinstance(d, (ast.Name, ast.Attribute)) else None
        return v if isinstance(v, Fun) else S

def allT(v):
    if isinstance(v, Tup):
        return Tup(allT(x) for x in v.v)
    return T

class Eval:
    def __init__(self, A, f, env, traced):
        self.A, self.f, self.mod, self.traced = A, f, f.mod, traced
        self.env = dict(env)
        self.outer = f.env or {}
        self.ret = None
        self.params = set(env)
        self.fresh = set()          # local names bound to objects made here
        self.globals = set()
        node = f.node
        self.locals = set(env)
        if isinstance(node, ast.FunctionDef):
            for s in walk_scope(node.body):
                self.locals |= targets(s)

    def bad(self, kind, node, text, ok=False):
        self.A.bad(kind, self.f, node, text, ok)

    # statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def cond(self, e, node):
        v = self.expr(e)
        if flat(v) == T and self.traced and not self.structural(e):
            self.bad('binding', node, 'Python control flow on a traced value: %s' % ast.unparse(e)[:60])

    def structural(self, e):
        """tests that do not need the value"""
        if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.structural(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(self.structural(x) or flat(self.expr(x)) == S for x in e.values)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('isinstance', 'hasattr', 'callable', 'len'):
            return True
        return False

    def branch(self, bodies):
        start, fr = dict(self.env), set(self.fresh)
        envs, frs = [], []
        for b in bodies:
            self.env, self.fresh = dict(start), set(fr)
            self.block(b)
            envs.append(self.env)
            frs.append(self.fresh)
        out = {}
        for e in envs:
            for k, v in e.items():
                out[k] = join(out[k], v) if k in out else v
        self.env, self.fresh = out, set.intersection(*frs)

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return
            v = self.expr(s.value)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.expr(s.value)
            if isinstance(s.target, ast.Name):
                self.env[s.target.id] = join(self.env.get(s.target.id, S), v) if not isinstance(v, Tup) else T if flat(v) == T else S
                # in place on a caller's numpy object
                if s.target.id in self.params and flat(self.env[s.target.id]) == S and self.mutable_param(s.target.id):
                    pass
            else:
                self.store(s.target, v, s)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.expr(s.value)
            if at_update(s.value):
                self.bad('lost', s, 'the result of the functional update is discarded: %s' % ast.unparse(s.value)[:60])
        elif isinstance(s, ast.Return):
            v = S if s.value is None else self.expr(s.value)
            self.ret = join(self.ret, v)
        elif isinstance(s, ast.If):
            self.cond(s.test, s)
            self.branch([s.body, s.orelse])
        elif isinstance(s, ast.While):
            for _ in range(2):
                self.cond(s.test, s)
                self.branch([s.body, []])
            self.block(s.orelse)
        elif isinstance(s, ast.For):
            els = self.elements(s.iter)
            for el in els * 2:
                self.assign(s.target, el, None)
                self.branch([s.body, []])
            self.block(s.orelse)
        elif isinstance(s, ast.Assert):
            self.cond(s.test, s)
            if s.msg is not None:
                self.expr(s.msg)
        elif isinstance(s, ast.FunctionDef):
            self.env[s.name] = Fun(s, self.mod, self.env_ref())
        elif isinstance(s, (ast.Global, ast.Nonlocal)):
            self.globals |= set(s.names)
        elif isinstance(s, ast.With):
            for i in s.items:
                self.expr(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, S, None)
            self.block(s.body)
        elif isinstance(s, ast.Try):
            self.branch([s.body + s.orelse, *[h.body for h in s.handlers]] if s.handlers else [s.body])
            self.block(s.finalbody)
        elif isinstance(s, ast.Delete):
            pass
        elif isinstance(s, ast.Raise):
            if s.exc is not None:
                self.expr(s.exc)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    self.env[a.asname or a.name.split('.')[0]] = Mod(a.name if a.asname else a.name.split('.')[0], a.name in self.A.repo.modules)
                else:
                    base = absolute(self.mod, self.A.repo.modules[self.mod].is_pkg, s)
                    r = self.A.lookup(base, a.name) if base in self.A.repo.modules else Mod(base + '.' + a.name, False)
                    if r is None and base + '.' + a.name in self.A.repo.modules:
                        r = Mod(base + '.' + a.name, True)
                    self.env[a.asname or a.name] = r if r is not None else S

    def mutable_param(self, n):
        return False

    def env_ref(self):
        return {**self.outer, **self.env}

    def assign(self, t, v, value):
        if isinstance(t, ast.Name):
            if t.id in self.globals and self.traced:
                self.bad('pure', t, 'assigns the outer variable %s' % t.id)
            self.env[t.id] = v
            if value is not None and self.makes(value):
                self.fresh.add(t.id)
            else:
                self.fresh.discard(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Tup) and len(v.v) == len(t.elts):
                for e, x in zip(t.elts, v.v):
                    self.assign(e, x, None)
            else:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, T if flat(v) == T else S, None)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.store(t, v, t)

    def elements(self, e):
        """values taken by the variable of a loop over e, at least one"""
        plain = isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id not in self.env and not e.keywords \
            and not any(isinstance(a, ast.Starred) for a in e.args)
        if plain and e.func.id == 'enumerate' and e.args:
            for x in e.args[1:]:
                self.expr(x)
            return [Tup((S, x)) for x in self.elements(e.args[0])]
        if plain and e.func.id == 'zip' and e.args:
            cols = [self.elements(a) for a in e.args]
            n = max(len(c) for c in cols)
            return [Tup(c[i] if i < len(c) else c[-1] for c in cols) for i in range(n)]
        if plain and e.func.id in ('reversed', 'list', 'tuple') and len(e.args) == 1:
            return self.elements(e.args[0])
        v = self.expr(e)
        if isinstance(v, Tup):
            return list(v.v) or [S]
        if isinstance(v, (Fun, Wrap)):
            return [S]
        return [v]

    def makes(self, e):
        """the expression makes a new object"""
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.BinOp, ast.Compare, ast.Tuple, ast.Constant)):
            return True
        if isinstance(e, ast.Call):
            d = dotted_name(e.func) or ''
            last = d.rpartition('.')[2] or (e.func.attr if isinstance(e.func, ast.Attribute) else '')
            return last not in ('asarray', 'reshape', 'ravel', 'atleast_1d', 'atleast_2d', 'transpose', 'squeeze', 'get', 'setdefault', 'asanyarray', 'view', 'swapaxes', 'broadcast_to')
        return False

    def store(self, t, v, node):
        """x[...] = v, x.a = v"""
        root = t
        while isinstance(root, (ast.Attribute, ast.Subscript)):
            if isinstance(root, ast.Subscript):
                self.expr(root.slice)
            root = root.value
        if not self.traced:
            return
        if isinstance(root, ast.Name) and root.id in self.env and root.id not in self.globals:
            cur = self.env[root.id]
            if flat(cur) == T and isinstance(t, ast.Subscript) and not isinstance(cur, Tup):
                if root.id in self.fresh and self.containers(root.id):
                    return
                self.bad('binding', node, 'stores into a traced array: %s' % ast.unparse(t)[:60])
            elif root.id not in self.fresh:
                self.bad('pure', node, 'changes an object it did not create: %s' % ast.unparse(t)[:60])
            elif flat(v) == T:
                if self.containers(root.id):
                    self.env[root.id] = T
                else:
                    self.bad('binding', node, 'stores a traced value into a numpy array: %s' % ast.unparse(t)[:60])
        else:
            self.bad('pure', node, 'changes an outer object: %s' % ast.unparse(t)[:60])

    def containers(self, name):
        """the local name holds a Python container"""
        node = self.f.node
        vals = [s.value for s in walk_scope(node.body) if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == name for x in s.targets)] \
            if isinstance(node, ast.FunctionDef) else []
        return bool(vals) and all(isinstance(x, (ast.List, ast.Dict, ast.ListComp, ast.DictComp)) or isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mult) and
                                  isinstance(x.left, ast.List) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('list', 'dict') for x in vals)

    # expressions
    def expr(self, e):
        A = self.A
        if e is None or isinstance(e, ast.Constant):
            return S
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            if e.id in self.locals:
                return S
            if e.id in self.outer:
                return self.outer[e.id]
            r = A.lookup(self.mod, e.id)
            if isinstance(r, tuple) and r[0] == 'const' and self.traced:
                self.constant(r, e)
                return S
            return r if r is not None and not isinstance(r, tuple) else S
        if isinstance(e, ast.Attribute):
            d = A.dotted(self.mod, e, self.scope())
            if isinstance(d, (Mod, Fun)):
                return d
            if isinstance(d, tuple) and d[0] == 'const' and self.traced:
                self.constant(d, e)
                return S
            v = self.expr(e.value)
            if e.attr in STATIC_ATTR:
                return S
            if self.traced and isinstance(e.value, ast.Name) and e.value.id == 'self':
                self.attr_read(e)
            return T if flat(v) == T else S
        if isinstance(e, (ast.Tuple, ast.List)):
            vs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.expr(x.value)
                    if isinstance(v, Tup):
                        vs += list(v.v)
                    else:
                        return T if flat(v) == T or any(flat(self.expr(y)) == T for y in e.elts if not isinstance(y, ast.Starred)) else S
                else:
                    vs.append(self.expr(x))
            return Tup(vs)
        if isinstance(e, ast.Subscript):
            v, i = self.expr(e.value), self.expr(e.slice)
            if isinstance(v, Tup) and is_const_num(e.slice):
                try:
                    return v.v[ast.literal_eval(e.slice)]
                except (IndexError, ValueError):
                    pass
            if isinstance(v, Tup) and isinstance(e.slice, ast.Slice):
                try:
                    g = lambda x: None if x is None else ast.literal_eval(x)
                    return Tup(v.v[g(e.slice.lower):g(e.slice.upper):g(e.slice.step)])
                except ValueError:
                    pass
            if self.traced and flat(v) == T and isinstance(e.slice, ast.Slice) and flat(i) == T:
                self.bad('binding', e, 'slice bounds depend on a traced value: %s' % ast.unparse(e)[:60])
            if self.traced and flat(v) == S and flat(i) == T and not isinstance(e.slice, ast.Slice):
                # numpy object indexed by a tracer
                self.bad('binding', e, 'a numpy or Python object is indexed by a traced value: %s' % ast.unparse(e)[:60], None)
            return T if T in (flat(v), flat(i)) else S
        if isinstance(e, ast.Slice):
            return T if any(x is not None and flat(self.expr(x)) == T for x in (e.lower, e.upper, e.step)) else S
        if isinstance(e, ast.BinOp):
            a, b = self.expr(e.left), self.expr(e.right)
            if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(e.op, ast.Add):
                return Tup(a.v + b.v)
            return T if T in (flat(a), flat(b)) else S
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand)
            if isinstance(e.op, ast.Not):
                if flat(v) == T and self.traced and not self.structural(e.operand):
                    self.bad('binding', e, 'truth value of a traced value: %s' % ast.unparse(e)[:60])
                return S
            return T if flat(v) == T else S
        if isinstance(e, ast.BoolOp):
            vs = [self.expr(x) for x in e.values]
            for x, v in list(zip(e.values, vs))[:-1]:
                if flat(v) == T and self.traced and not self.structural(x):
                    self.bad('binding', e, 'truth value of a traced value: %s' % ast.unparse(x)[:60])
            return T if any(flat(v) == T and not self.structural(x) for x, v in zip(e.values, vs)) else S
        if isinstance(e, ast.Compare):
            if self.structural(e):
                for x in [e.left] + e.comparators:
                    self.expr(x)
                return S
            vs = [self.expr(x) for x in [e.left] + e.comparators]
            if len(e.ops) > 1 and any(flat(v) == T for v in vs) and self.traced:
                self.bad('binding', e, 'chained comparison of traced values: %s' % ast.unparse(e)[:60])
            return T if any(flat(v) == T for v in vs) else S
        if isinstance(e, ast.IfExp):
            self.cond(e.test, e)
            return join(self.expr(e.body), self.expr(e.orelse))
        if isinstance(e, ast.Lambda):
            return Fun(e, self.mod, self.env_ref())
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            save = dict(self.env)
            for g in e.generators:
                el = None
                for x in self.elements(g.iter):
                    el = join(el, x)
                self.assign(g.target, el, None)
                for i in g.ifs:
                    self.cond(i, e)
            v = self.expr(e.elt)
            self.env = save
            return T if flat(v) == T else S
        if isinstance(e, ast.DictComp):
            return S
        if isinstance(e, ast.Dict):
            return T if any(flat(self.expr(x)) == T for x in e.values) else S
        if isinstance(e, ast.Starred):
            return self.expr(e.value)
        if isinstance(e, (ast.JoinedStr, ast.FormattedValue)):
            return S
        if isinstance(e, ast.NamedExpr):
            v = self.expr(e.value)
            self.assign(e.target, v, e.value)
            return v
        if isinstance(e, ast.Call):
            return self.call(e)
        return T if any(flat(self.expr(x)) == T for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr)) else S

    def scope(self):
        return {**self.outer, **{k: v for k, v in self.env.items()}, **{k: S for k in self.locals if k not in self.env}}

    def constant(self, r, e):
        """module level variables read while tracing are never changed"""
        _, mod, name = r
        st = self.A.stores_of(mod, name)
        if st:
            self.bad('state', e, 'reads the module variable %s, which is changed at %s' % (name, st[0]))

    def attr_read(self, e):
        st = self.A.attr_stores(e.attr)
        if st:
            self.bad('state', e, 'reads self.%s while traced; it is changed at %s' % (e.attr, st[0]), None)

    def func_value(self, v):
        """make a value callable by a tracing primitive"""
        return v if isinstance(v, (Fun, Wrap)) else None

    def call(self, e):
        A = self.A
        # functional updates and methods
        fn = self.expr(e.func) if not isinstance(e.func, ast.Attribute) else None
        if isinstance(e.func, ast.Attribute):
            d = A.dotted(self.mod, e.func, self.scope())
            fn = d if isinstance(d, (Mod, Fun, Wrap)) else None
        args, star = [], False
        for a in e.args:
            v = self.expr(a)
            if isinstance(a, ast.Starred):
                if isinstance(v, Tup):
                    args += list(v.v)
                else:
                    star = True
                    args.append(T if flat(v) == T else S)
            else:
                args.append(v)
        kws = {k.arg: self.expr(k.value) for k in e.keywords}
        anyT = T if any(flat(v) == T for v in args + list(kws.values())) else S
        if isinstance(fn, Fun):
            if star:
                return T
            return A.run(fn, args, {k: v for k, v in kws.items() if k}, self.traced)
        if isinstance(fn, Wrap):
            return self.wrapped(fn, args, kws, e)
        if isinstance(fn, Mod):
            return self.external(fn.name, e, args, kws, anyT)
        if isinstance(e.func, ast.Name):
            n = e.func.id
            if n in ('int', 'float', 'bool', 'complex') and anyT == T and self.traced:
                self.bad('binding', e, '%s of a traced value: %s' % (n, ast.unparse(e)[:60]))
                return S
            if n == 'range' and anyT == T and self.traced:
                self.bad('binding', e, 'range over a traced value: %s' % ast.unparse(e)[:60])
                return S
            if n in ('len', 'isinstance', 'type', 'callable', 'hasattr', 'id', 'repr', 'str'):
                return S
            if n in IO and self.traced:
                self.bad('pure', e, 'side effect while traced: %s' % ast.unparse(e)[:60])
                return S
            if n in ('min', 'max', 'sorted', 'any', 'all') and self.traced and anyT == T:
                self.bad('binding', e, '%s compares traced values: %s' % (n, ast.unparse(e)[:60]))
            if n in ('tuple', 'list') and args and isinstance(args[0], Tup):
                return args[0]
            if n == 'zip' and all(isinstance(x, Tup) for x in args) and args:
                return Tup(Tup(x) for x in zip(*[y.v for y in args]))
            if n in self.env or n in self.outer:
                # call of an unknown callable: any package function used as a value
                for f in A.values:
                    ps = param_names(f.node)
                    if len(args) <= len(ps) and all(k in ps for k in kws):
                        A.run(f, args, kws, self.traced)
                return T if anyT == T else S
            return anyT
        if isinstance(e.func, ast.Attribute):
            v = self.expr(e.func.value)
            at = e.func.attr
            if isinstance(e.func.value, ast.Subscript) and isinstance(e.func.value.value, ast.Attribute) and e.func.value.value.attr == 'at':
                base = self.expr(e.func.value.value.value)
                if base == S and self.traced and isinstance(e.func.value.value.value, ast.Name) and e.func.value.value.value.id in self.fresh:
                    self.bad('binding', e, 'functional update of a numpy object: %s' % ast.unparse(e)[:60])
                return T
            if at in ('item', 'tolist', '__float__', '__bool__', '__int__', 'tobytes') and flat(v) == T and self.traced:
                self.bad('binding', e, 'takes the value of a traced array: %s' % ast.unparse(e)[:60])
            if at in MUTATORS and self.traced:
                root = e.func.value
                while isinstance(root, (ast.Attribute, ast.Subscript)):
                    root = root.value
                if not (isinstance(root, ast.Name) and root.id in self.fresh) and not (isinstance(root, (ast.Call, ast.List, ast.Dict))):
                    if not (at in ('sort',) and flat(v) == T):
                        self.bad('pure', e, 'changes an object it did not create: %s' % ast.unparse(e)[:60])
                elif isinstance(root, ast.Name) and anyT == T:
                    self.env[root.id] = T
            return T if flat(v) == T or anyT == T else S
        return anyT

    def apply(self, f, args):
        """result of a traced callable"""
        if isinstance(f, Wrap):
            return self.wrapped(f, args, {}, None)
        if isinstance(f, Fun):
            return self.A.run(f, args, {}, True)
        if f in (S, T):
            for g in self.A.values:
                if len(param_names(g.node)) == len(args):
                    self.A.run(g, args, {}, True)
        return T

    def wrapped(self, w, args, kws, e):
        if isinstance(w.f, (Fun,)):
            a2 = [allT(v) if i in w.argnums and not isinstance(v, (Fun, Wrap)) else v for i, v in enumerate(args)]
            if w.kind == 'vmap':
                a2 = [allT(v) if not isinstance(v, (Fun, Wrap)) else v for v in args]
            self.A.run(w.f, a2, {k: v for k, v in kws.items() if k}, True if w.kind == 'vmap' else self.traced)
        return T

    def external(self, name, e, args, kws, anyT):
        A = self.A
        top, last = name.split('.')[0], name.rpartition('.')[2]
        if top == 'jax':
            if last in TRACERS and last not in DIFF and last != 'vmap' and last != 'map' or name == 'jax.lax.map':
                if last == 'fori_loop' and len(args) >= 4:
                    r = args[3]
                    for _ in range(2):
                        r = join(allT(args[3]), self.apply(args[2], [T, allT(r)]))
                    return allT(args[3])
                if last == 'while_loop' and len(args) >= 3:
                    self.apply(args[0], [allT(args[2])])
                    self.apply(args[1], [allT(args[2])])
                    return allT(args[2])
                if last == 'scan':
                    init = args[1] if len(args) > 1 else kws.get('init', T)
                    self.apply(args[0], [allT(init), T])
                    return Tup([allT(init), T])
                if last == 'cond':
                    ops = [allT(x) for x in args[3:]]
                    return join(self.apply(args[1], ops), self.apply(args[2], ops))
                for v in args:
                    if isinstance(v, Fun):
                        self.apply(v, [T] * len(param_names(v.node)))
                return T
            if last in DIFF or last == 'vmap':
                argn = (0,)
                for k in e.keywords:
                    if k.arg == 'argnums':
                        argn = const_ints(k.value) or (0,)
                if len(e.args) > 1 and last in DIFF:
                    argn = const_ints(e.args[1]) or (0,)
                aux = any(k.arg == 'has_aux' and isinstance(k.value, ast.Constant) and k.value.value for k in e.keywords)
                return Wrap(last, args[0] if args else None, argn, aux)
            if last == 'jit':
                return args[0] if args and isinstance(args[0], Fun) else T
            if name.startswith('jax.debug') or last in ('pure_callback', 'io_callback', 'host_callback'):
                if self.traced:
                    self.bad('pure', e, 'host callback while traced: %s' % ast.unparse(e)[:60])
                return T
            return T if self.traced or anyT == T else S
        if last == 'partial' and top == 'functools' and args and isinstance(args[0], Fun):
            f = args[0]
            return Fun(f.node, f.mod, f.env, None, list(f.given) + args[1:], {**f.kw, **{k: v for k, v in kws.items() if k}})
        if self.traced and any(name.startswith(x) for x in IMPURE_EXT):
            self.bad('pure', e, 'side effect or outside state while traced: %s' % ast.unparse(e)[:60])
            return S
        if top in ('numpy', 'scipy', 'math'):
            if anyT == T and self.traced and last not in NP_STRUCT:
                self.bad('binding', e, '%s applied to a traced value: %s' % (name, ast.unparse(e)[:60]))
                return T
            return S if anyT == S else T
        return anyT

def at_update(e):
    """x.at[..].set(..) and other functional updates"""
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Subscript) \
        and isinstance(e.func.value.value, ast.Attribute) and e.func.value.value.attr == 'at'

def _root(t):
    while isinstance(t, (ast.Attribute, ast.Subscript)):
        t = t.value
    return t

def stores_of(self, mod, name):
    """places outside the module's own top level statements that rebind or change a module variable"""
    k = (mod, name)
    if k in self.consts:
        return self.consts[k]
    out = []
    for m2, m in self.repo.modules.items():
        for f in ast.walk(m.tree):
            if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
                continue
            own = set()
            if isinstance(f, ast.FunctionDef):
                gl = {x for s in walk_scope(f.body) if isinstance(s, ast.Global) for x in s.names}
                own = {x for s in walk_scope(f.body) for x in targets(s)} - gl
                own |= {a.arg for a in ast.walk(f.args) if isinstance(a, ast.arg)}
                if name in gl and m2 == mod and any(name in targets(s) for s in walk_scope(f.body)):
                    out.append('%s:%d' % (self.rel(m2), f.lineno))
            def is_it(x):
                if isinstance(x, ast.Name):
                    if x.id in own:
                        return False
                    o = self.nm.bound(m2).get(x.id)
                    return (m2 == mod and x.id == name) or bool(o and o[0] == 'from' and o[1:] == (mod, name))
                if isinstance(x, ast.Attribute) and x.attr == name:
                    d = self.dotted(m2, x.value)
                    return isinstance(d, Mod) and d.name == mod
                return False
            for n in ast.walk(f):
                if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        if is_it(x) or is_it(x.value):
                            out.append('%s:%d' % (self.rel(m2), n.lineno))
                            break
                        x = x.value
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_it(n.func.value):
                    out.append('%s:%d' % (self.rel(m2), n.lineno))
    self.consts[k] = out
    return out

def attr_stores(self, attr):
    """stores to the attribute outside constructors"""
    out = []
    for m2, m in self.repo.modules.items():
        for cn, cl in m.classes.items():
            for f in cl.body:
                if isinstance(f, ast.FunctionDef) and f.name != '__init__':
                    for n in ast.walk(f):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr:
                            out.append('%s:%d' % (self.rel(m2), n.lineno))
    return out

Accel.stores_of, Accel.attr_stores = stores_of, attr_stores

# ------------------------------------------------------------- static arguments
HASH, UNHASH, UNKNOWN = 'hashable', 'not hashable', 'unknown'

class Sites:
    """hashability of the static arguments at the call sites of compiled functions"""
    def __init__(self, A):
        self.A = A

    def of(self, mod, cls, f, e, depth=0):
        A = self.A
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            return HASH
        if isinstance(e, ast.Tuple):
            r = [self.of(mod, cls, f, x, depth + 1) for x in e.elts]
            return UNHASH if UNHASH in r else UNKNOWN if UNKNOWN in r else HASH
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
            return UNHASH
        if isinstance(e, ast.Compare) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return HASH
        if isinstance(e, ast.BinOp):
            r = [self.of(mod, cls, f, x, depth + 1) for x in (e.left, e.right)]
            return UNHASH if UNHASH in r else UNKNOWN if UNKNOWN in r else HASH
        if isinstance(e, ast.UnaryOp):
            return self.of(mod, cls, f, e.operand, depth + 1)
        if isinstance(e, ast.IfExp):
            r = [self.of(mod, cls, f, x, depth + 1) for x in (e.body, e.orelse)]
            return UNHASH if UNHASH in r else UNKNOWN if UNKNOWN in r else HASH
        if isinstance(e, ast.Call):
            d = dotted_name(e.func) or ''
            if d in ('tuple', 'int', 'float', 'bool', 'str', 'len', 'frozenset', 'round', 'hash', 'repr'):
                return HASH
            g = A.dotted(mod, e.func)
            if isinstance(g, Mod) and not g.pkg and g.name.startswith('numpy.'):
                last = g.name.rpartition('.')[2]
                if last in ('array', 'asarray', 'zeros', 'ones', 'arange', 'linspace', 'hstack', 'vstack', 'append', 'atleast_1d', 'sort', 'unique', 'eye', 'copy', 'empty'):
                    return UNHASH
                if last in ('float64', 'int64'):
                    return HASH
            if isinstance(g, Mod) and not g.pkg and g.name.startswith('jax.numpy.'):
                return UNHASH
            if d in ('list', 'dict', 'set', 'sorted'):
                return UNHASH
            return UNKNOWN
        if depth > 6:
            return UNKNOWN
        if isinstance(e, ast.Name):
            if f is not None:
                vals = [s.value for s in walk_scope(f.body) if isinstance(s, ast.Assign) and len(s.targets) == 1
                        and isinstance(s.targets[0], ast.Name) and s.targets[0].id == e.id]
                if vals:
                    r = [self.of(mod, cls, f, x, depth + 1) for x in vals]
                    return UNHASH if r and all(x == UNHASH for x in r) else UNKNOWN if UNKNOWN in r or UNHASH in r else HASH
                ps = f.args.args + f.args.kwonlyargs
                if e.id in [a.arg for a in ps]:
                    return self.param(mod, cls, f, e.id)
            g = A.dotted(mod, e)
            return HASH if isinstance(g, (Fun, Mod)) else UNKNOWN
        if isinstance(e, ast.Attribute):
            g = A.dotted(mod, e)
            if isinstance(g, (Fun, Mod)):
                return HASH
            if isinstance(e.value, ast.Name) and e.value.id == 'self' and cls is not None:
                vals = []
                for m2, c2 in A.repo.mro(A.repo.modules[mod], cls):
                    for s in c2.body:
                        if isinstance(s, ast.FunctionDef):
                            for t in walk_scope(s.body):
                                if isinstance(t, ast.Assign):
                                    for x in t.targets:
                                        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == e.attr:
                                            vals.append(self.of(m2.name if hasattr(m2, 'name') else mod, c2, s, t.value, depth + 1))
                if vals and all(v == HASH for v in vals):
                    return HASH
                if vals and all(v == UNHASH for v in vals):
                    return UNHASH
            return UNKNOWN
        if isinstance(e, ast.Subscript):
            return UNKNOWN
        return UNKNOWN

    def param(self, mod, cls, f, name):
        """a scalar or string by its default; else by its documentation; else unknown"""
        a = f.args
        ps = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        if name in d and isinstance(d[name], ast.Constant) and d[name].value is not None:
            return HASH
        doc = ast.get_docstring(f) or ''
        if f.name == '__init__' and cls is not None:
            doc = (ast.get_docstring(cls) or '') + '\n' + doc
        for line in doc.splitlines():
            l = line.strip()
            if l.startswith(name + ' ') or l.startswith(name + ':'):
                t = l.partition(':')[2].lower()
                if any(x in t for x in ('int', 'float', 'str', 'tuple', 'bool', 'double')) and not any(x in t for x in ('array', 'list', 'ndarray')):
                    return HASH
                if any(x in t for x in ('ndarray', 'list')) and 'scalar' not in t:
                    return UNHASH
        return UNKNOWN

def call_sites(A):
    """calls of compiled functions by name: (module, class, function, call, jit node)"""
    for mod, m in A.repo.modules.items():
        def visit(node, cls, f):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, ast.ClassDef):
                    visit(ch, ch, f)
                elif isinstance(ch, ast.FunctionDef):
                    visit(ch, cls, ch)
                else:
                    if isinstance(ch, ast.Call):
                        g = A.dotted(mod, ch.func)
                        if isinstance(g, Fun) and g.node in A.jits:
                            out.append((mod, cls, f, ch, g.node))
                    visit(ch, cls, f)
        out = []
        visit(m.tree, None, None)
        yield from out

# ------------------------------------------------------------------ precision
def precision(c, A):
    repo = c.repo
    pk = repo.package + JAXPK
    rel = A.rel(pk)
    state = {'on': None, 'array': None, 'maybe': None}
    loaded = set()
    def is_switch(mod, x):
        """True/False/None: value the expression or statement gives the 64 bit option; 'no' otherwise"""
        if isinstance(x, ast.Call) and len(x.args) >= 2:
            d = x.func
            if isinstance(d, ast.Attribute) and d.attr == 'update' or isinstance(d, ast.Name):
                g = A.dotted(mod, d)
                if isinstance(g, Mod) and g.name.endswith('config.update') and isinstance(x.args[0], ast.Constant) and x.args[0].value == 'jax_enable_x64':
                    return bool(x.args[1].value) if isinstance(x.args[1], ast.Constant) else None
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == 'jax_enable_x64' for t in x.targets):
            return bool(x.value.value) if isinstance(x.value, ast.Constant) else None
        return 'no'
    def creates(mod, n):
        """a module level expression creates or computes with arrays"""
        for x in ast.walk(n):
            if isinstance(x, (ast.Lambda,)):
                return None
            if isinstance(x, ast.Call):
                g = A.dotted(mod, x.func)
                if isinstance(g, Mod) and not g.pkg and g.name.startswith('jax.') and not g.name.startswith(('jax.config', 'jax.jit', 'jax.jacfwd', 'jax.vmap', 'jax.grad', 'jax.jacrev',
                                                                                                          'jax.custom_')):
                    return '%s (%s:%d)' % (g.name, A.rel(mod), x.lineno)
                if isinstance(g, Fun):
                    for y in ast.walk(g.node):
                        if isinstance(y, ast.Call):
                            h = A.dotted(g.mod, y.func)
                            if isinstance(h, Mod) and not h.pkg and h.name.startswith('jax.numpy'):
                                return '%s in %s (%s:%d)' % (h.name, g.name(), A.rel(mod), x.lineno)
        return None
    def load(mod):
        if mod in loaded or mod not in repo.modules:
            return
        up = mod.rpartition('.')[0]
        if up:
            load(up)
        if mod in loaded:
            return
        loaded.add(mod)
        run(repo.modules[mod].tree.body, mod, False, 0)
    def note(mod, s, cond):
        for x in ast.walk(s):
            v = is_switch(mod, x)
            if v == 'no':
                continue
            if cond:
                state['maybe'] = (v, '%s:%d' % (A.rel(mod), x.lineno))
            elif v is True:
                state['on'] = True
            elif v is False:
                state['on'] = False
                state['off'] = '%s:%d' % (A.rel(mod), x.lineno)
            else:
                state['maybe'] = (v, '%s:%d' % (A.rel(mod), x.lineno))
    def run(stmts, mod, cond, depth):
        m = repo.modules[mod]
        for s in stmts:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.name.split('.')[0] == repo.package:
                        load(a.name)
            elif isinstance(s, ast.ImportFrom):
                base = absolute(mod, m.is_pkg, s)
                if base.split('.')[0] == repo.package:
                    load(base)
                    for a in s.names:
                        load(base + '.' + a.name)
            elif isinstance(s, ast.If):
                run(s.body, mod, True, depth)
                run(s.orelse, mod, True, depth)
            elif isinstance(s, (ast.For, ast.While)):
                run(s.body, mod, True, depth)
            elif isinstance(s, ast.Try):
                run(s.body, mod, cond, depth)
                for h in s.handlers:
                    run(h.body, mod, True, depth)
                run(s.finalbody, mod, cond, depth)
            elif isinstance(s, ast.With):
                run(s.body, mod, cond, depth)
            elif isinstance(s, ast.FunctionDef):
                for d in s.args.defaults + [x for x in s.args.kw_defaults if x is not None]:
                    check(mod, d)
            elif isinstance(s, ast.ClassDef):
                run(s.body, mod, cond, depth)
            else:
                check(mod, s)
                note(mod, s, cond)
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and depth < 3 and is_switch(mod, x) == 'no':
                        g = A.dotted(mod, x.func)
                        if isinstance(g, Fun) and isinstance(g.node, ast.FunctionDef):
                            run(g.node.body, g.mod, cond, depth + 1)
    def check(mod, s):
        if state['on'] is not True and state['array'] is None:
            state['array'] = creates(mod, s)
    for first in sorted(x for x in repo.modules if x == pk or x.startswith(pk + '.')):
        for k in ('on', 'array', 'maybe'):
            state[k] = None
        state.pop('off', None)
        loaded.clear()
        load(first)
        v = state['on'] is True
        if not v and state['maybe'] is not None and state['maybe'][0] is not False:
            v = None
        c.ob('%s: importing it switches to 64 bit arithmetic' % first, v, rel,
             'switched off at %s' % state['off'] if state.get('off') else 'only conditionally: %s' % (state['maybe'],) if state['maybe'] else 'no statement on the import path enables it')
        c.ob('%s: no array is created before the switch (%d modules)' % (first, len(loaded)), state['array'] is None, rel, state['array'] or '')
    # other statements touching the option
    bad = []
    for mod, m in repo.modules.items():
        for x in ast.walk(m.tree):
            v = is_switch(mod, x)
            if v is False:
                bad.append('%s:%d' % (A.rel(mod), x.lineno))
            if isinstance(x, ast.Call):
                g = A.dotted(mod, x.func)
                if isinstance(g, Mod) and (g.name.endswith('disable_x64') or g.name.endswith('enable_x64') and x.args and isinstance(x.args[0], ast.Constant) and not x.args[0].value):
                    bad.append('%s:%d' % (A.rel(mod), x.lineno))
            if isinstance(x, (ast.Assign, ast.Call)) and 'JAX_ENABLE_X64' in ast.unparse(x) and any(
                    isinstance(y, ast.Constant) and str(y.value).lower() in ('0', 'false') for y in ast.walk(x)):
                bad.append('%s:%d' % (A.rel(mod), x.lineno))
    c.ob('the 64 bit option is never switched off', not bad, rel, ', '.join(bad[:4]))

def narrow(c, A):
    """types below double precision"""
    for mod, m in sorted(A.repo.modules.items()):
        bad, cnt = [], 0
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                g = A.dotted(mod, x)
                if isinstance(g, Mod) and not g.pkg:
                    cnt += 1
                    if g.name.split('.')[0] in ('numpy', 'jax', 'scipy') and x.attr in NARROW and len(x.attr) > 2:
                        bad.append('%s (line %d)' % (ast.unparse(x), x.lineno))
            if isinstance(x, ast.Call):
                vals = [k.value for k in x.keywords if k.arg in ('dtype', 'preferred_element_type')]
                if isinstance(x.func, ast.Attribute) and x.func.attr in ('astype', 'view', 'dtype'):
                    vals += x.args[:1]
                g = A.dotted(mod, x.func)
                if isinstance(g, Mod) and not g.pkg and g.name.rpartition('.')[2] in ('zeros', 'ones', 'empty', 'array', 'asarray') and len(x.args) > 1:
                    vals.append(x.args[1])
                for v in vals:
                    if isinstance(v, ast.Constant) and v.value in NARROW:
                        bad.append('%r (line %d)' % (v.value, v.lineno))
        c.ob('%s: no type below double precision (%d library names)' % (mod, cnt), not bad, A.rel(mod), '; '.join(bad[:4]))

# ------------------------------------------------------------------- the check
KINDS = {'pure': 'no side effects and no outside state', 'state': 'module and object state read is never changed', 'binding': 'Python control flow, numpy and '
         'in-place stores use concrete values only', 'static': 'static arguments are concrete', 'lost': 'functional updates are used'}

def accel(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R23 binding times', 'compiled functions analysed from their static/traced parameter split through every callee, closure and tracing '
           'primitive; effects, outside state and value-dependent Python on traced values are violations; static arguments at every call site '
           'are hashable; module loading simulated from every first import for the precision switch')
    A = Accel(c)
    c.guard('precision', lambda: precision(c, A), 60)
    c.guard('types', lambda: narrow(c, A), 60)
    c.ob('compiled functions are found', len(A.jits) > 0 or None, c.repo.package + '/jax', 'none found')
    # roots: compiled functions with their declared split; tracing primitives outside compiled functions
    for node, (mod, pos, ps) in sorted(A.jits.items(), key=lambda x: (x[1][0], x[0].lineno)):
        name = getattr(node, 'name', 'lambda')
        if pos is None:
            c.ob('%s.%s: static arguments' % (mod, name), None, A.rel(mod), 'static_argnums not understood')
            continue
        out = [p for p in pos if not (isinstance(p, int) and 0 <= p < len(ps))]
        c.ob('%s.%s: static positions name parameters (%d)' % (mod, name, len(pos)), not out or node.args.vararg is not None, '%s:%d' % (A.rel(mod), node.lineno), 'positions %s of %d parameters' % (out, len(ps)))
        args = [S if i in pos else T for i in range(len(ps))]
        meth = ps and ps[0] == 'self'
        if meth:
            c.ob('%s.%s: compiled method does not depend on changing state' % (mod, name), None if 0 in pos else None, A.rel(mod), 'compiled method')
        A.run(Fun(node, mod), args, {}, True)
        # annotations of static callables: package functions given at the call sites
    sites = Sites(A)
    # defaults and call sites
    for mod, cls, f, call, node in call_sites(A):
        jmod, pos, ps = A.jits[node]
        if pos is None:
            continue
        name = node.name
        where = '%s:%d' % (A.rel(mod), call.lineno)
        if f is not None and f in A.seen:
            continue                                # inside traced code: handled by the binding-time analysis
        bad, unk = [], []
        got = {}
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                got = None
                break
            if i < len(ps):
                got[i] = a
        if got is not None:
            for k in call.keywords:
                if k.arg in ps:
                    got[ps.index(k.arg)] = k.value
            for i in sorted(pos):
                if i in got:
                    h = sites.of(mod, cls, f, got[i])
                    if h == UNHASH:
                        bad.append('%s = %s' % (ps[i], ast.unparse(got[i])))
                    elif h == UNKNOWN:
                        unk.append(ps[i])
            strs = ['%s = %s' % (ps[i], ast.unparse(a)) for i, a in got.items() if i not in pos and (isinstance(a, ast.Constant) and isinstance(a.value, str) or
                    isinstance(A.dotted(mod, a), Fun) if isinstance(a, (ast.Name, ast.Attribute, ast.Constant)) else False)]
            c.ob('%s: no string or function is a traced argument of %s [%s]' % (where_key(mod, cls, f), name, ordinal(A, mod, f, call, node)), not strs, where, '; '.join(strs))
        # callables handed over as static arguments are traced with the split they get
        c.ob('%s: static arguments of %s are hashable [%s]' % (where_key(mod, cls, f), name, ordinal(A, mod, f, call, node)), not bad if not unk or bad else True, where,
             'not hashable: ' + '; '.join(bad))
    byf = {}
    for (kind, mod, fn, line), (ok, text) in A.problems.items():
        byf.setdefault((mod, fn, kind), []).append((line, ok, text))
    for node, (mod, fn) in sorted(A.seen.items(), key=lambda x: (x[1][0], x[0].lineno)):
        for kind, title in KINDS.items():
            ps = sorted(byf.get((mod, fn, kind), []), key=lambda x: x[0])
            v = True
            if ps:
                v = False if any(x[1] is False for x in ps) else None
            tag = fn if fn != 'lambda' else 'lambda in %s' % enclosing(A, mod, node)
            c.ob('%s.%s: %s' % (mod, tag, title), v, '%s:%d' % (A.rel(mod), ps[0][0] if ps else node.lineno), '; '.join('%s (line %d)' % (x[2], x[0]) for x in ps[:3]))
    hidden(c, A)

def where_key(mod, cls, f):
    return '.'.join(x for x in (mod, cls.name if cls else '', f.name if f else '') if x)

def ordinal(A, mod, f, call, node):
    same = [x for x in ast.walk(f if f is not None else A.repo.modules[mod].tree) if isinstance(x, ast.Call) and isinstance(A.dotted(mod, x.func), Fun) and A.dotted(mod, x.func).node is node]
    return str(same.index(call)) if call in same else '?'

def enclosing(A, mod, node):
    best = ''
    for f in ast.walk(A.repo.modules[mod].tree):
        if isinstance(f, ast.FunctionDef) and f is not node and any(x is node for x in ast.walk(f)):
            best = f.name
    return best

def hidden(c, A):
    """memoisation keyed on objects whose state can change"""
    for mod, m in sorted(A.repo.modules.items()):
        bad = []
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            for d in f.decorator_list:
                x = d.func if isinstance(d, ast.Call) else d
                g = A.dotted(mod, x)
                if isinstance(g, Mod) and g.name in ('functools.lru_cache', 'functools.cache', 'functools.cached_property'):
                    reads = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name)
                             and n.value.id in param_names(f) and A.attr_stores(n.attr)]
                    if reads:
                        bad.append('%s keeps results that depend on %s (line %d)' % (f.name, ast.unparse(reads[0]), reads[0].lineno))
                # mutable default arguments that are changed
            ps = f.args.posonlyargs + f.args.args
            for p, dv in list(zip(ps[len(ps) - len(f.args.defaults):], f.args.defaults)) + [(p, v) for p, v in zip(f.args.kwonlyargs, f.args.kw_defaults) if v is not None]:
                if isinstance(dv, (ast.List, ast.Dict, ast.Set)) or isinstance(dv, ast.Call) and (dotted_name(dv.func) or '') in ('dict', 'list', 'set'):
                    for n in ast.walk(f):
                        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == p.arg \
                                or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id == p.arg:
                            rebound = any(p.arg in targets(s) for s in walk_scope(f.body))
                            if not rebound:
                                bad.append('%s changes its default argument %s (line %d)' % (f.name, p.arg, n.lineno))
        # compiled closures over changing state kept beyond the call
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef) and param_names(f)[:1] == ['self']:
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                        g = A.dotted(mod, n.value.func)
                        if isinstance(g, Mod) and g.name == 'jax.jit' and n.value.args and any(isinstance(t, ast.Attribute) for t in n.targets):
                            a = n.value.args[0]
                            body = a
                            if isinstance(a, ast.Name):
                                body = next((s for s in walk_scope(f.body) if isinstance(s, ast.FunctionDef) and s.name == a.id), a)
                            if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == 'self':
                                body = next((x for m2, c2 in [(mm, cc) for mm in A.repo.modules.values() for cc in mm.classes.values()] for x in c2.body
                                             if isinstance(x, ast.FunctionDef) and x.name == a.attr), a)
                            rd = [x for x in ast.walk(body) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == 'self'
                                  and A.attr_stores(x.attr)]
                            if rd:
                                bad.append('a compiled function kept in %s depends on %s (line %d)' % (ast.unparse(n.targets[0]), ast.unparse(rd[0]), n.lineno))
        c.ob('%s: no stored result or compiled function depends on state that changes' % mod, not bad, A.rel(mod), '; '.join(bad[:4]))
