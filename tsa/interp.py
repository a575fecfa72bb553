"""Value-graph builder: walks the syntax tree of the code under analysis and
gives every variable an index-notation normal form (arr.Arr / sym.Expr).

It is a dataflow analysis: conditionals on unknown flags are joined, helper
functions are followed through the call graph, loops over symbolic ranges are
summarised (accumulation or indexed family of stores).  Whatever is not
modelled becomes Unknown, and an obligation that meets Unknown is undecided.
"""
import itertools
import ast
import os
from fractions import Fraction
from . import sym as S
from . import arr as A
from .sym import Expr, Undecided, lift, ZERO, ONE, ge, const
from .arr import Arr, Slice

# ----------------------------------------------------------------- sources
class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        pk = name if is_pkg else name.rpartition('.')[0]
        for st in ast.walk(tree):
            if isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports[a.name.split('.')[0]] = a.name.split('.')[0]
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    up = pk.split('.')
                    up = up[:len(up) - (st.level - 1)] if st.level > 1 else up
                    base = '.'.join(up + ([st.module] if st.module else []))
                for a in st.names:
                    self.imports[a.asname or a.name] = base + '.' + a.name
        for st in tree.body:
            if isinstance(st, ast.FunctionDef):
                self.funcs[st.name] = st
            elif isinstance(st, ast.ClassDef):
                self.classes[st.name] = st
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                self.consts[st.targets[0].id] = st.value

class Repo:
    def __init__(self, root='/repo', package='tmdsimpy'):
        self.root, self.package = root, package
        self.modules = {}
        self.digest = []
        top = os.path.join(root, package)
        for dp, dn, fs in os.walk(top):
            dn[:] = sorted(d for d in dn if d != '__pycache__')
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                    pkg = rel.endswith('.__init__')
                    if pkg:
                        rel = rel[:-9]
                    with open(p) as fh:
                        src = fh.read()
                    self.modules[rel] = Module(rel, p, ast.parse(src, p), pkg)
    def resolve(self, dotted):
        """('func', mod, node) / ('class', mod, node) / ('mod', name) / None"""
        for _ in range(8):
            if dotted in self.modules:
                return ('mod', dotted)
            base, _, last = dotted.rpartition('.')
            m = self.modules.get(base)
            if m is None:
                b2, _, mid = base.rpartition('.')
                m2 = self.modules.get(b2)
                if m2 is not None and mid in m2.imports:
                    dotted = m2.imports[mid] + '.' + last
                    continue
                return None
            if last in m.funcs:
                return ('func', m, m.funcs[last])
            if last in m.classes:
                return ('class', m, m.classes[last])
            if last in m.imports and m.imports[last] != dotted:
                dotted = m.imports[last]
                continue
            if last in m.consts:
                return ('const', m, m.consts[last])
            return None
        return None
    def mro(self, mod, cls):
        out = [(mod, cls)]
        for b in cls.bases:
            r = self.resolve_name(mod, b)
            if r and r[0] == 'class':
                out += self.mro(r[1], r[2])
        return out
    def resolve_name(self, mod, node):
        if isinstance(node, ast.Name):
            if node.id in mod.classes:
                return ('class', mod, mod.classes[node.id])
            if node.id in mod.funcs:
                return ('func', mod, mod.funcs[node.id])
            if node.id in mod.imports:
                return self.resolve(mod.imports[node.id])
        elif isinstance(node, ast.Attribute):
            d = dotted_name(node)
            if d:
                h, _, rest = d.partition('.')
                if h in mod.imports:
                    return self.resolve(mod.imports[h] + '.' + rest)
        return None
    def find_class(self, name):
        hits = [(m, m.classes[name]) for m in self.modules.values() if name in m.classes]
        return hits
    def method(self, mod, cls, name):
        for m, c in self.mro(mod, cls):
            for st in c.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    return m, c, st
        return None

def dotted_name(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted_name(n.value)
        return b + '.' + n.attr if b else None
    return None

# ------------------------------------------------------------------ values
class Unknown:
    def __init__(self, why):
        self.why = why
    def __repr__(self):
        return 'Unknown(%s)' % self.why

class Cond:
    """a symbolic truth value given by a 0/1 Expr"""
    def __init__(self, e):
        self.e = e

_serial = itertools.count()

class NArr:
    def __init__(self, content=None, base=None, items=None, origin=None):
        self.content, self.base, self.items, self.origin = content, base, items, origin
        self.born = next(_serial)
        self.name = None
    def get(self):
        if self.base is not None:
            r = A.index(self.base.get(), self.items)
            return A.to_arr(r)
        return self.content
    def root(self):
        return self.base.root() if self.base is not None else self

class PyList:
    def __init__(self, items):
        self.items = list(items)
        self.born = next(_serial)

class SymList:
    """list built by repetition: parts (count, item); counts may be symbolic"""
    def __init__(self, parts):
        self.parts = tuple(parts)
        self.born = next(_serial)

def as_parts(v):
    if isinstance(v, SymList):
        return v.parts
    if isinstance(v, (PyList, tuple)):
        return tuple((ONE, x) for x in (v.items if isinstance(v, PyList) else v))
    return None

class PyDict:
    def __init__(self, items=None, default=None):
        self.items = dict(items or {})
        self.default = default
        self.born = next(_serial)

class Obj:
    def __init__(self, mod=None, cls=None, attrs=None, name=None, getter=None):
        self.mod, self.cls, self.attrs, self.name, self.getter = mod, cls, dict(attrs or {}), name, getter
        self.born = next(_serial)

class Func:
    def __init__(self, node, mod, closure=None, bound=None, qual=None):
        self.node, self.mod, self.closure, self.bound, self.qual = node, mod, closure, bound, qual

class ClassRef:
    def __init__(self, mod, node):
        self.mod, self.node = mod, node

class Prim:
    def __init__(self, name, f):
        self.name, self.f = name, f

class ModRef:
    def __init__(self, name):
        self.name = name

class SeqSym:
    """sequence with symbolic length; elem(k) gives the k-th entry"""
    def __init__(self, n, elem, key='seq'):
        self.n, self.elem, self.key = n, elem, key

class RangeSym:
    def __init__(self, lo, n):
        self.lo, self.n = lo, n

class Text:
    """text with unknown numbers: literal strings and ('field', format, value) parts"""
    def __init__(self, parts):
        self.parts = tuple(parts)
    @staticmethod
    def parts_of(x):
        return x.parts if isinstance(x, Text) else (x,) if x else ()
    def __repr__(self):
        return 'Text%r' % (self.parts,)

def text_of(parts):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    if all(isinstance(p, str) for p in out):
        return ''.join(out)
    return Text(out)

class Masked:
    def __init__(self, arr, mask):
        self.arr, self.mask = arr, mask

class AtProxy:
    def __init__(self, a, items=None):
        self.a, self.items = a, items

class BoolVec:
    """comparison of the harmonic list with a scalar"""
    def __init__(self, h, op, v):
        self.h, self.op, self.v = h, op, v

class DType:
    def __init__(self, name=None):
        self.name = name

class TypeOf:
    """type(x)"""
    def __init__(self, x):
        self.x = x

class Env:
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent
        self.born = next(_serial)
    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        return None
    def has(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return True
            e = e.parent
        return False

class Abort(Exception):
    pass

class Raised(Exception):
    """the path ends in an exception"""

MISSING = object()

def is_num(v):
    return isinstance(v, (Expr, bool, int, float, NArr, Arr, Cond))

def is_unk(v):
    return isinstance(v, Unknown)

def has_unknown(v):
    if isinstance(v, Unknown):
        return v.why
    if isinstance(v, (tuple, list)):
        for x in v:
            w = has_unknown(x)
            if w:
                return w
    return None

class Interp:
    def __init__(self, repo, hooks=None, max_depth=14):
        self.repo = repo
        self.hooks = hooks or {}
        self.journal = None
        self.depth = 0
        self.max_depth = max_depth
        self.calls = []           # functions followed
        self.events = []          # custom trace for checks
        self.notes = []
        self.logs = []          # lists of external events; alternatives become ('fork', cond, events, events)
        self.dropped = None
        self.steps = 0
        self.select = {}          # key of a boolean vector -> (name of the index list, count)
        self.asserts = False      # follow assertions
        self.type_is = lambda x, name: None    # is x of this Python type?
        self.decide = None        # regime: sign of an expression, or None
        self.nz = lambda e: None  # extra knowledge: is e non zero
        from . import npmodel
        self.np = npmodel.NP(self)

    # -------------------------------------------------------------- cells
    def intern(self, key):
        if not hasattr(self, '_names'):
            self._names = {}
        return self._names.setdefault(key, 'L#%d' % len(self._names))

    def setcell(self, obj, kind, key, val):
        if kind == 'var':
            d = obj.vars
        elif kind == 'attr':
            d = obj.attrs
        elif kind == 'items':
            if self.journal is not None:
                self.journal.append((obj, kind, None, obj.items))
            obj.items = val
            return
        elif kind == 'content':
            if self.journal is not None:
                self.journal.append((obj, kind, None, obj.content))
            obj.content = val
            return
        if self.journal is not None:
            self.journal.append((obj, kind, key, d.get(key, MISSING)))
        d[key] = val

    def getcell(self, obj, kind, key):
        if kind == 'var':
            return obj.vars.get(key, MISSING)
        if kind == 'attr':
            return obj.attrs.get(key, MISSING)
        if kind == 'items':
            return obj.items
        return obj.content

    def _raw(self, obj, kind, key, val):
        if kind in ('var', 'attr'):
            d = obj.vars if kind == 'var' else obj.attrs
            if val is MISSING:
                d.pop(key, None)
            else:
                d[key] = val
        elif kind == 'items':
            obj.items = val
        else:
            obj.content = val

    def speculate(self, thunk):
        """run thunk, undo its effects; (result, {cell: final value})"""
        old = self.journal
        self.journal = []
        start = next(_serial)
        res = None
        err = None
        try:
            res = thunk()
        except (Raised, Undecided, Abort) as e:
            err = e
        j = self.journal
        final, cells = {}, {}
        # objects created inside keep their state: nobody outside has seen them
        j = [x for x in j if getattr(x[0], 'born', -1) < start]
        for obj, kind, key, prev in j:
            cells.setdefault((id(obj), kind, key), (obj, kind, key))
        for cid, (obj, kind, key) in cells.items():
            final[cid] = (obj, kind, key, self.getcell(obj, kind, key))
        for obj, kind, key, prev in reversed(j):
            self._raw(obj, kind, key, prev)
        self.journal = old
        return res, final, err

    def merge(self, a, b, cond):
        if a is b:
            return a
        if a is MISSING or b is MISSING:
            return Unknown('bound on one branch only')
        if is_unk(a):
            return a
        if is_unk(b):
            return b
        if isinstance(a, (bool, type(None), str)) and a == b and type(a) == type(b):
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge(x, y, cond) for x, y in zip(a, b))
        if is_num(a) and is_num(b):
            try:
                x, y = self.arr(a), self.arr(b)
                if A.key_of(x) == A.key_of(y):
                    return a
                if cond is not None:
                    c = cond
                    r = A.ew(lambda p, q: c * p + (ONE - c) * q, x, y)
                    return self.wrap(r)
            except Undecided as u:
                return Unknown(str(u))
        if isinstance(a, PyList) and isinstance(b, PyList) and len(a.items) == len(b.items):
            return PyList([self.merge(x, y, cond) for x, y in zip(a.items, b.items)])
        return Unknown('values differ between branches')

    def fork(self, cond, fa, fb):
        """run two alternatives and join; cond is a 0/1 Expr or None"""
        starts = [len(l) for l in self.logs]
        ra, ca, ea = self.speculate(fa)
        la = [l[n:] for l, n in zip(self.logs, starts)]
        for l, n in zip(self.logs, starts):
            del l[n:]
        rb, cb, eb = self.speculate(fb)
        for l, n, x in zip(self.logs, starts, la):
            y = l[n:]
            if ea is not None or eb is not None:
                l[n:] = y if ea is not None else x
            elif repr(x) == repr(y):
                l[n:] = x
            else:
                l[n:] = [('fork', cond, x, y)]
        if isinstance(ea, (Undecided, Abort)) or isinstance(eb, (Undecided, Abort)):
            raise (ea if isinstance(ea, (Undecided, Abort)) else eb)
        if ea is not None and eb is not None:
            raise ea
        if ea is not None or eb is not None:
            r, c = (rb, cb) if ea is not None else (ra, ca)
            for obj, kind, key, val in c.values():
                self.setcell(obj, kind, key, val)
            return r
        for cid in list(ca) + [x for x in cb if x not in ca]:
            obj, kind, key = (ca.get(cid) or cb.get(cid))[:3]
            cur = self.getcell(obj, kind, key)
            va = ca[cid][3] if cid in ca else cur
            vb = cb[cid][3] if cid in cb else cur
            if kind == 'items':
                m = va if va == vb else self._merge_items(va, vb, cond)
            elif kind == 'content':
                m = self.merge_content(va, vb, cond)
            else:
                m = self.merge(va, vb, cond)
            self.setcell(obj, kind, key, m)
        ka, va = ra
        kb, vb = rb
        if ka != kb:
            raise Abort('control flow differs between branches')
        return (ka, self.merge(va, vb, cond) if ka == 'ret' else None)

    def _merge_items(self, a, b, cond):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge(x, y, cond) for x, y in zip(a, b)]
        if isinstance(a, dict) and isinstance(b, dict):
            out = {}
            for k in list(a) + [x for x in b if x not in a]:
                out[k] = self.merge(a.get(k, MISSING), b.get(k, MISSING), cond)
            return out
        raise Abort('container differs between branches')

    def merge_content(self, a, b, cond):
        if a is b:
            return a
        if a is None or b is None:
            raise Abort('array content unknown')
        if A.key_of(a) == A.key_of(b):
            return a
        if cond is None:
            return Arr(a.shape, _raiser('array differs between branches'))
        return A.ew(lambda p, q: cond * p + (ONE - cond) * q, a, b)

    # ------------------------------------------------------------- values
    def arr(self, v):
        if isinstance(v, NArr):
            return v.get()
        if isinstance(v, Arr):
            return v
        if isinstance(v, Cond):
            return A.scalar(v.e)
        if isinstance(v, PyList):
            return A.from_list([self.arr(x) for x in v.items])
        if isinstance(v, SymList):
            return A.concat([A.full((k,), self.scalar(x)) for k, x in v.parts], 0)
        if isinstance(v, tuple):
            return A.from_list([self.arr(x) for x in v])
        if isinstance(v, (Expr, bool, int, float)):
            return A.scalar(lift(v))
        if isinstance(v, Unknown):
            raise Undecided(v.why)
        if isinstance(v, RangeSym):
            lo = lift(v.lo)
            return Arr((lift(v.n),), lambda ix: lo + ix[0])
        raise Undecided('not numeric: %r' % (v,))

    def wrap(self, a):
        if isinstance(a, Expr):
            return a
        if a.ndim == 0:
            return a.f(())
        return NArr(a)

    def scalar(self, v):
        if isinstance(v, Expr):
            return v
        if isinstance(v, bool):
            return const(int(v))
        if isinstance(v, (int, float)):
            return lift(v)
        if isinstance(v, Cond):
            return v.e
        if isinstance(v, (NArr, Arr)):
            a = self.arr(v)
            if all(s == ONE for s in a.shape):
                return a.f(tuple(ZERO for _ in a.shape))
        if isinstance(v, Unknown):
            raise Undecided(v.why)
        raise Undecided('not a scalar: %r' % (v,))

    # -------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None, node=None):
        kwargs = kwargs or {}
        if isinstance(f, Unknown):
            return f
        if isinstance(f, Prim):
            for a in list(args) + list(kwargs.values()):
                pass
            try:
                return f.f(*args, **kwargs)
            except Undecided as u:
                return Unknown('%s: %s' % (f.name, u))
            except TypeError as t:
                return Unknown('%s: %s' % (f.name, t))
        if isinstance(f, Func):
            q = f.qual
            if q in self.hooks:
                return self.hooks[q](self, f, args, kwargs)
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassRef):
            return self.instantiate(f, args, kwargs)
        return Unknown('call of %r' % (f,))

    def instantiate(self, c, args, kwargs):
        o = Obj(c.mod, c.node, name=c.node.name)
        m = self.repo.method(c.mod, c.node, '__init__')
        if m:
            self.call_func(Func(m[2], m[0], None, o, c.node.name + '.__init__'), args, kwargs)
        return o

    def bind_params(self, fn, args, kwargs, env, frame_mod, bound):
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if bound is not None:
            vals = [bound] + vals
        kwargs = dict(kwargs)
        defaults = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for i, p in enumerate(pos):
            if i < len(vals):
                env.vars[p] = vals[i]
            elif p in kwargs:
                env.vars[p] = kwargs.pop(p)
            elif defaults[i] is not None:
                env.vars[p] = self.ev(defaults[i], Frame(Env(), frame_mod))
            else:
                raise Abort('missing argument %s of %s' % (p, getattr(fn, 'name', 'lambda')))
        if len(vals) > len(pos):
            if a.vararg:
                env.vars[a.vararg.arg] = tuple(vals[len(pos):])
            else:
                raise Abort('too many arguments for %s' % getattr(fn, 'name', 'lambda'))
        elif a.vararg:
            env.vars[a.vararg.arg] = ()
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                env.vars[p.arg] = kwargs.pop(p.arg)
            elif a.kw_defaults[i] is not None:
                env.vars[p.arg] = self.ev(a.kw_defaults[i], Frame(Env(), frame_mod))
        if a.kwarg:
            env.vars[a.kwarg.arg] = PyDict(kwargs)
        elif kwargs:
            raise Abort('unexpected keyword %s' % list(kwargs))

    def call_func(self, f, args, kwargs):
        if self.depth > self.max_depth:
            return Unknown('call depth')
        self.depth += 1
        try:
            env = Env(f.closure)
            bound = f.bound
            if bound is not None and isinstance(f.node, ast.FunctionDef) and any(
                    isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.node.decorator_list):
                bound = None
            self.bind_params(f.node, args, kwargs, env, f.mod, bound)
            fr = Frame(env, f.mod)
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            self.calls.append((f.mod.name, f.node.name, f.node.lineno))
            k, v = self.run(list(f.node.body), fr)
            return v if k == 'ret' else None
        finally:
            self.depth -= 1

    # --------------------------------------------------------- statements
    def run(self, stmts, fr):
        """execute a statement list; ('fall',None) ('ret',v) ('brk',None) ('cont',None)"""
        stmts = list(stmts)
        i = 0
        while stmts:
            st = stmts.pop(0)
            self.steps += 1
            if self.steps > 400000:
                raise Abort('analysis budget')
            t = type(st)
            if t is ast.Return:
                return ('ret', self.ev(st.value, fr) if st.value is not None else None)
            if t is ast.Expr:
                if not isinstance(st.value, ast.Constant):
                    self.dropped = st.value if isinstance(st.value, ast.Call) else None
                    v = self.ev(st.value, fr)
                    if isinstance(v, Unknown):
                        self.notes.append('statement at line %d of %s not understood: %s' % (st.lineno, fr.mod.name, v.why))
            elif t is ast.Assign:
                v = self.ev(st.value, fr)
                for tg in st.targets:
                    self.assign(tg, v, fr)
            elif t is ast.AnnAssign:
                if st.value is not None:
                    self.assign(st.target, self.ev(st.value, fr), fr)
            elif t is ast.AugAssign:
                self.augassign(st, fr)
            elif t is ast.If:
                c = self.truth(self.ev(st.test, fr))
                if c is True:
                    stmts = list(st.body) + stmts
                elif c is False:
                    stmts = list(st.orelse) + stmts
                else:
                    ce = c.e if isinstance(c, Cond) else None
                    esc = any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Raise))
                              for b in st.body + st.orelse for x in ast.walk(b))
                    if not esc:
                        self.fork(ce, lambda: self.run(st.body, fr), lambda: self.run(st.orelse, fr))
                    else:
                        rest = stmts
                        return self.fork(ce, lambda: self.run(list(st.body) + rest, fr),
                                         lambda: self.run(list(st.orelse) + rest, fr))
            elif t is ast.For:
                r = self.for_loop(st, fr)
                if r is not None:
                    return r
            elif t is ast.While:
                r = self.while_loop(st, fr)
                if r is not None:
                    return r
            elif t is ast.Assert:
                if self.asserts:
                    v = self.truth(self.ev(st.test, fr))
                    if v is False:
                        raise Raised()
                    if v is not True:
                        self.notes.append('assertion of line %d not decided' % st.lineno)
            elif t is ast.Raise:
                raise Raised()
            elif t is ast.Break:
                return ('brk', None)
            elif t is ast.Continue:
                return ('cont', None)
            elif t in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
                pass
            elif t is ast.FunctionDef:
                self.setcell(fr.env, 'var', st.name, Func(st, fr.mod, fr.env, None, st.name))
            elif t is ast.With:
                for it in st.items:
                    v = self.ev(it.context_expr, fr)
                    if getattr(v, 'entered', None):
                        v.entered()
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, v, fr)
                stmts = list(st.body) + stmts
            elif t is ast.Try:
                stmts = list(st.body) + list(st.orelse) + list(st.finalbody) + stmts
            elif t is ast.Delete:
                pass
            else:
                raise Abort('statement %s' % t.__name__)
        return ('fall', None)

    def while_loop(self, st, fr):
        # a loop whose condition can be evaluated is followed; otherwise every variable it may assign becomes unknown
        for _ in range(40):
            try:
                c = self.truth(self.ev(st.test, fr))
            except Undecided:
                c = None
            if c is False:
                if st.orelse:
                    k, r = self.run(st.orelse, fr)
                    return (k, r) if k == 'ret' else None
                return None
            if c is not True:
                break
            k, r = self.run(st.body, fr)
            if k == 'brk':
                return None
            if k == 'ret':
                return (k, r)
        self.notes.append('while loop at line %d of %s not summarised' % (st.lineno, fr.mod.name))
        self.havoc(st.body + st.orelse, fr, 'while loop')

    def poison(self, v, why):
        """an operation that is not understood may have changed this object"""
        if isinstance(v, NArr):
            r = v.root()
            if r.content is not None:
                self.setcell(r, 'content', None, Arr(r.content.shape, _raiser(why)))
        elif isinstance(v, PyList):
            v.items[:] = [Unknown(why)]
        elif isinstance(v, PyDict):
            v.items['?'] = Unknown(why)
        elif isinstance(v, tuple):
            for x in v:
                self.poison(x, why)

    def havoc(self, body, fr, why):
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store):
                    self.setcell(fr.env, 'var', x.id, Unknown(why))
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    tgs = x.targets if isinstance(x, ast.Assign) else [x.target]
                    for tg in tgs:
                        for y in ast.walk(tg):
                            if isinstance(y, ast.Name):
                                v = fr.env.lookup(y.id)
                                if isinstance(v, (PyList, PyDict)):
                                    self.poison(v, why)
                                if isinstance(v, NArr) and v.root().content is not None:
                                    r = v.root()
                                    self.setcell(r, 'content', None, Arr(r.content.shape, _raiser(why)))
                                elif isinstance(v, Obj) and isinstance(tg, ast.Attribute):
                                    self.setcell(v, 'attr', tg.attr, Unknown(why))

            for x in ast.walk(b):
                if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
                    for y in [x.value.func] + list(x.value.args):
                        y = y.value if isinstance(y, ast.Attribute) else y
                        if isinstance(y, ast.Name):
                            v = fr.env.lookup(y.id)
                            if isinstance(v, (NArr, PyList, PyDict)):
                                self.poison(v, why)

    def iterate(self, it):
        """concrete list of items, or SeqSym/RangeSym, or None"""
        if isinstance(it, (tuple, list)):
            return list(it)
        if isinstance(it, PyList):
            return list(it.items)
        if isinstance(it, (SeqSym, RangeSym)):
            return it
        if isinstance(it, NArr):
            a = it.get()
            n = a.shape[0].const_value()
            if n is not None and n <= 16:
                return [self.getitem(it, (const(k),)) for k in range(int(n))]
            return SeqSym(a.shape[0], lambda k: self.getitem(it, (k,)), key='arr')
        if isinstance(it, PyDict):
            return [k for k in it.items]
        return None

    def for_loop(self, st, fr):
        it = self.ev(st.iter, fr)
        seq = self.iterate(it)
        if seq is None:
            self.notes.append('loop at line %d of %s over %s' % (st.lineno, fr.mod.name, it))
            self.havoc(st.body + st.orelse, fr, 'loop over unmodelled iterable')
            for x in ast.walk(st.target):
                if isinstance(x, ast.Name):
                    self.setcell(fr.env, 'var', x.id, Unknown('loop variable'))
            return None
        if isinstance(seq, RangeSym):
            n = seq.n.const_value()
            if n is not None and n <= 16:
                seq = [seq.lo + k for k in range(int(n))]
            else:
                lo = seq.lo
                seq = SeqSym(seq.n, lambda k: lo + k, key='range')
        if isinstance(seq, list):
            for v in seq:
                self.assign(st.target, v, fr)
                k, r = self.run(st.body, fr)
                if k == 'brk':
                    return None
                if k == 'ret':
                    return (k, r)
            if st.orelse:
                k, r = self.run(st.orelse, fr)
                if k == 'ret':
                    return (k, r)
            return None
        return self.symbolic_for(st, seq, fr)

    def symbolic_for(self, st, seq, fr):
        from . import loops
        return loops.summarise(self, st, seq, fr)

    # --------------------------------------------------------- assignment
    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.setcell(fr.env, 'var', tg.id, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(tg.elts))
            for t, x in zip(tg.elts, vals):
                self.assign(t, x, fr)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            if isinstance(o, Obj):
                self.setcell(o, 'attr', tg.attr, v)
            elif isinstance(o, NArr) and tg.attr == 'shape':
                raise Abort('shape assignment')
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            items = self.index_items(tg.slice, fr)
            self.setitem(o, items, v)
        elif isinstance(tg, ast.Starred):
            raise Abort('starred assignment')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                raise Abort('unpacking %d values into %d names' % (len(v), n))
            return v
        if isinstance(v, PyList):
            return v.items
        if isinstance(v, NArr):
            a = v.get()
            if a.shape[0] == const(n):
                return [self.getitem(v, (const(k),)) for k in range(n)]
        if isinstance(v, Unknown):
            return [v] * n
        return [Unknown('unpack')] * n

    def augassign(self, st, fr):
        tg = st.target
        v = self.ev(st.value, fr)
        if isinstance(tg, ast.Name):
            cur = fr.env.lookup(tg.id)
            if isinstance(cur, NArr) and not (isinstance(v, Unknown)):
                self.inplace(cur, st.op, v)
                return
            if isinstance(cur, NArr):
                self.setcell(cur.root(), 'content', None, Arr(cur.root().content.shape, _raiser(v.why)))
                return
            if isinstance(cur, PyList) and isinstance(st.op, ast.Add):
                vi = v.items if isinstance(v, PyList) else list(v) if isinstance(v, tuple) else None
                if vi is None:
                    raise Abort('list +=')
                self.setcell(cur, 'items', None, cur.items + vi)
                return
            self.setcell(fr.env, 'var', tg.id, self.binop(st.op, cur if cur is not None else self.name(tg, fr), v))
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            cur = self.getattr(o, tg.attr)
            if isinstance(cur, NArr) and not isinstance(v, Unknown):
                self.inplace(cur, st.op, v)
            elif isinstance(o, Obj):
                self.setcell(o, 'attr', tg.attr, self.binop(st.op, cur, v))
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            items = self.index_items(tg.slice, fr)
            cur = self.getitem(o, items)
            self.setitem(o, items, self.binop(st.op, cur, v))

    def inplace(self, n, op, v):
        if isinstance(v, Unknown):
            new = Arr(n.get().shape, _raiser(v.why))
        else:
            r = self.binop(op, n, v)
            if is_unk(r):
                new = Arr(n.get().shape, _raiser(r.why))
            else:
                new = self.arr(r)
        if n.base is None:
            if new.ndim == n.content.ndim and all(x == y for x, y in zip(new.shape, n.content.shape)):
                self.setcell(n, 'content', None, new)
            else:
                sh = n.content.shape
                self.setcell(n, 'content', None, A.ew(lambda x, y: y, A.full(sh, ZERO), new))
        else:
            self.setitem(n.base, n.items, NArr(new))

    def setitem(self, o, items, v):
        if isinstance(o, PyDict):
            d = dict(o.items)
            k = self.dkey(items[0])
            if k is None:
                for x in d:
                    d[x] = Unknown('symbolic dict key')
            else:
                d[k] = v
            self.setcell(o, 'items', None, d)
            return
        if isinstance(o, PyList):
            i = self.scalar(items[0]).const_value()
            if i is None:
                raise Abort('symbolic list store')
            l = list(o.items)
            l[int(i)] = v
            self.setcell(o, 'items', None, l)
            return
        if isinstance(o, Unknown) or o is None:
            return
        if not isinstance(o, NArr):
            raise Abort('store into %r' % (o,))
        old = o.get()
        try:
            if is_unk(v):
                raise Undecided(v.why)
            items = tuple(self.concrete_mask(x) for x in items)
            if len(items) == 1 and isinstance(items[0], NArr) and items[0].name == 'mask' or (
                    len(items) >= 1 and isinstance(items[0], NArr) and _isbool(items[0])):
                m = items[0].get()
                if isinstance(v, Masked):
                    if A.key_of(v.mask) != A.key_of(m):
                        raise Undecided('mask mismatch')
                    v = v.arr
                va = self.arr(v)
                if len(items) > 1 and not all(isinstance(x, Slice) and x.lo is None and x.hi is None for x in items[1:]):
                    raise Undecided('mask with further indices')
                if m.ndim < old.ndim:
                    m0 = m
                    m = Arr(m0.shape + (ONE,) * (old.ndim - m0.ndim), lambda ix: m0.f(ix[:m0.ndim]),
                            list(m0.cuts) + [()] * (old.ndim - m0.ndim))
                new = A.ew(lambda p, q, c: (ONE - c) * p + c * q, old, va, m)
            else:
                new = A.store(old, [self.as_index(x) for x in items], self.arr(v))
        except Undecided as u:
            new = Arr(old.shape, _raiser(str(u)))
        if o.base is None:
            self.setcell(o, 'content', None, new)
        else:
            self.setitem(o.base, o.items, NArr(new))

    def as_index(self, x):
        if isinstance(x, (Slice, A.IndexVec)) or x is None or x is Ellipsis:
            return x
        if isinstance(x, NArr):
            a = x.get()
            return index_vector(a)
        if isinstance(x, Arr):
            return index_vector(x)
        if isinstance(x, PyList):
            return index_vector(self.arr(x))
        return self.scalar(x)

    def dkey(self, k):
        if isinstance(k, str):
            return k
        if isinstance(k, Expr) and k.const_value() is not None:
            return k.const_value()
        if isinstance(k, (bool, int)):
            return k
        return None

    def index_items(self, node, fr):
        if isinstance(node, ast.Tuple):
            return tuple(self.index_one(x, fr) for x in node.elts)
        r = self.index_one(node, fr)
        return r if isinstance(r, tuple) else (r,)

    def index_one(self, node, fr):
        if isinstance(node, ast.Slice):
            g = lambda x: None if x is None else self.none_or_scalar(self.ev(x, fr))
            return Slice(g(node.lower), g(node.upper), g(node.step))
        v = self.ev(node, fr)
        return v

    def none_or_scalar(self, v):
        return None if v is None else self.scalar(v)

    # -------------------------------------------------------- expressions
    def ev(self, n, fr):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            return Unknown('expression ' + type(n).__name__)
        return m(n, fr)

    def ev_Constant(self, n, fr):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if v is Ellipsis:
            return Ellipsis
        if isinstance(v, complex):
            if v.real == 0:
                return lift(v.imag) * S.J()
            return Unknown('complex')
        return lift(v)

    def name(self, n, fr):
        if fr.env.has(n.id):
            return fr.env.lookup(n.id)
        return self.global_name(n.id, fr.mod)

    def global_name(self, nm, mod):
        if nm in mod.funcs:
            return Func(mod.funcs[nm], mod, None, None, mod.name + '.' + nm)
        if nm in mod.classes:
            return ClassRef(mod, mod.classes[nm])
        if nm in mod.imports:
            return self.dotted(mod.imports[nm])
        if nm in mod.consts:
            return self.ev(mod.consts[nm], Frame(Env(), mod))
        return self.np.builtin(nm)

    def dotted(self, d):
        r = self.repo.resolve(d)
        if r:
            if r[0] == 'mod':
                return ModRef(r[1])
            if r[0] == 'func':
                return Func(r[2], r[1], None, None, r[1].name + '.' + r[2].name)
            if r[0] == 'class':
                return ClassRef(r[1], r[2])
            if r[0] == 'const':
                return self.ev(r[2], Frame(Env(), r[1]))
        p = self.np.lookup(d)
        if p is not None:
            return p
        return ModRef(d)

    def ev_Name(self, n, fr):
        return self.name(n, fr)

    def ev_Attribute(self, n, fr):
        return self.getattr(self.ev(n.value, fr), n.attr)

    def getattr(self, o, a):
        if isinstance(o, ModRef):
            return self.dotted(o.name + '.' + a)
        if isinstance(o, Obj):
            if a in o.attrs:
                return o.attrs[a]
            if o.getter is not None:
                r = o.getter(self, o, a)
                if r is not MISSING:
                    return r
            if o.cls is not None:
                m = self.repo.method(o.mod, o.cls, a)
                if m:
                    return Func(m[2], m[0], None, o, m[1].name + '.' + a)
                for mm, c in self.repo.mro(o.mod, o.cls):
                    for st in c.body:
                        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in st.targets):
                            return self.ev(st.value, Frame(Env(), mm))
            return Unknown('attribute %s' % a)
        if isinstance(o, A.Slice):
            if a in ('start', 'stop', 'step'):
                return {'start': o.lo, 'stop': o.hi, 'step': o.step}[a]
            return Unknown('attribute %s' % a)
        if isinstance(o, ClassRef):
            m = self.repo.method(o.mod, o.node, a)
            if m:
                return Func(m[2], m[0], None, None, m[1].name + '.' + a)
            return Unknown('class attribute ' + a)
        if isinstance(o, Unknown):
            return o
        return self.np.attr(o, a)

    def ev_Subscript(self, n, fr):
        o = self.ev(n.value, fr)
        items = self.index_items(n.slice, fr)
        return self.getitem(o, items)

    def getitem(self, o, items):
        try:
            if isinstance(o, Unknown):
                return o
            for x in items:
                if isinstance(x, Unknown):
                    return x
            if isinstance(o, (tuple, PyList)):
                l = list(o) if isinstance(o, tuple) else o.items
                x = items[0]
                if isinstance(x, Slice):
                    f = lambda e: None if e is None else int(self.scalar(e).const_value())
                    r = l[f(x.lo):f(x.hi):f(x.step)]
                    return tuple(r) if isinstance(o, tuple) else PyList(r)
                v = self.scalar(x).const_value()
                if v is None:
                    return Unknown('symbolic tuple index')
                if not -len(l) <= int(v) < len(l):
                    raise Raised()
                return l[int(v)]
            if isinstance(o, SeqSym):
                x = items[0]
                if isinstance(x, Slice):
                    return Unknown('slice of symbolic sequence')
                return o.elem(A.norm_index(self.scalar(x), o.n))
            if isinstance(o, PyDict):
                k = self.dkey(items[0])
                if k is not None and k in o.items:
                    return o.items[k]
                if o.default is not None and k is not None:
                    return o.default(k)
                return Unknown('dict key %r' % (k,))
            if isinstance(o, AtProxy):
                return AtProxy(o.a, items)
            if isinstance(o, NArr):
                return self.index_array(o, items)
            if isinstance(o, RangeSym):
                return o.lo + A.norm_index(self.scalar(items[0]), o.n)
        except Undecided as u:
            return Unknown(str(u))
        return Unknown('subscript of %r' % (o,))

    def selected(self, x):
        """index list of an abstract boolean selection"""
        if self.select and isinstance(x, NArr) and _isbool(x):
            s = self.select.get(A.key_of(x.get()))
            if s:
                return NArr(A.Arr((s[1],), lambda ix: S.elem(s[0], ix)))
        return x

    def concrete_mask(self, x):
        """index list of a boolean vector whose entries are all known"""
        if isinstance(x, NArr) and _isbool(x):
            m = x.get()
            n = m.shape[0].const_value() if m.ndim == 1 else None
            if n is not None and n <= 16:
                vals = [m.f((const(k),)).const_value() for k in range(int(n))]
                if all(v in (0, 1) for v in vals):
                    return NArr(A.from_list([const(k) for k, v in enumerate(vals) if v]))
        return x

    def index_array(self, o, items):
        if self.select:
            items = [self.selected(x) for x in items]
        items = [self.concrete_mask(x) for x in items]
        if len(items) == 1 and isinstance(items[0], BoolVec):
            return self.np.hselect(o, items[0])
        if len(items) == 1 and isinstance(items[0], NArr) and _isbool(items[0]):
            m = items[0].get()
            a = o.get()
            if m.ndim == a.ndim:
                return Masked(a, m)
            raise Undecided('mask indexing')
        basic = all(isinstance(x, Slice) or x is None or x is Ellipsis or isinstance(x, (Expr, bool, int, Cond))
                    for x in items)
        idx = [self.as_index(x) for x in items]
        if basic:
            r = A.index(o.get(), idx)
            if isinstance(r, Expr):
                return r
            nn = NArr(None, base=o, items=idx)
            return self.np.keep_harm(o, items, nn)
        r = A.index(o.get(), idx)
        return self.wrap(r)

    def ev_Slice(self, n, fr):
        return self.index_one(n, fr)

    def ev_Tuple(self, n, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, tuple):
                    out += list(v)
                elif isinstance(v, PyList):
                    out += v.items
                else:
                    return Unknown('starred')
            else:
                out.append(self.ev(x, fr))
        return tuple(out)

    def ev_List(self, n, fr):
        r = self.ev_Tuple(n, fr)
        return PyList(r) if isinstance(r, tuple) else r

    def ev_Dict(self, n, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                u = self.ev(v, fr)
                if not isinstance(u, PyDict):
                    return Unknown('dict unpack')
                d.update(u.items)
                continue
            kk = self.dkey(self.ev(k, fr))
            d[kk] = self.ev(v, fr)
        return PyDict(d)

    def ev_JoinedStr(self, n, fr):
        parts = ()
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts += (str(x.value),)
                continue
            sp = ''
            if x.format_spec is not None:
                t = self.ev(x.format_spec, fr)
                if not isinstance(t, str):
                    return Unknown('string')
                sp = t
            if x.conversion not in (-1, None):
                return Unknown('string')
            v = self.format_value(self.ev(x.value, fr), sp)
            if isinstance(v, Unknown):
                return v
            parts += Text.parts_of(v)
        return text_of(parts)

    def format_value(self, v, spec):
        """text of one replacement field"""
        if isinstance(v, Expr) and v.const_value() is not None:
            k = v.const_value()
            v = int(k) if k == int(k) else float(k)
        if isinstance(v, (str, int, float)):
            try:
                return format(v, spec)
            except (ValueError, TypeError) as e:
                return Unknown('format: %s' % e)
        if isinstance(v, Text):
            return v if not spec else text_of((('field', spec, v),))
        if isinstance(v, Unknown):
            return v
        return text_of((('field', spec, v),))

    def format_text(self, tpl, args, kws):
        import string
        out, auto = (), 0
        try:
            pieces = []
            for part in Text.parts_of(tpl):
                pieces += list(string.Formatter().parse(part)) if isinstance(part, str) else [(part, None, None, None)]
            for lit, name, spec, conv in pieces:
                if lit:
                    out += (lit,)
                if name is None:
                    continue
                if conv or (spec and '{' in spec):
                    return Unknown('string')
                if name == '':
                    v = args[auto]
                    auto += 1
                elif name.isdigit():
                    v = args[int(name)]
                else:
                    v = kws[name]
                t = self.format_value(v, spec or '')
                if isinstance(t, Unknown):
                    return t
                out += Text.parts_of(t)
        except (ValueError, IndexError, KeyError) as e:
            return Unknown('format: %r' % e)
        return text_of(out)

    def ev_Lambda(self, n, fr):
        return Func(n, fr.mod, fr.env, None, '<lambda>')

    def ev_IfExp(self, n, fr):
        c = self.truth(self.ev(n.test, fr))
        if c is True:
            return self.ev(n.body, fr)
        if c is False:
            return self.ev(n.orelse, fr)
        a, b = self.ev(n.body, fr), self.ev(n.orelse, fr)
        return self.merge(a, b, c.e if isinstance(c, Cond) else None)

    def comp(self, gens, fr, out, leaf):
        """concrete comprehension; False when a part of it is not concrete"""
        if not gens:
            out.append(leaf(fr))
            return True
        g = gens[0]
        seq = self.iterate(self.ev(g.iter, fr))
        if isinstance(seq, RangeSym) and seq.n.const_value() is not None and seq.n.const_value() <= 16:
            seq = [seq.lo + k for k in range(int(seq.n.const_value()))]
        if not isinstance(seq, list):
            return False
        for v in seq:
            e2 = Frame(Env(fr.env), fr.mod)
            self.assign(g.target, v, e2)
            keep = True
            for t in g.ifs:
                c = self.truth(self.ev(t, e2))
                if c is not True and c is not False:
                    return False
                if c is False:
                    keep = False
                    break
            if keep and not self.comp(gens[1:], e2, out, leaf):
                return False
        return True

    def ev_ListComp(self, n, fr):
        out = []
        if len(n.generators) == 1 and not n.generators[0].ifs:
            g = n.generators[0]
            it = self.ev(g.iter, fr)
            seq = self.iterate(it)
            if isinstance(seq, RangeSym) and not (seq.n.const_value() is not None and seq.n.const_value() <= 16):
                lo = seq.lo
                seq = SeqSym(seq.n, lambda k: lo + k)
            if isinstance(seq, SeqSym):
                def el(k):
                    e2 = Frame(Env(fr.env), fr.mod)
                    self.assign(g.target, seq.elem(k), e2)
                    return self.ev(n.elt, e2)
                return SeqSym(seq.n, el, 'comp')
        if not self.comp(n.generators, fr, out, lambda f: self.ev(n.elt, f)):
            return Unknown('comprehension')
        return PyList(out)
    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, n, fr):
        out = []
        if not self.comp(n.generators, fr, out, lambda f: (self.dkey(self.ev(n.key, f)), self.ev(n.value, f))):
            return Unknown('comprehension')
        return PyDict(dict(out))

    def ev_NamedExpr(self, n, fr):
        v = self.ev(n.value, fr)
        self.assign(n.target, v, fr)
        return v

    def ev_Starred(self, n, fr):
        return Unknown('starred')

    def ev_Call(self, n, fr):
        dropped, self.dropped = self.dropped is n, None
        args, kw = [], {}
        v = self.ev_call(n, fr, args, kw)
        if isinstance(v, Unknown):
            why = 'changed by a call which is not understood: %s' % v.why
            if dropped:
                for a in args:
                    self.poison(a, why)
                if isinstance(n.func, ast.Attribute):
                    self.poison(self.ev(n.func.value, fr), why)
            if 'out' in kw:
                self.poison(kw['out'], why)
        return v

    def ev_call(self, n, fr, args, kw):
        f = self.ev(n.func, fr)
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, tuple):
                    args += list(v)
                elif isinstance(v, PyList):
                    args += v.items
                else:
                    return Unknown('starred argument')
            else:
                args.append(self.ev(x, fr))
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, PyDict):
                    kw.update(v.items)
                else:
                    return Unknown('** argument')
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, n)

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Cond):
            c = v.e.const_value()
            return v if c is None else bool(c)
        if isinstance(v, Expr):
            c = v.const_value()
            if c is not None:
                return bool(c)
            nz = self.nonzero(v)
            return nz if nz is not None else v if False else Unknown('truth')
        if isinstance(v, NArr) and v.name == 'mask':
            try:
                return self.truth(Cond(self.scalar(v)))
            except Undecided as u:
                return Unknown(str(u))
        if isinstance(v, (str, tuple)):
            return bool(v)
        if isinstance(v, PyList):
            return bool(v.items)
        if isinstance(v, (Func, Prim, Obj, ClassRef)):
            return True
        return v if isinstance(v, Unknown) else Unknown('truth of %r' % (v,))

    def nonzero(self, e):
        if ge(e, ONE) is True or ge(const(-1), e) is True:
            return True
        return self.nz(e)

    def ev_UnaryOp(self, n, fr):
        v = self.ev(n.operand, fr)
        if isinstance(v, Unknown):
            return v
        try:
            if isinstance(n.op, ast.Not):
                t = self.truth(v)
                if isinstance(t, bool):
                    return not t
                if isinstance(t, Cond):
                    return Cond(ONE - t.e)
                return t
            if isinstance(n.op, ast.Invert):
                a = self.arr(v)
                r = NArr(A.ew(lambda x: ONE - x, a))
                r.name = 'mask'
                return r
            if isinstance(n.op, ast.USub):
                if isinstance(v, (NArr, Arr)):
                    return self.wrap(A.ew(lambda x: -x, self.arr(v)))
                if isinstance(v, Masked):
                    return Masked(A.ew(lambda x: -x, v.arr), v.mask)
                return -self.scalar(v)
            return v
        except Undecided as u:
            return Unknown(str(u))

    def ev_BoolOp(self, n, fr):
        is_and = isinstance(n.op, ast.And)
        acc = None
        unk = None
        last = None
        for x in n.values:
            v = self.ev(x, fr)
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v if acc is None and unk is None else (False if is_and else True)
                last = v
                continue
            if isinstance(t, Cond):
                acc = t.e if acc is None else (acc * t.e if is_and else acc + t.e - acc * t.e)
            else:
                unk = t
        if unk is not None:
            return unk
        if acc is not None:
            return Cond(acc)
        return last

    def ev_Compare(self, n, fr):
        left = self.ev(n.left, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if res is None:
                res = c
            else:
                a, b = self.truth(res), self.truth(c)
                if a is False or b is False:
                    res = False
                elif a is True:
                    res = c
                elif b is True:
                    pass
                elif isinstance(a, Cond) and isinstance(b, Cond):
                    res = Cond(a.e * b.e)
                else:
                    res = Unknown('chained comparison')
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if isinstance(b, TypeOf):
                a, b = b, a
            r = self.np.is_type(a.x, b)
            if r is None:
                return Unknown('type test')
            return r if isinstance(op, (ast.Is, ast.Eq)) else not r
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if isinstance(a, Unknown):
                return a
            if isinstance(b, Unknown):
                return b
            if a is None or b is None:
                r = a is b
            elif isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            elif isinstance(a, DType) or isinstance(b, DType):
                return Unknown('type test')
            else:
                r = a is b
            return (not r) if neg else r
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            r = None
            if isinstance(b, PyDict):
                k = self.dkey(a)
                if k is not None and b.default is None:
                    r = k in b.items
            elif isinstance(b, (tuple, PyList)):
                l = list(b) if isinstance(b, tuple) else b.items
                if isinstance(a, str) and all(isinstance(x, str) for x in l):
                    r = a in l
            elif isinstance(a, str) and isinstance(b, str):
                r = a in b
            if r is None:
                return Unknown('membership')
            return (not r) if neg else r
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, str) or isinstance(b, str):
            if isinstance(a, str) and isinstance(b, str):
                if isinstance(op, ast.Eq):
                    return a == b
                if isinstance(op, ast.NotEq):
                    return a != b
            if isinstance(op, ast.Eq):
                return False
            return True
        if a is None or b is None:
            return (a is b) if isinstance(op, ast.Eq) else (a is not b)
        if isinstance(a, DType) or isinstance(b, DType):
            return Unknown('type test')
        hv = self.np.harm_compare(op, a, b)
        if hv is not None:
            return hv
        if isinstance(a, (NArr, Arr)) or isinstance(b, (NArr, Arr)):
            try:
                x, y = self.arr(a), self.arr(b)
                r = NArr(A.ew(lambda p, q: indicator(op, p, q, self), x, y))
                r.name = 'mask'
                return r
            except Undecided as u:
                return Unknown(str(u))
        if is_num(a) and is_num(b):
            try:
                e = indicator(op, self.scalar(a), self.scalar(b), self)
            except Undecided as u:
                return Unknown(str(u))
            v = e.const_value()
            return bool(v) if v is not None else Cond(e)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return isinstance(op, ast.NotEq)
            cs = [self.compare(ast.Eq(), x, y) for x, y in zip(a, b)]
            if all(c is True for c in cs):
                return isinstance(op, ast.Eq)
            if any(c is False for c in cs):
                return isinstance(op, ast.NotEq)
        return Unknown('comparison')

    def ev_BinOp(self, n, fr):
        return self.binop(n.op, self.ev(n.left, fr), self.ev(n.right, fr))

    def binop(self, op, a, b):
        if isinstance(a, Unknown):
            return a
        if isinstance(b, Unknown):
            return b
        if isinstance(a, (str, Text)) or isinstance(b, (str, Text)):
            if isinstance(op, ast.Add) and isinstance(a, (str, Text)) and isinstance(b, (str, Text)):
                return text_of(Text.parts_of(a) + Text.parts_of(b))
            if isinstance(op, ast.Mult):
                if isinstance(b, (str, Text)):
                    a, b = b, a
                k = b if isinstance(b, int) else b.const_value() if isinstance(b, Expr) else None
                if k is not None:
                    return text_of(Text.parts_of(a) * int(k))
            return Unknown('string')
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, PyList) and isinstance(b, PyList):
                return PyList(a.items + b.items)
            if isinstance(a, SymList) and isinstance(b, (SymList, PyList)) or isinstance(b, SymList) and isinstance(a, PyList):
                return SymList(as_parts(a) + as_parts(b))
        if isinstance(op, ast.Mult) and isinstance(b, (tuple, PyList)) and isinstance(a, Expr):
            a, b = b, a
        if isinstance(op, ast.Mult) and isinstance(a, (tuple, PyList)) and isinstance(b, Expr):
            k = b.const_value()
            if k is not None and isinstance(a, PyList):
                return PyList(a.items * int(k))
            if k is not None:
                return a * int(k)
            if isinstance(a, PyList) and len(a.items) == 1:
                return SymList([(b, a.items[0])])
            return Unknown('repeated sequence')
        if isinstance(a, SymList) and not isinstance(b, (NArr, Arr)) or isinstance(b, SymList) and not isinstance(a, (NArr, Arr)):
            return Unknown('repeated sequence')
        try:
            if isinstance(op, ast.MatMult):
                return self.wrap(A.matmul(self.arr(a), self.arr(b)))
            f = _BIN[type(op)]
            if isinstance(a, Masked) or isinstance(b, Masked):
                mk = a.mask if isinstance(a, Masked) else b.mask
                if isinstance(a, Masked) and isinstance(b, Masked) and A.key_of(a.mask) != A.key_of(b.mask):
                    raise Undecided('mask mismatch')
                x = a.arr if isinstance(a, Masked) else self.arr(a)
                y = b.arr if isinstance(b, Masked) else self.arr(b)
                return Masked(A.ew(f, x, y), mk)
            if isinstance(op, (ast.BitAnd, ast.BitOr)) :
                if isinstance(a, bool) and isinstance(b, bool):
                    return (a and b) if isinstance(op, ast.BitAnd) else (a or b)
            if isinstance(a, (NArr, Arr, PyList, tuple)) or isinstance(b, (NArr, Arr, PyList, tuple)):
                r = NArr(A.ew(f, self.arr(a), self.arr(b)))
                if isinstance(op, (ast.BitAnd, ast.BitOr)):
                    r.name = 'mask'
                return r if r.content.ndim else r.content.f(())
            return f(self.scalar(a), self.scalar(b))
        except Undecided as u:
            return Unknown(str(u))
        except KeyError:
            return Unknown('operator %s' % type(op).__name__)

def _isbool(n):
    return n.name == 'mask'

def _raiser(why):
    def f(ix):
        raise Undecided(why)
    return f

def _floordiv(x, y):
    xv, yv = x.const_value(), y.const_value()
    if xv is not None and yv is not None:
        return const(xv // yv)
    if yv is not None:
        q, r = A.divpoly(x, int(yv))
        if q is not None:
            return q
    q, r = A._exactdiv(x, y)
    if r:
        return q
    if 'pi' in y.syms or 'pi' in x.syms:
        return S.fn('floor', x / y)
    raise Undecided('floor division')

def _mod(x, y):
    xv, yv = x.const_value(), y.const_value()
    if xv is not None and yv is not None and yv != 0:
        return const(xv % yv)
    return S.fn('mod', x, y)

_BIN = {
    ast.Add: lambda x, y: x + y,
    ast.Sub: lambda x, y: x - y,
    ast.Mult: lambda x, y: x * y,
    ast.Div: lambda x, y: x / y,
    ast.Pow: lambda x, y: S.power(x, y),
    ast.FloorDiv: _floordiv,
    ast.Mod: _mod,
    ast.BitAnd: lambda x, y: x * y,
    ast.BitOr: lambda x, y: x + y - x * y,
}

def step(e):
    """indicator of e > 0"""
    v = e.const_value()
    if v is not None:
        return ONE if v > 0 else ZERO
    return S.fn('gt', e, ZERO)

def indicator(op, a, b, it=None):
    d = a - b
    v = d.const_value()
    t = type(op)
    if v is not None:
        r = {ast.Eq: v == 0, ast.NotEq: v != 0, ast.Lt: v < 0, ast.LtE: v <= 0, ast.Gt: v > 0, ast.GtE: v >= 0}[t]
        return ONE if r else ZERO
    if it is not None and it.decide is not None:
        v = it.decide(d)
        if v is not None:
            return ONE if {ast.Eq: v == 0, ast.NotEq: v != 0, ast.Lt: v < 0, ast.LtE: v <= 0, ast.Gt: v > 0, ast.GtE: v >= 0}[t] else ZERO
    g = ge(a, b)
    l = ge(b, a)
    if t in (ast.Eq, ast.NotEq):
        r = None
        if ge(a, b + 1) is True or ge(b, a + 1) is True:
            r = False
        elif it is not None and it.nz(d) is True:
            r = False
        if r is None:
            e = S.ind('eq', d if d.key <= (-d).key else -d)
            return e if t is ast.Eq else ONE - e
        return const(int(r if t is ast.Eq else not r))
    if t is ast.GtE and g is not None and ints(d):
        return ONE if g else ZERO
    if t is ast.Lt and g is not None and ints(d):
        return ZERO if g else ONE
    if t is ast.LtE and l is not None and ints(d):
        return ONE if l else ZERO
    if t is ast.Gt and l is not None and ints(d):
        return ZERO if l else ONE
    if t is ast.Gt:
        return step(d)
    if t is ast.Lt:
        return step(-d)
    if t is ast.GtE:
        return ONE - step(-d)
    return ONE - step(d)

def ints(d):
    """the prover reasons over integers: only use it for integer expressions"""
    for (b, f), c in d.terms.items():
        if c.denominator != 1:
            return False
        for a, p in f:
            if a.kind == 'Sym' and a.args[0] in S.RANGES:
                continue
            if a.kind == 'Elem' and a.args[0] in S.ELEM_MIN:
                continue
            return False
    return True

def index_vector(a):
    """Arr of integers used as an index"""
    if a.ndim != 1:
        raise Undecided('index array rank')
    n = a.shape[0]
    nv = n.const_value()
    if nv is not None and nv <= 16:
        vals = [a.f((const(k),)) for k in range(int(nv))]
        def inv(i):
            for k, v in enumerate(vals):
                d = S.resolve(i - v)
                if d.is_zero():
                    return const(k)
                if not S.delta(d).is_zero():
                    raise Undecided('index set membership')
            return False
        return A.IndexVec(n, lambda q: A.from_list(vals).f((q,)), inv, str([v.key for v in vals]))
    def inv(i):
        # solve a(q) == i through the single array entry it mentions
        k = S.fresh('q', ZERO, n)
        e = a.f((k,))
        kn = S.symname(k)
        def elems(x):
            for (b, f), c in x.terms.items():
                for at, p in f:
                    if at.kind == 'Elem':
                        yield at
        for u in elems(e):
            for w in elems(i):
                if u.args[0] == w.args[0] and len(u.args[1]) == 1:
                    lin, rest = S._linear(u.args[1][0], kn)
                    if lin is not None and lin.const_value() == 1:
                        q = w.args[1][0] - rest
                        d = i - S.subst(e, {kn: q})
                        if ge(q, ZERO) is True and ge(n - 1, q) is True:
                            if d.is_zero():
                                return q
                            if _parity_differs(i, e):
                                return False
                            raise Undecided('index vector inverse')
                        if ge(q, ZERO) is False or ge(n - 1, q) is False:
                            return False
        lin, rest = S._linear(e, kn)
        if lin is not None and lin.const_value() is not None and lin.const_value() != 0:
            l = int(lin.const_value())
            q, r = A.divpoly((i - rest) if l > 0 else (rest - i), abs(l))
            if q is not None:
                if r:
                    return False
                if ge(q, ZERO) is True and ge(n - 1, q) is True:
                    return q
                if ge(q, ZERO) is False or ge(n - 1, q) is False:
                    return False
        # a value below every entry
        if ge(e, i + 1) is True or ge(i, e + 1) is True:
            return False
        if _parity_differs(i, e):
            return False
        raise Undecided('index vector inverse')
    return A.IndexVec(n, lambda q: a.f((q,)), inv, A.key_of(a))

def _parity_differs(i, e):
    def par(x):
        r = 0
        for m, c in x.terms.items():
            if c.denominator != 1:
                return None
            if m == ((), ()):
                r += int(c)
            elif c.numerator % 2:
                return None
        return r % 2
    a, b = par(i), par(e)
    return a is not None and b is not None and a != b

class Frame:
    def __init__(self, env, mod):
        self.env, self.mod = env, mod
