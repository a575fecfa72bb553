"""Interprocedural dataflow analysis with aliasing, effects and branch facts.

Abstract state = variables + abstract heap (allocation-site cells with views,
content value numbers, owners) + the branch conditions known to hold (facts).
Function bodies are walked statement by statement over *sets* of such states
(disjunctive completion, merged whenever two states differ only in complementary
facts); calls to repository functions are followed, loops are analysed with one
exact first iteration and a havocked iteration standing for all later ones until
the set of changed locations is stable.  No code of the project is executed.

Everything observable is recorded as events (writes with the owner of the written
storage, calls, attribute stores) together with the facts that hold there.
"""
import ast
from .interp import dotted_name

class FlowUndecided(Exception):
    pass

# ----------------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'args', 'n', '_deps')
    table = {}
    count = 0
    def __repr__(self):
        return show(self)

def mk(op, *args):
    key = (op,) + tuple((('t', a.n) if isinstance(a, T) else (type(a).__name__, a)) for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t._deps = op, args, None
        T.count += 1
        t.n = T.count
        T.table[key] = t
    return t

def K(v):
    return mk('k', v)
def isk(t):
    return t.op == 'k'
NONE, TRUE, FALSE = K(None), K(True), K(False)
def leaf(name):
    return mk('leaf', name)
def ref(cid, *view):
    return mk('ref', cid, *view)

def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t.op == 'k':
        return repr(t.args[0])
    if t.op == 'leaf':
        return str(t.args[0])
    if d > 6:
        return '..'
    if t.op == 'ref':
        return '&%s%s' % (t.args[0], ''.join('[%s]' % show(a, d+1) for a in t.args[1:]))
    return '%s(%s)' % (t.op, ', '.join(show(a, d+1) for a in t.args))

def subterms(t, phi=None, seen=None):
    """all subterms; phi terms are followed through to their sources"""
    seen = {} if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x.n in seen:
            continue
        seen[x.n] = x
        todo += [a for a in x.args if isinstance(a, T)]
        if phi is not None and x in phi:
            todo += list(phi[x])
    return seen.values()

def contains(t, pred, phi=None):
    return any(pred(x) for x in subterms(t, phi))

def plain_index(i):
    """x[k, :, :] is x[k]"""
    if i.op == 'tup' and len(i.args) > 1:
        n = len(i.args)
        while n > 1 and i.args[n-1].op == 'slice' and all(a is NONE for a in i.args[n-1].args):
            n -= 1
        if n == 1:
            return i.args[0]
        if n < len(i.args):
            return mk('tup', *i.args[:n])
    return i

class Cell:
    __slots__ = ('kind', 'fields', 'content', 'owner', 'cls', 'open', 'n')
    def __init__(self, kind, content, owner=None, fields=None, cls=None, open=False, n=None):
        self.kind, self.content, self.owner, self.fields = kind, content, owner, fields or {}
        self.cls, self.open, self.n = cls, open, n
    def copy(self):
        return Cell(self.kind, self.content, self.owner, dict(self.fields), self.cls, self.open, self.n)
    def key(self, skip=lambda k, v: False):
        return (self.kind, self.content.n, self.owner, tuple(sorted(((str(k), v.n) for k, v in self.fields.items() if not skip(k, v)))), self.n, self.open)

class St:
    __slots__ = ('frames', 'heap', 'facts', 'trace', 'cnt')
    def __init__(self):
        self.frames, self.heap, self.facts, self.trace, self.cnt = {}, {}, {}, (), {}
    def copy(self):
        s = St()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.trace, s.cnt = self.trace, dict(self.cnt)
        return s
    def cell(self, cid):
        return self.heap[cid]
    def mut(self, cid):
        c = self.heap[cid].copy()
        self.heap[cid] = c
        return c

class Event:
    __slots__ = ('kind', 'what', 'data', 'where', 'facts', 'st')
    def __init__(self, kind, what, data, where, facts):
        self.kind, self.what, self.data, self.where, self.facts = kind, what, data, where, facts

VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'view', 'squeeze', 'swapaxes', 'diagonal'}
VIEW_FUNCS = {'asarray', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'transpose', 'squeeze', 'real',
              'asanyarray', 'ascontiguousarray', 'broadcast_to', 'expand_dims', 'swapaxes', 'moveaxis', 'diagonal', 'flip',
              'split', 'array_split', 'hsplit', 'vsplit', 'rollaxis', 'rot90', 'fliplr', 'flipud', 'asfarray', 'nan_to_num_'}
MUT_METHODS = {'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'pop',
               'fill', 'resize', 'put', 'itemset', 'partition', 'setflags', 'setfield', 'byteswap_', '__setitem__', '__delitem__'}
MUT_FUNCS = {'put': 0, 'copyto': 0, 'fill_diagonal': 0, 'place': 0, 'putmask': 0, 'put_along_axis': 0, 'random.shuffle': 0}
SCALAR_FUNCS = {'len', 'int', 'float', 'bool', 'str', 'isinstance', 'callable', 'hasattr', 'type', 'id', 'hash', 'repr', 'ord'}
EFFECTS_OK = {'print'}
PURE_MODULES = ('numpy', 'jax', 'scipy', 'math', 'cmath', 'itertools', 'functools', 'operator', 'builtins', 'copy', 'os.path', 'warnings',
                'abc', 'collections')

class Flow:
    def __init__(self, repo, hooks=None, max_states=300, max_depth=12, trace=None, opaque_raises=False):
        self.repo, self.hooks = repo, hooks or {}
        self.max_states, self.max_depth = max_states, max_depth
        self.events = []
        self.phi = {}
        self.ctx = ()
        self.sinks = [[]]
        self.tracef = trace
        self.opaque_raises = opaque_raises
        self.frame_n = 0
        self.stack = []           # (mod, fnode, qual, cls)
        self.unknown = []
        self.havoc_tag = ()
        self.fuel = 400000
        self.functions = set()
        self.keep, self.soft, self.forgot = None, 6, False
        self.shapes = {}           # shapes known by assumption
        self.unroll = 0            # exact while loops up to this many iterations

    # ------------------------------------------------------------ state utils
    def where(self, node=None):
        mod, fn, qual, _ = self.stack[-1] if self.stack else (None, None, '?', None)
        f = mod.path if mod is not None else '?'
        i = f.find(self.repo.package + '/')
        return '%s:%s%s' % (f[i:] if i >= 0 else f, qual, ':%d' % node.lineno if node is not None and hasattr(node, 'lineno') else '')

    def alloc(self, st, node, kind, content, owner=None, tag='', **kw):
        site = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tag) + self.ctx + self.havoc_tag
        n = 0
        while (site, n) in st.heap:
            n += 1
        cid = (site, n)
        st.heap[cid] = Cell(kind, content, owner, **kw)
        return ref(cid)

    def event(self, st, kind, what, data, node):
        e = Event(kind, what, data, self.where(node), st.facts)
        self.events.append(e)
        if self.tracef is not None:
            m = self.tracef(e, st)
            if m is not None:
                st.trace = st.trace + (m,)
        return e

    def val(self, st, t, d=0):
        """value number of what t currently denotes"""
        if t.op == 'ref':
            c = st.heap[t.args[0]]
            if c.kind in ('inst', 'dict', 'list', 'unk') and c.fields and d < 4:
                base = mk('struct', c.content, *[mk('f', str(k), self.val(st, v, d+1)) for k, v in sorted(c.fields.items(), key=lambda kv: str(kv[0]))
                                                   if c.kind != 'inst'])
                if c.kind == 'unk':
                    base = c.content
            else:
                base = self.resolve(st, c.content)
            return self.rd(base, t.args[1:])
        if t.op == 'tup':
            return mk('tup', *[self.val(st, a, d+1) for a in t.args])
        if t.op == 'slice':
            return mk('slice', *[self.val(st, a, d+1) for a in t.args])
        return self.resolve(st, t)

    def resolve(self, st, t):
        while t.op == 'ite':
            r = self.decide(st, t.args[0])
            if r is None:
                return t
            t = t.args[1] if r else t.args[2]
        return t

    def rd(self, base, view):
        if not view:
            return base
        b = base
        v = tuple(view)
        bare = lambda x: x.args[0] if x.op == 'maybe' else x
        while b.op == 'st' and b.args[1].op == 'ix':
            ix = b.args[1].args
            if len(ix) == len(v) and all(bare(x) is bare(y) for x, y in zip(ix, v)):
                return b.args[2]
            if len(ix) == 1 and len(v) == 1 and bare(v[0]).op == 'tup' and len(bare(v[0]).args) > 1 and bare(ix[0]).op != 'tup' \
                    and bare(v[0]).args[0] is bare(ix[0]):
                rest = bare(v[0]).args[1:]
                return self.rd(b.args[2], (rest[0] if len(rest) == 1 else mk('tup', *rest),))
            if len(ix) == 1 and len(v) == 1 and self.distinct(ix[0], v[0]):
                b = b.args[0]
                continue
            break
        return mk('rd', b, mk('ix', *v))

    def distinct(self, a, b):
        if isk(a) and isk(b):
            x, y = a.args[0], b.args[0]
            if isinstance(x, int) and isinstance(y, int):
                return x != y and (x >= 0) == (y >= 0)
            return x != y
        return False

    # ------------------------------------------------------------------ merging
    def lazy(self, c, cid, k, v):
        """entry of an open container that was only looked at"""
        return c.open and v.op == 'ref' and len(v.args) == 1 and v.args[0] in ((cid, k), (cid, 'item', k))

    def canon(self, st, val=None):
        live, todo = set(), [] if val is None else [val]
        fr = []
        frames = set(f for f in st.frames)
        for f in sorted(st.frames):
            for k, v in sorted(st.frames[f].items()):
                fr.append((f, k, v.n))
                todo.append(v)
        for e in st.trace:
            fr.append(('trace', str(e)))
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.op == 'ref' and x.args[0] not in live and x.args[0] in st.heap:
                    live.add(x.args[0])
                    c = st.heap[x.args[0]]
                    todo += [v for k, v in c.fields.items() if not self.lazy(c, x.args[0], k, v)]
        hp = tuple(sorted((str(c), st.heap[c].key(lambda k, v, c=c: self.lazy(st.heap[c], c, k, v))) for c in live))
        return (tuple(fr), hp)

    def reduce(self, outs):
        """outs: list of (ctrl, st, val); merges states that differ only in complementary facts"""
        if len(outs) < 2:
            return outs
        groups = {}
        for o in outs:
            k = (o[0], o[2].n if o[2] is not None else None) + self.canon(o[1], o[2])
            groups.setdefault(k, []).append(o)
        res = []
        for g in groups.values():
            while len(g) > 1:
                done = False
                seen = {}
                for i, o in enumerate(g):
                    fs = o[1].facts
                    for j in range(i):
                        p = g[j][1].facts
                        if all(fs.get(k, None) is v for k, v in p.items()):
                            g.pop(i); done = True; break       # fs stronger: covered by p
                        if all(p.get(k, None) is v for k, v in fs.items()):
                            g.pop(j); done = True; break
                        if len(p) == len(fs):
                            d = [k for k in p if fs.get(k, None) is not p[k]]
                            if len(d) == 1 and d[0] in fs:
                                s = g[j][1].copy()
                                del s.facts[d[0]]
                                g[j] = (g[j][0], s, g[j][2])
                                g.pop(i); done = True; break
                    if done:
                        break
                if not done:
                    break
            res += g
        res = self.join(res)
        if len(res) > self.soft and self.keep is not None:
            for o in res:
                for k in [k for k in o[1].facts if not self.keep(k)]:
                    del o[1].facts[k]
                    self.forgot = True
            if not getattr(self, '_forgot', False):
                self._forgot = True
                try:
                    res = self.phijoin(self.reduce(res))
                finally:
                    self._forgot = False
        if len(res) > self.max_states and not getattr(self, '_forgot', False):
            raise FlowUndecided('too many states')
        return res

    # two states that differ by one complementary fact c become one state whose
    # differing values are gated: ite(c, a, b)
    def join(self, outs):
        if len(outs) < 2:
            return outs
        work = list(outs)
        again = True
        while again and len(work) > 1:
            again = False
            idx = {}
            for i, o in enumerate(work):
                fs = frozenset((k.n, v) for k, v in o[1].facts.items())
                for k, v in o[1].facts.items():
                    rest = (o[0], o[1].trace, fs - {(k.n, v)}, k.n)
                    j = idx.get(rest)
                    if j is not None and work[j][1].facts[k] is not v:
                        a, b = (work[j], o) if work[j][1].facts[k] else (o, work[j])
                        m = self.gate(a, b, k)
                        if m is not None:
                            work = [w for q, w in enumerate(work) if q not in (i, j)] + [m]
                            again = True
                            break
                    elif j is None:
                        idx[rest] = i
                if again:
                    break
        return work

    def gate(self, oa, ob, c):
        a, b = oa[1], ob[1]
        if set(a.frames) != set(b.frames):
            return None
        pair, back, todo = {}, {}, []
        class Fail(Exception):
            pass
        def soft(w, x):
            # a number or computed array whose identity does not matter
            if x.op == 'ref':
                d = w.heap[x.args[0]]
                return d.kind in ('num', 'unk', 'scal', 'arr') and not d.fields and not (d.owner or '').startswith(('param', 'ctor', 'default'))
            return x is not NONE and not any(z.op in ('ref', 'fn', 'bound') for z in subterms(x))
        def pv(x, y):
            if x is y and x.op != 'ref' and not any(z.op == 'ref' for z in subterms(x)):
                return x
            if x.op == 'ref' and y.op == 'ref':
                if len(x.args) != len(y.args):
                    if soft(a, x) and soft(b, y):
                        return self.ite(c, self.val(a, x), self.val(b, y))
                    raise Fail
                ca, cb = x.args[0], y.args[0]
                if pair.get(ca, cb) != cb or back.get(cb, ca) != ca:
                    raise Fail
                if ca not in pair:
                    pair[ca], back[cb] = cb, ca
                    todo.append((ca, cb))
                return ref(ca, *[self.ite(c, p, q) for p, q in zip(x.args[1:], y.args[1:])])
            if x.op == 'tup' and y.op == 'tup' and len(x.args) == len(y.args):
                return mk('tup', *[pv(p, q) for p, q in zip(x.args, y.args)])
            if x is y:
                for z in subterms(x):
                    if z.op == 'ref':
                        pv(z, z)
                return x
            if (x.op == 'ref') != (y.op == 'ref') and soft(a, x) and soft(b, y):
                return self.ite(c, self.val(a, x), self.val(b, y))
            if x.op in ('ref', 'fn', 'tup', 'bound', 'mkeys', 'mitems', 'mvalues', 'partial') or y.op in ('ref', 'fn', 'tup', 'bound', 'partial') \
                    or any(z.op in ('ref', 'fn') for t in (x, y) for z in subterms(t)):
                raise Fail
            if x is NONE or y is NONE:
                raise Fail
            return self.ite(c, x, y)
        try:
            frames = {}
            for fr in a.frames:
                ea, eb = a.frames[fr], b.frames[fr]
                out = {}
                for n in list(ea) + [m for m in eb if m not in ea]:
                    if n in ea and n in eb:
                        out[n] = pv(ea[n], eb[n])
                    else:
                        v = ea.get(n, eb.get(n))
                        if any(z.op == 'ref' for z in subterms(v)):
                            continue                      # defined on one side only: dropped
                        out[n] = self.ite(c, ea.get(n, leaf('undef')), eb.get(n, leaf('undef')))
                frames[fr] = out
            val = None if oa[2] is None or ob[2] is None else pv(oa[2], ob[2])
            heap = {}
            k = 0
            while k < len(todo):
                ca, cb = todo[k]
                k += 1
                x, y = a.heap[ca], b.heap[cb]
                if x is y and ca == cb and not x.fields:
                    heap[ca] = x
                    continue
                if x.kind != y.kind or x.owner != y.owner or x.cls != y.cls or x.n != y.n or x.open != y.open:
                    if not ({x.kind, y.kind} <= {'num', 'arr'} and x.owner == y.owner):
                        raise Fail
                fl = {}
                for n in set(x.fields) | set(y.fields):
                    if n not in x.fields and self.lazy(y, cb, n, y.fields[n]) or n not in y.fields and self.lazy(x, ca, n, x.fields[n]):
                        continue
                    if x.kind in ('dict', 'list') and not (n in x.fields and n in y.fields):
                        raise Fail
                    if n in x.fields and n in y.fields:
                        fl[n] = pv(x.fields[n], y.fields[n])
                    else:
                        v = x.fields.get(n, y.fields.get(n))
                        for z in subterms(v):
                            if z.op == 'ref':
                                raise Fail
                        fl[n] = self.ite(c, x.fields.get(n, leaf('undef')), y.fields.get(n, leaf('undef')))
                heap[ca] = Cell('num' if x.kind != y.kind else x.kind, x.content if x.content is y.content else self.ite(c, x.content, y.content), x.owner,
                                fl, x.cls, x.open, x.n)
        except Fail as ex:
            if getattr(self, 'dbg', 0):
                tb = ex.__traceback__
                while tb.tb_next: tb = tb.tb_next
                print('FAIL', tb.tb_lineno, {k: str(v)[:150] for k, v in tb.tb_frame.f_locals.items() if k in 'x y n ca cb'.split()})
            return None
        s = St()
        s.frames, s.trace = frames, a.trace
        s.heap = heap
        for h in (a.heap, b.heap):
            for cid, cell in h.items():
                if cid not in s.heap:
                    s.heap[cid] = cell            # unreachable; keeps site numbering
        s.facts = {k2: v for k2, v in a.facts.items() if k2 is not c and b.facts.get(k2) is v}
        s.cnt = dict(b.cnt)
        s.cnt.update({k2: max(v, b.cnt.get(k2, 0)) for k2, v in a.cnt.items()})
        return (oa[0], s, val)

    def ite(self, c, x, y):
        if x is y:
            return x
        if c is None:
            t = mk('phi', 'join', x, y)
            self.phi[t] = {x, y}
            self._sub[0][x], self._sub[1][y] = t, t
            return t
        return mk('ite', c, x, y)

    def phijoin(self, outs):
        """joins states that agree on the interesting facts; the joined values keep them"""
        work = list(outs)
        i = 0
        while i < len(work) and len(work) > self.soft:
            j = i + 1
            while j < len(work):
                a, b = work[i], work[j]
                if a[0] == b[0] and a[1].trace == b[1].trace:
                    self._sub = ({}, {})
                    m = self.gate(a, b, None)
                    if m is not None:
                        fa, fb = [{self.subst(k, sub): v for k, v in o[1].facts.items() if self.keep(k)} for o, sub in zip((a, b), self._sub)]
                        if fa == fb:
                            m[1].facts.update(fa)
                            work[i] = m
                            work.pop(j)
                            continue
                j += 1
            i += 1
        return work

    def subst(self, t, m, memo=None):
        if t in m:
            return m[t]
        memo = {} if memo is None else memo
        if t.n in memo:
            return memo[t.n]
        if any(isinstance(a, T) for a in t.args):
            args = [self.subst(a, m, memo) if isinstance(a, T) else a for a in t.args]
            r = t if all(p is q for p, q in zip(args, t.args)) else mk(t.op, *args)
        else:
            r = t
        memo[t.n] = r
        return r

    def force(self, groups):
        res = []
        for g in groups.values():
            s = g[0][1].copy()
            for o in g[1:]:
                s.facts = {k: v for k, v in s.facts.items() if o[1].facts.get(k) is v}
            res.append((g[0][0], s, g[0][2]))
        return res

    # ---------------------------------------------------------------- functions
    def new_frame(self, st):
        n = 1
        while n in st.frames:
            n += 1
        st.frames[n] = {}
        return n

    def call_node(self, st, mod, fnode, args, kwargs, selfref=None, closure=None, cls=None, qual=None, node=None, frame_owner=None, bound=None):
        """inline a repository function; returns list of (st, value)"""
        if len(self.stack) >= self.max_depth or sum(1 for s in self.stack if s[1] is fnode) >= 2:
            self.unknown.append('recursion ' + (qual or '?'))
            return [(st, self.opaque(st, 'rec.' + (qual or ''), None, args, kwargs, node))]
        params = fnode.args
        names = [a.arg for a in params.posonlyargs + params.args]
        static = isinstance(fnode, ast.FunctionDef) and any(dotted_name(d) == 'staticmethod' for d in fnode.decorator_list)
        pos = ([selfref] if selfref is not None and not static else []) + list(args)
        env = {}
        for i, a in enumerate(pos):
            if i < len(names):
                env[names[i]] = a
        if params.vararg:
            env[params.vararg.arg] = mk('tup', *pos[len(names):])
        extra = {}
        kwonly = [a.arg for a in params.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        if params.kwarg:
            r = self.alloc(st, fnode, 'dict', mk('dict'), tag='kw', fields=dict(extra))
            env[params.kwarg.arg] = r
        f = self.new_frame(st)
        saved = self.stack
        self.stack = self.stack + [(mod, fnode, qual or getattr(fnode, 'name', '<lambda>'), cls)]
        self.functions.add(self.where())
        oldctx = self.ctx
        self.ctx = self.ctx + ((getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)),)
        st.frames[f] = env
        env['#mod'] = leaf('module:' + mod.name)
        if closure is not None:
            env['#closure'] = K(closure)
        defaults = list(zip(names[len(names) - len(params.defaults):], params.defaults)) + \
            [(a, d) for a, d in zip(kwonly, params.kw_defaults) if d is not None]
        for n, d in defaults:
            if n not in env and n in (bound or {}):
                env[n] = bound[n]
            elif n not in env:
                if isinstance(d, (ast.List, ast.Dict, ast.Call)):
                    kind = {'List': 'list', 'Dict': 'dict'}.get(type(d).__name__, 'unk')
                    cid = ('default', qual or fnode.lineno, n)
                    if cid not in st.heap:
                        fl = {}
                        ln = None
                        if isinstance(d, ast.List) and all(isinstance(e, ast.Constant) for e in d.elts):
                            fl, ln = {i: K(e.value) for i, e in enumerate(d.elts)}, len(d.elts)
                        st.heap[cid] = Cell(kind, leaf('default ' + n), 'default:%s' % n, fields=fl, n=ln)
                    env[n] = ref(cid)
                else:
                    r = self.eval(st, f, d)
                    env[n] = r[0][1]
        missing = [n for n in names + kwonly if n not in env]
        for n in missing:
            self.unknown.append('missing argument %s of %s' % (n, qual))
            env[n] = leaf('missing ' + n)
        if isinstance(fnode, ast.Lambda):
            res = self.eval(st, f, fnode.body)
            outs = [('return', s, v) for s, v in res]
        else:
            outs = self.block([('next', st, None)], f, fnode.body)
        self.stack, self.ctx = saved, oldctx
        res = []
        for c, s, v in outs:
            v = v if c == 'return' and v is not None else NONE
            if not self.captured(s, f, v):
                s.frames.pop(f, None)
            res.append(('next', s, v))
        res = self.reduce(res)
        return [(s, v) for _, s, v in res]

    def captured(self, st, f, v):
        """frame f still reachable through closures"""
        todo, seen = [v], set()
        for g, env in st.frames.items():
            if g != f:
                todo += list(env.values())
        for g, env in st.frames.items():
            pass
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.op == 'fn' and x.args[1] == f:
                    return True
                if x.op == 'ref' and x.args[0] not in seen and x.args[0] in st.heap:
                    seen.add(x.args[0])
                    todo += list(st.heap[x.args[0]].fields.values())
        return False

    # --------------------------------------------------------------- statements
    def block(self, outs, f, stmts):
        """outs: list of (ctrl, st, val)"""
        for s in stmts:
            new = []
            changed = False
            for c, st, v in outs:
                if c != 'next':
                    new.append((c, st, v))
                    continue
                new += self.stmt(st, f, s)
            outs = self.reduce(new) if len(new) > 1 else new
            if not any(o[0] == 'next' for o in outs):
                break
        return outs

    def stmt(self, st, f, s):
        self.fuel -= 1
        if self.fuel < 0:
            raise FlowUndecided('analysis budget exhausted')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unknown.append('statement ' + type(s).__name__)
            return [('next', st, None)]
        return m(st, f, s)

    def s_Pass(self, st, f, s):
        return [('next', st, None)]
    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass
    def s_Break(self, st, f, s):
        return [('break', st, None)]
    def s_Continue(self, st, f, s):
        return [('continue', st, None)]
    def s_Expr(self, st, f, s):
        return [('next', s2, None) for s2, _ in self.eval(st, f, s.value)]
    def s_Return(self, st, f, s):
        if s.value is None:
            return [('return', st, NONE)]
        return [('return', s2, v) for s2, v in self.eval(st, f, s.value)]
    def s_Raise(self, st, f, s):
        self.event(st, 'raise', ast.unparse(s)[:60], None, s)
        self.sinks[-1].append(st)
        return []
    def s_Assert(self, st, f, s):
        yes, no = self.cond(st, f, s.test)
        for x in no:
            self.event(x, 'raise', 'assert', None, s)
            self.sinks[-1].append(x)
        return [('next', x, None) for x in yes]
    def s_FunctionDef(self, st, f, s):
        st.frames[f][s.name] = mk('fn', self.node_id(s), f, *self.bound_defaults(st, f, s.args))
        return [('next', st, None)]
    def s_Delete(self, st, f, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[f].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for s2, b in self.eval(st, f, t.value):
                    self.write(s2, b, 'del', K('del'), NONE, t)
        return [('next', st, None)]
    def s_Assign(self, st, f, s):
        out = []
        for s2, v in self.eval(st, f, s.value):
            sts = [s2]
            for tg in s.targets:
                sts = [s4 for s3 in sts for s4 in self.assign(s3, f, tg, v)]
            out += [('next', x, None) for x in sts]
        return out
    def s_AnnAssign(self, st, f, s):
        if s.value is None:
            return [('next', st, None)]
        return [('next', x, None) for s2, v in self.eval(st, f, s.value) for x in self.assign(s2, f, s.target, v)]
    def s_AugAssign(self, st, f, s):
        out = []
        op = type(s.op).__name__
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s.target)
        for n in ast.walk(load):
            if hasattr(n, 'lineno'):
                n.lineno, n.col_offset = s.lineno, s.col_offset
        for s2, cur in self.eval(st, f, load):
            for s3, v in self.eval(s2, f, s.value):
                new = self.binop(s3, op, cur, v, s)
                if isinstance(s.target, ast.Name) or isinstance(s.target, ast.Attribute):
                    if cur.op == 'ref':
                        c = s3.heap[cur.args[0]]
                        if c.kind in ('arr', 'list') and not all(self.is_int(s3, i) for i in cur.args[1:]) or \
                                c.kind in ('arr', 'list') and len(cur.args) == 1:
                            self.write(s3, ref(cur.args[0], *cur.args[1:-1]) if len(cur.args) > 1 else cur, 'aug',
                                       cur.args[-1] if len(cur.args) > 1 else mk('all'), self.val(s3, new), s)
                            out.append(('next', s3, None))
                            continue
                        if c.owner and c.kind in ('unk', 'num', 'arr'):
                            self.event(s3, 'maybe-write', cur, c.owner, s)
                    out += [('next', x, None) for x in self.assign(s3, f, s.target, new)]
                else:
                    out += [('next', x, None) for x in self.assign(s3, f, s.target, new)]
        return out

    def s_If(self, st, f, s):
        yes, no = self.cond(st, f, s.test)
        out = []
        for x in yes:
            out += self.block([('next', x, None)], f, s.body)
        for x in no:
            out += self.block([('next', x, None)], f, s.orelse) if s.orelse else [('next', x, None)]
        return self.reduce(out)

    def s_With(self, st, f, s):
        sts = [st]
        for it in s.items:
            new = []
            for x in sts:
                for s2, v in self.eval(x, f, it.context_expr):
                    if it.optional_vars is not None:
                        new += self.assign(s2, f, it.optional_vars, v)
                    else:
                        new.append(s2)
            sts = new
        return self.block([('next', x, None) for x in sts], f, s.body)

    def s_Try(self, st, f, s):
        self.sinks.append([])
        outs = self.block([('next', st.copy(), None)], f, s.body)
        sunk = self.sinks.pop()
        if s.orelse:
            nxt = [o for o in outs if o[0] == 'next']
            outs = [o for o in outs if o[0] != 'next'] + self.block(nxt, f, s.orelse)
        handled = []
        if s.handlers:
            cand = self.reduce([('next', x, None) for x in sunk] + [('next', st.copy(), None)])
            for h in s.handlers:
                for c, x, v in cand:
                    x = x.copy()
                    if h.name:
                        x.frames[f][h.name] = leaf('exc')
                    self.sinks.append([])
                    handled += self.block([('next', x, None)], f, h.body)
                    rs = self.sinks.pop()
                    sunk_after = rs
                    for y in rs:
                        if s.finalbody:
                            for o in self.block([('next', y, None)], f, s.finalbody):
                                self.sinks[-1].append(o[1])
                        else:
                            self.sinks[-1].append(y)
            typed = all(h.type is not None for h in s.handlers)
            if typed:
                self.exc_through(sunk, f, s)
        else:
            self.exc_through(sunk, f, s)
        outs = outs + handled
        if s.finalbody:
            res = []
            for c, x, v in outs:
                for c2, y, v2 in self.block([('next', x, None)], f, s.finalbody):
                    res.append((c, y, v) if c2 == 'next' else (c2, y, v2))
            outs = res
        return self.reduce(outs)

    def exc_through(self, sunk, f, s):
        for y in sunk:
            if s.finalbody:
                for o in self.block([('next', y.copy(), None)], f, s.finalbody):
                    self.sinks[-1].append(o[1])
            else:
                self.sinks[-1].append(y)

    # -------------------------------------------------------------------- loops
    def s_While(self, st, f, s):
        def enter(x, first):
            return self.cond(x, f, s.test)
        if self.unroll:
            return self.unrolled(st, f, s)
        return self.loop(st, f, s, enter)

    def unrolled(self, st, f, s):
        """while loop followed exactly; more than self.unroll iterations are not decided"""
        cur, out = [('next', st, None)], []
        for k in range(self.unroll + 1):
            yes, no = [], []
            for _, x, _ in cur:
                a, b = self.cond(x, f, s.test)
                yes += a
                no += [('next', y, None) for y in b]
            out += self.block(no, f, s.orelse) if s.orelse else no
            if not yes:
                return self.reduce(out)
            cur = []
            if k == self.unroll:
                break
            for y in yes:
                for o in self.block([('next', y, None)], f, s.body):
                    if o[0] in ('next', 'continue'):
                        cur.append(('next', o[1], None))
                    elif o[0] == 'break':
                        out.append(('next', o[1], None))
                    else:
                        out.append(o)
            cur = self.reduce(cur)
        raise FlowUndecided('loop at line %d needs more than %d iterations' % (s.lineno, self.unroll))

    def s_For(self, st, f, s):
        out = []
        for s2, it in self.eval(st, f, s.iter):
            items = self.items(s2, it)
            if items is not None and len(items) <= 40:
                cur = [('next', s2, None)]
                done = []
                for v in items:
                    nxt = []
                    for c, x, _ in cur:
                        for y in self.assign(x, f, s.target, v):
                            for o in self.block([('next', y, None)], f, s.body):
                                if o[0] in ('next', 'continue'):
                                    nxt.append(('next', o[1], None))
                                elif o[0] == 'break':
                                    done.append(('next', o[1], None))
                                else:
                                    done.append(o)
                    cur = self.reduce(nxt)
                if s.orelse:
                    cur = self.block(cur, f, s.orelse)
                out += cur + done
                continue
            iv = self.val(s2, it)
            def enter(x, first, iv=iv, it=it):
                nodekey = (s.lineno,) + self.ctx
                xs, ex = x.copy(), [x.copy()]
                el = None
                if iv.op == 'range':
                    a = iv.args
                    lo, hi = (K(0), a[0]) if len(a) == 1 else (a[0], a[1])
                    step = a[2] if len(a) > 2 else K(1)
                    if first:
                        el = lo
                    else:
                        el = mk('phi', 'i@%s' % (nodekey,), 'range')
                        self.phi.setdefault(el, set()).update([lo, hi, step])
                        if isk(lo) and isk(step) and step.args[0] == 1:
                            xs.facts[self.atom_eq(el, lo)] = False
                            xs.facts[mk('lt', lo, el)] = True
                    xs.facts[mk('isint', el)] = True
                else:
                    el = mk('elem', iv, mk('phi', 'e@%s' % (nodekey,), 'first' if first else 'later'))
                    if it.op == 'ref':
                        c = xs.heap[it.args[0]]
                        if c.kind in ('arr', 'unk', 'list') and c.owner:
                            el = self.alloc(xs, s, 'unk', el, owner=None, tag='elem')
                if iv.op in ('enum', 'zip') or iv.op == 'mitems':
                    k = mk('phi', 'e@%s' % (nodekey,), 'first' if first else 'later')
                    if iv.op == 'enum':
                        el = mk('tup', K(0) if first else k, mk('elem', self.val(x, iv.args[0]), k))
                        if not first:
                            xs.facts[mk('lt', K(0), k)] = True
                            xs.facts[self.atom_eq(k, K(0))] = False
                            xs.facts[mk('isint', k)] = True
                    elif iv.op == 'zip':
                        el = mk('tup', *[mk('elem', self.val(x, a), k) for a in iv.args])
                    else:
                        el = mk('tup', mk('key', iv.args[0], k), mk('elem', iv.args[0], k))
                ins = self.assign(xs, f, s.target, el)
                hi = iv.args[0] if iv.op == 'range' and len(iv.args) == 1 else None
                if iv.op != 'range':
                    hi = self.length_of(x, self.val(x, iv.args[0]) if iv.op in ('enum', 'zip') else iv)
                if first and hi is not None and not isk(hi) and x.facts.get(mk('lt', K(0), hi)) is True:
                    ex = []
                if first and iv.op == 'range' and len(iv.args) == 1 and isk(iv.args[0]):
                    ex = [] if iv.args[0].args[0] > 0 else ex
                    ins = ins if iv.args[0].args[0] > 0 else []
                return ins, ex
            out += self.loop(s2, f, s, enter)
        return out

    def length_of(self, st, v):
        return mk('len', self.shape_key(v))

    def items(self, st, it):
        """concrete elements of an iterable, or None"""
        if it.op == 'tup':
            return list(it.args)
        if it.op == 'range' and all(isk(a) and isinstance(a.args[0], int) for a in it.args):
            return [K(i) for i in range(*[a.args[0] for a in it.args])]
        if it.op == 'enum':
            r = self.items(st, it.args[0])
            return None if r is None else [mk('tup', K(i), x) for i, x in enumerate(r)]
        if it.op == 'zip':
            rs = [self.items(st, a) for a in it.args]
            return None if any(r is None for r in rs) else [mk('tup', *x) for x in zip(*rs)]
        if it.op in ('mkeys', 'mitems', 'mvalues'):
            c = st.heap[it.args[0].args[0]]
            if c.kind == 'dict' and not c.open:
                ks = sorted(c.fields, key=lambda k: str(k))
                ks = list(c.fields)
                return [K(k) if it.op == 'mkeys' else c.fields[k] if it.op == 'mvalues' else mk('tup', K(k), c.fields[k]) for k in ks]
            return None
        if it.op == 'ref' and len(it.args) == 1:
            c = st.heap[it.args[0]]
            if c.kind == 'list' and c.n is not None:
                return [c.fields[i] for i in range(c.n)]
            if c.kind == 'dict' and not c.open:
                return [K(k) for k in c.fields]
        if isk(it) and isinstance(it.args[0], (str, tuple)):
            return [K(x) for x in it.args[0]]
        return None

    def loop(self, st0, f, s, enter):
        base = st0.copy()
        ins, exits = enter(st0.copy(), True)
        outs, ends = [], []
        def body(ins, outs, ends):
            for x in ins:
                for c, y, v in self.block([('next', x, None)], f, s.body):
                    if c in ('next', 'continue'):
                        ends.append(('next', y, None))
                    elif c == 'break':
                        outs.append(('next', y, None))
                    else:
                        outs.append((c, y, v))
        body(ins, outs, ends)
        ends = self.reduce(ends)
        done = [('next', x, None) for x in exits]
        if s.orelse:
            done = self.block(done, f, s.orelse)
        def after(ends):
            r = []
            for _, y, _ in ends:
                if isinstance(s, ast.While):
                    r += [('next', z, None) for z in self.cond(y.copy(), f, s.test)[1]]
                else:
                    r.append(('next', y.copy(), None))
            return self.block(r, f, s.orelse) if s.orelse else r
        done += after(ends)
        changed = {}
        self.changes(base, ends, changed)
        if ends and (changed or isinstance(s, ast.While)):
            tag = self.havoc_tag
            for rnd in range(6):
                ev, sk = len(self.events), [len(k) for k in self.sinks]
                self.havoc_tag = tag + (('h', s.lineno),)
                h = self.havoc(base, changed, s)
                ins2, _ = enter(h, False)
                outs2, ends2 = [], []
                body(ins2, outs2, ends2)
                ends2 = self.reduce(ends2)
                self.havoc_tag = tag
                n = len(changed)
                self.changes(base, ends2, changed)
                if len(changed) == n:
                    break
                del self.events[ev:]
                for k, m in zip(self.sinks, sk):
                    del k[m:]
            else:
                raise FlowUndecided('loop does not stabilise')
            self.havoc_tag = tag + (('h', s.lineno),)
            for k, vs in changed.items():
                ph = self.phi_term(k, s)
                self.phi.setdefault(ph, set()).update(vs)
            self.havoc_tag = tag
            outs += outs2
            done += after(ends2)
        known = set(base.facts)
        for o in done + outs:
            self.forget_dead(o[1], known)
        return self.reduce(done + outs)

    def forget_dead(self, st, known):
        """drop facts about values of earlier iterations that nothing refers to any more"""
        new = [k for k in st.facts if k not in known]
        if not new:
            return
        live = set()
        todo, seen = [v for e in st.frames.values() for v in e.values()], set()
        while todo:
            t = todo.pop()
            for x in subterms(t):
                if x.op in ('call', 'phi'):
                    live.add(x.n)
                if x.op == 'ref' and x.args[0] not in seen and x.args[0] in st.heap:
                    seen.add(x.args[0])
                    c = st.heap[x.args[0]]
                    todo += list(c.fields.values()) + [c.content]
        for k in new:
            if any(x.op in ('call', 'phi') and x.n not in live for x in subterms(k)):
                del st.facts[k]

    def phi_term(self, k, s):
        return mk('phi', '%s@%s%s' % (s.lineno, self.ctx, self.havoc_tag), str(k))

    def changes(self, base, ends, changed):
        for _, y, _ in ends:
            for fr in base.frames:
                e0, e1 = base.frames[fr], y.frames.get(fr, {})
                for n, v in e1.items():
                    if e0.get(n) is not v:
                        changed.setdefault(('var', fr, n), set()).add(self.val(y, v))
                        if n in e0:
                            changed[('var', fr, n)].add(self.val(base, e0[n]))
            for cid, c in base.heap.items():
                d = y.heap.get(cid)
                if d is None or d is c:
                    continue
                if d.content is not c.content or d.n != c.n or d.open != c.open:
                    changed.setdefault(('cell', cid), set()).update([d.content, c.content])
                for k in set(c.fields) | set(d.fields):
                    if c.fields.get(k) is not d.fields.get(k):
                        if k not in c.fields and self.lazy(d, cid, k, d.fields[k]):
                            continue              # first look at an entry that was there before
                        z = changed.setdefault(('field', cid, k), set())
                        for w, q in ((base, c), (y, d)):
                            if k in q.fields:
                                z.add(self.val(w, q.fields[k]))

    def havoc(self, base, changed, s):
        h = base.copy()
        for k in changed:
            ph = self.phi_term(k, s)
            if k[0] == 'var':
                _, fr, n = k
                kinds = {v.op for v in changed[k]}
                old = base.frames[fr].get(n)
                if all(isk(v) and isinstance(v.args[0], (bool, int, float, str, type(None))) or v.op in ('scalar',) for v in changed[k]) or \
                        n in self.scalars:
                    h.frames[fr][n] = ph
                else:
                    kind = 'num'
                    if old is not None and old.op == 'ref':
                        kind = base.heap[old.args[0]].kind
                    elif old is not None:
                        kind = 'num'
                    if kind not in ('arr', 'num', 'unk', 'scal'):
                        kind = 'unk'
                    r = self.alloc(h, s, kind, ph, tag='phi:' + n)
                    h.frames[fr][n] = r
            elif k[0] == 'cell':
                c = h.mut(k[1])
                c.content = ph
                if c.kind == 'list':
                    c.n = None
            else:
                c = h.mut(k[1])
                c.fields[k[2]] = ph
        return h
    scalars = ()

    # --------------------------------------------------------------- assignment
    def assign(self, st, f, tg, v):
        if isinstance(tg, ast.Name):
            st.frames[f][tg.id] = v
            return [st]
        if isinstance(tg, (ast.Tuple, ast.List)):
            n = len(tg.elts)
            star = [i for i, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                vs = self.items(st, v)
                if vs is None:
                    vs = [mk('item', self.val(st, v), i) for i in range(n)]
                    for e in tg.elts:
                        e = e.value if isinstance(e, ast.Starred) else e
                        self.assign(st, f, e, self.alloc(st, tg, 'unk', vs[0], tag='star'))
                    return [st]
                i = star[0]
                after = n - i - 1
                mid = vs[i:len(vs)-after]
                for e, x in zip(tg.elts[:i], vs[:i]):
                    self.assign(st, f, e, x)
                self.assign(st, f, tg.elts[i].value, mk('tup', *mid))
                for e, x in zip(tg.elts[i+1:], vs[len(vs)-after:] if after else []):
                    self.assign(st, f, e, x)
                return [st]
            vs = self.unpack(st, v, n, tg)
            sts = [st]
            for e, x in zip(tg.elts, vs):
                sts = [s3 for s2 in sts for s3 in self.assign(s2, f, e, x)]
            return sts
        if isinstance(tg, ast.Attribute):
            out = []
            for s2, b in self.eval(st, f, tg.value):
                self.setattr(s2, b, tg.attr, v, tg)
                out.append(s2)
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for s2, b in self.eval(st, f, tg.value):
                for s3, i in self.eval(s2, f, tg.slice):
                    self.write(s3, b, 'set', plain_index(i), v, tg)
                    out.append(s3)
            return out
        self.unknown.append('target ' + type(tg).__name__)
        return [st]

    def unpack(self, st, v, n, node):
        it = self.items(st, v)
        if it is not None and len(it) == n:
            return it
        if v.op == 'ref' and st.heap[v.args[0]].kind in ('unk', 'num', 'arr'):
            c = self.val(st, v)
            key = ('unpack', n)
            return [self.alloc(st, node, 'unk', mk('item', c, i), tag='item%d' % i) for i in range(n)]
        c = self.val(st, v)
        return [mk('item', c, i) for i in range(n)]

    def setattr(self, st, b, name, v, node):
        if b.op == 'ref':
            c = st.heap[b.args[0]]
            self.event(st, 'setattr', (b, name), v, node)
            c = st.mut(b.args[0])
            c.fields[name] = v
        else:
            self.event(st, 'setattr', (b, name), v, node)

    def choice(self, i):
        """index that is one of several constants, depending on known conditions"""
        if i.op == 'ite':
            return self.choice(i.args[1]) and self.choice(i.args[2])
        return isk(i) and isinstance(i.args[0], (int, str))

    def stored(self, i, k, n, v, old):
        if i.op == 'ite':
            return self.ite(i.args[0], self.stored(i.args[1], k, n, v, old), self.stored(i.args[2], k, n, v, old))
        j = i.args[0]
        if isinstance(j, int) and j < 0 and n is not None:
            j += n
        return v if j == k else old

    def chosen(self, i, c, st):
        """element of a list or dict at an index that is a choice of constants; None if there is none"""
        if i.op == 'ite':
            x, y = self.chosen(i.args[1], c, st), self.chosen(i.args[2], c, st)
            return None if x is None or y is None else self.ite(i.args[0], x, y)
        j = i.args[0]
        if isinstance(j, int) and j < 0 and c.n is not None:
            j += c.n
        return self.val(st, c.fields[j]) if j in c.fields else None

    def write(self, st, b, how, i, v, node):
        """in-place modification of the storage b refers to"""
        if b.op != 'ref':
            self.event(st, 'write-term', b, how, node)
            return
        cid, view = b.args[0], b.args[1:]
        c = st.heap[cid]
        certain = not any(x.op == 'maybe' for x in view + (i,))
        e = self.event(st, 'write', (cid, view, how), (c.owner, c.kind, certain, i, v), node)
        c = st.mut(cid)
        if c.kind in ('dict', 'list', 'unk', 'inst') and not view and how == 'set':
            if isk(i):
                k = i.args[0]
                if c.kind == 'list' and isinstance(k, int) and k < 0 and c.n is not None:
                    k += c.n
                if c.kind != 'unk' or isinstance(k, str):
                    c.fields[k] = v
                    return
            if c.kind in ('list', 'dict') and not c.open and self.choice(i):
                for k in list(c.fields):
                    c.fields[k] = self.stored(i, k, c.n, self.val(st, v), self.val(st, c.fields[k]))
                return
            for k in list(c.fields):
                c.fields[k] = mk('weak', self.val(st, c.fields[k]), self.val(st, i), self.val(st, v))
            c.content = mk('st', c.content, mk('ix', self.val(st, i)), self.val(st, v))
            if c.kind == 'dict':
                c.open = True
            return
        vi = tuple(self.val(st, x) for x in view) + (self.val(st, i),)
        if how == 'aug' and i.op == 'all':
            c.content = self.val(st, v) if not view else mk('st', c.content, mk('ix', *vi[:-1]), self.val(st, v))
        else:
            c.content = mk('st', c.content, mk('ix', *vi), self.val(st, v))

    # --------------------------------------------------------------- conditions
    def atom_eq(self, a, b):
        return mk('eq', a, b) if a.n <= b.n else mk('eq', b, a)

    def cond(self, st, f, e):
        """(states where e holds, states where it does not)"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            y, n = self.cond(st, f, e.operand)
            return n, y
        if isinstance(e, ast.BoolOp):
            cur, other = [st], []
            conj = isinstance(e.op, ast.And)
            for x in e.values:
                nxt = []
                for s in cur:
                    y, n = self.cond(s, f, x)
                    if conj:
                        nxt += y; other += n
                    else:
                        nxt += n; other += y
                cur = nxt
            return (cur, other) if conj else (other, cur)
        yes, no = [], []
        for s, v in self.eval(st, f, e):
            y, n = self.truth(s, v)
            yes += y
            no += n
        return yes, no

    def decide(self, st, t):
        """True/False/None"""
        if isk(t):
            try:
                return bool(t.args[0])
            except Exception:
                return None
        if t.op == 'ref':
            c = st.heap[t.args[0]]
            if c.kind == 'inst':
                return True
            if c.kind in ('list',) and c.n is not None:
                return c.n > 0
            if c.kind == 'dict' and not c.open:
                return bool(c.fields)
            return self.decide(st, self.val(st, t)) if self.val(st, t).op != 'ref' else None
        if t.op == 'tup':
            return bool(t.args)
        if t.op == 'fn' or t.op == 'bound':
            return True
        if t.op == 'not':
            r = self.decide(st, t.args[0])
            return None if r is None else not r
        if t in st.facts:
            return st.facts[t]
        if t.op == 'ite':
            r = self.decide(st, t.args[0])
            if r is not None:
                return self.decide(st, t.args[1] if r else t.args[2])
            x, y = self.decide(st, t.args[1]), self.decide(st, t.args[2])
            return x if x is not None and x is y else None
        if t.op == 'eq':
            a, b = t.args
            if isk(a) and isk(b):
                return a.args[0] == b.args[0]
            k, x = (a, b) if isk(a) else (b, a)
            if isk(k):
                for u, val in st.facts.items():
                    if val and u.op == 'eq' and x in u.args:
                        o = u.args[0] if u.args[1] is x else u.args[1]
                        if isk(o) and o.args[0] != k.args[0]:
                            return False
        if t.op == 'or':
            rs = [self.decide(st, a) for a in t.args]
            return True if any(r is True for r in rs) else (False if all(r is False for r in rs) else None)
        if t.op == 'and':
            rs = [self.decide(st, a) for a in t.args]
            return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
        return None

    def truth(self, st, t):
        r = self.decide(st, t)
        if r is not None:
            return ([st], []) if r else ([], [st])
        if t.op == 'ref':
            t = self.val(st, t)
            r = self.decide(st, t)
            if r is not None:
                return ([st], []) if r else ([], [st])
        if t.op == 'not':
            y, n = self.truth(st, t.args[0])
            return n, y
        if t.op == 'ite':
            y, n = self.truth(st, t.args[0])
            yy, nn = [], []
            for s, u in [(s, t.args[1]) for s in y] + [(s, t.args[2]) for s in n]:
                p, q = self.truth(s, u)
                yy += p; nn += q
            return yy, nn
        if t.op in ('or', 'and'):
            y, n = self.truth(st, t.args[0])
            if t.op == 'or':
                yy, nn = list(y), []
                for s in n:
                    a, b = self.truth(s, t.args[1])
                    yy += a; nn += b
                return yy, nn
            yy, nn = [], list(n)
            for s in y:
                a, b = self.truth(s, t.args[1])
                yy += a; nn += b
            return yy, nn
        a, b = st.copy(), st
        a.facts[t] = True
        b = st.copy()
        b.facts[t] = False
        return [a], [b]

    # -------------------------------------------------------------- expressions
    def eval(self, st, f, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unknown.append('expression ' + type(e).__name__)
            return [(st, leaf('?%s:%d' % (type(e).__name__, e.lineno)))]
        return m(st, f, e)

    def evals(self, st, f, es):
        outs = [(st, [])]
        for e in es:
            if isinstance(e, ast.Starred):
                new = []
                for s, vs in outs:
                    for s2, v in self.eval(s, f, e.value):
                        it = self.items(s2, v)
                        if it is None:
                            new.append((s2, vs + [mk('star', self.val(s2, v))]))
                        else:
                            new.append((s2, vs + it))
                outs = new
                continue
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.eval(s, f, e)]
        return outs

    def e_Constant(self, st, f, e):
        return [(st, K(e.value))]

    def lookup(self, st, f, name):
        while f is not None:
            env = st.frames.get(f, {})
            if name in env:
                return env[name]
            c = env.get('#closure')
            f = c.args[0] if c is not None else None
        return None

    def e_Name(self, st, f, e):
        v = self.lookup(st, f, e.id)
        if v is not None:
            return [(st, v)]
        return [(st, self.global_name(st, e.id, e))]

    def global_name(self, st, name, node):
        mod = self.stack[-1][0]
        if name in mod.funcs:
            return mk('gfn', mod.name, name)
        if name in mod.classes:
            return mk('gcls', mod.name, name)
        if name in mod.imports:
            return self.imported(mod.imports[name])
        if name in mod.consts:
            r = self.eval(st, self.new_frame(st), mod.consts[name])
            return r[0][1]
        return mk('ext', 'builtins.' + name)

    def imported(self, dotted):
        r = self.repo.resolve(dotted)
        if r is None:
            return mk('ext', dotted)
        if r[0] == 'func':
            return mk('gfn', r[1].name, r[2].name)
        if r[0] == 'class':
            return mk('gcls', r[1].name, r[2].name)
        if r[0] == 'mod':
            return mk('gmod', r[1])
        return mk('ext', dotted)

    def e_Tuple(self, st, f, e):
        return [(s, mk('tup', *vs)) for s, vs in self.evals(st, f, e.elts)]
    def e_List(self, st, f, e):
        out = []
        for s, vs in self.evals(st, f, e.elts):
            if any(v.op == 'star' for v in vs):
                out.append((s, self.alloc(s, e, 'list', mk('list', *[self.val(s, v) for v in vs]), n=None)))
            else:
                out.append((s, self.alloc(s, e, 'list', mk('list'), fields={i: v for i, v in enumerate(vs)}, n=len(vs))))
        return out
    e_Set = e_List
    def e_Dict(self, st, f, e):
        ks = [k for k in e.keys if k is not None]
        outs = []
        if len(ks) != len(e.keys):
            r = self.alloc(st, e, 'dict', leaf('dict**'), open=True)
            outs2 = [(st, r)]
            for k, v in zip(e.keys, e.values):
                if k is None:
                    nx = []
                    for s, r in outs2:
                        for s2, w in self.eval(s, f, v):
                            self.dict_update(s2, r, w, e)
                            nx.append((s2, r))
                    outs2 = nx
                else:
                    nx = []
                    for s, r in outs2:
                        for s2, (kk, vv) in self.evals(s, f, [k, v]):
                            c = s2.mut(r.args[0])
                            if isk(kk):
                                c.fields[kk.args[0]] = vv
                            nx.append((s2, r))
                    outs2 = nx
            return outs2
        for s, vs in self.evals(st, f, ks + list(e.values)):
            n = len(ks)
            fl = {}
            op = False
            for k, v in zip(vs[:n], vs[n:]):
                if isk(k):
                    fl[k.args[0]] = v
                else:
                    op = True
            outs.append((s, self.alloc(s, e, 'dict', mk('dict'), fields=fl, open=op)))
        return outs

    def dict_update(self, st, r, w, node):
        c = st.mut(r.args[0])
        if w.op == 'ref' and st.heap[w.args[0]].kind == 'dict' and not st.heap[w.args[0]].open:
            c.fields.update(st.heap[w.args[0]].fields)
            return
        src = self.val(st, w)
        if w.op == 'ref':
            known = st.heap[w.args[0]].fields
        else:
            known = {}
        for k in list(c.fields):
            c.fields[k] = known[k] if k in known else mk('mget', src, k, self.val(st, c.fields[k]))
        for k, v in known.items():
            c.fields[k] = v
        c.open = True
        c.content = mk('upd', c.content, src)

    def e_Lambda(self, st, f, e):
        return [(st, mk('fn', self.node_id(e), f, *self.bound_defaults(st, f, e.args)))]

    def bound_defaults(self, st, f, params):
        """default values of a nested function, evaluated where it is defined (constants are evaluated at the call)"""
        names = [a.arg for a in params.posonlyargs + params.args]
        out = []
        for n, d in list(zip(names[len(names) - len(params.defaults):], params.defaults)) + \
                [(a.arg, d) for a, d in zip(params.kwonlyargs, params.kw_defaults) if d is not None]:
            if any(isinstance(x, ast.Name) for x in ast.walk(d)):
                r = self.eval(st, f, d)
                if len(r) == 1:
                    out.append(mk('kw', n, r[0][1]))
        return out

    _nodes = {}
    def node_id(self, n):
        k = (self.stack[-1][0].name, n.lineno, n.col_offset)
        Flow._nodes[(id(self.repo),) + k] = (self.stack[-1][0], n, self.stack[-1][3])
        return (id(self.repo),) + k

    def e_IfExp(self, st, f, e):
        y, n = self.cond(st, f, e.test)
        return [o for s in y for o in self.eval(s, f, e.body)] + [o for s in n for o in self.eval(s, f, e.orelse)]

    def e_UnaryOp(self, st, f, e):
        out = []
        for s, v in self.eval(st, f, e.operand):
            op = type(e.op).__name__
            if isk(v) and not isinstance(v.args[0], str):
                try:
                    x = v.args[0]
                    out.append((s, K({'USub': lambda: -x, 'UAdd': lambda: +x, 'Not': lambda: not x, 'Invert': lambda: ~x}[op]())))
                    continue
                except Exception:
                    pass
            if op == 'Not':
                r = self.decide(s, v)
                out.append((s, K(not r) if r is not None else mk('not', self.val(s, v))))
            elif op == 'UAdd':
                out.append((s, v))
            else:
                out.append((s, self.num(s, mk('neg' if op == 'USub' else 'inv', self.val(s, v)), e, v)))
        return out

    def e_BoolOp(self, st, f, e):
        op = 'and' if isinstance(e.op, ast.And) else 'or'
        outs = [(st, None)]
        for i, x in enumerate(e.values):
            new = []
            for s, acc in outs:
                if acc is not None:
                    r = self.decide(s, acc)
                    if r is not None and r is (op == 'or'):
                        new.append((s, acc)); continue
                    for s2, v in self.eval(s, f, x):
                        if r is not None:
                            new.append((s2, v))
                        else:
                            new.append((s2, mk(op, self.val(s2, acc), self.val(s2, v))))
                else:
                    new += self.eval(s, f, x)
            outs = new
        return outs

    def e_Compare(self, st, f, e):
        out = []
        for s, vs in self.evals(st, f, [e.left] + e.comparators):
            terms = []
            for a, op, b in zip(vs, e.ops, vs[1:]):
                terms.append(self.compare(s, type(op).__name__, a, b))
            t = terms[0]
            for u in terms[1:]:
                t = mk('and', t, u)
            out.append((s, t))
        return out

    def compare(self, st, op, a, b):
        va, vb = self.val(st, a), self.val(st, b)
        if op in ('Is', 'IsNot'):
            r = None
            if isk(a) and isk(b):
                r = a.args[0] is b.args[0]
            elif b is NONE and (a.op in ('fn', 'tup', 'gfn', 'bound') or a.op == 'ref' and not (st.heap[a.args[0]].kind in ('unk',))):
                r = False
            if r is None:
                t = mk('is', va, vb)
                return mk('not', t) if op == 'IsNot' else t
            return K(r if op == 'Is' else not r)
        if op in ('Eq', 'NotEq'):
            if isk(va) and isk(vb):
                r = va.args[0] == vb.args[0]
                return K(bool(r) if op == 'Eq' else not r)
            t = self.atom_eq(va, vb)
            return t if op == 'Eq' else mk('not', t)
        if op in ('In', 'NotIn'):
            it = None
            if b.op == 'ref' and st.heap[b.args[0]].kind == 'dict' and not st.heap[b.args[0]].open and isk(a):
                r = a.args[0] in st.heap[b.args[0]].fields
                return K(r if op == 'In' else not r)
            it = self.items(st, b)
            if b.op == 'mkeys' and it is not None or it is not None:
                if isk(a) and all(isk(x) for x in it):
                    r = a.args[0] in [x.args[0] for x in it]
                    return K(r if op == 'In' else not r)
            t = mk('in', va, vb)
            return t if op == 'In' else mk('not', t)
        if isk(va) and isk(vb):
            try:
                x, y = va.args[0], vb.args[0]
                return K({'Lt': lambda: x < y, 'LtE': lambda: x <= y, 'Gt': lambda: x > y, 'GtE': lambda: x >= y}[op]())
            except Exception:
                pass
        if op in ('Gt', 'GtE'):
            va, vb = vb, va
        return mk('lt' if op in ('Lt', 'Gt') else 'le', va, vb)

    OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'Div': lambda a, b: a / b,
           'FloorDiv': lambda a, b: a // b, 'Mod': lambda a, b: a % b, 'Pow': lambda a, b: a ** b}

    def binop(self, st, op, a, b, node):
        if isk(a) and isk(b) and op in self.OPS:
            try:
                return K(self.OPS[op](a.args[0], b.args[0]))
            except Exception:
                pass
        if op == 'Add' and a.op == 'tup' and b.op == 'tup':
            return mk('tup', *(a.args + b.args))
        if op == 'Add' and a.op == 'ref' and b.op == 'ref' and st.heap[a.args[0]].kind == 'list' and st.heap[b.args[0]].kind == 'list':
            x, y = self.items(st, a), self.items(st, b)
            if x is not None and y is not None:
                return self.alloc(st, node, 'list', mk('list'), fields=dict(enumerate(x + y)), n=len(x) + len(y))
            return self.alloc(st, node, 'list', mk('cat', self.val(st, a), self.val(st, b)), n=None)
        if op == 'Mod' and isk(a) and isinstance(a.args[0], str):
            return mk('str')
        va, vb = self.val(st, a), self.val(st, b)
        if op in ('Add', 'Mult') and va.n > vb.n:
            va, vb = vb, va
        return self.num(st, mk(op.lower(), va, vb), node, a, b)

    def num(self, st, t, node, *srcs):
        """result of arithmetic: a fresh array or a scalar"""
        kinds = [self.kind(st, x) for x in srcs]
        if all(k == 'scal' for k in kinds):
            return t
        kind = 'arr' if 'arr' in kinds and 'matmul' not in t.op else 'num'
        return self.alloc(st, node, kind, t, tag=t.op)

    def kind(self, st, t):
        if t.op == 'ref':
            c = st.heap[t.args[0]]
            if c.kind == 'arr' and len(t.args) > 1 and any(self.is_int(st, i) for i in t.args[1:]):
                return 'num'
            return c.kind
        if isk(t):
            return 'scal'
        if t.op in ('shape', 'len', 'isint', 'size', 'lt', 'le', 'eq', 'not', 'and', 'or', 'phi', 'norm', 'scal'):
            return 'scal' if t.op != 'phi' or t.args[1] == 'range' else 'num'
        if t.op in ('add', 'sub', 'mult', 'div', 'floordiv', 'mod', 'pow', 'neg'):
            return 'scal'         # scalar arithmetic is only kept as a bare term when every operand was scalar
        return 'num'

    def is_int(self, st, t):
        if isk(t):
            return isinstance(t.args[0], int) and not isinstance(t.args[0], bool)
        if st.facts.get(mk('isint', t)):
            return True
        if t.op in ('shape', 'len', 'size'):
            return True
        if t.op in ('add', 'sub', 'mult', 'floordiv', 'neg', 'mod'):
            return all(self.is_int(st, a) for a in t.args)
        if t.op == 'call' and t.args[0] in ('int', 'len'):
            return True
        return False

    def e_BinOp(self, st, f, e):
        return [(s, self.binop(s, type(e.op).__name__, a, b, e)) for s, (a, b) in self.evals(st, f, [e.left, e.right])]

    def e_Slice(self, st, f, e):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(s, mk('slice', *[self.val(s, v) for v in vs])) for s, vs in self.evals(st, f, parts)]

    def e_JoinedStr(self, st, f, e):
        return [(st, mk('str'))]
    def e_FormattedValue(self, st, f, e):
        return [(st, mk('str'))]
    def e_Starred(self, st, f, e):
        return self.eval(st, f, e.value)
    def e_NamedExpr(self, st, f, e):
        return [(x, v) for s, v in self.eval(st, f, e.value) for x in self.assign(s, f, e.target, v)]

    def e_ListComp(self, st, f, e):
        g = e.generators[0]
        out = []
        for s, it in self.eval(st, f, g.iter):
            items = self.items(s, it)
            if items is not None and len(e.generators) == 1 and len(items) <= 40:
                cur = [(s, [])]
                for v in items:
                    new = []
                    for s2, acc in cur:
                        for s3 in self.assign(s2, f, g.target, v):
                            sts = [s3]
                            skip = []
                            for c in g.ifs:
                                ys = []
                                for q in sts:
                                    y, n = self.cond(q, f, c)
                                    ys += y; skip += n
                                sts = ys
                            new += [(q, acc) for q in skip]
                            for q in sts:
                                new += [(s4, acc + [w]) for s4, w in self.eval(q, f, e.elt)]
                    cur = new
                out += [(s2, self.alloc(s2, e, 'list', mk('list'), fields=dict(enumerate(vs)), n=len(vs))) for s2, vs in cur]
                continue
            el = mk('elem', self.val(s, it), mk('phi', 'c@%s' % ((e.lineno, e.col_offset) + self.ctx,), ''))
            for s2 in self.assign(s, f, g.target, el):
                if len(e.generators) > 1:
                    out.append((s2, self.alloc(s2, e, 'list', mk('comp', self.val(s2, it)), n=None)))
                    continue
                for s3, w in self.eval(s2, f, e.elt):
                    out.append((s3, self.alloc(s3, e, 'list', mk('comp', self.val(s3, it), self.val(s3, w)), n=None)))
        return out
    e_GeneratorExp = e_SetComp = e_ListComp
    def e_DictComp(self, st, f, e):
        g = e.generators[0]
        out = []
        for s, it in self.eval(st, f, g.iter):
            items = self.items(s, it)
            if items is not None and len(e.generators) == 1 and not g.ifs:
                fl = {}
                for v in items:
                    for s2 in self.assign(s, f, g.target, v)[:1]:
                        s3, (k, w) = self.evals(s2, f, [e.key, e.value])[0]
                        if isk(k):
                            fl[k.args[0]] = w
                out.append((s, self.alloc(s, e, 'dict', mk('dict'), fields=fl)))
            else:
                out.append((s, self.alloc(s, e, 'dict', mk('comp', self.val(s, it)), open=True)))
        return out

    # --------------------------------------------------------------- attributes
    def e_Attribute(self, st, f, e):
        return [(s, self.getattr(s, b, e.attr, e)) for s, b in self.eval(st, f, e.value)]

    def getattr(self, st, b, name, node):
        if b.op == 'gmod':
            r = self.imported(b.args[0] + '.' + name)
            return r
        if b.op == 'ext':
            return mk('ext', b.args[0] + '.' + name)
        if b.op == 'gcls':
            mod = self.repo.modules[b.args[0]]
            m = self.repo.method(mod, mod.classes[b.args[1]], name)
            if m:
                return mk('meth', m[0].name, m[1].name, name)
            return mk('attr', b, name)
        if b.op == 'ref':
            cid, view = b.args[0], b.args[1:]
            c = st.heap[cid]
            if not view and name in c.fields:
                return c.fields[name]
            if c.kind == 'inst':
                if c.cls is not None:
                    mod, cn = c.cls
                    m = self.repo.method(mod, cn, name)
                    if m:
                        if any(dotted_name(d) == 'property' for d in m[2].decorator_list):
                            r = self.call_node(st, m[0], m[2], [], {}, selfref=b, cls=m[1], qual='%s.%s' % (m[1].name, name), node=node)
                            return r[0][1]
                        return mk('bound', b, name)
                    for mm, cc in self.repo.mro(mod, cn):
                        for s in cc.body:
                            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name and isinstance(s.value, ast.Constant):
                                return K(s.value.value)
                if c.open:
                    hook = self.hooks.get('attr:' + name)
                    v = None
                    if hook is not None:
                        v = hook(self, st, b, name, node)
                    if v is None:
                        k2 = (cid, name)
                        st.heap[k2] = Cell('unk', mk('attr', c.content, name), 'attr:%s.%s' % (c.owner, name), open=True)
                        v = ref(k2)
                    c = st.mut(cid)
                    c.fields[name] = v
                    return v
                self.unknown.append('attribute %s' % name)
                return mk('attr', c.content, name)
            if c.kind in ('arr', 'num', 'unk', 'scal'):
                if name == 'T':
                    return ref(cid, *view, leaf('T'))
                if name in ('real', 'flat'):
                    return ref(cid, *view, leaf(name))
                if name == 'shape':
                    k = self.shape_key(self.val(st, b))
                    return self.shapes.get(k) or mk('shape', k)
                if name in ('size', 'ndim', 'dtype', 'imag'):
                    return mk(name, self.shape_key(self.val(st, b))) if name != 'imag' else self.num(st, mk('imag', self.val(st, b)), node, b)
                if name == 'at':
                    return mk('at', b)
                if c.kind == 'unk' and c.open and not view and name not in ('append', 'insert', 'extend', 'reverse', 'sort', 'clear', 'popitem', 'fill'):
                    k2 = (cid, name)
                    st.heap[k2] = Cell('unk', mk('attr', c.content, name), 'attr:%s.%s' % (c.owner, name), open=True)
                    c = st.mut(cid)
                    c.fields[name] = ref(k2)
                    return ref(k2)
            return mk('bm', b, name)
        if b.op == 'super':
            return mk('sbound', b, name)
        if b.op == 'at':
            return mk('attr', b, name)
        if name == 'shape':
            return mk('shape', b)
        return mk('bm', b, name)

    def shape_key(self, t):
        while t.op == 'st':
            t = t.args[0]
        return t

    def e_Subscript(self, st, f, e):
        out = []
        for s, b in self.eval(st, f, e.value):
            for s2, i in self.eval(s, f, e.slice):
                out.append((s2, self.getitem(s2, b, plain_index(i), e)))
        return out

    def idx_class(self, st, i):
        if isk(i):
            return 'basic' if not isinstance(i.args[0], (list,)) else 'fancy'
        if i.op == 'slice':
            return 'basic'
        if i.op == 'tup':
            cs = {self.idx_class(st, a) for a in i.args}
            return 'fancy' if 'fancy' in cs else 'unknown' if 'unknown' in cs else 'basic'
        if self.is_int(st, i):
            return 'basic'
        if i.op == 'ref':
            return 'fancy' if st.heap[i.args[0]].kind in ('arr', 'list') else 'unknown'
        return 'unknown'

    def getitem(self, st, b, i, node):
        if b.op == 'tup':
            if isk(i) and isinstance(i.args[0], int) and -len(b.args) <= i.args[0] < len(b.args):
                return b.args[i.args[0]]
            if i.op == 'slice' and all(isk(a) for a in i.args):
                return mk('tup', *b.args[slice(*[a.args[0] for a in i.args])])
            return mk('rd', self.val(st, b), mk('ix', self.val(st, i)))
        if b.op == 'at':
            return mk('atix', b.args[0], i)
        if b.op == 'shape' and isk(i):
            return mk('shape', b, i.args[0])
        if isk(b) and isk(i):
            try:
                return K(b.args[0][i.args[0]])
            except Exception:
                pass
        if b.op == 'ref':
            cid, view = b.args[0], b.args[1:]
            c = st.heap[cid]
            if not view and c.kind in ('dict', 'unk', 'list', 'inst'):
                k = i.args[0] if isk(i) else None
                if c.kind in ('list', 'dict') and i.op == 'ite' and self.choice(i):
                    v = self.chosen(i, c, st)
                    if v is not None:
                        return v
                if c.kind == 'list' and isinstance(k, int) and c.n is not None:
                    if -c.n <= k < c.n:
                        return c.fields[k % c.n]
                if k is not None and (isinstance(k, str) or c.kind == 'dict') and k in c.fields:
                    return c.fields[k]
                if c.kind == 'dict' or isinstance(k, str):
                    v = mk('rd', c.content, mk('ix', self.val(st, i)))
                    if c.kind == 'dict' and c.open and isk(i):
                        k2 = (cid, 'item', k)
                        if k2 not in st.heap:
                            st.heap[k2] = Cell('unk', v, ('item:' + c.owner) if c.owner else None, open=False)
                            c = st.mut(cid)
                            c.fields[k] = ref(k2)
                        return ref(k2)
                    if c.kind == 'dict' and not isk(i) and c.fields:
                        return self.alloc(st, node, 'unk', mk('rd', self.val(st, b), mk('ix', self.val(st, i))), tag='mrd')
                    return v
                if c.kind == 'list':
                    if i.op == 'slice':
                        it = self.items(st, b)
                        if it is not None and all(isk(a) for a in i.args):
                            it = it[slice(*[a.args[0] for a in i.args])]
                            return self.alloc(st, node, 'list', mk('list'), fields=dict(enumerate(it)), n=len(it))
                        return self.alloc(st, node, 'list', mk('rd', self.val(st, b), mk('ix', self.val(st, i))), n=None, tag='lsl')
                    return mk('rd', self.val(st, b), mk('ix', self.val(st, i)))
            cl = self.idx_class(st, i)
            iv = self.val(st, i)
            if cl == 'basic':
                return ref(cid, *view, iv)
            if cl == 'fancy':
                return self.alloc(st, node, 'arr', mk('rd', self.val(st, b), mk('ix', iv)), tag='fancy')
            return ref(cid, *view, mk('maybe', iv))
        return self.alloc(st, node, 'num', mk('rd', b, mk('ix', self.val(st, i))), tag='rd') if i.op == 'slice' else \
            mk('rd', b, mk('ix', self.val(st, i)))

    # -------------------------------------------------------------------- calls
    def e_Call(self, st, f, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            mod, fn, qual, cls = self.stack[-1]
            sr = self.lookup(st, f, fn.args.args[0].arg)
            return [(st, mk('super', sr, mod.name, cls.name))]
        out = []
        kws = [k for k in e.keywords if k.arg is not None]
        dstar = [k for k in e.keywords if k.arg is None]
        for s0, fn in self.eval(st, f, e.func):
            for s, vs in self.evals(s0, f, list(e.args) + [k.value for k in kws] + [k.value for k in dstar]):
                n = len(vs) - len(kws) - len(dstar)
                args, kw = vs[:n], dict(zip([k.arg for k in kws], vs[n:n+len(kws)]))
                for d in vs[n+len(kws):]:
                    if d.op == 'ref' and s.heap[d.args[0]].kind == 'dict' and not s.heap[d.args[0]].open:
                        kw.update({str(k): v for k, v in s.heap[d.args[0]].fields.items()})
                    else:
                        kw['**'] = d
                out += self.call(s, fn, args, kw, e)
        return out

    def opaque(self, st, name, base, args, kwargs, node):
        self.event(st, 'call', name, (base, tuple(args), tuple(sorted(kwargs.items()))), node)
        if self.opaque_raises:
            self.sinks[-1].append(st.copy())
        site = (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)) + self.ctx + self.havoc_tag
        n = st.cnt.get(site, 0) + 1
        st.cnt[site] = n
        t = mk('call', name, '%s#%d' % (site, n), *([self.val(st, base)] if base is not None else []),
               *[self.val(st, a) for a in args], *[mk('kw', k, self.val(st, v)) for k, v in sorted(kwargs.items())])
        return self.alloc(st, node, 'unk', t, tag='call')

    def call(self, st, fn, args, kw, node):
        if fn.op == 'gfn':
            mod = self.repo.modules[fn.args[0]]
            q = fn.args[1]
            h = self.hooks.get(q)
            if h is not None:
                r = h(self, st, args, kw, node, None)
                if r is not None:
                    return r
            return self.call_node(st, mod, mod.funcs[q], args, kw, qual=q, node=node)
        if fn.op == 'gcls':
            return self.instantiate(st, fn, args, kw, node)
        if fn.op == 'fn':
            mod, n, cls = Flow._nodes[fn.args[0]]
            return self.call_node(st, mod, n, args, kw, closure=fn.args[1], qual=getattr(n, 'name', '<lambda>'), node=node, cls=cls,
                                  bound={a.args[0]: a.args[1] for a in fn.args[2:]})
        if fn.op == 'partial':
            return self.call(st, fn.args[0], list(fn.args[1].args) + list(args), dict({a.args[0]: a.args[1] for a in fn.args[2:]}, **kw), node)
        if fn.op == 'meth':
            mod = self.repo.modules[fn.args[0]]
            m = self.repo.method(mod, mod.classes[fn.args[1]], fn.args[2])
            return self.call_node(st, m[0], m[2], args, kw, cls=m[1], qual='%s.%s' % (m[1].name, fn.args[2]), node=node)
        if fn.op == 'bound':
            b, name = fn.args
            h = self.hooks.get('.' + name)
            if h is not None:
                r = h(self, st, args, kw, node, b)
                if r is not None:
                    return r
            c = st.heap[b.args[0]]
            m = self.repo.method(c.cls[0], c.cls[1], name)
            return self.call_node(st, m[0], m[2], args, kw, selfref=b, cls=m[1], qual='%s.%s' % (m[1].name, name), node=node)
        if fn.op == 'sbound':
            s = fn.args[0]
            sr, name = s.args[0], fn.args[1]
            mod = self.repo.modules[s.args[1]]
            for m, c in self.repo.mro(mod, mod.classes[s.args[2]])[1:]:
                for d in c.body:
                    if isinstance(d, ast.FunctionDef) and d.name == name:
                        return self.call_node(st, m, d, args, kw, selfref=sr, cls=c, qual='%s.%s' % (c.name, name), node=node)
            return [(st, NONE)]
        if fn.op == 'ext':
            return [(st2, v) for st2, v in self.external(st, fn.args[0], args, kw, node)]
        if fn.op == 'bm':
            return self.method_call(st, fn.args[0], fn.args[1], args, kw, node)
        if fn.op == 'attr' and fn.args[0].op == 'atix':
            b, i = fn.args[0].args
            c = self.val(st, b)
            return [(st, self.alloc(st, node, 'arr', mk('st', c, mk('ix', self.val(st, i)), mk(fn.args[1], *[self.val(st, a) for a in args])), tag='at'))]
        if fn.op == 'ref':
            c = st.heap[fn.args[0]]
            if c.content.op == 'attr':
                h = self.hooks.get('.' + str(c.content.args[1]))
                if h is not None:
                    r = h(self, st, args, kw, node, c.content.args[0])
                    if r is not None:
                        return r
            h = self.hooks.get('call:' + str(c.content.args[-1] if c.content.args else ''))
            if h is not None:
                r = h(self, st, args, kw, node, fn)
                if r is not None:
                    return r
            return [(st, self.opaque(st, show(c.content), None, args, kw, node))]
        return [(st, self.opaque(st, show(fn), None, args, kw, node))]

    def instantiate(self, st, fn, args, kw, node, owner=None):
        mod = self.repo.modules[fn.args[0]]
        cls = mod.classes[fn.args[1]]
        r = self.alloc(st, node, 'inst', mk('inst', fn.args[1]), owner, tag='inst', cls=(mod, cls))
        m = self.repo.method(mod, cls, '__init__')
        if m is None:
            return [(st, r)]
        return [(s, r) for s, _ in self.call_node(st, m[0], m[2], args, kw, selfref=r, cls=m[1], qual=cls.name + '.__init__', node=node)]

    def method_call(self, st, b, name, args, kw, node):
        h = self.hooks.get('.' + name)
        if h is not None:
            r = h(self, st, args, kw, node, b)
            if r is not None:
                return r
        if b.op == 'ref':
            cid, view = b.args[0], b.args[1:]
            c = st.heap[cid]
            if c.kind == 'dict' or c.kind == 'unk' and name in ('keys', 'items', 'values', 'get', 'update', 'setdefault'):
                if name in ('keys', 'items', 'values'):
                    return [(st, mk('m' + name, ref(cid)))]
                if name == 'copy':
                    return [(st, self.alloc(st, node, c.kind, c.content, fields=dict(c.fields), open=c.open, tag='copy'))]
                if name == 'get':
                    k = args[0]
                    if isk(k) and k.args[0] in c.fields:
                        return [(st, c.fields[k.args[0]])]
                    if isk(k) and c.kind == 'dict' and not c.open:
                        return [(st, args[1] if len(args) > 1 else NONE)]
                    return [(st, self.alloc(st, node, 'unk', mk('mget', c.content, self.val(st, k), self.val(st, args[1]) if len(args) > 1 else NONE), tag='get'))]
                if name == 'update':
                    self.event(st, 'write', (cid, view, 'update'), (c.owner, c.kind, True, NONE, args[0] if args else NONE), node)
                    if args:
                        self.dict_update(st, b, args[0], node)
                    if kw:
                        st.mut(cid).fields.update(kw)
                    return [(st, NONE)]
                if name == 'pop' and isk(args[0]):
                    self.event(st, 'write', (cid, view, 'pop'), (c.owner, c.kind, True, NONE, NONE), node)
                    c = st.mut(cid)
                    v = c.fields.pop(args[0].args[0], None)
                    if v is None:
                        v = args[1] if len(args) > 1 else mk('rd', c.content, mk('ix', args[0]))
                    return [(st, v)]
                if name == 'setdefault' and isk(args[0]):
                    k = args[0].args[0]
                    if k in c.fields:
                        return [(st, c.fields[k])]
                    self.event(st, 'write', (cid, view, 'setdefault'), (c.owner, c.kind, True, NONE, NONE), node)
                    c = st.mut(cid)
                    c.fields[k] = args[1] if len(args) > 1 else NONE
                    return [(st, c.fields[k])]
            if c.kind == 'list':
                it = self.items(st, b)
                if name == 'copy':
                    return [(st, self.alloc(st, node, 'list', c.content, fields=dict(c.fields), n=c.n, tag='copy'))]
                if name in ('append', 'insert', 'extend', 'pop', 'remove', 'clear', 'sort', 'reverse'):
                    self.event(st, 'write', (cid, view, name), (c.owner, c.kind, True, NONE, args[0] if args else NONE), node)
                    c = st.mut(cid)
                    new = None
                    if it is not None:
                        if name == 'append':
                            new = it + [args[0]]
                        elif name == 'insert' and isk(args[0]):
                            new = list(it); new.insert(args[0].args[0], args[1])
                        elif name == 'extend' and self.items(st, args[0]) is not None:
                            new = it + self.items(st, args[0])
                        elif name == 'clear':
                            new = []
                        elif name == 'reverse':
                            new = it[::-1]
                    res = NONE
                    if name == 'pop':
                        if it and (not args or isk(args[0])):
                            new = list(it)
                            res = new.pop(*( [args[0].args[0]] if args else []))
                        else:
                            res = mk('pop', c.content)
                    if new is not None:
                        c.fields, c.n = dict(enumerate(new)), len(new)
                    else:
                        old = self.val(st, b)
                        c = st.mut(cid)
                        c.fields, c.n = {}, None
                        c.content = mk('l' + name, old, *[self.val(st, a) for a in args])
                    return [(st, res)]
            if name in MUT_METHODS and c.kind in ('arr', 'unk', 'num', 'list', 'dict') and not (name in ('pop', 'sort', 'update') and c.kind == 'num'):
                certain = c.kind != 'unk' or name not in ('put',)
                self.event(st, 'write', (cid, view, name), (c.owner, c.kind, certain, NONE, args[0] if args else NONE), node)
                cc = st.mut(cid)
                cc.content = mk('m.' + name, self.val(st, b), *[self.val(st, a) for a in args])
                return [(st, NONE)]
            if name in VIEW_METHODS:
                return [(st, ref(cid, *view, mk('m.' + name, *[self.val(st, a) for a in args], *[mk('kw', k, self.val(st, v)) for k, v in sorted(kw.items())])))]
            if c.kind in ('arr', 'num', 'scal'):
                if name == 'copy':
                    return [(st, self.alloc(st, node, c.kind, self.val(st, b), tag='copy'))]
                return [(st, self.pure(st, 'm.' + name, [b] + list(args), kw, node))]
            if c.kind == 'unk' and name in ('copy', 'sum', 'dot', 'astype', 'max', 'min', 'mean', 'flatten', 'any', 'all', 'conj', 'upper', 'lower', 'item', 'format', 'tolist', 'cumsum', 'nonzero'):
                return [(st, self.pure(st, 'm.' + name, [b] + list(args), kw, node))]
            return [(st, self.opaque(st, '.' + name, b, args, kw, node))]
        if isk(b) and isinstance(b.args[0], str):
            if name in ('upper', 'lower', 'strip') and not args:
                return [(st, K(getattr(b.args[0], name)()))]
            return [(st, mk('str'))]
        if name in ('upper', 'lower', 'format', 'join', 'strip', 'split', 'startswith', 'endswith', 'replace'):
            return [(st, mk('m.' + name, b, *[self.val(st, a) for a in args]))]
        if name in ('keys', 'items', 'values'):
            return [(st, mk('m' + name, self.alloc(st, node, 'unk', b)))]
        if b.op in ('call', 'leaf', 'attr', 'item', 'elem'):
            return [(st, self.opaque(st, '.' + name, b, args, kw, node))]
        if name in MUT_METHODS:
            self.event(st, 'write-term', b, name, node)
            return [(st, NONE)]
        return [(st, self.pure(st, 'm.' + name, [b] + list(args), kw, node))]

    def pure(self, st, name, args, kw, node, kind='num'):
        t = mk(name, *[self.val(st, a) for a in args], *[mk('kw', k, self.val(st, v)) for k, v in sorted(kw.items())])
        if kind == 'scal':
            return t
        return self.alloc(st, node, kind, t, tag=name)

    ARR_MAKERS = {'zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'full', 'full_like', 'eye', 'identity', 'arange', 'linspace',
                  'array', 'copy', 'hstack', 'vstack', 'concatenate', 'kron', 'diag', 'outer', 'stack', 'tile', 'repeat', 'column_stack',
                  'genfromtxt', 'loadtxt', 'fromiter', 'meshgrid', 'cumsum', 'argsort', 'sort', 'unique', 'flatnonzero'}

    BINARY = {'add': 'Add', 'subtract': 'Sub', 'multiply': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'power': 'Pow', 'matmul': 'MatMult'}

    ELEMENTWISE = {'abs', 'absolute', 'sqrt', 'sign', 'maximum', 'minimum', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'arctan', 'arctan2', 'int64', 'int32',
                   'float64', 'int_', 'square', 'power', 'where', 'isnan', 'isfinite', 'isinf', 'logical_not', 'logical_and', 'logical_or', 'round',
                   'floor', 'ceil', 'mod', 'add', 'subtract', 'multiply', 'divide', 'conj', 'conjugate', 'clip', 'interp', 'hypot', 'greater', 'less'}

    def external(self, st, name, args, kw, node):
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, args, kw, node, None)
            if r is not None:
                return r
        short = name.rpartition('.')[2]
        top = name.split('.')[0]
        if top == 'builtins':
            r = self.builtin(st, short, args, kw, node)
            if r is not None:
                return r
        if top in ('numpy', 'jax'):
            sub = name.split('.', 1)[1]
            if top == 'jax':
                sub = sub[6:] if sub.startswith('numpy.') else sub
            if 'out' in kw and kw['out'].op == 'ref':
                c = st.heap[kw['out'].args[0]]
                self.write(st, kw['out'], 'aug', mk('all'), mk(name, *[self.val(st, a) for a in args]), node)
                return [(st, kw['out'])]
            if sub in MUT_FUNCS and args:
                self.write(st, args[MUT_FUNCS[sub]], 'aug', mk('all'), mk(name, *[self.val(st, a) for a in args]), node)
                return [(st, NONE)]
            if sub.endswith('.at') and args:       # np.add.at(x, ...)
                self.write(st, args[0], 'aug', mk('all'), mk(name, *[self.val(st, a) for a in args]), node)
                return [(st, NONE)]
            if sub == 'array' and kw.get('copy') is FALSE:
                return [(st, args[0])]
            if sub in ('asarray', 'asanyarray', 'atleast_1d', 'ascontiguousarray') and top == 'numpy' and args and args[0].op == 'ref' \
                    and st.heap[args[0].args[0]].kind in ('arr', 'num') and len(args) == 1 and not kw:
                if sub.startswith('atleast') and len(args[0].args) == 1:
                    st.mut(args[0].args[0]).kind = 'arr'
                return [(st, args[0])]
            if sub in VIEW_FUNCS and top == 'numpy' and args and args[0].op == 'ref' and st.heap[args[0].args[0]].kind in ('arr', 'unk', 'num'):
                a = args[0]
                return [(st, ref(a.args[0], *a.args[1:], mk('np.' + sub, *[self.val(st, x) for x in args[1:]],
                                                        *[mk('kw', k, self.val(st, v)) for k, v in sorted(kw.items())])))]
            if sub == 'copy' and args:
                return [(st, self.alloc(st, node, 'arr', self.val(st, args[0]), tag='copy'))]
            if sub.startswith('random'):
                return [(st, self.opaque(st, name, None, args, kw, node))]
            if sub in ('save', 'savez', 'savetxt', 'savez_compressed'):
                return [(st, self.opaque(st, name, None, args, kw, node))]
            if any(a.op in ('fn', 'gfn', 'bound', 'meth') for a in args):
                return [(st, self.pure(st, name, args, kw, node, 'unk'))]
            if sub in self.BINARY and len(args) == 2 and not kw:
                return [(st, self.binop(st, self.BINARY[sub], args[0], args[1], node))]
            if sub == 'negative' and len(args) == 1 and not kw:
                return [(st, self.num(st, mk('neg', self.val(st, args[0])), node, args[0]))]
            if sub in ('absolute', 'fabs'):
                sub = 'abs'
            if sub in ('concatenate', 'append', 'hstack') and not kw:
                parts = self.items(st, args[0]) if len(args) == 1 and sub != 'append' else list(args) if len(args) == 2 and sub == 'append' else None
                if parts:
                    flat, lists = [], sub != 'concatenate'
                    for x in parts:
                        y = self.items(st, x) if x.op == 'tup' or x.op == 'ref' and len(x.args) == 1 and st.heap[x.args[0]].kind == 'list' else None
                        if y is not None and len(y) == 1:
                            lists = True
                            flat += y
                        elif y is not None:
                            flat = None
                            break
                        else:
                            flat.append(x)
                    if flat and lists:
                        sub, args = 'hstack', [mk('tup', *[self.val(st, x) for x in flat])]
            kind = 'arr' if sub in self.ARR_MAKERS else 'num'
            if sub in ('abs', 'sqrt', 'sign', 'maximum', 'minimum', 'exp', 'log', 'sin', 'cos') and all(self.kind(st, a) == 'scal' for a in args):
                kind = 'scal'
            if kind == 'num' and sub in self.ELEMENTWISE and any(self.kind(st, a) == 'arr' for a in args):
                kind = 'arr'
            if sub in ('linalg.norm', 'sum', 'max', 'min', 'mean', 'prod', 'any', 'all') and len(args) == 1 and not kw:
                kind = 'scal'
            return [(st, self.pure(st, 'np.' + sub, args, kw, node, kind))]
        if name in ('functools.partial',):
            return [(st, mk('partial', args[0], mk('tup', *args[1:]), *[mk('kw', k, v) for k, v in sorted(kw.items())]))]
        if name in ('copy.copy', 'copy.deepcopy') and args and args[0].op == 'ref':
            c = st.heap[args[0].args[0]]
            r = self.alloc(st, node, c.kind, c.content, fields=dict(c.fields), open=c.open, n=c.n, cls=c.cls, tag='copy')
            if name.endswith('deepcopy'):
                cc = st.heap[r.args[0]]
                for k, v in list(cc.fields.items()):
                    if v.op == 'ref' and len(v.args) == 1:
                        d = st.heap[v.args[0]]
                        cc.fields[k] = self.alloc(st, node, d.kind, d.content, fields=dict(d.fields), open=d.open, n=d.n, cls=d.cls, tag='copy')
            return [(st, r)]
        if top in ('scipy', 'math', 'warnings', 'functools', 'itertools', 'operator'):
            if top == 'warnings':
                return [(st, NONE)]
            if any(a.op in ('fn', 'gfn', 'bound', 'meth', 'ref') and (a.op != 'ref' or st.heap[a.args[0]].kind == 'unk' and st.heap[a.args[0]].owner and 'fun' in str(st.heap[a.args[0]].owner)) for a in args):
                return [(st, self.opaque(st, name, None, args, kw, node))]
            if {'overwrite_a', 'overwrite_b'} & set(kw):
                for k, j in (('overwrite_a', 0), ('overwrite_b', 1)):
                    if kw.get(k) is TRUE and j < len(args):
                        self.write(st, args[j], 'aug', mk('all'), mk(name), node)
            return [(st, self.pure(st, name, args, kw, node, 'unk'))]
        return [(st, self.opaque(st, name, None, args, kw, node))]

    def builtin(self, st, n, args, kw, node):
        if n in EFFECTS_OK:
            return [(st, NONE)]
        if n == 'range':
            return [(st, mk('range', *[self.val(st, a) for a in args]))]
        if n == 'len':
            it = self.items(st, args[0])
            if it is not None:
                return [(st, K(len(it)))]
            return [(st, mk('len', self.shape_key(self.val(st, args[0]))))]
        if n in ('any', 'all') and len(args) == 1:
            it = self.items(st, args[0])
            if it is not None and len(it) <= 12:
                r, op = K(n == 'all'), 'or' if n == 'any' else 'and'
                for x in it:
                    d = self.decide(st, x)
                    x = K(d) if d is not None else self.val(st, x)
                    if isk(x) and bool(x.args[0]) is (n == 'any'):
                        return [(st, K(n == 'any'))]
                    if not isk(x):
                        r = x if isk(r) else mk(op, r, x)
                return [(st, r)]
        if n == 'enumerate':
            return [(st, mk('enum', args[0] if args[0].op != 'ref' else args[0]))]
        if n == 'zip':
            return [(st, mk('zip', *args))]
        if n in ('list', 'tuple', 'sorted', 'set', 'reversed'):
            it = self.items(st, args[0]) if args else []
            if it is not None:
                if n == 'sorted':
                    if all(isk(x) for x in it):
                        it = sorted(it, key=lambda x: x.args[0])
                    else:
                        it = None
                if n == 'reversed':
                    it = it[::-1]
            if it is not None:
                if n == 'tuple':
                    return [(st, mk('tup', *it))]
                return [(st, self.alloc(st, node, 'list', mk('list'), fields=dict(enumerate(it)), n=len(it), tag=n))]
            if n == 'tuple':
                return [(st, mk('tuple', self.val(st, args[0])))]
            return [(st, self.alloc(st, node, 'list', mk(n, self.val(st, args[0])), n=None, tag=n))]
        if n == 'dict':
            r = self.alloc(st, node, 'dict', mk('dict'), fields={k: v for k, v in kw.items() if k != '**'}, tag='dict')
            if args:
                self.dict_update(st, r, args[0], node)
            return [(st, r)]
        if n == 'getattr':
            nm = args[1].args[0] if isk(args[1]) else None
            b = args[0]
            if nm and b.op == 'ref':
                c = st.heap[b.args[0]]
                if c.kind == 'inst' and c.cls and not c.open and nm not in c.fields and not self.repo.method(c.cls[0], c.cls[1], nm) and len(args) > 2:
                    return [(st, args[2])]
                return [(st, self.getattr(st, b, nm, node))]
            return [(st, mk('attr', self.val(st, b), nm or '?'))]
        if n == 'setattr' and isk(args[1]):
            self.setattr(st, args[0], args[1].args[0], args[2], node)
            return [(st, NONE)]
        if n == 'hasattr' and isk(args[1]) and args[0].op == 'ref':
            c = st.heap[args[0].args[0]]
            if c.kind == 'inst' and c.cls and not c.open:
                return [(st, K(args[1].args[0] in c.fields or bool(self.repo.method(c.cls[0], c.cls[1], args[1].args[0]))))]
        if n == 'callable':
            if args[0].op in ('bound', 'fn', 'gfn', 'meth', 'gcls', 'ext'):
                return [(st, TRUE)]
            if args[0] is NONE:
                return [(st, FALSE)]
        if n == 'isinstance' and args[0].op == 'ref' and args[1].op == 'gcls':
            c = st.heap[args[0].args[0]]
            if c.kind == 'inst' and c.cls:
                return [(st, K(any(cc.name == args[1].args[1] for _, cc in self.repo.mro(*c.cls))))]
        if n in ('min', 'max', 'abs', 'sum', 'round', 'pow', 'int', 'float', 'bool', 'str', 'complex', 'any', 'all', 'isinstance', 'callable', 'hasattr',
                 'type', 'id', 'repr', 'divmod', 'slice', 'iter', 'next', 'map', 'filter', 'vars', 'locals', 'globals', 'NotImplementedError',
                 'ValueError', 'Exception', 'RuntimeError', 'TypeError', 'KeyError', 'DeprecationWarning', 'object', 'ord', 'chr', 'format'):
            if n == 'slice':
                a = [self.val(st, x) for x in args]
                a = [NONE, a[0], NONE] if len(a) == 1 else a + [NONE] * (3 - len(a))
                return [(st, mk('slice', *a))]
            if n in ('min', 'max', 'abs', 'int', 'float', 'bool', 'round') and args and all(isk(a) and isinstance(a.args[0], (int, float, bool)) for a in args):
                try:
                    return [(st, K({'min': min, 'max': max, 'abs': abs, 'int': int, 'float': float, 'bool': bool, 'round': round}[n](*[a.args[0] for a in args])))]
                except Exception:
                    pass
            nm = {'abs': 'np.abs'}.get(n, n)
            kind = 'scal' if n in SCALAR_FUNCS or n in ('min', 'max') or all(self.kind(st, a) == 'scal' for a in args) else 'num'
            return [(st, self.pure(st, nm, args, kw, node, kind))]
        if n == 'open':
            return [(st, self.opaque(st, 'open', None, args, kw, node))]
        return None

    # -------------------------------------------------------------- entry points
    def start(self):
        st = St()
        return st

    def param(self, st, name, kind='unk', owner=None, open=True, content=None, **kw):
        cid = ('param', name)
        st.heap[cid] = Cell(kind, content if content is not None else leaf(name), owner, open=open, **kw)
        return ref(cid)

    def run(self, st, mod, fnode, args, kwargs=None, selfref=None, cls=None, qual=None):
        return self.call_node(st, mod, fnode, args, kwargs or {}, selfref=selfref, cls=cls, qual=qual)

# ------------------------------------------------------- arithmetic normal form
def poly(t, depth=0):
    """polynomial over opaque terms: {monomial (sorted tuple of (term id, power)): coefficient}"""
    from fractions import Fraction
    def const(c):
        return {(): c} if c else {}
    def add(a, b, s=1):
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + s * c
            if r[m] == 0:
                del r[m]
        return r
    def mul(a, b):
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for k, p in n:
                    e[k] = e.get(k, 0) + p
                    if e[k] == 0:
                        del e[k]
                key = tuple(sorted(e.items()))
                r[key] = r.get(key, 0) + c * d
                if r[key] == 0:
                    del r[key]
        return r
    def go(t, d):
        if isk(t) and isinstance(t.args[0], (int, float)) and not isinstance(t.args[0], bool):
            try:
                return const(Fraction(repr(t.args[0])) if isinstance(t.args[0], float) else Fraction(t.args[0]))
            except Exception:
                return {((t.n, 1),): 1}
        if d < 60:
            if t.op == 'add':
                return add(go(t.args[0], d+1), go(t.args[1], d+1))
            if t.op == 'sub':
                return add(go(t.args[0], d+1), go(t.args[1], d+1), -1)
            if t.op == 'neg':
                return add({}, go(t.args[0], d+1), -1)
            if t.op == 'mult':
                return mul(go(t.args[0], d+1), go(t.args[1], d+1))
            if t.op == 'div':
                b = go(t.args[1], d+1)
                if len(b) == 1:
                    (m, c), = b.items()
                    inv = {tuple((k, -p) for k, p in m): 1 / c if not isinstance(c, int) else Fraction(1, c)}
                    return mul(go(t.args[0], d+1), inv)
            if t.op == 'pow' and isk(t.args[1]) and isinstance(t.args[1].args[0], int) and 0 <= t.args[1].args[0] <= 4:
                r = const(Fraction(1))
                b = go(t.args[0], d+1)
                for _ in range(t.args[1].args[0]):
                    r = mul(r, b)
                return r
            if t.op in ('np.copy', 'm.copy', 'np.array', 'np.asarray', 'float') and len(t.args) == 1:
                return go(t.args[0], d+1)
            if t.op in ('np.multiply', 'np.add', 'np.subtract', 'np.divide') and len(t.args) == 2:
                return go(mk({'multiply': 'mult', 'add': 'add', 'subtract': 'sub', 'divide': 'div'}[t.op[3:]], *t.args), d+1)
        return {((t.n, 1),): 1}
    return go(t, 0)

def same(a, b):
    return a is b or poly(a) == poly(b)

BYID = {}
def term_of(n):
    if len(BYID) != len(T.table):
        BYID.clear()
        for t in T.table.values():
            BYID[t.n] = t
    return BYID[n]
