"""Models of the numpy / jax.numpy functions the analysed code uses."""
import ast
from fractions import Fraction
from . import sym as S
from . import arr as A
from .sym import Expr, Undecided, lift, ZERO, ONE, ge, const
from .arr import Arr, Slice

def _noderiv(nm):
    def rule(ix, wrt):
        raise Undecided('derivative of the loop result ' + nm)
    return rule

def _unused_tail(loops, leafname, x, val, np):
    """the last entry of the argument is not read by the function"""
    if x.ndim != 1:
        return False
    try:
        arrs = [np.arr(val)]
        for e in loops:
            arrs += e[4]
            for st in e[5]:
                if isinstance(st[3], str):
                    return False
                arrs += st[3]
        return all(_tail_clear(a.f(ix), leafname, x.shape[0] - 1)
                   for a in arrs for ix, _ in A.generic_indices(a.shape, a.cuts, a.mods))
    except Undecided:
        return False

def _tail_clear(e, name, last):
    """every read of the leaf in the term is below the given index"""
    def atom(a):
        if a.kind == 'Elem':
            if a.args[0] == name and ge(last - 1, a.args[1][0]) is not True and not S.delta(last - a.args[1][0]).is_zero():
                return False
            return all(_tail_clear(x, name, last) for x in a.args[1])
        if a.kind in ('Fn', 'Ind'):
            return all(_tail_clear(x, name, last) for x in a.args[1] if isinstance(x, Expr))
        if a.kind in ('Par', 'Delta'):
            return _tail_clear(a.args[0], name, last)
        return True
    for m, c in e.terms.items():
        b, f = S._open(m)
        for a, p in f:
            if not atom(a) or isinstance(p, Expr) and not _tail_clear(p, name, last):
                return False
    return True

def tail_unread(f):
    """every read of the first parameter is p[:-1] or an attribute of p"""
    node = getattr(f, 'node', None)
    if node is None or not isinstance(node, ast.FunctionDef) or not node.args.args:
        return False
    p = node.args.args[0].arg
    good = set()
    for x in ast.walk(node):
        if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == p and isinstance(x.slice, ast.Slice):
            u = x.slice.upper
            if x.slice.lower is None and x.slice.step is None and isinstance(u, ast.UnaryOp) and isinstance(u.op, ast.USub) \
                    and isinstance(u.operand, ast.Constant) and u.operand.value == 1:
                good.add(id(x.value))
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == p and x.attr in ('shape', 'size', 'ndim'):
            good.add(id(x.value))
    return all(id(x) in good for x in ast.walk(node) if isinstance(x, ast.Name) and x.id == p)

def nokw(a, k):
    """positional extras and keywords other than dtype are not modelled"""
    if a or set(k) - {'dtype'}:
        raise Undecided('unmodelled keyword %s' % (tuple(k) + a,))

class NP:
    def __init__(self, it):
        self.it = it
        self.extra = {}
        self.lt_table = {}     # key of rhi -> number of non zero harmonics below it
        self.table = self.build()

    # ------------------------------------------------------------ helpers
    def builtin(self, nm):
        from .interp import Prim, Unknown, DType
        f = getattr(self, 'py_' + nm, None)
        if f is not None:
            return Prim(nm, f)
        if nm in ('float', 'int', 'bool', 'str', 'list', 'tuple', 'dict', 'type', 'object'):
            return DType(nm)
        if nm in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[nm]
        return Unknown('name ' + nm)

    def lookup(self, d):
        from .interp import Prim, DType
        if d in self.extra:
            return Prim(d, self.extra[d])
        for pre in ('jax.numpy.', 'numpy.', 'np.'):
            if d.startswith(pre):
                rest = d[len(pre):]
                if rest in ('pi',):
                    return S.sym('pi', positive=True)
                if rest in ('inf',):
                    return S.sym('inf', positive=True)
                if rest in ('nan',):
                    return S.sym('?nan')
                if rest in ('newaxis',):
                    return None
                if rest in ('double', 'float64', 'int64', 'complex128', 'bool_', 'int32'):
                    d = DType()
                    d.name = rest
                    return d
                if rest in self.table:
                    return Prim('numpy.' + rest, self.table[rest])
                return None
        if d == 'jax.lax.stop_gradient':
            return Prim(d, self.un(lambda x: S.fn('stop', x)))
        if d in ('jax.jit',):
            return Prim(d, lambda f, *a, **k: f)
        if d in ('jax.jacfwd', 'jax.jacrev', 'jax.jacobian', 'jax.grad'):
            return Prim(d, lambda f, argnums=ZERO, has_aux=False, **k: Prim('jacobian', lambda *a, **kw: self.jacobian(f, argnums, has_aux, a, kw)))
        if d in ('jax.lax.fori_loop',):
            return Prim(d, lambda lo, hi, f, init, **k: self.fori(lo, hi, f, init))
        if d in ('functools.partial',):
            return Prim(d, lambda f, *a, **k: self.partial(f, a, k))
        if d in ('warnings.warn',):
            return Prim(d, lambda *a, **k: None)
        if d in ('copy.deepcopy', 'copy.copy'):
            return Prim(d, lambda x: x)
        return None

    def partial(self, f, a, k):
        from .interp import Prim
        return Prim('partial', lambda *b, **c: self.it.call(f, list(a) + list(b), dict(k, **c)))

    # ------------------------------------------------------------ jax
    def fori(self, lo, hi, f, init):
        """opaque result of a compiled loop; identified by its start state and by
        what the body does to a generic state in a generic iteration"""
        from .interp import NArr, Unknown
        it = self.it
        lo, hi = it.scalar(lo), it.scalar(hi)
        single = not isinstance(init, tuple)
        st = (init,) if single else init
        pre = [self.arr(x) for x in st]
        it.loopno = getattr(it, 'loopno', 0) + 1
        leaves = [A.leaf('@st%d' % n, a.shape) for n, a in enumerate(pre)]
        steps, key = [], 'fori %s %s' % (lo.key, hi.key)
        first, rest = lo, S.sym('it', ZERO, hi - lo - 1) + lo + 1
        for label, i in (('first', first), ('rest', rest)):
            try:
                arg = it.wrap(leaves[0]) if single else tuple(it.wrap(a) for a in leaves)
                out = it.call(f, [i, arg], {})
                out = (out,) if single else out
                out = [self.arr(x) for x in out]
                steps.append((label, i, leaves, out))
            except Undecided as u:
                steps.append((label, i, leaves, str(u)))
        deps = []
        try:
            for _, _, _, out in steps:
                if isinstance(out, str):
                    raise Undecided(out)
                for a in out:
                    key += '|' + A.key_of(a)
            for a in pre:
                key += '|' + A.key_of(a)
            nm0 = it.intern(key)
            if 'Fn[stop;' in key or any(x + '.' in key for x in getattr(it, 'stopped', ())):
                it.stopped = getattr(it, 'stopped', set()) | {nm0}
        except Undecided as u:
            it.unkeyed = getattr(it, 'unkeyed', [])
            it.unkeyed.append(str(u))
            NP.serial = getattr(NP, 'serial', 0) + 1
            nm0 = 'Unkeyed#%d' % NP.serial
        res = []
        for n, a in enumerate(pre):
            nm = '%s.%d' % (nm0, n)
            S.register_deriv(nm, _noderiv(nm))
            res.append(A.leaf(nm, a.shape))
        it.events.append(('fori', nm0, lo, hi, pre, steps, res))
        r = tuple(it.wrap(a) for a in res)
        return r[0] if single else r

    def jacobian(self, f, argnums, has_aux, args, kw):
        from .interp import NArr, Unknown, has_unknown
        it = self.it
        if not isinstance(argnums, Expr) or argnums.const_value() is None:
            raise Undecided('argnums')
        pos = int(argnums.const_value())
        x = self.arr(args[pos])
        n0 = len(it.events)
        def attempt(a):
            try:
                return it.call(f, list(a), dict(kw))
            except Undecided as u:
                return Unknown(str(u))
        out2 = attempt(args)
        ev2 = it.events[n0:]
        val2, aux2 = (out2[0], out2[1]) if has_aux and isinstance(out2, tuple) else (out2, None)
        it.jno = getattr(it, 'jno', 0) + 1
        leafname = 'jx#%d' % it.jno
        xl = Arr(x.shape, lambda ix: S.elem(leafname, ix), x.cuts, x.mods)
        a1 = list(args)
        a1[pos] = it.wrap(xl) if x.ndim else S.elem(leafname, ())
        n1 = len(it.events)
        out1 = attempt(a1)
        ev1 = it.events[n1:]
        del it.events[n1:]
        val1 = out1[0] if has_aux and isinstance(out1, tuple) else out1
        l1 = [e for e in ev1 if e[0] == 'fori']
        l2 = [e for e in ev2 if e[0] == 'fori']
        it.events.append(('jacobian', f, args, x, ev1, leafname))
        ok = not has_unknown(val1) and not has_unknown(val2) and len(l1) == len(l2)
        if ok:
            unused = _unused_tail(l1, leafname, x, val1, self)
            for e1, e2 in zip(l1, l2):
                cut = e1[1] in getattr(it, 'stopped', ())       # stop_gradient on the way: not the derivative of the value
                for a, b in zip(e1[6], e2[6]):
                    self.link(a.tag[1], b.tag[1], leafname, x, unused, 'stopped ' if cut else '')
            F1, F2 = self.arr(val1), self.arr(val2)
            J = Arr(F1.shape + x.shape, lambda ix: S.replace_elem(S.diff(F1.f(ix[:F1.ndim]), (leafname, ix[F1.ndim:])), leafname, x.f),
                    list(F1.cuts) + list(x.cuts), list(F1.mods) + list(x.mods))
            return (NArr(J), aux2) if has_aux else NArr(J)
        if x.ndim != 1 or not self.opaque_shape:
            raise Undecided('jacobian of %s' % (val1 if has_unknown(val1) else val2,))
        # opaque function
        shape = self.opaque_shape(f, args)
        key = 'opaque %s %s %s' % (getattr(f, 'qual', None) or getattr(f, 'name', ''), A.key_of(x), len(args))
        nm = it.intern(key)
        unused = tail_unread(f)
        def rule(ix, wrt):
            def term(q):
                d = S.diff(x.f(q if isinstance(q, tuple) else (q,)), wrt)
                return d if d.is_zero() else self.dleaf(nm, ix, (q,), x, unused) * d
            return A.sum_over(term, x.shape[0], x.cuts[0], x.mods[0])
        S.register_deriv(nm, rule)
        J = Arr(shape + x.shape, lambda ix: self.dleaf(nm, ix[:-1], ix[-1:], x, unused), [(), x.cuts[0]])
        it.events.append(('opaque', nm, x))
        return (NArr(J), NArr(A.leaf(nm, shape))) if has_aux else NArr(J)

    opaque_shape = None

    def dleaf(self, nm, ix, j, x, unused):
        if unused and ge(j[0], x.shape[0] - 1) is True:
            return ZERO
        return S.elem('D' + nm, tuple(ix) + tuple(j))

    def link(self, n1, n2, leafname, x, unused, mark=''):
        def rule1(ix, wrt):
            if wrt[0] != leafname:
                return ZERO
            return self.dleaf(mark + n2, ix, wrt[1], x, unused)
        def rule2(ix, wrt):
            def term(q):
                d = S.diff(x.f((q,)), wrt)
                return d if d.is_zero() else self.dleaf(n2, ix, (q,), x, unused) * d
            return A.sum_over(term, x.shape[0], x.cuts[0], x.mods[0])
        S.register_deriv(n1, rule1)
        if n1 != n2:
            S.register_deriv(n2, rule2)

    def arr(self, x):
        return self.it.arr(x)

    def shape_of(self, s):
        from .interp import PyList
        if isinstance(s, (tuple,)):
            return tuple(self.it.scalar(x) for x in s)
        if isinstance(s, PyList):
            return tuple(self.it.scalar(x) for x in s.items)
        return (self.it.scalar(s),)

    def un(self, f):
        from .interp import Masked
        def g(x, *a, **k):
            nokw(a, k)
            if isinstance(x, Masked):
                return Masked(A.ew(f, x.arr), x.mask)
            return self.it.wrap(A.ew(f, self.arr(x)))
        return g

    def bin(self, f):
        from .interp import Masked
        def g(x, y, *a, **k):
            nokw(a, k)
            if isinstance(x, Masked) or isinstance(y, Masked):
                mk = x.mask if isinstance(x, Masked) else y.mask
                xa = x.arr if isinstance(x, Masked) else self.arr(x)
                ya = y.arr if isinstance(y, Masked) else self.arr(y)
                return Masked(A.ew(f, xa, ya), mk)
            return self.it.wrap(A.ew(f, self.arr(x), self.arr(y)))
        return g

    def mask(self, a):
        from .interp import NArr
        if a.ndim == 0:
            from .interp import Cond
            e = a.f(())
            v = e.const_value()
            return bool(v) if v is not None else Cond(e)
        r = NArr(a)
        r.name = 'mask'
        return r

    # ------------------------------------------------------------ numpy table
    def build(self):
        from .interp import Obj
        it = self.it
        fn = S.fn
        t = {}
        W = lambda a: it.wrap(a)
        def fresh(a):
            from .interp import NArr
            return NArr(a)
        def boolish(n, a, k):
            d = k.get('dtype', a[0] if a else None)
            if str(getattr(d, 'name', d)).rpartition('.')[2] in ('bool', 'bool_'):
                n.name = 'mask'
            return n
        t['zeros'] = lambda s, *a, **k: boolish(fresh(A.full(self.shape_of(s), ZERO)), a, k)
        t['empty'] = lambda s, *a, **k: fresh(Arr(self.shape_of(s), lambda ix: S.sym('?uninit')))
        t['ones'] = lambda s, *a, **k: fresh(A.full(self.shape_of(s), ONE))
        def full(s, v, *a, **k):
            if isinstance(v, bool):
                r = fresh(A.full(self.shape_of(s), lift(v)))
                r.name = 'mask'
                return r
            return fresh(A.full(self.shape_of(s), it.scalar(v)))
        t['full'] = full
        t['zeros_like'] = lambda x, *a, **k: W(A.full(self.arr(x).shape, ZERO)) if self.arr(x).ndim == 0 else fresh(A.full(self.arr(x).shape, ZERO))
        t['ones_like'] = lambda x, *a, **k: W(A.full(self.arr(x).shape, ONE)) if self.arr(x).ndim == 0 else fresh(A.full(self.arr(x).shape, ONE))
        t['full_like'] = lambda x, v, *a, **k: fresh(A.full(self.arr(x).shape, it.scalar(v)))
        t['empty_like'] = t['zeros_like']
        t['eye'] = lambda n, m=None, **k: fresh(A.eye(it.scalar(n), None if m is None else it.scalar(m)))
        t['identity'] = lambda n, **k: fresh(A.eye(it.scalar(n)))
        t['copy'] = self.copy
        t['array'] = self.copy
        t['asarray'] = lambda x, *a, **k: x if not isinstance(x, tuple) and not hasattr(x, 'items') else self.copy(x)
        t['asarray'] = self.asarray
        t['ascontiguousarray'] = self.asarray
        def joined(xs, a):
            from .interp import _isbool, NArr
            r = fresh(a)
            if all(isinstance(x, NArr) and _isbool(x) for x in xs):
                r.name = 'mask'
            return r
        t['hstack'] = lambda xs, **k: joined(self.seq(xs), A.hstack([self.arr(x) for x in self.seq(xs)]))
        t['vstack'] = lambda xs, **k: joined(self.seq(xs), A.vstack([self.arr(x) for x in self.seq(xs)]))
        t['concatenate'] = lambda xs, axis=ZERO, **k: joined(self.seq(xs), A.concat([self.arr(x) for x in self.seq(xs)], int(it.scalar(axis).const_value())))
        def flip(x, axis=None):
            a = self.arr(x)
            ax = range(a.ndim) if axis is None else [int(it.scalar(axis).const_value()) % a.ndim]
            sl = [Slice(None, None, lift(-1)) if k in ax else Slice(None, None, None) for k in range(a.ndim)]
            r = it.getitem(x if hasattr(x, 'get') else fresh(a), tuple(sl))
            return r
        t['flip'] = flip
        t['flipud'] = lambda x: flip(x, ZERO)
        t['fliplr'] = lambda x: flip(x, ONE)
        t['column_stack'] = lambda xs, **k: fresh(A.concat([self.col(self.arr(x)) for x in self.seq(xs)], 1))
        t['append'] = lambda x, y, *a, **k: fresh(A.concat([A.atleast_1d(self.arr(x)), A.atleast_1d(self.arr(y))], 0))
        t['block'] = self.block
        t['stack'] = lambda xs, axis=ZERO, **k: fresh(self.stack([self.arr(x) for x in self.seq(xs)], int(it.scalar(axis).const_value())))
        t['kron'] = lambda a, b: fresh(A.kron(self.arr(a), self.arr(b)))
        t['dot'] = self.dot
        t['matmul'] = lambda a, b: W(A.matmul(self.arr(a), self.arr(b)))
        t['inner'] = self.dot
        t['vdot'] = self.dot
        t['outer'] = lambda a, b: fresh(A.outer(self.arr(a), self.arr(b)))
        t['einsum'] = self.einsum
        t['diag'] = lambda a: fresh(A.diag(self.arr(a)))
        t['transpose'] = lambda a, axes=None: W(A.transpose(self.arr(a)))
        t['reshape'] = lambda a, s, order='C', **k: fresh(A.reshape(self.arr(a), self.shape_of(s), order == 'F'))
        t['ravel'] = lambda a, order='C': fresh(A.ravel(self.arr(a), order == 'F'))
        t['atleast_1d'] = lambda a: fresh(A.atleast_1d(self.arr(a)))
        t['atleast_2d'] = lambda a: fresh(A.atleast_2d(self.arr(a)))
        def atleast_3d(x):
            a = self.arr(x)
            pat = {0: [None, None, None], 1: [None, Slice(), None], 2: [Slice(), Slice(), None]}.get(a.ndim)
            return fresh(a if pat is None else A.index(a, pat))
        t['atleast_3d'] = atleast_3d
        t['expand_dims'] = lambda a, axis: fresh(A.index(self.arr(a), [None if d == int(it.scalar(axis).const_value()) else Slice() for d in range(self.arr(a).ndim + 1)]))
        t['squeeze'] = lambda a, *x, **k: W(A.reshape(self.arr(a), [s for s in self.arr(a).shape if s != ONE]))
        t['tile'] = self.tile
        t['repeat'] = self.repeat
        t['sum'] = self.sum
        t['mean'] = self.mean
        t['prod'] = self.prod
        def cumsum(x, axis=None, **k):
            a = self.arr(x)
            n = a.shape[0].const_value() if a.ndim == 1 else None
            if n is None or k:
                raise Undecided('cumsum')
            out, s = [], ZERO
            for i in range(int(n)):
                s = s + a.f((S.const(i),))
                out.append(A.full((ONE,), s))
            return fresh(A.hstack(out))
        t['cumsum'] = cumsum
        t['sqrt'] = self.un(S.sqrt)
        t['abs'] = self.un(lambda x: fn('abs', x))
        t['absolute'] = t['abs']
        t['fabs'] = t['abs']
        t['square'] = self.un(lambda x: x * x)
        t['power'] = self.bin(lambda x, y: S.power(x, y))
        t['sin'] = self.un(lambda x: fn('sin', x))
        t['cos'] = self.un(lambda x: fn('cos', x))
        t['tan'] = self.un(lambda x: fn('sin', x) / fn('cos', x))
        t['exp'] = self.un(lambda x: fn('exp', x))
        t['log'] = self.un(lambda x: fn('log', x))
        for nm in ('floor', 'ceil', 'rint', 'trunc'):
            t[nm] = self.un(lambda x, nm=nm: fn(nm, x))
        t['round'] = lambda x, *a: t['rint'](x, *a)
        t['fix'] = t['trunc']
        t['floor_divide'] = self.bin(lambda x, y: fn('floor', x / y))
        t['log10'] = self.un(lambda x: fn('log', x) / fn('log', const(10)))
        t['tanh'] = self.un(lambda x: fn('tanh', x))
        t['sign'] = self.un(lambda x: fn('sign', x))
        t['real'] = self.un(lambda x: fn('real', x))
        t['imag'] = self.un(lambda x: fn('imag', x))
        t['conj'] = self.un(lambda x: fn('conj', x))
        t['arctan2'] = self.bin(lambda x, y: fn('atan2', x, y))
        t['negative'] = self.un(lambda x: -x)
        t['reciprocal'] = self.un(lambda x: 1 / x)
        t['add'] = self.bin(lambda x, y: x + y)
        t['subtract'] = self.bin(lambda x, y: x - y)
        t['multiply'] = self.bin(lambda x, y: x * y)
        t['divide'] = self.bin(lambda x, y: x / y)
        t['true_divide'] = t['divide']
        t['mod'] = self.bin(lambda x, y: fn('mod', x, y))
        t['remainder'] = t['mod']
        t['fmod'] = self.bin(lambda x, y: fn('fmod', x, y))
        t['hypot'] = self.bin(lambda x, y: S.power(x * x + y * y, const(1) / 2))
        t['angle'] = self.un(lambda x: fn('atan2', fn('imag', x), fn('real', x)))
        t['maximum'] = self.bin(lambda x, y: fn('max', x, y))
        t['minimum'] = self.bin(lambda x, y: fn('min', x, y))
        t['clip'] = lambda x, lo, hi, **k: W(A.ew(lambda a, b, c: fn('min', fn('max', a, b), c), self.arr(x), self.arr(lo), self.arr(hi)))
        t['where'] = self.where
        t['allclose'] = self.allclose
        t['logical_not'] = self.lognot
        t['logical_and'] = lambda a, b: self.mask(A.ew(lambda x, y: x * y, self.arr(a), self.arr(b)))
        t['logical_or'] = lambda a, b: self.mask(A.ew(lambda x, y: x + y - x * y, self.arr(a), self.arr(b)))
        for nm, op in (('less', ast.Lt), ('greater', ast.Gt), ('less_equal', ast.LtE), ('greater_equal', ast.GtE), ('equal', ast.Eq), ('not_equal', ast.NotEq)):
            t[nm] = (lambda o: lambda a, b: self.it.compare(o(), a, b))(op)
        t['max'] = self.maxf
        t['amax'] = self.maxf
        t['min'] = self.minf
        t['diff'] = self.diff
        t['arange'] = self.arange
        t['linspace'] = self.linspace
        t['finfo'] = lambda *a: Obj(None, None, dict(eps=const(1) / 2 ** 52), name='finfo')
        t['isfinite'] = lambda x: self.mask(A.ew(lambda v: ZERO if '?nan' in v.syms else ONE, self.arr(x)))     # exact arithmetic, no division by zero
        def unique(x, **k):
            a = self.arr(x) if not getattr(x, 'harm', None) else None
            if a is not None and a.ndim == 1 and a.shape[0].const_value() is not None and not k:
                vs = [a.f((const(i),)).const_value() for i in range(int(a.shape[0].const_value()))]
                if all(v is not None for v in vs):
                    return fresh(A.from_list([const(v) for v in sorted(set(vs))]))
            return x
        t['unique'] = unique
        t['count_nonzero'] = self.sum
        t['any'] = self.anyf
        t['all'] = self.allf
        t['isnan'] = lambda x: self.mask(A.ew(lambda v: ONE if '?nan' in v.syms else ZERO, self.arr(x)))
        t['linalg.norm'] = self.norm
        t['linalg.inv'] = self.inv
        t['linalg.matrix_power'] = self.matrix_power
        t['linalg.solve'] = lambda a, b: W(A.matmul(self.arr(self.inv(a)), self.arr(b)))
        t['fft.fft'] = self.fft('fft')
        t['fft.ifft'] = self.fft('ifft')
        t['shape'] = lambda a: tuple(self.arr(a).shape)
        t['size'] = lambda a: A.size(self.arr(a))
        t['ndim'] = lambda a: const(self.arr(a).ndim)
        t['copyto'] = self.unsupported('copyto')
        t['trace'] = self.unsupported('trace')
        t['float64'] = lambda x: x
        return t

    def unsupported(self, nm):
        def f(*a, **k):
            raise Undecided('numpy.' + nm + ' not modelled')
        return f

    def col(self, a):
        return A.reshape(a, (a.shape[0], ONE)) if a.ndim == 1 else a

    def seq(self, xs):
        from .interp import PyList, NArr
        if isinstance(xs, tuple):
            return list(xs)
        if isinstance(xs, PyList):
            return xs.items
        if isinstance(xs, NArr):
            r = self.it.iterate(xs)
            if isinstance(r, list):
                return r
        raise Undecided('sequence expected')

    def copy(self, x, *a, **k):
        from .interp import NArr
        if isinstance(x, NArr):
            r = NArr(x.get())
            r.name = x.name
            if hasattr(x, 'harm'):
                r.harm = x.harm
            return r
        a_ = self.arr(x)
        return NArr(a_) if a_.ndim else a_.f(())

    def asarray(self, x, *a, **k):
        from .interp import NArr
        return x if isinstance(x, NArr) else self.copy(x)

    def block(self, rows):
        from .interp import NArr, PyList
        rows = self.seq(rows)
        out = []
        for r in rows:
            if isinstance(r, (PyList, tuple)):
                parts = [A.atleast_2d(self.arr(x)) for x in self.seq(r)]
                out.append(A.concat(parts, 1))
            else:
                out.append(A.atleast_2d(self.arr(r)))
        if not any(isinstance(r, (PyList, tuple)) for r in rows):
            return NArr(A.hstack([self.arr(r) for r in rows]))
        return NArr(A.concat(out, 0))

    def stack(self, xs, axis):
        n = xs[0].ndim + 1
        if axis < 0:
            axis += n
        ys = [A.index(x, [None if d == axis else Slice() for d in range(n)]) for x in xs]
        return A.concat(ys, axis)

    def dot(self, a, b):
        x, y = self.arr(a), self.arr(b)
        if x.ndim == 0 or y.ndim == 0:
            return self.it.wrap(A.ew(lambda p, q: p * q, x, y))
        return self.it.wrap(A.matmul(x, y))

    def einsum(self, spec, *ops, **k):
        spec = spec.replace(' ', '')
        ins, _, out = spec.partition('->')
        ins = ins.split(',')
        arrs = [self.arr(o) for o in ops]
        if '.' in spec or len(ins) != len(arrs) or any(len(x) != y.ndim for x, y in zip(ins, arrs)):
            raise Undecided('einsum form')
        if '->' not in spec:
            al = ''.join(ins)
            out = ''.join(sorted(x for x in set(al) if al.count(x) == 1))
        size, cuts = {}, {}
        for s, a in zip(ins, arrs):
            for d, ch in enumerate(s):
                size[ch] = a.shape[d]
                cuts.setdefault(ch, []).extend(a.cuts[d])
        inner = [c for c in size if c not in out]
        def f(ix):
            env = dict(zip(out, ix))
            def rec(rem):
                if not rem:
                    p = ONE
                    for s, a in zip(ins, arrs):
                        p = p * a.f(tuple(env[c] for c in s))
                    return p
                c = rem[0]
                def g(k):
                    env[c] = k
                    return rec(rem[1:])
                return A.sum_over(g, size[c], A.uniq(cuts[c]))
            return rec(inner)
        return self.it.wrap(Arr([size[c] for c in out], f, [A.uniq(cuts[c]) for c in out]))

    def tile(self, a, reps):
        a = self.arr(a)
        r = self.shape_of(reps)
        if a.ndim == 1 and len(r) == 1:
            return self.it.wrap(A.kron(A.full((r[0],), ONE), a))
        raise Undecided('tile')

    def repeat(self, a, n, axis=None):
        a = self.arr(a)
        if a.ndim == 1:
            return self.it.wrap(A.kron(a, A.full((self.it.scalar(n),), ONE)))
        if axis is not None and not isinstance(axis, bool):
            d = self.it.scalar(axis).const_value()
            if d is not None:
                d = int(d) % a.ndim
                if a.shape[d] == ONE:
                    sh = list(a.shape)
                    sh[d] = self.it.scalar(n)
                    cuts = [() if q == d else x for q, x in enumerate(a.cuts)]
                    mods = [() if q == d else x for q, x in enumerate(a.mods)]
                    return self.it.wrap(Arr(tuple(sh), lambda ix: a.f(ix[:d] + (ZERO,) + ix[d+1:]), cuts, mods))
        raise Undecided('repeat')

    def sum(self, x, axis=None, keepdims=False, dtype=None, **k):
        from .interp import BoolVec
        if k:
            raise Undecided('sum with keyword ' + ', '.join(k))
        if isinstance(x, BoolVec):
            return self.hcount(x)
        keep = self.it.truth(keepdims)
        if not isinstance(keep, bool):
            raise Undecided('keepdims')
        a = self.arr(x)
        if not keep and axis is None and a.ndim == 1 and self.it.select:
            sel = self.it.select.get(A.key_of(a))
            if sel:
                return sel[1]
        ax = None if axis is None else int(self.it.scalar(axis).const_value())
        if a.ndim == 0:
            return a.f(())
        r = A.sumaxis(a, ax)
        if keep:
            if ax is None:
                r = Arr((1,) * a.ndim, lambda ix, v=r if isinstance(r, Expr) else r.f(()): v)
            else:
                p, b = ax % a.ndim, r
                if isinstance(b, Expr):
                    return self.it.wrap(Arr((ONE,), lambda ix: b))
                f = b.f
                r = Arr(b.shape[:p] + (ONE,) + b.shape[p:], lambda ix: f(ix[:p] + ix[p + 1:]))
        return r if isinstance(r, Expr) else self.it.wrap(r)

    def prod(self, x, axis=None, **k):
        nokw((), k)
        a = self.arr(x)
        ax = None if axis is None else int(self.it.scalar(axis).const_value())
        n = A.size(a) if ax is None else a.shape[ax]
        v = n.const_value()
        if v is not None and v <= 4 and ax is not None:
            r = None
            for q in range(int(v)):
                s = A.index(a, [S.const(q) if d == ax % a.ndim else Slice() for d in range(a.ndim)])
                r = s if r is None else A.ew(lambda p, z: p * z, r, s)
            return self.it.wrap(r)
        # product over a symbolic range: exponential of the sum of the logarithms
        r = A.sumaxis(A.ew(lambda p: S.logpow(p), a), ax)
        if isinstance(r, Expr):
            return S.fn('exp', r)
        return self.it.wrap(A.ew(lambda p: S.fn('exp', p), r))

    def mean(self, x, axis=None, keepdims=False, **k):
        nokw((), k)
        a = self.arr(x)
        ax = None if axis is None else int(self.it.scalar(axis).const_value())
        r = self.sum(x, axis, keepdims)
        n = A.size(a) if ax is None else a.shape[ax]
        if isinstance(r, Expr):
            return r / n
        r = self.arr(r)
        return self.it.wrap(A.ew(lambda p: p / n, r))

    def allclose(self, a, b, *args, **kw):
        """closeness of two arrays: certain for the same array, otherwise a property of the data"""
        from .interp import Cond
        x, y = self.arr(a), self.arr(b)
        try:
            if A.key_of(x) == A.key_of(y) and x.shape == y.shape:
                return True
        except Undecided:
            pass
        self._close = getattr(self, '_close', 0) + 1
        return Cond(S.sym('allclose%d' % self._close, ZERO, const(2)))

    def where(self, c, a=None, b=None):
        from .interp import BoolVec
        if a is None:
            raise Undecided('where(cond)')
        return self.it.wrap(A.ew(lambda k, x, y: k * x + (ONE - k) * y, self.arr(c), self.arr(a), self.arr(b)))

    def concrete(self, x, limit=64):
        """entries of an array of known size, or None"""
        a = self.arr(x)
        ns = [q.const_value() for q in a.shape]
        if any(n is None for n in ns):
            return None
        import itertools, math
        if math.prod([int(n) for n in ns]) > limit:
            return None
        return [a.f(tuple(const(k) for k in ix)) for ix in itertools.product(*[range(int(n)) for n in ns])]

    def allf(self, x, *a, **k):
        if a or k:
            raise Undecided('all')
        vs = self.concrete(x)
        if vs is None:
            raise Undecided('all')
        if any(v.is_zero() for v in vs):
            return False
        if all(v.const_value() is not None for v in vs):
            return True
        raise Undecided('all')

    def linspace(self, lo, hi, n=None, *a, **k):
        nokw(a, k)
        n = self.it.scalar(const(50) if n is None else n)
        lo, hi = self.it.scalar(lo), self.it.scalar(hi)
        return self.it.wrap(Arr((n,), lambda ix: lo + (hi - lo) * ix[0] / (n - 1)))

    def lognot(self, a):
        if isinstance(a, bool):
            return not a
        return self.mask(A.ew(lambda x: ONE - x, self.arr(a)))

    def maxf(self, x, *a, **k):
        if getattr(x, 'harm', None):
            m = S.sym('hmax', x.harm['n'], None)
            S.ELEM_MAX['hz'] = m
            return m
        if a and not (isinstance(a[0], Expr) and a[0].is_zero()) or set(k) - {'axis'} or k.get('axis') is not None and not lift(k['axis']).is_zero():
            raise Undecided('max')
        v = self.arr(x)
        if v.ndim != 1:
            raise Undecided('max')
        n = v.shape[0].const_value()
        if n is not None and 1 <= n <= 16:
            r = v.f((ZERO,))
            for q in range(1, int(n)):
                r = S.fn('max', r, v.f((const(q),)))
            return r
        # opaque greatest entry, attained at some entry of the vector
        nm = self.it.intern('max ' + A.key_of(v))
        def rule(ix, wrt):
            return A.sum_over(lambda q: S.elem('At' + nm, (q,)) * S.diff(v.f((q,)), wrt), v.shape[0], v.cuts[0], v.mods[0])
        S.register_deriv(nm, rule)
        return S.elem(nm, ())

    def anyf(self, x, *a, **k):
        from .interp import BoolVec
        if isinstance(x, BoolVec):
            n = self.hcount(x)
            if ge(n, ONE) is True:
                return True
            if n.is_zero():
                return False
        vs = None if a or k else self.concrete(x)
        if vs is not None:
            if any(v.const_value() not in (None, 0) for v in vs):
                return True
            if all(v.is_zero() for v in vs):
                return False
        raise Undecided('any')

    def minf(self, x, *a, **k):
        if a or k:
            raise Undecided('min')
        v = self.arr(x)
        n = v.shape[0].const_value() if v.ndim == 1 else None
        if n is None or not 1 <= n <= 16:
            raise Undecided('min')
        r = v.f((ZERO,))
        for q in range(1, int(n)):
            r = S.fn('min', r, v.f((const(q),)))
        return r

    def diff(self, x, n=ONE, axis=None, **k):
        a = self.arr(x)
        if k or lift(n).const_value() != 1:
            raise Undecided('diff')
        ax = a.ndim - 1 if axis is None else int(self.it.scalar(axis).const_value()) % a.ndim
        cut = lambda lo, hi: tuple(Slice(lo, hi) if d == ax else Slice(None, None) for d in range(a.ndim))
        nar = self.it.wrap(a)
        return self.it.np.bin(lambda p, q: p - q)(self.it.getitem(nar, cut(ONE, None)), self.it.getitem(nar, cut(None, const(-1))))

    def arange(self, *args, **k):
        a = [self.it.scalar(x) for x in args]
        lo, hi, st = ZERO, None, ONE
        if len(a) == 1:
            hi = a[0]
        elif len(a) >= 2:
            lo, hi = a[0], a[1]
            if len(a) == 3:
                st = a[2]
        sv = st.const_value()
        if sv is None or sv <= 0:
            raise Undecided('arange step')
        n, r = A.divpoly(hi - lo + (int(sv) - 1), int(sv))
        if n is None:
            raise Undecided('arange length')
        return self.it.wrap(Arr((n,), lambda ix: lo + ix[0] * st))

    def norm(self, x, *a, **k):
        if a or k:
            raise Undecided('norm variant')
        x = self.arr(x)
        return S.sqrt(A.sumaxis(A.ew(lambda p: p * p, x)))

    def inv(self, x):
        a = self.arr(x)
        nm = 'inv<%s>' % A.key_of(a)
        return self.it.wrap(A.leaf(nm, a.shape))

    def matrix_power(self, a, n):
        x = self.arr(a)
        nn = self.it.scalar(n)
        v = nn.const_value()
        if v is not None and 0 < v <= 12:
            r = x
            for _ in range(int(v) - 1):
                r = A.matmul(r, x)
            return self.it.wrap(r)
        raise Undecided('matrix_power')

    def fft(self, kind):
        def f(x, axis=None, **k):
            a = self.arr(x)
            ax = -1 if axis is None else int(self.it.scalar(axis).const_value())
            if ax < 0:
                ax += a.ndim
            if ax != 0:
                raise Undecided('fft axis')
            from .interp import NArr
            try:
                nm = 'C:%s<%s>' % (kind, A.key_of(a))
            except Undecided:
                nm = 'C:%s<#%d>' % (kind, len(self.it.events))
            r = A.leaf(nm, a.shape)
            self.it.events.append((kind, a, nm))
            return NArr(r)
        return f

    # ------------------------------------------------------------ attributes
    def attr(self, o, a):
        from .interp import NArr, Prim, PyList, PyDict, Unknown, Masked, AtProxy, BoolVec, SeqSym, Cond, RangeSym
        it = self.it
        P = lambda f: Prim(a, f)
        if isinstance(o, AtProxy):
            if a in ('set', 'add', 'multiply'):
                def st(v, **k):
                    r = NArr(o.a.get())
                    if a == 'set':
                        it.setitem(r, o.items, v)
                    else:
                        op = ast.Add() if a == 'add' else ast.Mult()
                        it.setitem(r, o.items, it.binop(op, it.getitem(r, o.items), v))
                    return r
                return P(st)
        if isinstance(o, BoolVec):
            if a == 'sum':
                return P(lambda *x, **k: self.hcount(o))
            if a == 'any':
                return P(lambda *x, **k: self.anyf(o))
        if isinstance(o, bool):
            o = const(int(o))
        if isinstance(o, Cond):
            o = o.e
        if isinstance(o, NArr):
            if a == 'at':
                return AtProxy(o)
            if a == 'shape':
                return tuple(o.get().shape)
            if a == 'ndim':
                return const(o.get().ndim)
            if a == 'size':
                return A.size(o.get())
            if a == 'T':
                return it.wrap(A.transpose(o.get()))
            if a in ('real', 'imag'):
                return it.wrap(A.ew(lambda x: S.fn(a, x), o.get()))
            if a == 'dtype':
                return Unknown('dtype')
            if a in ('copy', 'astype'):
                return P(lambda *x, **k: self.copy(o))
            if a == 'reshape':
                def rs(*s, order='C', **k):
                    if len(s) == 1 and isinstance(s[0], (tuple, PyList)):
                        s = s[0] if isinstance(s[0], tuple) else tuple(s[0].items)
                    return NArr(A.reshape(o.get(), [it.scalar(x) for x in s], order == 'F'))
                return P(rs)
            if a in ('ravel', 'flatten'):
                return P(lambda order='C', **k: NArr(A.ravel(o.get(), order == 'F')))
            if a == 'squeeze':
                return P(lambda *x, **k: self.table['squeeze'](o))
            if a == 'transpose':
                return P(lambda *x: it.wrap(A.transpose(o.get())))
            if a == 'conj':
                return P(lambda: it.wrap(A.ew(lambda x: S.fn('conj', x), o.get())))
            if a == 'fill':
                def fill(v):
                    it.setitem(o, (Slice(),) * o.get().ndim, v)
                return P(fill)
            if a in ('sum', 'mean', 'dot', 'max', 'min', 'all', 'any', 'repeat'):
                return P(lambda *x, **k: self.table[a](o, *x, **k))
            if a in ('item', 'tolist'):
                return P(lambda *x: it.scalar(o))
            return Unknown('array attribute ' + a)
        if isinstance(o, Expr):
            if a == 'shape':
                return ()
            if a in ('real', 'imag'):
                return S.fn(a, o)
            if a == 'ndim':
                return ZERO
            if a in ('sum', 'item', 'copy', 'mean', 'astype', 'squeeze'):
                return P(lambda *x, **k: o)
            if a == 'reshape':
                return P(lambda *s, **k: NArr(A.reshape(A.scalar(o), [ONE if it.scalar(x).const_value() == -1 else it.scalar(x) for x in (s[0] if len(s) == 1 and isinstance(s[0], tuple) else s)])))
            if a == 'at':
                return Unknown('at on scalar')
            if a == 'T':
                return o
        if isinstance(o, PyList):
            if a == 'append':
                return P(lambda v: it.setcell(o, 'items', None, o.items + [v]))
            if a == 'extend':
                return P(lambda v: it.setcell(o, 'items', None, o.items + self.seq(v)))
            if a == 'insert':
                def ins(i, v):
                    l = list(o.items)
                    l.insert(int(it.scalar(i).const_value()), v)
                    it.setcell(o, 'items', None, l)
                return P(ins)
            if a == 'copy':
                return P(lambda: PyList(o.items))
        if isinstance(o, PyDict):
            if a == 'keys':
                return P(lambda: o)
            if a == 'get':
                return P(lambda k, d=None: o.items.get(it.dkey(k), d) if o.default is None else it.getitem(o, (k,)))
            if a == 'items':
                return P(lambda: tuple((k, v) for k, v in o.items.items()))
            if a == 'values':
                return P(lambda: tuple(o.items.values()))
            if a == 'copy':
                return P(lambda: PyDict(o.items, o.default))
            if a == 'update':
                def upd(d=None, **k):
                    n = dict(o.items)
                    if isinstance(d, PyDict):
                        n.update(d.items)
                    n.update(k)
                    it.setcell(o, 'items', None, n)
                return P(upd)
        if type(o).__name__ == 'Text' and a == 'format':
            return P(lambda *x, **k: it.format_text(o, x, k))
        if isinstance(o, str):
            if a in ('upper', 'lower', 'strip'):
                return P(lambda: getattr(o, a)())
            if a == 'format':
                return P(lambda *x, **k: it.format_text(o, x, k))
            if a in ('join',):
                def join(seq):
                    from .interp import Text, text_of
                    xs = it.iterate(seq)
                    if not isinstance(xs, list) or not all(isinstance(y, (str, Text)) for y in xs):
                        return Unknown('string')
                    ps = ()
                    for k, y in enumerate(xs):
                        if k and o:
                            ps += (o,)
                        ps += Text.parts_of(y)
                    return text_of(ps)
                return P(join)
            if a in ('rstrip', 'lstrip', 'endswith', 'startswith', 'replace', 'ljust', 'rjust', 'center'):
                def sm(*x):
                    x = tuple(int(y.const_value()) if isinstance(y, S.Expr) and y.const_value() is not None else y for y in x)
                    return getattr(o, a)(*x) if all(isinstance(y, (str, int)) for y in x) else Unknown('string')
                return P(sm)
        if isinstance(o, Masked):
            if a == 'shape':
                return Unknown('masked shape')
        return Unknown('attribute %s' % a)

    # ------------------------------------------------------------ harmonics
    def keep_harm(self, o, items, nn):
        h = getattr(o, 'harm', None)
        if h is not None and len(items) == 1 and isinstance(items[0], Slice):
            st, step, ln = A.norm_slice(items[0], o.get().shape[0])
            h0 = const(int(h['h0']))
            if step == 1:
                if st == ZERO:
                    nn.harm = dict(h0=h['h0'], n=ln - h0)
                elif ge(st, h0) is True:
                    nn.harm = dict(h0=False, n=ln)
        return nn

    def harm_compare(self, op, a, b):
        from .interp import BoolVec
        fl = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if getattr(b, 'harm', None) and not getattr(a, 'harm', None):
            a, b = b, a
            op = fl.get(type(op), type(op))()
        if not getattr(a, 'harm', None):
            return None
        try:
            v = self.it.scalar(b)
        except Undecided:
            return None
        return BoolVec(a, type(op), v)

    def hcount(self, bv):
        h = bv.h.harm
        h0 = const(int(h['h0']))
        n = h['n']
        v = bv.v
        if v.is_zero():
            return {ast.Eq: h0, ast.NotEq: n, ast.Gt: n, ast.GtE: n + h0, ast.Lt: ZERO, ast.LtE: h0}[bv.op]
        k = v.key
        if k in self.lt_table:
            r = self.lt_table[k]
            tot = n + h0
            return {ast.Lt: r + h0, ast.LtE: r + h0 + 1, ast.GtE: tot - r - h0, ast.Gt: tot - r - h0 - 1,
                    ast.Eq: ONE, ast.NotEq: tot - 1}[bv.op]
        raise Undecided('harmonic comparison')

    def hselect(self, o, bv):
        from .interp import NArr, Unknown
        if o is not bv.h and not getattr(o, 'harm', None):
            raise Undecided('harmonic mask on other array')
        h = bv.h.harm
        h0 = const(int(h['h0']))
        a = o.get()
        v = bv.v
        if v.is_zero() and bv.op in (ast.NotEq, ast.Gt):
            r = NArr(A.index(a, [Slice(h0, None)]))
            r.harm = dict(h0=False, n=h['n'])
            return r
        if v.is_zero() and bv.op in (ast.Lt, ast.LtE, ast.Eq):
            r = NArr(A.index(a, [Slice(None, ZERO if bv.op is ast.Lt else h0)]))
            r.harm = dict(h0=bool(h['h0']) and bv.op is not ast.Lt, n=ZERO)
            return r
        if v.key in self.lt_table:
            c = self.hcount(bv)
            if bv.op in (ast.Lt, ast.LtE):
                r = NArr(A.index(a, [Slice(None, c)]))
                r.harm = dict(h0=h['h0'], n=c - h0)
                return r
        raise Undecided('harmonic mask')

    # ------------------------------------------------------------ builtins
    def py_type(self, x):
        from .interp import TypeOf
        return TypeOf(x)

    def is_type(self, x, t):
        from .interp import DType, Prim
        if isinstance(t, (DType, Prim)) and t.name:
            return self.it.type_is(x, t.name)
        return None

    def py_isinstance(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        rs = [self.is_type(x, y) for y in ts]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        from .interp import NArr, ModRef, PyList, PyDict, Unknown
        if isinstance(t, ModRef) and t.name in ('numpy.ndarray', 'jax.numpy.ndarray'):
            if isinstance(x, NArr):
                return True
            if x is None or isinstance(x, (bool, Expr, tuple, PyList, PyDict, str)):
                return False
        return Unknown('isinstance')

    def py_len(self, x):
        from .interp import PyList, NArr, SeqSym, PyDict, RangeSym, SymList
        if isinstance(x, tuple):
            return const(len(x))
        if isinstance(x, (PyList, PyDict)):
            return const(len(x.items))
        if isinstance(x, SymList):
            r = const(0)
            for k, _ in x.parts:
                r = r + k
            return r
        if isinstance(x, NArr):
            return x.get().shape[0]
        if isinstance(x, (SeqSym, RangeSym)):
            return x.n
        raise Undecided('len')

    def py_range(self, *a):
        from .interp import RangeSym
        a = [self.it.scalar(x) for x in a]
        lo, hi = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3 and a[2].const_value() != 1:
            st = a[2].const_value()
            if st is None or st < 0:
                raise Undecided('range step')
            n, r = A.divpoly(hi - lo + int(st) - 1, int(st))
            if n is None:
                raise Undecided('range step')
            from .interp import SeqSym
            nv = n.const_value()
            if nv is not None and nv <= 16:
                return tuple(lo + k * int(st) for k in range(int(nv)))
            return SeqSym(n, lambda k: lo + k * int(st), 'range')
        n = hi - lo
        if ge(ZERO, n) is True:
            return ()
        return RangeSym(lo, n)

    def py_enumerate(self, s, start=ZERO):
        from .interp import SeqSym, RangeSym
        st = self.it.scalar(start)
        seq = self.it.iterate(s)
        if isinstance(seq, list):
            return tuple((st + k, v) for k, v in enumerate(seq))
        if isinstance(seq, RangeSym):
            lo = seq.lo
            return SeqSym(seq.n, lambda k: (st + k, lo + k), 'enumerate')
        if isinstance(seq, SeqSym):
            return SeqSym(seq.n, lambda k: (st + k, seq.elem(k)), 'enumerate')
        raise Undecided('enumerate')

    def py_zip(self, *ss):
        from .interp import SeqSym, RangeSym
        seqs = [self.it.iterate(s) for s in ss]
        if all(isinstance(s, list) for s in seqs):
            return tuple(zip(*seqs))
        el = []
        n = None
        for s in seqs:
            if isinstance(s, RangeSym):
                n, lo = s.n, s.lo
                el.append((lambda lo: lambda k: lo + k)(lo))
            elif isinstance(s, SeqSym):
                n = s.n
                el.append(s.elem)
            else:
                raise Undecided('zip')
        return SeqSym(n, lambda k: tuple(e(k) for e in el), 'zip')

    def py_reversed(self, s):
        seq = self.it.iterate(s)
        if isinstance(seq, list):
            return tuple(reversed(seq))
        from .interp import SeqSym, RangeSym
        if isinstance(seq, RangeSym):
            lo, n = seq.lo, seq.n
            return SeqSym(n, lambda k: lo + n - 1 - k, 'rev')
        return SeqSym(seq.n, lambda k: seq.elem(seq.n - 1 - k), 'rev')

    def py_sum(self, s, start=ZERO):
        from .interp import SeqSym
        seq = self.it.iterate(s)
        acc = start
        if isinstance(seq, list):
            for v in seq:
                acc = self.it.binop(ast.Add(), acc, v)
            return acc
        if isinstance(seq, SeqSym):
            k = S.fresh('k', ZERO, seq.n)
            v = self.arr(seq.elem(k))
            kn = S.symname(k)
            return self.it.binop(ast.Add(), acc, self.it.wrap(Arr(v.shape, lambda ix: S.summation(v.f(ix), kn, seq.n), v.cuts)))
        return self.sum(s)

    def py_abs(self, x):
        return self.table['abs'](x)
    def py_max(self, *a):
        if len(a) == 2:
            return S.fn('max', self.it.scalar(a[0]), self.it.scalar(a[1]))
        return self.maxf(*a)
    def py_min(self, *a):
        if len(a) == 2:
            return S.fn('min', self.it.scalar(a[0]), self.it.scalar(a[1]))
        raise Undecided('min')
    def py_int(self, x):
        e = self.it.scalar(x)
        v = e.const_value()
        if v is not None:
            return const(int(v))
        if any(c.denominator != 1 or any(not isinstance(p, Expr) and p < 0 for a, p in f) for (b, f), c in e.terms.items()):
            r = self.floorquot(e)
            if r is not None:
                return r
            raise Undecided('int() of fraction %s' % e)
        return e
    def floorquot(self, e):
        """integer part of num/den for polynomials"""
        neg = {}
        for (b, f), c in e.terms.items():
            for a, p in f:
                if not isinstance(p, Expr) and p < 0:
                    neg[a] = max(neg.get(a, 0), -p)
        open_ = lambda a: a.args[0] if a.kind == 'Par' else S.atom(a)
        den = ONE
        for a, p in neg.items():
            for _ in range(int(p)):
                den = den * open_(a)
        num = ZERO
        for (b, f), c in e.terms.items():
            d = dict(f)
            t = Expr({(b, tuple(x for x in f if x[0] not in neg)): c})
            for a, p in neg.items():
                for _ in range(int(p + d.get(a, 0))):
                    t = t * open_(a)
            num = num + t
        import math
        l = 1
        for c in list(num.terms.values()) + list(den.terms.values()):
            l = l * c.denominator // math.gcd(l, c.denominator)
        num, den = num * l, den * l
        q, r = A._longdiv(num, den)
        if ge(r, ZERO) is True and ge(den - 1, r) is True:
            return q
        return None
    def py_float(self, x):
        return self.it.scalar(x)
    def py_bool(self, x):
        return self.it.truth(x)
    def py_list(self, x=()):
        from .interp import PyList
        return PyList(self.seq(x))
    def py_tuple(self, x=()):
        if getattr(x, 'harm', None):
            return x
        return tuple(self.seq(x))
    def py_dict(self, x=None, **k):
        from .interp import PyDict
        d = dict(x.items) if isinstance(x, PyDict) else {}
        d.update(k)
        return PyDict(d)
    def py_print(self, *a, **k):
        return None
    def py_getattr(self, o, n, *d):
        from .interp import Unknown
        r = self.it.getattr(o, n)
        if isinstance(r, Unknown) and d:
            return d[0] if not isinstance(o, Unknown) else r
        return r
    def py_hasattr(self, o, n):
        from .interp import Unknown, Obj
        if isinstance(o, Obj):
            r = self.it.getattr(o, n)
            return not isinstance(r, Unknown)
        return Unknown('hasattr')
    def py_callable(self, f):
        from .interp import Func, Prim, Unknown
        if isinstance(f, (Func, Prim)):
            return True
        if f is None:
            return False
        return Unknown('callable')
    def py_slice(self, *a):
        g = lambda x: None if x is None else self.it.scalar(x)
        if len(a) == 1:
            return Slice(None, g(a[0]))
        return Slice(*[g(x) for x in a])
