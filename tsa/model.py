"""Abstract environment for the frequency domain residuals: symbolic sizes, an
abstract harmonic list, an abstract vibration system and contracts for the
functions which are verified separately."""
from . import sym as S
from . import arr as A
from . import rand
from .sym import Expr, Undecided, lift, ZERO, ONE, ge, const
from .arr import Arr, Slice
from . import interp as I
from .interp import (Interp, Repo, NArr, Obj, Func, Prim, SeqSym, Unknown, ClassRef, PyList, PyDict, MISSING)

class World:
    def __init__(self, repo, h0, hooks=None, superharmonic=False, harmonics=None):
        S.reset()
        A._DIVMOD.clear()
        self.repo = repo
        self.it = Interp(repo, hooks)
        self.h0 = int(h0)
        self.Nd = S.sym('Nd', 1, None)
        self.r1 = None
        self.rhi = None
        self.fixed = None
        if harmonics:                      # a concrete list and the number of the superharmonic
            ks, rhi = harmonics
            self.fixed = [k for k in ks if k]
            self.h0 = int(0 in ks)
            self.n = S.const(len(self.fixed))
            self.rhi, self.r1 = S.const(rhi), S.const(self.fixed.index(rhi))
        elif superharmonic:
            self.r1 = S.sym('r1', 1, None)
            n2 = S.sym('n2', 0, None)
            self.n = self.r1 + 1 + n2
            self.rhi = S.sym('rhi', positive=True)
            self.it.np.lt_table[self.rhi.key] = self.r1
        else:
            n2 = S.sym('n2', 0, None)
            self.n = n2 + 1
        self.Nhc = 2 * self.n + self.h0
        self.N = self.Nhc * self.Nd
        S.ELEM_MIN['hz'] = 1
        S.UNIQUE.add('hz')
        S.SYMMETRIC.add('M')        # the mass matrix is symmetric
        self.h = self.harm()
        self.it.nz = self.nonzero

    def harm(self):
        h0 = self.h0
        if self.fixed:
            return NArr(A.from_list([S.const(k) for k in [0] * h0 + self.fixed]))
        def f(ix):
            i = ix[0]
            if not h0:
                return S.elem('hz', (i,))
            d = S.resolve(i)
            if d.is_zero():
                return ZERO
            if ge(i, ONE) is True:
                return S.elem('hz', (i - 1,))
            self.it.need_peel = True
            raise Undecided('harmonic list entry %s' % i)
        r = NArr(Arr((self.n + h0,), f))
        r.harm = dict(h0=bool(h0), n=self.n)
        return r

    def nonzero(self, d):
        # a product of harmonic numbers and positive constants is not zero
        if len(d.terms) == 1:
            (b, f), c = next(iter(d.terms.items()))
            if not b and all((a.kind == 'Elem' and a.args[0] == 'hz') or (a.kind == 'Sym' and a.args[0] in S.POSITIVE)
                             for a, p in f):
                return True
        # h_k - 1 etc: undecided
        return None

    def leaf(self, name, *shape):
        return NArr(A.leaf(name, [lift(s) for s in shape]), origin=name)

    def boundaries(self):
        Nd, h0 = self.Nd, self.h0
        out = [Nd * k for k in range(0, h0 + 3)]
        if self.r1 is not None:
            b = (2 * self.r1 + h0) * Nd
            out += [b, b + Nd, b + 2 * Nd]
        out += [self.N + k for k in range(0, 5)]
        return out

    def system(self, nforces=None, cls=None):
        hits = self.repo.find_class('VibrationSystem')
        if not hits:
            raise AnchorLost('class VibrationSystem not found')
        m, c = hits[0]
        Nd = self.Nd
        self.nF = S.sym('nF', 1, None)
        attrs = dict(M=self.leaf('M', Nd, Nd), C=self.leaf('C', Nd, Nd), K=self.leaf('K', Nd, Nd),
                     ab=None, nonlinear_forces=SeqSym(self.nF, self.force))
        self.vs = Obj(m, c, attrs, name='VibrationSystem')
        return self.vs

    def force(self, k):
        o = Obj(None, None, {}, name='force')
        o.index = k
        o.getter = self.force_attr
        return o

    # contract of one nonlinear force object (its own laws are checked elsewhere)
    def force_attr(self, it, o, a):
        k = o.index
        if a == 'force':
            def force(X, *rest, **kw):
                X = it.arr(X)
                nm = intern('f', A.key_of(X))
                n = X.shape[0]
                declare(nm, X, None)
                return (it.wrap(Arr((n,), lambda ix: S.elem(nm, (k,) + ix))),
                        it.wrap(Arr((n, n), lambda ix: S.elem('D' + nm, (k,) + ix))))
            return Prim('force', force)
        if a == 'aft':
            def aft(U, w, h, Nt=None, tol=None, calc_grad=True, **kw):
                Ua = it.arr(U)
                we = it.scalar(w)
                nm = intern('aft', A.key_of(Ua) + '|' + we.key)
                declare(nm, Ua, we)
                n = Ua.shape[0]
                it.events.append(('aft', k, nm, dict(h=h, Nt=Nt, tol=tol, calc_grad=calc_grad)))
                F = it.wrap(Arr((n,), lambda ix: S.elem(nm, (k,) + ix)))
                if calc_grad is False:
                    return (F,)
                return (F, it.wrap(Arr((n, n), lambda ix: S.elem('D' + nm, (k,) + ix))),
                        it.wrap(Arr((n,), lambda ix: S.elem('W' + nm, (k,) + ix))))
            return Prim('aft', aft)
        if a == 'nl_force_type':
            return Prim('nl_force_type', lambda: S.sym('ftype'))
        return Unknown('force attribute ' + a)

# harmonic lists with gaps: (list, number of the superharmonic); the position of a harmonic is not its number
GAPS = [((0, 1, 3, 5), 3), ((1, 2, 5), 5), ((0, 1, 2, 3), 2)]

def world_of(repo, h0, superharmonic=True):
    """h0 is 0/1 (symbolic list without/with the zeroth harmonic) or a concrete list from GAPS"""
    if isinstance(h0, tuple):
        return World(repo, 0, harmonics=h0)
    return World(repo, h0, superharmonic=superharmonic)

def label(h0):
    return 'h=%s' % '-'.join(map(str, h0[0])) if isinstance(h0, tuple) else 'h0=%d' % h0

_NAMES = {}
def intern(prefix, key):
    k = prefix + '<' + key
    if k not in _NAMES:
        _NAMES[k] = '%s#%d' % (prefix, len(_NAMES))
    return _NAMES[k]

class AnchorLost(Exception):
    pass

def declare(nm, U, w):
    """derivative contract of an opaque force array: dF/dX = sum dF/dU dU/dX + dF/dw dw/dX"""
    if nm in S._DERIV:
        return
    rand.LEAFARGS[nm] = (nm.split('#')[0], [U] + ([w] if w is not None else []))
    def rule(ix, wrt):
        head, i = ix[:-1], ix[-1]
        def term(q):
            d = S.diff(U.f((q,)), wrt)
            return d if d.is_zero() else S.elem('D' + nm, head + (i, q)) * d
        out = A.sum_over(term, U.shape[0], U.cuts[0], U.mods[0])
        if w is not None:
            dw = S.diff(w, wrt)
            if not dw.is_zero():
                out = out + S.elem('W' + nm, head + (i,)) * dw
        return out
    S.register_deriv(nm, rule)

# --------------------------------------------------------------- contracts
def hook_total_aft(world):
    def hook(it, f, args, kwargs):
        b = bind(f, args, kwargs)
        U, w = it.arr(b['U']), it.scalar(b['w'])
        nm = intern('Fnl', A.key_of(U) + '|' + w.key)
        if U.ndim != 1 or A.shape_verdict(U, A.full((world.N,), ZERO)) is False:
            it.events.append(('badshape', 'total_aft', U.shape))
        declare(nm, U, w)
        n = world.N
        it.events.append(('total_aft', nm, b))
        F = NArr(A.leaf(nm, (n,)))
        if it.truth(b['calc_grad']) is False:
            return (F,)
        return (F, NArr(A.leaf('D' + nm, (n, n))), NArr(A.leaf('W' + nm, (n,))))
    return hook

def hook_stiffness(world):
    """E(M,C,K,w): linear in M, C, K with the frequency dependence of each"""
    def hook(it, f, args, kwargs):
        b = bind(f, args, kwargs)
        w = it.scalar(b['w'])
        onlyC = it.truth(b['only_C'])
        n, nd = world.N, world.Nd
        def term(name, X, ix):
            a = it.arr(X)
            if a.ndim == 0:
                if a.f(()).is_zero():
                    return ZERO
                raise Undecided('scalar matrix')
            return A.sum_over(lambda p: A.sum_over(
                lambda q: S.elem(name, ix + (p, q)) * a.f((p, q)), nd, a.cuts[1]), nd, a.cuts[0])
        def E(ix):
            e = w * term('TC', b['C'], ix)
            if not onlyC:
                e = e + term('TK', b['K'], ix) + w * w * term('TM', b['M'], ix)
            return e
        def dE(ix):
            e = term('TC', b['C'], ix)
            if not onlyC:
                e = e + 2 * w * term('TM', b['M'], ix)
            return e
        it.events.append(('stiffness', b))
        Ea = NArr(Arr((n, n), E))
        if it.truth(b['calc_grad']) is False:
            return (Ea,)
        return (Ea, NArr(Arr((n, n), dE)))
    return hook

def bind(f, args, kwargs):
    """map call arguments to parameter names, defaults evaluated when literal"""
    import ast
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if f.bound is not None:
        pos = pos[1:]
    out = {}
    for p, v in zip(pos, args):
        out[p] = v
    out.update(kwargs)
    off = len(pos) - len(a.defaults)
    for i, d in enumerate(a.defaults):
        if i + off >= 0 and pos[i + off] not in out and isinstance(d, ast.Constant):
            v = d.value
            out[pos[i + off]] = lift(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v
    return out
