"""Symbolic-shape arrays: an array is an index function (index expressions ->
Expr) together with the cut points at which its formula changes."""
from fractions import Fraction
from . import sym as S
from . import rand
from .sym import Expr, Undecided, lift, ZERO, ONE, ge, const

class Arr:
    __slots__ = ('shape', 'cuts', 'f', 'mods', 'tag', '_key')
    def __init__(self, shape, f, cuts=None, mods=None, tag=None):
        self.shape = tuple(lift(s) for s in shape)
        self.f = f
        n = len(self.shape)
        self.cuts = tuple(tuple(c) for c in cuts) if cuts else ((),) * n
        self.mods = tuple(frozenset(m) for m in mods) if mods else (frozenset(),) * n
        self.tag = tag
        self._key = None
    @property
    def ndim(self):
        return len(self.shape)
    def at(self, *idx):
        if len(idx) != self.ndim:
            raise Undecided('rank mismatch')
        return self.f(tuple(lift(i) for i in idx))
    def __repr__(self):
        return 'Arr%s' % (self.shape,)

def scalar(e):
    return Arr((), lambda ix: e)

def to_arr(x):
    if isinstance(x, Arr):
        return x
    if isinstance(x, (list, tuple)):
        return from_list(x)
    return scalar(lift(x))

def leaf(name, shape):
    return Arr(shape, lambda ix: S.elem(name, ix), tag=('leaf', name))

def full(shape, v):
    v = lift(v)
    return Arr(shape, lambda ix: v)

def from_list(xs):
    xs = [to_arr(x) for x in xs]
    if not xs:
        return Arr((0,), lambda ix: ZERO)
    n = len(xs)
    sh = xs[0].shape
    def f(ix):
        v = ix[0].const_value()
        if v is None:
            d = None
            for k in range(n):
                if ge(ix[0], const(k)) is True and ge(const(k), ix[0]) is True:
                    d = k
            if d is None:
                raise Undecided('symbolic index of literal list')
            v = d
        return xs[int(v)].f(ix[1:])
    cuts = [[const(k) for k in range(1, n)]]
    mods = [frozenset()]
    for d in range(len(sh)):
        cs, ms = [], frozenset()
        for x in xs:
            cs += list(x.cuts[d]); ms |= x.mods[d]
        cuts.append(uniq(cs)); mods.append(ms)
    return Arr((const(n),) + sh, f, cuts, mods)

def uniq(cs):
    out, seen = [], set()
    for c in cs:
        if c.key not in seen:
            seen.add(c.key)
            out.append(c)
    return out

def order(cuts, n):
    """sorted interior cut points of [0,n), duplicates removed"""
    out = []
    for c in uniq(cuts):
        if ge(ZERO, c) is True or ge(c, n) is True:
            continue
        if not (ge(c, ZERO) is True and ge(n, c) is True):
            raise Undecided('cut %s not comparable with [0,%s)' % (c, n))
        out.append(c)
    # insertion sort with the prover
    res = []
    for c in out:
        pos = None
        for i, d in enumerate(res):
            if ge(d, c) is True:
                pos = i
                break
            if ge(c, d) is True:
                continue
            raise Undecided('cuts %s and %s not comparable' % (c, d))
        if pos is None:
            res.append(c)
        else:
            res.insert(pos, c)
    return res

def pieces(cuts, n):
    c = order(cuts, n)
    pts = [ZERO] + c + [n]
    return [(a, b) for a, b in zip(pts[:-1], pts[1:]) if a != b]

def broadcast_shape(shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = ONE
        for s in shapes:
            k = len(s) - n + d
            if k < 0:
                continue
            x = s[k]
            if x == ONE:
                continue
            if cur == ONE:
                cur = x
            elif cur != x:
                raise Undecided('shape mismatch %s vs %s' % (cur, x))
        out.append(cur)
    return tuple(out)

def ew(op, *args):
    arrs = [to_arr(a) for a in args]
    sh = broadcast_shape([a.shape for a in arrs])
    n = len(sh)
    cuts, mods = [], []
    for d in range(n):
        cs, ms = [], frozenset()
        for a in arrs:
            k = a.ndim - n + d
            if k >= 0 and a.shape[k] == sh[d]:
                cs += list(a.cuts[k])
                ms |= a.mods[k]
        cuts.append(uniq(cs))
        mods.append(ms)
    def f(ix):
        vals = []
        for a in arrs:
            off = n - a.ndim
            sub = tuple(ZERO if a.shape[k] == ONE and sh[k + off] != ONE else ix[k + off] for k in range(a.ndim))
            vals.append(a.f(sub))
        return op(*vals)
    return Arr(sh, f, cuts, mods)

def sum_over(f, n, cuts, mods=frozenset()):
    if mods:
        m = max(mods)
        out = ZERO
        # split by residue classes; n must be a known multiple
        for r in range(m):
            q, rem = divpoly(n - r + m - 1, m)
            if rem is None:
                raise Undecided('residue sum')
            cc = []
            for c in cuts:
                q2, r2 = divpoly(c - r + m - 1, m)
                if r2 is None:
                    raise Undecided('residue cut')
                cc.append(q2)
            for a, b in pieces(cc, q):
                out = out + sum_piece(lambda k: f(k * m + r), a, b)
        return out
    out = ZERO
    for a, b in pieces(cuts, n):
        out = out + sum_piece(f, a, b)
    return out

class _Split(Exception):
    pass

_ACTIVE = []     # summation variables whose range may still be factored

def sum_piece(f, a, b):
    """sum over [a,b); the range is factored as q*p + r when the summand asks for
    the quotient and remainder of the summation variable by p"""
    n = b - a
    if ge(ZERO, n) is True:
        return ZERO
    if S.SIZES and n.const_value() is not None:
        return S.sum_range(f, a, b)
    k = S.fresh('k', ZERO, n)
    kn = S.symname(k)
    _ACTIVE.append((kn, n))
    try:
        e = f(k + a)
    except _Split as x:
        if x.args[0] != kn:
            raise
        p = x.args[1]
        q, _ = _exactdiv(n, p)
        _ACTIVE.pop()
        _ACTIVE.append((None, None))
        return sum_piece(lambda i: sum_piece(lambda j: f(i * p + j + a), ZERO, p), ZERO, q)
    except Undecided:
        nv = n.const_value()
        if nv is None or nv > 32:
            raise
        out = ZERO
        for i in range(int(nv)):
            out = out + f(a + i)
        return out
    finally:
        _ACTIVE.pop()
    return S.summation(e, kn, n)

def divpoly(e, m):
    """floor division of an integer polynomial by the constant m: (q, r) with r
    constant, or (None, None)"""
    e = S.resolve(lift(e))
    q, r = ZERO, None
    for mono, c in e.terms.items():
        if mono == ((), ()):
            if c.denominator != 1:
                return None, None
            r = int(c)
        else:
            if c.denominator != 1 or c.numerator % m:
                return None, None
            q = q + Expr({mono: c / m})
    r = r or 0
    return q + (r // m), r % m

def contract(fa, fb, n, cuts, mods):
    """sum_k fa(k) fb(k); Kronecker deltas of one factor select the entries of
    the other before it is evaluated"""
    def body(k):
        x = y = None
        try:
            x = fa(k)
        except Undecided as u:
            err = u
        if x is not None and x.is_zero():
            return ZERO
        if x is not None:
            z = _select(x, k, fb, n)
            if z is not None:
                return z
        y = fb(k)
        if y.is_zero():
            return ZERO
        if x is None:
            z = _select(y, k, fa, n)
            if z is not None:
                return z
            raise err
        return x * y
    return sum_over(body, n, cuts, mods)

def _select(x, k, other, n):
    """x = sum of terms which all contain delta(k - sol): x(k) other(k) with
    other evaluated at the selected entries"""
    kn = S.symname(k)
    if kn is None:
        kn = [s for s in k.syms if s.startswith('s~') or s in S.RANGES]
        kn = kn[0] if len(kn) == 1 else None
    if kn is None:
        return None
    out = ZERO
    for (b, f), c in x.terms.items():
        hit = None
        if not b:
            for a, p in f:
                if a.kind == 'Delta' and kn in a.syms:
                    lin, rest = S._linear(a.args[0], kn)
                    if lin is not None and lin.const_value() in (1, -1):
                        sol = -rest if lin.const_value() == 1 else rest
                        if kn not in sol.syms:
                            hit = sol
                            break
        if hit is None:
            return None
        kk = S.subst(k, {kn: hit})
        out = out + Expr({(b, f): c}) * other(kk)
    return out

def matmul(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0 or a.ndim > 2 or b.ndim > 2:
        raise Undecided('matmul rank')
    n = a.shape[-1]
    m = b.shape[0]
    if n != m:
        raise Undecided('matmul shape %s vs %s' % (n, m))
    cuts = uniq(list(a.cuts[-1]) + list(b.cuts[0]))
    mods = a.mods[-1] | b.mods[0]
    sh = a.shape[:-1] + b.shape[1:]
    na = a.ndim - 1
    def f(ix):
        return contract(lambda k: a.f(ix[:na] + (k,)), lambda k: b.f((k,) + ix[na:]), n, cuts, mods)
    return Arr(sh, f, list(a.cuts[:-1]) + list(b.cuts[1:]), list(a.mods[:-1]) + list(b.mods[1:]))

def transpose(a, axes=None):
    if axes is None:
        axes = list(range(a.ndim))[::-1]
    inv = [0] * len(axes)
    for i, x in enumerate(axes):
        inv[x] = i
    return Arr([a.shape[x] for x in axes], lambda ix: a.f(tuple(ix[inv[k]] for k in range(a.ndim))),
               [a.cuts[x] for x in axes], [a.mods[x] for x in axes])

def sumaxis(a, axis=None):
    a = to_arr(a)
    if axis is None:
        e = None
        def rec(d, ix):
            if d == a.ndim:
                return a.f(ix)
            return sum_over(lambda k: rec(d + 1, ix + (k,)), a.shape[d], a.cuts[d], a.mods[d])
        return rec(0, ())
    if axis < 0:
        axis += a.ndim
    sh = a.shape[:axis] + a.shape[axis + 1:]
    def f(ix):
        return sum_over(lambda k: a.f(ix[:axis] + (k,) + ix[axis:]), a.shape[axis], a.cuts[axis], a.mods[axis])
    r = Arr(sh, f, a.cuts[:axis] + a.cuts[axis + 1:], a.mods[:axis] + a.mods[axis + 1:])
    return r.f(()) if r.ndim == 0 else r

def concat(xs, axis=0):
    xs = [to_arr(x) for x in xs]
    if axis < 0:
        axis += xs[0].ndim
    xs = [x for x in xs if x.shape[axis] != ZERO] or xs[:1]
    offs = [ZERO]
    for x in xs:
        offs.append(offs[-1] + x.shape[axis])
    sh = list(xs[0].shape)
    sh[axis] = offs[-1]
    for x in xs[1:]:
        for d in range(len(sh)):
            if d != axis and x.shape[d] != sh[d]:
                raise Undecided('concat shape %s vs %s' % (x.shape[d], sh[d]))
    def f(ix):
        i = ix[axis]
        for k, x in enumerate(xs):
            if k == len(xs) - 1:
                if ge(i, offs[k]) is not True:
                    raise Undecided('concat index %s' % i)
                return x.f(ix[:axis] + (i - offs[k],) + ix[axis + 1:])
            g = ge(i, offs[k + 1])
            if g is None:
                raise Undecided('concat index %s vs %s' % (i, offs[k + 1]))
            if g is False:
                return x.f(ix[:axis] + (i - offs[k],) + ix[axis + 1:])
    cuts, mods = [], []
    for d in range(len(sh)):
        cs, ms = [], frozenset()
        if d == axis:
            for k, x in enumerate(xs):
                if k:
                    cs.append(offs[k])
                cs += [c + offs[k] for c in x.cuts[d]]
                ms |= x.mods[d]
        else:
            for x in xs:
                cs += list(x.cuts[d])
                ms |= x.mods[d]
        cuts.append(uniq(cs))
        mods.append(ms)
    return Arr(sh, f, cuts, mods)

def hstack(xs):
    xs = [to_arr(x) for x in xs]
    xs = [reshape(x, (ONE,)) if x.ndim == 0 else x for x in xs]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)

def vstack(xs):
    return concat([atleast_2d(to_arr(x)) for x in xs], 0)

def atleast_1d(x):
    x = to_arr(x)
    if x.ndim == 0:
        return Arr((ONE,), lambda ix: x.f(()))
    return x

def atleast_2d(x):
    x = atleast_1d(x)
    if x.ndim == 1:
        return Arr((ONE,) + x.shape, lambda ix: x.f(ix[1:]), [()] + list(x.cuts), [frozenset()] + list(x.mods))
    return x

def eye(n, m=None):
    m = n if m is None else m
    return Arr((n, m), lambda ix: S.delta(ix[0] - ix[1]), tag=('eye',))

def diag(a):
    a = to_arr(a)
    if a.ndim == 1:
        n = a.shape[0]
        def f(ix):
            d = S.delta(ix[0] - ix[1])
            return d if d.is_zero() else d * a.f((ix[0],))
        return Arr((n, n), f, [a.cuts[0], a.cuts[0]], [a.mods[0], a.mods[0]])
    return Arr(a.shape[:1], lambda ix: a.f((ix[0], ix[0])), [uniq(list(a.cuts[0]) + list(a.cuts[1]))])

def outer(a, b):
    a, b = ravel(to_arr(a)), ravel(to_arr(b))
    return Arr(a.shape + b.shape, lambda ix: a.f(ix[:1]) * b.f(ix[1:]), a.cuts + b.cuts, a.mods + b.mods)

_DIVMOD = {}
def divmod_sym(i, p):
    """(i // p, i % p) for 0 <= i ; simplified when i = q*p + r is visible"""
    # try to split i into multiples of p and a remainder in [0,p)
    nm = S.symname(p)
    pv = p.const_value()
    if pv == 1:
        return i, ZERO
    pc, pf = None, ()
    if len(p.terms) == 1:
        (pb, pf), pc = next(iter(p.terms.items()))
        if pb or pc.denominator != 1 or any(a.kind != 'Sym' or isinstance(e, Expr) for a, e in pf):
            pc = None
    q, r = ZERO, ZERO
    if len(p.terms) > 1:
        q, i = _longdiv(i, p)
    for mono, c in i.terms.items():
        b, f = mono
        ok = False
        if pc is not None and not b and c.denominator == 1 and c.numerator % int(pc) == 0 and (mono != ((), ()) or pf == ()):
            d = dict((a.key, e) for a, e in f if not isinstance(e, Expr))
            ok = all(d.get(a.key, 0) >= e for a, e in pf)
        if ok:
            t = Expr({mono: c / pc})
            for a, e in pf:
                t = t * Expr({((), ((a, -e),)): Fraction(1)})
            q = q + t
        elif pv is not None and mono == ((), ()) and c.denominator == 1:
            q = q + int(c) // int(pv)
            r = r + int(c) % int(pv)
        else:
            r = r + Expr({mono: c})
    if r.is_zero() or (ge(r, ZERO) is True and ge(p - 1, r) is True):
        return q, r
    if ge(r, p) is True and ge(2 * p - 1, r) is True:
        return q + 1, r - p
    if ge(-1, r) is True and ge(r, -p) is True:
        return q - 1, r + p
    rn = S.symname(r)
    if rn is not None:
        for kn, n in _ACTIVE:
            if kn == rn and _exactdiv(n, p)[1]:
                raise _Split(kn, p)
    # opaque quotient and remainder
    k = r.key + '//' + p.key
    if k not in _DIVMOD or _DIVMOD[k][0] not in S.RANGES:
        lo = ZERO
        qn, rn = 'div(%s,%s)' % (r.key, p.key), 'mod(%s,%s)' % (r.key, p.key)
        S.sym(rn, ZERO, p)
        n2 = S.symname(r)
        hi = None
        if n2 in S.RANGES and S.RANGES[n2][1] is not None:
            hq, hr = _exactdiv(S.RANGES[n2][1], p)
            if hr:
                hi = hq
        S.RANGES[qn] = (ZERO, hi)
        _DIVMOD[k] = (qn, rn)
        rand.DIVS[qn], rand.DIVS[rn] = ('q', r, p), ('r', r, p)
    qn, rn = _DIVMOD[k]
    return q + S.sym(qn), S.sym(rn)

def _longdiv(i, p):
    """i = q*p + r for a polynomial p, eliminating its leading monomial"""
    monos = [(m, c) for m, c in p.terms.items() if m != ((), ())]
    if any(m[0] or any(a.kind != 'Sym' or isinstance(e, Expr) or e.denominator != 1 for a, e in m[1]) for m, c in monos):
        return ZERO, i
    (lm, lc) = max(monos, key=lambda t: (sum(e for _, e in t[0][1]), str(t[0])))
    lead = {a.key: e for a, e in lm[1]}
    q = ZERO
    for _ in range(20):
        for (b, f), c in i.terms.items():
            if b or (c / lc).denominator != 1:
                continue
            d = {a.key: e for a, e in f if not isinstance(e, Expr)}
            if all(d.get(a.key, 0) >= e for a, e in lm[1]):
                t = Expr({((), tuple((a, e - lead.get(a.key, 0)) for a, e in f if isinstance(e, Expr) or e != lead.get(a.key, 0))): c / lc})
                break
        else:
            break
        q, i = q + t, i - t * p
    return q, i

def _exactdiv(e, p):
    """(e/p, True) when p divides e visibly"""
    pv = p.const_value()
    if pv is not None:
        q, r = divpoly(e, int(pv))
        return (q, True) if q is not None and r == 0 else (None, False)
    nm = S.symname(p)
    if nm is None:
        if e == p:
            return ONE, True
        # try e = c*p
        return _polydiv(e, p)
    q = ZERO
    for (b, f), c in e.terms.items():
        hit = None
        for k, (a, x) in enumerate(f):
            if a.kind == 'Sym' and a.args[0] == nm and not isinstance(x, Expr) and x >= 1:
                hit = k
        if hit is None or b:
            return None, False
        a, x = f[hit]
        nf = f[:hit] + (((a, x - 1),) if x != 1 else ()) + f[hit + 1:]
        q = q + Expr({(b, nf): c})
    return q, True

def _polydiv(e, p):
    """division with polynomial p: peel leading terms a few times"""
    q = ZERO
    lead = max(p.terms, key=lambda m: (sum(x for _, x in m[1] if not isinstance(x, Expr)), S._termkey(m, 1)))
    for _ in range(12):
        if e.is_zero():
            return q, True
        done = False
        for m, c in e.terms.items():
            fac = dict((a.key, (a, x)) for a, x in m[1])
            ok = True
            for a, x in lead[1]:
                if a.key not in fac or fac[a.key][1] < x:
                    ok = False
            if ok and not m[0]:
                t = Expr({m: c / p.terms[lead]})
                for a, x in lead[1]:
                    t = t * S.atom(a, -x)
                q = q + t
                e = e - t * p
                done = True
                break
        if not done:
            return None, False
    return None, False

def size(a):
    s = ONE
    for x in a.shape:
        s = s * x
    return s

def ravel(a, orderF=False):
    return reshape(to_arr(a), (const(-1),), orderF)

def reshape(a, shape, orderF=False):
    a = to_arr(a)
    shape = [lift(s) for s in shape]
    tot = size(a)
    neg = [k for k, s in enumerate(shape) if s.const_value() == -1]
    if neg:
        other = ONE
        for k, s in enumerate(shape):
            if k not in neg:
                other = other * s
        q, ok = _exactdiv(tot, other) if other != ONE else (tot, True)
        if not ok:
            raise Undecided('reshape -1: %s / %s' % (tot, other))
        shape[neg[0]] = q
    prod = ONE
    for s in shape:
        prod = prod * s
    if prod != tot:
        raise Undecided('reshape size %s vs %s' % (prod, tot))
    shape = tuple(shape)
    if shape == a.shape:
        return a
    # drop / insert unit dimensions: keep the index functions exact
    nona = [k for k, s in enumerate(a.shape) if s != ONE]
    nonb = [k for k, s in enumerate(shape) if s != ONE]
    if [a.shape[k] for k in nona] == [shape[k] for k in nonb]:
        def f(ix):
            sub = [ZERO] * a.ndim
            for x, y in zip(nona, nonb):
                sub[x] = ix[y]
            return a.f(tuple(sub))
        cuts, mods = [()] * len(shape), [frozenset()] * len(shape)
        for x, y in zip(nona, nonb):
            cuts[y], mods[y] = a.cuts[x], a.mods[x]
        return Arr(shape, f, cuts, mods)
    if len(nona) <= 1 or len(nonb) <= 1 or True:
        # general: linear index
        def lin(ix, sh):
            n = ZERO
            ks = range(len(sh)) if not orderF else range(len(sh) - 1, -1, -1)
            for k in ks:
                n = n * sh[k] + ix[k]
            return n
        def unlin(n, sh):
            ix = [None] * len(sh)
            ks = list(range(len(sh)))[::-1] if not orderF else list(range(len(sh)))
            for j, k in enumerate(ks):
                if j == len(ks) - 1:
                    ix[k] = n
                elif sh[k] == ONE:
                    ix[k] = ZERO
                else:
                    n, ix[k] = divmod_sym(n, sh[k])
            return tuple(ix)
        def f(ix):
            return a.f(unlin(lin(ix, shape), a.shape))
        cuts = [[] for _ in shape]
        # cuts: exact only for simple block structures
        if len(shape) == 1 and a.ndim == 2:
            r, c = (0, 1) if not orderF else (1, 0)
            inner = a.shape[c]
            for k in a.cuts[r]:
                cuts[0].append(k * inner)
            if a.cuts[c]:
                nr = a.shape[r].const_value()
                if nr is None or nr > 12:
                    return Arr(shape, f, [['!']] if False else cuts, [frozenset()], tag=('innercuts', a.cuts[c], inner))
                for q in range(int(nr)):
                    for k in a.cuts[c]:
                        cuts[0].append(const(q) * inner + k)
            if not a.cuts[c]:
                nr = a.shape[r].const_value()
                if nr is not None and nr <= 12:
                    for q in range(1, int(nr)):
                        cuts[0].append(const(q) * inner)
        elif a.ndim == 1 and len(shape) == 2 and a.cuts[0]:
            r, c = (0, 1) if not orderF else (1, 0)
            inner = shape[c]
            nr = shape[r].const_value()
            for k in a.cuts[0]:
                q, ok = _exactdiv(k, inner)
                if ok:
                    cuts[r].append(q)
                elif nr is not None and nr <= 12:
                    for z in range(int(nr)):
                        cuts[c].append(k - const(z) * inner)
                    cuts[r] += [const(z) for z in range(1, int(nr))]
                else:
                    raise Undecided('reshape cut %s by %s' % (k, inner))
            good = []
            for k in uniq(cuts[c]):
                if ge(ZERO, k) is True or ge(k, inner) is True:
                    continue
                good.append(k)
            cuts[c] = good
        elif any(a.cuts):
            raise Undecided('reshape of piecewise array')
        return Arr(shape, f, cuts)

def kron(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 1 and b.ndim == 2:
        a = atleast_2d(a)
    if b.ndim == 1 and a.ndim == 2:
        b = atleast_2d(b)
    if a.ndim != b.ndim:
        raise Undecided('kron rank')
    n = a.ndim
    sh = [x * y for x, y in zip(a.shape, b.shape)]
    cuts, mods = [], []
    for d in range(n):
        cs = [c * b.shape[d] for c in a.cuts[d]]
        if a.tag == ('eye',) or b.cuts[d]:
            k = a.shape[d].const_value()
            if k is None or k > 8:
                if b.cuts[d]:
                    raise Undecided('kron with piecewise block')
            else:
                for q in range(int(k)):
                    if q:
                        cs.append(const(q) * b.shape[d])
                    cs += [const(q) * b.shape[d] + c for c in b.cuts[d]]
        cuts.append(uniq(cs))
        mods.append(frozenset())
    def f(ix):
        ia, ib = [], []
        for d in range(n):
            # locate the piece of a first
            i, p = ix[d], b.shape[d]
            q, r = None, None
            k = a.shape[d].const_value()
            if k is not None and k <= 8:
                for z in range(int(k)):
                    lo, hi = const(z) * p, const(z + 1) * p
                    if ge(i, lo) is True and ge(hi - 1, i) is True:
                        q, r = const(z), i - lo
            if q is None:
                q, r = divmod_sym(i, p)
                qn = S.symname(q)
                if qn is not None and qn.startswith('div('):
                    # narrow the quotient's range to the piece that holds i
                    for lo, hi in pieces(a.cuts[d], a.shape[d]):
                        if ge(i, lo * p) is True and ge(hi * p - 1, i) is True:
                            nn = 'div(%s)[%s,%s)' % (qn, lo, hi)
                            q = S.sym(nn, lo, hi)
            ia.append(q)
            ib.append(r)
        x = a.f(tuple(ia))
        return x if x.is_zero() else x * b.f(tuple(ib))
    return Arr(sh, f, cuts, mods)

# ------------------------------------------------------------- indexing
class Slice:
    def __init__(self, lo=None, hi=None, step=None):
        self.lo, self.hi, self.step = lo, hi, step

def norm_index(i, n):
    i = lift(i)
    g = ge(i, ZERO)
    if g is True:
        return i
    if g is False:
        return i + n
    raise Undecided('sign of index %s' % i)

def norm_slice(s, n):
    """(start, step, length)"""
    step = 1
    if s.step is not None:
        v = lift(s.step).const_value()
        if v == 0:
            raise Undecided('zero step')
        if v is None:
            # every p-th entry of a multiple of p entries
            p = lift(s.step)
            st = ZERO if s.lo is None else norm_index(s.lo, n)
            q, ok = _exactdiv(n, p)
            if s.hi is not None or not ok or ge(p, ONE) is not True or ge(st, ZERO) is not True or ge(p - 1, st) is not True:
                raise Undecided('symbolic step')
            return st, p, q
        step = int(v)
    def clamp(x, dflt, lo, hi):
        if x is None:
            return dflt
        x = norm_index(x, n)
        if ge(x, hi) is True:
            return hi
        if ge(lo, x) is True:
            return lo
        if ge(x, lo) is True and ge(hi, x) is True:
            return x
        raise Undecided('slice bound %s vs %s' % (x, hi))
    if step > 0:
        a = clamp(s.lo, ZERO, ZERO, n)
        b = clamp(s.hi, n, ZERO, n)
        if ge(a, b) is True:
            return a, step, ZERO
        if ge(b, a) is not True:
            raise Undecided('slice order %s %s' % (a, b))
        if step == 1:
            return a, 1, b - a
        q, r = divpoly(b - a + step - 1, step)
        if q is None:
            raise Undecided('strided slice length')
        return a, step, q
    a = clamp(s.lo, n - 1, const(-1), n - 1)
    if s.hi is None:
        b = const(-1)
    else:
        b = clamp(s.hi, None, ZERO, n)
    q, r = divpoly(a - b - step - 1, -step)
    if q is None:
        raise Undecided('strided slice length')
    return a, step, q

def expand_index(items, ndim):
    n = sum(1 for x in items if x is not None and x is not Ellipsis)
    out = []
    seen = False
    for x in items:
        if x is Ellipsis:
            out += [Slice()] * (ndim - n)
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [Slice()] * (ndim - n)
    return out

def index(a, items):
    """numpy style indexing by ints, slices, None, integer arrays, masks"""
    items = expand_index(list(items), a.ndim)
    spec = []      # per source dim: ('i', expr) | ('s', start, step) + out dim
    shape, cuts, mods = [], [], []
    d = 0
    fancy_out = None
    for it in items:
        if it is None:
            shape.append(ONE); cuts.append(()); mods.append(frozenset())
            continue
        n = a.shape[d]
        if isinstance(it, Slice):
            st, step, ln = norm_slice(it, n)
            spec.append(('s', st, step, len(shape)))
            shape.append(ln)
            if isinstance(step, Expr):
                if a.mods[d]:
                    raise Undecided('symbolic stride over residue classes')
                cc = []
                for c in a.cuts[d]:
                    q, ok = _exactdiv(c, step)
                    if not ok:
                        raise Undecided('symbolic stride over cut %s' % c)
                    cc.append(q)
                cuts.append(cc)
                mods.append(frozenset())
            elif step == 1:
                cc = [c - st for c in a.cuts[d]]
                cc = [c for c in cc if not (ge(ZERO, c) is True or ge(c, ln) is True)]
                cuts.append(cc)
                mods.append(a.mods[d])
            else:
                cc = []
                s_ = abs(step)
                for c in a.cuts[d]:
                    diff = (c - st) if step > 0 else (st - c + 1)
                    q, r = divpoly(diff + s_ - 1, s_)
                    if q is None:
                        raise Undecided('strided cut')
                    if not (ge(ZERO, q) is True or ge(q, ln) is True):
                        cc.append(q)
                cuts.append(cc)
                ms = frozenset(m for m in a.mods[d] if s_ % m)
                mods.append(ms)
        elif isinstance(it, IndexVec):
            if fancy_out is None:
                fancy_out = len(shape)
                shape.append(it.length); cuts.append(()); mods.append(frozenset())
            spec.append(('v', it, fancy_out))
        elif isinstance(it, Arr):
            if it.ndim != 1:
                raise Undecided('fancy index rank')
            if fancy_out is None:
                fancy_out = len(shape)
                shape.append(it.shape[0]); cuts.append(it.cuts[0]); mods.append(it.mods[0])
            spec.append(('a', it, fancy_out))
        else:
            spec.append(('i', norm_index(it, n)))
        d += 1
    def f(ix):
        sub = []
        for k, sp in enumerate(spec):
            if sp[0] == 'i':
                sub.append(sp[1])
            elif sp[0] == 's':
                sub.append(sp[1] + ix[sp[3]] * sp[2])
            elif sp[0] == 'v':
                sub.append(sp[1].at(ix[sp[2]]))
            else:
                sub.append(norm_index(sp[1].f((ix[sp[2]],)), a.shape[k]))
        return a.f(tuple(sub))
    r = Arr(shape, f, cuts, mods)
    return f(()) if r.ndim == 0 else r

class IndexVec:
    """an integer vector known through its generic entry: at(q) for q in
    [0,length); inverse(i) returns q (Expr), False (not in the set) or raises"""
    def __init__(self, length, at, inverse, key):
        self.length, self.at, self.inverse, self.key = length, at, inverse, key

def member(idx, st, step, ln):
    """position of idx inside the arithmetic progression, None if outside"""
    if step == 1:
        off = idx - st
    else:
        q, r = divpoly((idx - st) if step > 0 else (st - idx), abs(step))
        if q is None:
            raise Undecided('strided membership of %s' % idx)
        if r != 0:
            return None
        off = q
    lo = ge(off, ZERO)
    if lo is False:
        return None
    hi = ge(ln - 1, off)
    if hi is False:
        return None
    if lo is True and hi is True:
        return off
    raise Undecided('membership of %s in [%s,+%s)' % (idx, st, ln))

def store(a, items, val, op=None):
    """array equal to a except at items, where it is val (or op(old,val))"""
    items = expand_index([x for x in items], a.ndim)
    spec, oshape = [], []
    cuts = [list(c) for c in a.cuts]
    mods = [set(m) for m in a.mods]
    fancy = None
    for d, it in enumerate(items):
        n = a.shape[d]
        if it is None:
            raise Undecided('newaxis store')
        if isinstance(it, Slice):
            st, step, ln = norm_slice(it, n)
            spec.append(('s', st, step, ln, len(oshape)))
            oshape.append(ln)
            if isinstance(step, Expr):
                pass
            elif step == 1:
                cuts[d] += [st, st + ln]
            else:
                mods[d].add(abs(step))
                lo = st if step > 0 else st + (ln - 1) * step
                hi = (st + (ln - 1) * step + abs(step)) if step > 0 else st + abs(step)
                cuts[d] += [lo, hi]
        elif isinstance(it, IndexVec):
            if fancy is None:
                fancy = len(oshape)
                oshape.append(it.length)
            spec.append(('v', it, fancy))
        elif isinstance(it, Arr):
            raise Undecided('fancy store')
        else:
            e = norm_index(it, n)
            spec.append(('i', e))
            cuts[d] += [e, e + 1]
    val = to_arr(val)
    vs = broadcast_shape([tuple(oshape), val.shape]) if oshape else ()
    if oshape and len(vs) == len(oshape):
        for x, y in zip(vs, oshape):
            if x != y:
                raise Undecided('store shape %s into %s' % (x, y))
    def f(ix):
        out = [None] * len(oshape)
        ok = True
        gate = ONE
        for d, sp in enumerate(spec):
            if sp[0] == 'i':
                e = S.resolve(ix[d] - sp[1])
                if e.is_zero():
                    continue
                if S.delta(e).is_zero():
                    ok = False
                    break
                gate = gate * S.delta(e)
            elif sp[0] == 's' and isinstance(sp[2], Expr):
                q, r = divmod_sym(S.resolve(ix[d]), sp[2])
                e = S.delta(S.resolve(r - sp[1]))
                if e.is_zero():
                    ok = False
                    break
                gate = gate * e
                out[sp[4]] = q
            elif sp[0] == 's':
                m = member(ix[d], sp[1], sp[2], sp[3])
                if m is None:
                    ok = False
                    break
                out[sp[4]] = m
            else:
                m = sp[1].inverse(ix[d])
                if m is False:
                    ok = False
                    break
                if out[sp[2]] is not None and out[sp[2]] != m:
                    # two coordinates of one fancy store disagree
                    if S.delta(out[sp[2]] - m).is_zero():
                        ok = False
                        break
                    raise Undecided('fancy store coordinates')
                out[sp[2]] = m
        if not ok:
            return a.f(ix)
        off = len(out) - val.ndim
        sub = tuple(ZERO if val.shape[k] == ONE and (oshape[k + off] != ONE) else out[k + off]
                    for k in range(val.ndim)) if off >= 0 else tuple([ZERO] * (-off) + out)
        v = val.f(sub)
        if op:
            v = op(a.f(ix), v)
        if gate is not ONE:
            return gate * v + (ONE - gate) * a.f(ix)
        return v
    # value cuts shift into the target
    k = 0
    for d, sp in enumerate(spec):
        if sp[0] == 's':
            vd = sp[4] - (len(oshape) - val.ndim)
            if 0 <= vd < val.ndim and val.shape[vd] == oshape[sp[4]]:
                if isinstance(sp[2], Expr):
                    cuts[d] += [c * sp[2] for c in val.cuts[vd]]
                    if val.mods[vd]:
                        raise Undecided('symbolic stride store of residue classes')
                elif sp[2] == 1:
                    cuts[d] += [c + sp[1] for c in val.cuts[vd]]
                    mods[d] |= set(val.mods[vd])
                elif val.cuts[vd]:
                    cuts[d] += [sp[1] + c * sp[2] for c in val.cuts[vd]]
    return Arr(a.shape, f, [uniq(c) for c in cuts], mods)

# ------------------------------------------------------------- comparison
def generic_indices(shape, cutlists, modlists=None):
    """yield (tuple of fresh generic indices, label) one per uniform box"""
    dims = []
    for d, n in enumerate(shape):
        opts = []
        ms = [m for m in (modlists[d] if modlists else ())]
        m = max(ms) if ms else 1
        for a, b in pieces(cutlists[d], n):
            if m == 1:
                if (b - a) == ONE:
                    opts.append((a, '%s' % a))
                else:
                    opts.append((None, a, b, 1, 0))
            else:
                for r in range(m):
                    q, rr = divpoly(b - a - r + m - 1, m)
                    if q is None:
                        raise Undecided('residue piece')
                    if q.const_value() == 0:
                        continue
                    opts.append((None, a, q, m, r))
        dims.append(opts)
    def rec(d):
        if d == len(dims):
            yield (), ()
            return
        for o in dims[d]:
            if o[0] is not None:
                i, lab = o[0], '[%s]' % o[0]
            else:
                _, a, b, m, r = o
                if m == 1:
                    k = S.fresh('i', ZERO, b - a)
                    i, lab = k + a, '[%s,%s)' % (a, b)
                else:
                    k = S.fresh('i', ZERO, b)
                    i, lab = k * m + a + r, '[%s::%d]' % (a + r, m)
            for rest, l2 in rec(d + 1):
                yield (i,) + rest, (lab,) + l2
    yield from rec(0)

def key_of(a):
    """structural identity of an array value"""
    if not isinstance(a, Arr):
        return lift(a).key
    if a._key is not None:
        return a._key
    if a.tag and a.tag[0] == 'leaf':
        a._key = 'leaf:' + a.tag[1]
        return a._key
    parts = ['shape' + str([s.key for s in a.shape])]
    # entries written with absolute position symbols, equal neighbours merged
    prev = None
    for ix, lab in generic_indices(a.shape, a.cuts, a.mods):
        e = a.f(ix)
        if a.ndim == 1 and not any(a.mods):
            i = ix[0]
            names = [n for n in i.syms if n.startswith('i~')]
            if names:
                off = i - S.sym(names[0])
                e2 = S.subst(e, {names[0]: S.sym('#0') - off})
                if prev is not None and prev == e2.key:
                    continue
                if prev is not None and prev.startswith('@') :
                    pass
                prev = e2.key
                parts.append('%s:%s' % (lab[0].split(',')[0], prev))
                continue
            if prev is not None and _fits(prev, i, e):
                continue
            prev = None
            parts.append('%s=%s' % (lab[0], e.key))
            continue
        sub = {}
        for d, i in enumerate(ix):
            for n in i.syms:
                if n.startswith('i~'):
                    nn = '#%d' % d
                    S.RANGES[nn + '@' + lab[d]] = S.RANGES[n]
                    sub[n] = S.sym(nn + '@' + lab[d])
        parts.append('%s=%s' % (lab, S.subst(e, sub).key))
    a._key = ';'.join(parts)
    return a._key

def _fits(prev, i, e):
    return False

def compare(a, b):
    """list of (label, verdict, difference) per uniform box"""
    a, b = to_arr(a), to_arr(b)
    if a.ndim != b.ndim or any(x != y for x, y in zip(a.shape, b.shape)):
        yield ('shape %s vs %s' % (a.shape, b.shape), shape_verdict(a, b), None)
        return
    if S.SIZES and all(x.const_value() is not None for x in a.shape):
        yield ('entries', *each_entry(lambda ix: a.f(ix) - b.f(ix), [range(int(x.const_value())) for x in a.shape]))
        return
    cuts = [uniq(list(x) + list(y)) for x, y in zip(a.cuts, b.cuts)]
    mods = [x | y for x, y in zip(a.mods, b.mods)]
    for ix, lab in generic_indices(a.shape, cuts, mods):
        try:
            d = a.f(ix) - b.f(ix)
            v = S.is_zero(d)
        except Undecided as u:
            yield (lab, None, str(u))
            continue
        yield (lab, v, d)

def each_entry(diff, ranges, cap=120):
    """fixed sizes: compare every entry; (verdict, difference)"""
    import itertools
    combos = list(itertools.product(*ranges))
    if len(combos) > cap:
        step = len(combos) // cap + 1
        while any(step % k == 0 for k in (2, 3, 5)):
            step += 1
        combos = combos[::step]
    res, det = True, ''
    for cb in combos:
        try:
            d = diff(tuple(const(x) for x in cb))
            v = S.is_zero(d)
        except Undecided as u:
            v, d = None, str(u)
        if v is False:
            return False, 'entry %s: %s' % (list(cb), d)
        if v is None:
            res, det = None, 'entry %s: %s' % (list(cb), d)
    return res, det

def shape_verdict(a, b):
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a.shape, b.shape):
        d = x - y
        if ge(d, ONE) is True or ge(const(-1), d) is True:
            return False
    return None
