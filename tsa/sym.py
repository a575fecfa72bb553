"""Normal forms for scalar expressions written in index notation.

An Expr is a polynomial  sum_t c_t * SUM_{bound vars} prod factor^exponent
with rational coefficients.  Factors are atoms:

  Sym   a scalar symbol (size, index variable, scalar parameter)
  Elem  one element of a named array, with index expressions
  Fn    application of a known function to scalar expressions
  Par   a parenthesised polynomial (only ever carries a non natural exponent)
  Delta Kronecker delta on an integer expression
  Ind   indicator of a named condition

No number is ever substituted for an input and nothing is executed: the module
only rewrites terms.  Every operation that cannot be decided raises Undecided.
"""
from fractions import Fraction
from itertools import permutations, count

class Undecided(Exception):
    pass

_fresh = count()
RANGES = {}          # symbol name -> (lo Expr, hi Expr or None): lo <= s < hi
FRACTION = set()      # symbols between 0 and 1
POSITIVE = set()     # names of scalar symbols known to be > 0
BIND = {}            # loop symbol -> Expr while one iteration is selected
ELEM_MIN = {}        # array name -> lower bound of every (integer) entry
ELEM_MAX = {}        # array name -> largest entry (a symbol)

SIZES = {}       # sizes fixed to small numbers (second attempt of an undecided comparison)
SMALL = dict(Nd=2, n2=1, Nn=3, Nt=3, nF=2, nz=2, r1=1, nm=2)

def reset():
    RANGES.clear()
    POSITIVE.clear()
    BIND.clear()
    ELEM_MIN.clear()
    ELEM_MAX.clear()
    _DERIV.clear()
    from . import rand
    rand.LEAFARGS.clear()
    FRACTION.clear()
    rand.DIVS.clear()

class Atom:
    __slots__ = ('kind', 'args', 'key', 'depth', 'syms')
    _tab = {}
    def __new__(cls, kind, *args):
        parts = []
        depth = 0
        syms = frozenset()
        for a in args:
            if isinstance(a, Expr):
                parts.append(a.key)
                depth = max(depth, a.depth)
                syms |= a.syms
            elif isinstance(a, tuple):
                parts.append('(' + ','.join(x.key for x in a) + ')')
                for x in a:
                    depth = max(depth, x.depth)
                    syms |= x.syms
            else:
                parts.append(str(a))
        if kind == 'Sym':
            key = args[0]
            syms = frozenset([args[0]])
        else:
            key = kind + '[' + ';'.join(parts) + ']'
        got = cls._tab.get(key)
        if got is not None:
            return got
        self = object.__new__(cls)
        self.kind, self.args, self.key, self.depth, self.syms = kind, args, key, depth, syms
        cls._tab[key] = self
        return self
    def __repr__(self):
        return self.key

def _ekey(e):
    return e.key if isinstance(e, Expr) else str(e)

class Expr:
    """terms: dict mono -> Fraction; mono = (bounds, factors)
    bounds: tuple of (name, hi Expr)   (lower limit always 0)
    factors: tuple of (Atom, exponent) with exponent Fraction or Expr"""
    __slots__ = ('terms', '_key', '_depth', '_syms')
    def __init__(self, terms):
        self.terms = {m: c for m, c in terms.items() if c != 0}
        self._key = None
        self._depth = None
        self._syms = None
    @property
    def key(self):
        if self._key is None:
            if not self.terms:
                self._key = '0'
            else:
                self._key = '+'.join(sorted(_termkey(m, c) for m, c in self.terms.items()))
        return self._key
    @property
    def depth(self):
        if self._depth is None:
            d = 0
            for (b, f), _ in self.terms.items():
                k = 0
                for a, e in f:
                    k = max(k, a.depth, e.depth if isinstance(e, Expr) else 0)
                for _, hi in b:
                    k = max(k, hi.depth)
                if b:
                    k += 1
                d = max(d, k)
            self._depth = d
        return self._depth
    @property
    def syms(self):
        if self._syms is None:
            s = set()
            for (b, f), _ in self.terms.items():
                for a, e in f:
                    s |= a.syms
                    if isinstance(e, Expr):
                        s |= e.syms
                for n, hi in b:
                    s |= hi.syms
                for n, hi in b:
                    s.discard(n)
            self._syms = frozenset(s)
        return self._syms
    def __repr__(self):
        return self.key
    def __hash__(self):
        return hash(self.key)
    def __eq__(self, o):
        if isinstance(o, Expr):
            return self.key == o.key
        if isinstance(o, (int, Fraction)):
            return self.key == const(o).key
        return NotImplemented
    def is_const(self):
        return all(m == ((), ()) for m in self.terms)
    def const_value(self):
        if not self.terms:
            return Fraction(0)
        if self.is_const():
            return self.terms[((), ())]
        return None
    def is_zero(self):
        return not self.terms
    # arithmetic
    def __add__(self, o):
        o = lift(o)
        t = dict(self.terms)
        for m, c in o.terms.items():
            t[m] = t.get(m, 0) + c
        return Expr(t)
    __radd__ = __add__
    def __neg__(self):
        return Expr({m: -c for m, c in self.terms.items()})
    def __sub__(self, o):
        return self + (-lift(o))
    def __rsub__(self, o):
        return lift(o) + (-self)
    def __mul__(self, o):
        o = lift(o)
        out = {}
        if len(self.terms) * len(o.terms) > 20000:
            raise Undecided('expression too large')
        for m1, c1 in self.terms.items():
            for m2, c2 in o.terms.items():
                for m, c in _mulmono(m1, m2):
                    out[m] = out.get(m, 0) + c * c1 * c2
        return Expr(out)
    __rmul__ = __mul__
    def __truediv__(self, o):
        return self * power(lift(o), Fraction(-1))
    def __rtruediv__(self, o):
        return lift(o) * power(self, Fraction(-1))
    def __pow__(self, p):
        return power(self, p)

def _termkey(m, c):
    b, f = m
    s = '' if c == 1 and (f or b) else str(c)
    if b:
        s += 'S{' + ','.join(n + '<' + hi.key for n, hi in b) + '}'
    s += '*'.join(a.key + ('' if e == 1 else '^(' + _ekey(e) + ')') for a, e in f)
    return s

def const(c):
    c = Fraction(c)
    return Expr({((), ()): c}) if c else Expr({})
ZERO = const(0)
ONE = const(1)

def lift(x):
    if isinstance(x, Expr):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, (int, Fraction)):
        return const(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    raise Undecided('cannot lift %r' % (x,))

def atom(a, e=Fraction(1)):
    return Expr({((), ((a, e),)): Fraction(1)})

def sym(name, lo=None, hi=None, positive=False):
    if SIZES and name in SIZES and lo is not None:
        return const(SIZES[name])
    if lo is not None:
        RANGES[name] = (lift(lo), None if hi is None else lift(hi))
    if positive:
        POSITIVE.add(name)
    return atom(Atom('Sym', name))

def fresh(prefix, lo=None, hi=None):
    return sym('%s~%d' % (prefix, next(_fresh)), lo, hi)

def symname(e):
    """name when e is exactly one plain symbol"""
    if len(e.terms) == 1:
        (b, f), c = next(iter(e.terms.items()))
        if not b and c == 1 and len(f) == 1 and f[0][1] == 1 and f[0][0].kind == 'Sym':
            return f[0][0].args[0]
    return None

SYMMETRIC = set()

def elem(name, idx):
    idx = tuple(lift(i) for i in idx)
    if name in SYMMETRIC and len(idx) == 2 and idx[1].key < idx[0].key:
        idx = (idx[1], idx[0])
    return atom(Atom('Elem', name, idx))

def ind(name, *args):
    return atom(Atom('Ind', name, tuple(args)))

# ---------------------------------------------------------------- exponents
def _norm_exp(e):
    if isinstance(e, Expr):
        v = e.const_value()
        return v if v is not None else e
    return Fraction(e)

def _addexp(a, b):
    if isinstance(a, Expr) or isinstance(b, Expr):
        return _norm_exp(lift(a) + lift(b))
    return a + b

# ---------------------------------------------------------------- monomials
def _open(mono):
    """rename the bound variables of a monomial to fresh ranged symbols"""
    b, f = mono
    if not b:
        return b, f
    sub = {}
    nb = []
    for n, hi in b:
        v = fresh('k')
        nm = symname(v)
        sub[n] = v
        nb.append([nm, hi])
    for x in nb:
        x[1] = subst(x[1], sub)
        RANGES[x[0]] = (ZERO, x[1])
    nf = tuple((subst_atom(a, sub), subst(e, sub) if isinstance(e, Expr) else e) for a, e in f)
    return tuple((n, hi) for n, hi in nb), nf

class _NotAtom(Exception):
    pass

def subst_atom(a, sub):
    """substitute symbols inside an atom; the result must again be an atom
    (index shifts and renamings always satisfy that)"""
    e = _subst_atom_expr(a, sub)
    if len(e.terms) == 1:
        (b, f), c = next(iter(e.terms.items()))
        if not b and c == 1 and len(f) == 1 and f[0][1] == 1:
            return f[0][0]
    raise _NotAtom()

def _subst_atom_expr(a, sub):
    if not (a.syms & sub.keys()):
        return atom(a)
    k = a.kind
    if k == 'Sym':
        return sub.get(a.args[0], atom(a))
    if k == 'Elem':
        return elem(a.args[0], tuple(subst(i, sub) for i in a.args[1]))
    if k == 'Fn':
        return fn(a.args[0], *[subst(i, sub) for i in a.args[1]])
    if k == 'Par':
        return atom(Atom('Par', subst(a.args[0], sub)))
    if k == 'Delta':
        return delta(subst(a.args[0], sub))
    if k == 'Ind':
        return atom(Atom('Ind', a.args[0], tuple(subst(i, sub) for i in a.args[1])))
    if k == 'Num':
        return atom(a)
    raise Undecided('subst ' + k)

def subst(e, sub):
    if not sub or not (e.syms & sub.keys()):
        return e
    out = ZERO
    for m, c in e.terms.items():
        b, f = _open(m)
        t = const(c)
        for a, p in f:
            x = _subst_atom_expr(a, sub)
            p2 = subst(p, sub) if isinstance(p, Expr) else p
            t = t * power(x, p2)
        for n, hi in b:
            t = summation(t, n, subst(hi, sub))
        out = out + t
    return out

def replace_elem(e, name, f):
    """e with every entry name[ix] replaced by f(ix)"""
    mark = 'Elem[%s;' % name
    def inside(x):
        if isinstance(x, Expr):
            return replace_elem(x, name, f)
        if isinstance(x, tuple):
            return tuple(inside(y) for y in x)
        return x
    if mark not in e.key:
        return e
    out = ZERO
    for m, c in e.terms.items():
        b, fac = _open(m)
        t = const(c)
        for a, p in fac:
            if mark not in a.key:
                x = atom(a)
            elif a.kind == 'Elem':
                ix = tuple(inside(i) for i in a.args[1])
                x = f(ix) if a.args[0] == name else elem(a.args[0], ix)
            elif a.kind == 'Fn':
                x = fn(a.args[0], *[inside(i) for i in a.args[1]])
            elif a.kind == 'Par':
                x = atom(Atom('Par', inside(a.args[0])))
            elif a.kind == 'Delta':
                x = delta(inside(a.args[0]))
            elif a.kind == 'Ind':
                x = ind(a.args[0], *[inside(i) for i in a.args[1]])
            else:
                raise Undecided('substitution in ' + a.kind)
            t = t * power(x, inside(p) if isinstance(p, Expr) else p)
        for n, hi in b:
            t = summation(t, n, hi)
        out = out + t
    return out

def _sortf(f):
    return tuple(sorted(f, key=lambda x: (x[0].key, _ekey(x[1]))))

def _canon(bounds, factors):
    """canonical monomial: bound variables renamed by nesting depth"""
    if not bounds:
        return ((), _sortf(factors))
    d = 1
    for a, e in factors:
        d = max(d, a.depth + 1, (e.depth + 1) if isinstance(e, Expr) else 1)
    names = ['$%d_%d' % (d, i) for i in range(len(bounds))]
    his = dict(bounds)
    inc = {n: [(a, e) for a, e in factors if n in a.syms or (isinstance(e, Expr) and n in e.syms)] for n in his}
    def refine(col):
        """colour refinement: a bound variable is described by its factors in
        which the other bound variables are replaced by their colours"""
        while True:
            sig = {}
            for n in his:
                sub = {m: sym('?c%d' % col[m]) for m in his}
                sub[n] = sym('?s')
                s = []
                for a, e in inc[n]:
                    try:
                        ek = _ekey(subst(e, sub)) if isinstance(e, Expr) else _ekey(e)
                        s.append(subst_atom(a, sub).key + '^' + ek)
                    except _NotAtom:
                        s.append('!')
                sig[n] = (col[n], his[n].key, tuple(sorted(s)))
            rank = {k: i for i, k in enumerate(sorted(set(sig.values())))}
            new = {n: rank[sig[n]] for n in his}
            if len(rank) == len(set(col.values())):
                return new
            col = new
    best = [None]
    leaves = [0]
    def visit(col):
        cells = {}
        for n, k in col.items():
            cells.setdefault(k, []).append(n)
        for k in sorted(cells):
            if len(cells[k]) > 1:
                for n in sorted(cells[k]):
                    c2 = {m: 2 * v + (1 if v == k and m != n else 0) for m, v in col.items()}
                    visit(refine(c2))
                return
        leaves[0] += 1
        if leaves[0] > 800:
            raise Undecided('too many bound variables')
        o = sorted(col, key=lambda n: col[n])
        sub = {n: sym(names[i]) for i, n in enumerate(o)}
        nf = _sortf(tuple((subst_atom(a, sub), subst(e, sub) if isinstance(e, Expr) else e) for a, e in factors))
        nb = tuple((names[i], his[n]) for i, n in enumerate(o))
        k = _termkey((nb, nf), 1)
        if best[0] is None or k < best[0][0]:
            best[0] = (k, (nb, nf))
    visit(refine({n: 0 for n in his}))
    return best[0][1]

def _merge_factors(f1, f2):
    d = {}
    order = {}
    for a, e in tuple(f1) + tuple(f2):
        if a.key in d:
            d[a.key] = (a, _addexp(d[a.key][1], e))
        else:
            d[a.key] = (a, e)
    out = []
    for a, e in d.values():
        if not isinstance(e, Expr) and e == 0:
            continue
        if a.kind in ('Delta', 'Ind') and not isinstance(e, Expr) and e > 1:
            e = Fraction(1)
        out.append((a, e))
    return tuple(out)

def _mulmono(m1, m2):
    b1, f1 = m1
    b2, f2 = m2
    if not b1 and not b2:
        f = _merge_factors(f1, f2)
        # Par atoms whose exponent became natural must be expanded again
        nat = [(a, e) for a, e in f if a.kind in ('Par', 'Num') and not isinstance(e, Expr) and e.denominator == 1
               and (e > 0 or a.kind == 'Num')]
        if nat:
            rest = tuple(x for x in f if x not in nat)
            e = Expr({_canon((), rest): Fraction(1)})
            for a, p in nat:
                if a.kind == 'Num':
                    e = e * const(Fraction(a.args[0]) ** int(p))
                else:
                    e = e * power(a.args[0], p)
            return list(e.terms.items())
        return [(_canon((), f), Fraction(1))]
    o1b, o1f = _open(m1)
    o2b, o2f = _open(m2)
    e = ZERO
    for m, c in _mulmono(((), o1f), ((), o2f)):
        t = Expr({m: c})
        for n, hi in o1b + o2b:
            t = summation(t, n, hi)
        e = e + t
    return list(e.terms.items())

def power(e, p):
    e = lift(e)
    p = _norm_exp(p)
    if not isinstance(p, Expr):
        if p == 0:
            return ONE
        if p == 1:
            return e
    v = e.const_value()
    if v is not None:
        if v == 0:
            if isinstance(p, Expr):
                raise Undecided('0**symbolic')
            if p < 0:
                raise Undecided('division by zero')
            return ZERO
        if v == 1:
            return ONE
        if not isinstance(p, Expr) and p.denominator == 1:
            return const(v ** int(p))
        if not isinstance(p, Expr) and v > 0:
            r = _exact_root(v, p)
            if r is not None:
                return const(r)
        return atom(Atom('Num', str(v)), p)
    if isinstance(p, Expr) or p.denominator != 1 or p < 0:
        if isinstance(p, Expr) or p.denominator != 1:
            e = _signabs(e)
        if len(e.terms) == 1:
            m, c = next(iter(e.terms.items()))
            b, f = m
            if not b:
                isint = (not isinstance(p, Expr)) and p.denominator == 1
                single = len(f) == 1 and c == 1 and f[0][1] == 1
                if isint or single or all(_rootable(x) for x in f) and c > 0:
                    out = ONE
                    if c != 1:
                        out = power(const(c), p)
                    for a, q in f:
                        if isinstance(p, Expr) or isinstance(q, Expr):
                            nq = _norm_exp(lift(q) * lift(p))
                        else:
                            nq = q * p
                        out = out * Expr({((), ((a, nq),)): Fraction(1)})
                    return out
        lead = None
        if not isinstance(p, Expr) and p.denominator == 1:
            m0 = min(e.terms, key=lambda m: _termkey(m, 1))
            lead = e.terms[m0]
            e = e * const(1 / lead)
        a = atom(Atom('Par', e), p)
        return a if lead is None else const(lead ** int(p)) * a
    out = ONE
    n = int(p)
    if n > 8:
        raise Undecided('large power')
    for _ in range(n):
        out = out * e
    return out

def _signabs(e):
    """sign(z) * z is the absolute value"""
    for m in e.terms:
        for a, p in m[1]:
            if a.kind == 'Fn' and a.args[0] == 'sign' and p == 1 and not m[0]:
                z = a.args[1][0]
                if e == atom(a) * z:
                    return fn('abs', z)
                if e == -(atom(a) * z):
                    return -fn('abs', z)
    # the argument was distributed over a sum
    for m in e.terms:
        for a, p in m[1]:
            if a.kind == 'Fn' and a.args[0] == 'sign' and p == 1:
                try:
                    z = a.args[1][0]
                    if e == fn('sign', z) * z:
                        return fn('abs', z)
                except Undecided:
                    pass
        break
    return e

def _rootable(fe):
    a, q = fe
    if a.kind == 'Par':
        return True
    if a.kind == 'Num':
        return True
    if a.kind == 'Sym' and a.args[0] in POSITIVE:
        return True
    return a.kind == 'Fn' and a.args[0] == 'abs'

def _exact_root(v, p):
    try:
        n, d = v.numerator, v.denominator
        rn = round(n ** (1.0 / p.denominator))
        rd = round(d ** (1.0 / p.denominator))
        if rn ** p.denominator == n and rd ** p.denominator == d:
            return Fraction(rn, rd) ** p.numerator
    except (OverflowError, ValueError):
        return None
    return None

def sqrt(e):
    return power(e, Fraction(1, 2))

# ---------------------------------------------------------------- functions
def logpow(e):
    """log(a^p) = p log(a) for a single power"""
    if len(e.terms) == 1:
        (b, f), c = next(iter(e.terms.items()))
        if not b and c == 1 and len(f) == 1:
            a, p = f[0]
            return lift(p) * fn('log', atom(a))
    return fn('log', e)

def fn(name, *args):
    args = tuple(lift(a) for a in args)
    if name == 'stop' and 'Elem[jx#' not in args[0].key:      # the value of stop_gradient, once nothing is differentiated
        return args[0]
    if name in ('cos', 'sin', 'abs', 'sign', 'tan', 'arctan') and len(args) == 1:
        a = args[0]
        v = a.const_value()
        if v == 0:
            return ONE if name == 'cos' else ZERO
        if v is not None and name == 'abs':
            return const(abs(v))
        if v is not None and name == 'sign':
            return const(1 if v > 0 else -1)
        # parity: normalise the sign of the leading term
        if a.terms:
            m0 = min(a.terms, key=lambda m: _termkey(m, 1))
            if a.terms[m0] < 0:
                if name in ('cos', 'abs'):
                    return fn(name, -a)
                return -fn(name, -a)
        if name == 'abs':
            n = symname(a)
            if n in POSITIVE:
                return a
    if name == 'log' and args[0] == ONE:
        return ZERO
    if name == 'exp' and args[0].is_zero():
        return ONE
    if name in ('max', 'min') and len(args) == 2:
        a, b = args
        if a == b:
            return a
        s = ge(a, b)
        if s is True:
            return a if name == 'max' else b
        s = ge(b, a)
        if s is True:
            return b if name == 'max' else a
        args = tuple(sorted(args, key=lambda x: x.key))
    if name in ('real', 'imag', 'conj'):
        return _complexpart(name, args[0])
    return atom(Atom('Fn', name, args))

def _complexpart(name, e):
    """linear split on the imaginary unit symbol 'j'"""
    re_, im_ = ZERO, ZERO
    for m, c in e.terms.items():
        b, f = m
        n = 0
        rest = []
        cplx = []
        for a, p in f:
            if a.kind == 'Sym' and a.args[0] == 'j#':
                n = int(p)
            elif a.kind == 'Elem' and a.args[0].startswith('C:'):
                cplx.append(a)
                rest.append((a, p))
            else:
                rest.append((a, p))
        if not cplx:
            t = Expr({_canon(b, tuple(rest)): c})
            ph = n % 4
            if ph == 0: re_ = re_ + t
            elif ph == 1: im_ = im_ + t
            elif ph == 2: re_ = re_ - t
            else: im_ = im_ - t
        elif len(cplx) == 1 and not b:
            base = Expr({_canon((), tuple(x for x in rest if x[0] is not cplx[0])): c})
            z = atom(cplx[0])
            zr, zi = atom(Atom('Fn', 'real', (z,))), atom(Atom('Fn', 'imag', (z,)))
            for _ in range(n % 4):
                zr, zi = -zi, zr
            re_ = re_ + base * zr
            im_ = im_ + base * zi
        else:
            raise Undecided('complex part')
    if name == 'real':
        return re_
    if name == 'imag':
        return im_
    return re_ - sym('j#') * im_

def J():
    return sym('j#')

# ---------------------------------------------------------------- ordering
def _eliminate(e, want_min):
    """lower (want_min) or upper bound of polynomial e by substituting range
    limits for ranged symbols.  None when it cannot be bounded."""
    for _ in range(60):
        names = [n for n in e.syms if n in RANGES]
        if not names:
            return e
        # pick a symbol which no other ranged symbol's limits mention
        pick = None
        for n in sorted(names):
            if not any(n in RANGES[o][0].syms or (RANGES[o][1] is not None and n in RANGES[o][1].syms)
                       for o in names if o != n):
                pick = n
                break
        if pick is None:
            return None
        lo, hi = RANGES[pick]
        lin, rest = _linear(e, pick)
        if lin is None:
            # not linear: only a base symbol with lo constant can stay
            if hi is None:
                sh = subst(e, {pick: sym(pick + "'") + lo})
                e = sh
                continue
            return None
        if hi is None:
            e = subst(e, {pick: sym(pick + "'") + lo})
            continue
        sgn = sign_of(lin)
        if sgn is None:
            return None
        if sgn == 0:
            e = rest
        elif (sgn > 0) == want_min:
            e = rest + lin * lo
        else:
            e = rest + lin * (hi - 1)
    return None

def _linear(e, name):
    lin, rest = ZERO, ZERO
    for m, c in e.terms.items():
        b, f = m
        inv = [(a, p) for a, p in f if name in a.syms or (isinstance(p, Expr) and name in p.syms)]
        if not inv:
            if any(name in hi.syms for _, hi in b):
                return None, None
            rest = rest + Expr({m: c})
        elif len(inv) == 1 and inv[0][0].kind == 'Sym' and inv[0][1] == 1 and not b:
            lin = lin + Expr({_canon((), tuple(x for x in f if x[0] is not inv[0][0])): c})
        else:
            return None, None
    return lin, rest

def _allpos(e):
    """every monomial a product of primed (>=0) symbols with coefficient >= 0;
    returns the constant term or None"""
    k = Fraction(0)
    for (b, f), c in e.terms.items():
        if b:
            return None
        for a, p in f:
            if a.kind != 'Sym' or not a.args[0].endswith("'") or isinstance(p, Expr) or p < 0 or p.denominator != 1:
                return None
        if c < 0:
            return None
        if not f:
            k += c
    return k

def ge(a, b):
    """True if a >= b always, False if a < b always, None otherwise (integers)"""
    d = resolve(lift(a) - lift(b))
    v = d.const_value()
    if v is not None:
        return v >= 0
    d = _elems(d)
    m = _eliminate(d, True)
    if m is not None:
        k = _allpos(m)
        if k is not None and k >= 0:
            return True
    m = _eliminate(-d, True)
    if m is not None:
        k = _allpos(m)
        if k is not None and k >= 1:
            return False
    return None

def resolve(e):
    n = 0
    while BIND and (e.syms & BIND.keys()) and n < 5:
        e = subst(e, dict(BIND))
        n += 1
    return e

def _elems(e):
    """replace integer array entries with a known minimum by primed symbols"""
    if not ELEM_MIN:
        return e
    out = None
    for (b, f), c in e.terms.items():
        for a, p in f:
            if a.kind == 'Elem' and a.args[0] in ELEM_MIN:
                out = True
    if not out:
        return e
    r = ZERO
    for (b, f), c in e.terms.items():
        t = const(c)
        if b:
            return e
        for a, p in f:
            if a.kind == 'Elem' and a.args[0] in ELEM_MIN:
                lo, hi = ELEM_MIN[a.args[0]], ELEM_MAX.get(a.args[0])
                v = sym(a.key + "'") if hi is None else sym(a.key + "'", ZERO, hi - lo + 1)
                t = t * power(v + lo, p)
            else:
                t = t * Expr({((), ((a, p),)): Fraction(1)})
        r = r + t
    return r

def sign_of(e):
    v = e.const_value()
    if v is not None:
        return (v > 0) - (v < 0)
    if ge(e, ONE) is True:
        return 1
    if ge(e, ONE) is False and ge(e, ZERO) is False:
        return -1
    return None

UNIQUE = set()       # integer arrays without repeated entries

def _distinct(e):
    """the integer expression is never zero: difference of two different entries
    of an array without repetitions, or an odd number"""
    odd = e.terms.get(((), ()))
    if odd is not None and odd.denominator == 1 and odd % 2 == 1 and all(
            c.denominator == 1 and c % 2 == 0 and not m[0] and all(_intatom(a, p) for a, p in m[1])
            for m, c in e.terms.items() if m != ((), ())):
        return True
    if len(e.terms) != 2:
        return False
    (m1, c1), (m2, c2) = e.terms.items()
    if c1 != -c2 or m1[0] or m2[0] or len(m1[1]) != 1 or len(m2[1]) != 1:
        return False
    (a1, p1), (a2, p2) = m1[1][0], m2[1][0]
    if p1 != 1 or p2 != 1 or a1.kind != 'Elem' or a2.kind != 'Elem' or a1.args[0] != a2.args[0] or a1.args[0] not in UNIQUE:
        return False
    d = a1.args[1][0] - a2.args[1][0]
    return ge(d, ONE) is True or ge(-d, ONE) is True

def _intatom(a, p):
    if isinstance(p, Expr) or p.denominator != 1 or p < 0:
        return False
    return (a.kind == 'Sym' and (a.args[0] in RANGES)) or (a.kind == 'Elem' and a.args[0] in ELEM_MIN)

def delta(e):
    e = resolve(e)
    v = e.const_value()
    if v is not None:
        return ONE if v == 0 else ZERO
    if ge(e, ONE) is True or ge(ZERO, e + 1) is True:
        return ZERO
    if _distinct(e):
        return ZERO
    two = _radix(e)
    if two is not None:
        return delta(two[0]) * delta(two[1])
    m0 = min(e.terms, key=lambda m: _termkey(m, 1))
    if e.terms[m0] < 0:
        e = -e
    return atom(Atom('Delta', e))

def _radix(e):
    """e = p*A + B with integer A, a size p >= 1 and |B| < p vanishes exactly when A and B do"""
    if len(e.terms) < 2:
        return None
    sizes = {}
    for m, c in e.terms.items():
        if m[0] or c.denominator != 1 or not all(_intatom(a, q) for a, q in m[1]):
            return None
        if sum(q for _, q in m[1]) >= 2:
            for a, q in m[1]:
                sizes[a] = 1
    for p in sorted(sizes, key=lambda a: a.key):
        if p.kind != 'Sym' or ge(atom(p), ONE) is not True:
            continue
        A_, B_ = {}, {}
        for m, c in e.terms.items():
            q = dict(m[1]).get(p)
            if q is None:
                B_[m] = c
                continue
            rest = tuple((a, x - 1 if a is p or a == p else x) for a, x in m[1])
            rest = tuple((a, x) for a, x in rest if x != 0)
            A_[((), rest)] = c
        if not B_ or not A_:
            continue
        A_, B_ = Expr(A_), Expr(B_)
        pe = atom(p)
        if ge(pe - 1, B_) is True and ge(B_, ONE - pe) is True:
            return A_, B_
    return None

# ---------------------------------------------------------------- sums
def summation(e, name, hi):
    """SUM_{name=0}^{hi-1} e ; name must be a symbol with RANGES set"""
    out = ZERO
    hv = hi.const_value()
    if hv is not None and hv <= 0:
        return ZERO
    if SIZES and hv is not None and hv <= 12 and name in e.syms:
        for k in range(int(hv)):
            out = out + subst(e, {name: const(k)})
        return out
    for m, c in e.terms.items():
        b, f = m
        used = name in Expr({m: Fraction(1)}).syms
        if not used:
            out = out + Expr({m: c}) * hi
            continue
        if hv is not None and hv == 1:
            out = out + subst(Expr({m: c}), {name: ZERO})
            continue
        # contract a Kronecker delta mentioning the variable linearly
        done = False
        for a, p in f:
            if a.kind == 'Delta' and name in a.syms:
                lin, rest = _linear(a.args[0], name)
                if lin is not None and lin.const_value() in (1, -1):
                    sol = -rest if lin.const_value() == 1 else rest
                    inlo, inhi = ge(sol, ZERO), ge(hi - 1, sol)
                    if inlo is True and inhi is True:
                        ob, of = _open((b, tuple(x for x in f if x[0] is not a)))
                        t = subst(Expr({_canon((), of): c}), {name: sol})
                        for n2, h2 in ob:
                            t = summation(t, n2, h2)
                        out = out + t
                        done = True
                        break
                    if inlo is False or inhi is False:
                        done = True
                        break
        if done:
            continue
        ob, of = _open(m) if b else (b, f)
        out = out + Expr({_canon(ob + ((name, hi),), of): c})
    return out

def sum_range(body, lo, hi):
    """SUM over k in [lo,hi) of body(k), body a python callable on an Expr"""
    n = hi - lo
    if ge(ZERO, n) is True:
        return ZERO
    if SIZES and n.const_value() is not None and n.const_value() <= 12:
        out = ZERO
        for k in range(int(n.const_value())):
            out = out + body(lo + k)
        return out
    k = fresh('k', ZERO, n)
    return summation(body(k + lo), symname(k), n)

# ---------------------------------------------------------------- derivative
_DERIV = {}      # array name -> callable(idx tuple, wrt) -> Expr

def register_deriv(name, f):
    _DERIV[name] = f

def diff(e, wrt):
    """wrt = (leafname, idx tuple)"""
    out = ZERO
    for m, c in e.terms.items():
        b, f = _open(m)
        tot = ZERO
        for i, (a, p) in enumerate(f):
            others = Expr({_canon((), f[:i] + f[i + 1:]): Fraction(1)})
            da = diff_atom(a, wrt)
            if isinstance(p, Expr):
                dp = diff(p, wrt)
            else:
                dp = ZERO
            part = ZERO
            if not da.is_zero():
                part = part + lift(p) * power(atom(a), _norm_exp(lift(p) - 1)) * da
            if not dp.is_zero():
                part = part + atom(a, p) * fn('log', atom(a) if a.kind != 'Num' else const(Fraction(a.args[0]))) * dp
            if not part.is_zero():
                tot = tot + others * part
        tot = tot * const(c)
        for n, hi in b:
            tot = summation(tot, n, hi)
        out = out + tot
    return out

def diff_atom(a, wrt):
    k = a.kind
    leaf, idx = wrt
    if k == 'Sym':
        return ONE if a.args[0] == leaf else ZERO
    if k == 'Num':
        return ZERO
    if k == 'Elem':
        nm, ix = a.args
        if nm == leaf:
            r = ONE
            for x, y in zip(ix, idx):
                r = r * delta(x - y)
            return r
        if nm in _DERIV:
            return _DERIV[nm](ix, wrt)
        return ZERO
    if k == 'Par':
        return diff(a.args[0], wrt)
    if k in ('Delta', 'Ind'):
        return ZERO
    if k == 'Fn':
        n, args = a.args
        ds = [diff(x, wrt) for x in args]
        if all(d.is_zero() for d in ds):
            return ZERO
        if n == 'sin': return fn('cos', args[0]) * ds[0]
        if n == 'cos': return -fn('sin', args[0]) * ds[0]
        if n == 'exp': return fn('exp', args[0]) * ds[0]
        if n == 'log': return ds[0] / args[0]
        if n == 'abs': return fn('sign', args[0]) * ds[0]
        if n == 'tanh': return (1 - fn('tanh', args[0]) ** 2) * ds[0]
        if n in ('sign', 'stop'): return ZERO
        if n == 'max':
            i = fn('gt', args[0] - args[1], ZERO)
            return i * ds[0] + (1 - i) * ds[1]
        if n == 'min':
            i = fn('gt', args[0] - args[1], ZERO)
            return i * ds[1] + (1 - i) * ds[0]
        if n == 'gt':
            return ZERO
        if n == 'atan2':
            return (args[1] * ds[0] - args[0] * ds[1]) / (args[0] * args[0] + args[1] * args[1])
        raise Undecided('derivative of ' + n)
    raise Undecided('derivative of ' + k)

# ---------------------------------------------------------------- zero test
def _clear(e):
    """bring the exponents of every Par base to a common lowest value and
    expand what is above it"""
    for _ in range(6):
        bases = {}
        for (b, f), c in e.terms.items():
            if b:
                pass
            for a, p in f:
                if a.kind == 'Par' and not isinstance(p, Expr):
                    bases.setdefault(a.key, (a, {}))[1].setdefault(p % 1, []).append(p)
        changed = False
        for key, (a, cls) in bases.items():
            base = a.args[0]
            for fr, ps in cls.items():
                lo = min(ps)
                # terms without the base at all count as exponent 0 when fr == 0
                if fr == 0 and any(all(x[0].key != key for x in m[1]) for m in e.terms):
                    lo = min(lo, Fraction(0))
                if all(p == lo for p in ps) and not (fr == 0 and lo < 0 and any(
                        all(x[0].key != key for x in m[1]) for m in e.terms)):
                    continue
                changed = True
                out = ZERO
                for m, c in e.terms.items():
                    b, f = _open(m)
                    p = [q for x, q in f if x.key == key]
                    if p and not isinstance(p[0], Expr) and p[0] % 1 == fr or (not p and fr == 0):
                        p = p[0] if p else Fraction(0)
                        rest = tuple(x for x in f if x[0].key != key)
                        t = Expr({_canon((), rest): c}) * power(base, p - lo)
                        # multiply by a stand-in for base^lo
                        t = t * atom(Atom('Elem', 'POW:' + key + ':' + str(lo), ()))
                        for n, hi in b:
                            t = summation(t, n, hi)
                        out = out + t
                    else:
                        out = out + Expr({m: c})
                e = out
                break
            if changed:
                break
        if not changed:
            break
    return e

TRUSTED_FN = {'sin', 'cos', 'exp', 'log', 'abs', 'sign', 'real', 'imag', 'gt', 'max', 'min', 'atan2', 'tanh', 'mean', 'mod', 'fmod'}

def _costly(e):
    """denominators with minima or maxima: clearing them expands far too much"""
    return len(e.key) > 500 and ('Par[' in e.key) and ('Fn[min' in e.key or 'Fn[max' in e.key)

def is_zero(e):
    """True: provably zero.  False: provably a non zero expression (atoms are
    algebraically independent).  None: not decided."""
    if e.is_zero():
        return True
    if _costly(e) and _trusted(e):
        from . import rand
        if rand.refuted(e) is True:
            return False
    e = _clear(e)
    if e.is_zero():
        return True
    e = _trig(e)
    if e.is_zero():
        return True
    e = _splitsums(e)
    if e.is_zero():
        return True
    try:
        p = _expo(e)
        if p is not e and (p.is_zero() or _splitsums(_clear(p)).is_zero()):
            return True
        p = _piecewise(e)
        if p is not e and (p.is_zero() or _splitsums(_trig(_clear(p))).is_zero()):
            return True
    except Undecided:
        pass
    try:
        e2 = _splitmult(e)
        if e2 is not e and (e2.is_zero() or _splitsums(_clear(e2)).is_zero()):
            return True
    except Undecided:
        pass
    if not _trusted(e):
        return None
    from . import rand
    return False if rand.refuted(e) is True else None

def _expo(e):
    """exp(c log x + r) = x^c exp(r); Ind[z = 0] z = 0"""
    if not any(a.kind == 'Fn' and a.args[0] == 'exp' for m in e.terms for a, p in m[1]):
        return e
    out = ZERO
    for m, c in e.terms.items():
        b, f = _open(m)
        t = const(c)
        for a, p in f:
            x = None
            if a.kind == 'Fn' and a.args[0] == 'exp' and p == 1:
                rest, x = ZERO, ONE
                for (b2, f2), c2 in a.args[1][0].terms.items():
                    lg = [y for y, q in f2 if y.kind == 'Fn' and y.args[0] == 'log' and q == 1]
                    ot = [y for y, q in f2 if y.kind == 'Ind' and y.args[0] == 'eq' and q == 1]
                    if not b2 and len(lg) == 1 and len(lg) + len(ot) == len(f2) and c2.denominator == 1:
                        pw = power(lg[0].args[1][0], c2)
                        g = ONE
                        for y in ot:
                            g = g * atom(y)
                        x = x * (ONE - g + g * pw)
                    else:
                        rest = rest + Expr({(b2, f2): c2})
                x = x * fn('exp', rest)
            if x is None:
                x = Expr({_canon((), ((a, p),)): Fraction(1)})
            t = t * x
        keep = ZERO
        for m2, c2 in t.terms.items():
            at = {a.key for a, p in m2[1]}
            dead = False
            for a, p in m2[1]:
                if a.kind == 'Ind' and a.args[0] == 'eq':
                    z = a.args[1][0]
                    if len(z.terms) == 1:
                        (bz, fz), cz = next(iter(z.terms.items()))
                        if not bz and len(fz) == 1 and fz[0][0].key in at:
                            dead = True
            if not dead:
                keep = keep + Expr({m2: c2})
        t = keep
        for n, hi in b:
            t = summation(t, n, hi)
        out = out + t
    return out

_PW = {'max', 'min', 'abs', 'sign', 'gt'}

def _has_pw(e):
    for m in e.terms:
        for a, p in m[1]:
            if a.kind == 'Fn' and a.args[0] in _PW:
                return True
            if a.kind == 'Par' and _has_pw(a.args[0]):
                return True
    return False

def gate(z):
    """indicator of z > 0, up to the boundary: one orientation and scale"""
    z = _piecewise(z)
    v = z.const_value()
    if v is not None:
        return ONE if v > 0 else ZERO
    # case split on gates inside
    for m in z.terms:
        for a, p in m[1]:
            if a.kind == 'Fn' and a.args[0] == 'gt' and not (m[0] and atom(a).syms & {x[0] for x in m[0]}):
                g = atom(a)
                hi, lo = _restrict(z, a, 1), _restrict(z, a, 0)
                # inside the case the argument of the gate has a known sign
                za = a.args[1][0]
                ghi = ONE if hi == za else ZERO if hi == -za else gate(hi)
                glo = ZERO if lo == za else ONE if lo == -za else gate(lo)
                return _gmul(g, ghi) + glo - _gmul(g, glo)
    if len(z.terms) == 1:
        m, c = next(iter(z.terms.items()))
        if all(positive_atom(a) for a, p in m[1]):
            return ONE if c > 0 else ZERO
        if not m[0]:
            keep = tuple(x for x in m[1] if not positive_atom(x[0]))
            if len(keep) != len(m[1]):
                z = Expr({_canon((), keep): c})
    common = None
    for m in z.terms:
        d = {a.key: a for a, p in m[1] if positive_atom(a) and p == 1}
        common = d if common is None else {k: a for k, a in common.items() if k in d}
    for a in (common or {}).values():
        z = z * power(atom(a), -1)
    m0 = min(z.terms, key=lambda m: _termkey(m, 1))
    c = z.terms[m0]
    z = z * const(1 / abs(c))
    if c < 0:
        return ONE - atom(Atom('Fn', 'gt', (-z, ZERO)))
    return atom(Atom('Fn', 'gt', (z, ZERO)))

def positive_atom(a):
    return a.kind in ('Sym', 'Elem') and a.args[0] in POSITIVE

def _gmul(g, e):
    return _idem(g * e)

def _idem(e):
    """gates are idempotent"""
    out, ch = ZERO, False
    for m, c in e.terms.items():
        f = tuple((a, Fraction(1) if a.kind == 'Fn' and a.args[0] == 'gt' and not isinstance(p, Expr) and p > 0 else p) for a, p in m[1])
        if f != m[1]:
            ch = True
        out = out + Expr({_canon(m[0], f): c})
    return out if ch else e

def _restrict(e, a, v):
    out = ZERO
    for m, c in e.terms.items():
        n = [p for x, p in m[1] if x.key == a.key]
        if not n:
            out = out + Expr({m: c})
        elif v:
            out = out + Expr({_canon(m[0], tuple(x for x in m[1] if x[0].key != a.key)): c})
    return out

def _piecewise(e):
    """max, min, abs, sign and comparisons in terms of gates (almost everywhere)"""
    if not _has_pw(e):
        return e
    out = ZERO
    for m, c in e.terms.items():
        if not any((a.kind == 'Fn' and a.args[0] in _PW) or (a.kind == 'Par' and _has_pw(a.args[0])) for a, p in m[1]):
            out = out + Expr({m: c})
            continue
        b, f = _open(m)
        t = const(c)
        for a, p in f:
            x = None
            if a.kind == 'Fn' and a.args[0] in _PW:
                ar = [_piecewise(z) for z in a.args[1]]
                nm = a.args[0]
                if nm == 'gt':
                    x = gate(ar[0] - ar[1])
                elif nm == 'sign':
                    x = 2 * gate(ar[0]) - 1
                elif nm == 'abs':
                    x = (2 * gate(ar[0]) - 1) * ar[0]
                elif nm == 'max':
                    x = ar[1] + gate(ar[0] - ar[1]) * (ar[0] - ar[1])
                elif nm == 'min':
                    x = ar[0] - gate(ar[0] - ar[1]) * (ar[0] - ar[1])
                if isinstance(p, Expr) or p < 0 or p.denominator != 1 or p > 4:
                    if nm == 'sign' and not isinstance(p, Expr) and p.denominator == 1:
                        x = ONE if p % 2 == 0 else x
                    elif nm == 'gt' and not isinstance(p, Expr) and p > 0:
                        pass
                    else:
                        x = None
                elif nm not in ('gt',):
                    x = _idem(power(x, p))
            elif a.kind == 'Par' and _has_pw(a.args[0]):
                x = power(_piecewise(a.args[0]), p)
            if x is None:
                x = Expr({_canon((), ((a, p),)): Fraction(1)})
            t = _idem(t * x)
        for n, hi in b:
            t = summation(t, n, hi)
        out = out + t
    return _idem(out)

def _splitmult(e):
    """sums over c*n entries (c = 2..4) are written as c sums over n entries, also
    inside radicals"""
    changed = False
    out = ZERO
    for m, c in e.terms.items():
        b, f = _open(m)
        hit = [x for x in b if len(x[1].terms) == 1 and next(iter(x[1].terms.values())) in (2, 3, 4)
               and x[1].const_value() is None]
        par = False
        t = const(c)
        for a, p in f:
            x = atom(a)
            if a.kind == 'Par':
                y = _splitmult(a.args[0])
                if y is not a.args[0]:
                    par = True
                    x = y
            t = t * power(x, p)
        if not hit and not par:
            out = out + Expr({m: c})
            continue
        changed = True
        for n, hi in b:
            if (n, hi) in hit:
                (mono, k), = hi.terms.items()
                unit = Expr({mono: Fraction(1)})
                RANGES[n] = (ZERO, unit)
                tt = ZERO
                for q in range(int(k)):
                    tt = tt + subst(t, {n: sym(n) + unit * q})
                t = tt
                t = summation(t, n, unit)
            else:
                t = summation(t, n, hi)
        out = out + t
    return out if changed else e

def _trusted(e):
    for (b, f), c in e.terms.items():
        for a, p in f:
            if isinstance(p, Expr) and not _trusted(p):
                return False
            if a.kind == 'Elem':
                if a.args[0].startswith('?'):
                    return False
                if not all(_trusted(x) for x in a.args[1]):
                    return False
            elif a.kind == 'Fn':
                if a.args[0] not in TRUSTED_FN:
                    return False
                if not all(_trusted(x) for x in a.args[1]):
                    return False
            elif a.kind == 'Sym':
                if a.args[0].startswith('?') and not a.args[0] in ('?0', '?1'):
                    return False
            elif a.kind == 'Par':
                if not _trusted(a.args[0]):
                    return False
            elif a.kind == 'Delta':
                if b:
                    return False
            elif a.kind == 'Ind':
                if a.args[0].startswith('?'):
                    return False
    return True

def _trig(e):
    """sin(x)^2 -> 1 - cos(x)^2"""
    for _ in range(10):
        hit = None
        for m in e.terms:
            for a, p in m[1]:
                if a.kind == 'Fn' and a.args[0] == 'sin' and not isinstance(p, Expr) and p >= 2 and p.denominator == 1:
                    hit = (m, a, p)
        if hit is None:
            return e
        m, a, p = hit
        c = e.terms[m]
        b, f = m
        if b:
            return e
        rest = Expr({_canon((), tuple(x for x in f if x[0] is not a)): c})
        e = e - Expr({m: c}) + rest * power(atom(a), p - 2) * (1 - fn('cos', a.args[1][0]) ** 2)
    return e

def _splitsums(e):
    """split sums over [0,n) at the limits of other sums of the same summand"""
    for _ in range(8):
        items = [(m, c) for m, c in e.terms.items() if m[0]]
        done = False
        for m1, c1 in items:
            for m2, c2 in items:
                if m1 is m2 or len(m1[0]) != len(m2[0]):
                    continue
                r = _try_split(m1, c1, m2, c2)
                if r is not None:
                    e = e - Expr({m1: c1}) + r
                    done = True
                    break
            if done:
                break
        if not done:
            return e
    return e

def _try_split(m1, c1, m2, c2):
    """m1: long sum, m2: shorter sum whose summand equals m1's shifted by s.
    Returns m1 rewritten as [0,s) + [s,s+n2) + [s+n2,n1)"""
    if len(m1[0]) != 1:
        return None
    (v1, h1), (v2, h2) = m1[0][0], m2[0][0]
    if h1 == h2 or ge(h1, h2) is not True:
        return None
    o1b, o1f = _open(m1)
    o2b, o2f = _open(m2)
    v1, v2 = o1b[0][0], o2b[0][0]
    # find the shift from one factor with an index mentioning the variable
    def idxs(f, v):
        for a, p in f:
            if a.kind == 'Elem':
                for k, x in enumerate(a.args[1]):
                    if v in x.syms:
                        yield a.args[0], k, x
    for n1, k1, x1 in idxs(o1f, v1):
        for n2, k2, x2 in idxs(o2f, v2):
            if n1 == n2 and k1 == k2:
                s = subst(x2, {v2: sym(v1)}) - x1
                if v1 in s.syms:
                    continue
                body1 = Expr({_canon((), o1f): Fraction(1)})
                body2 = subst(Expr({_canon((), o2f): Fraction(1)}), {v2: sym(v1)})
                if subst(body1, {v1: sym(v1) + s}) == body2 and ge(s, ZERO) is True and ge(h1, s + h2) is True:
                    def rng(lo, hi):
                        return sum_range(lambda k: subst(body1, {v1: k}), lo, hi)
                    return (rng(ZERO, s) + rng(s, s + h2) + rng(s + h2, h1)) * const(c1)
    return None
