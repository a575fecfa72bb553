"""Random interpretation of normal forms (Gulwani/Necula style): a difference
which the normal form cannot cancel is only believed to be non zero when it is
also non zero under random interpretations of its leaves.  Nothing of the
analysed program is executed; only terms of the analysis are evaluated."""
import cmath, hashlib, math, random
from fractions import Fraction
from . import sym as S
from .sym import Expr, lift

class Stuck(Exception):
    pass

LEAFARGS = {}      # opaque array name -> (kind, [Arr or Expr arguments])
DIVS = {}          # quotient/remainder symbol -> (kind, dividend, divisor)

def h01(*parts):
    d = hashlib.md5(repr(parts).encode()).digest()
    return int.from_bytes(d[:6], 'big') / 2.0 ** 48

def rnd(v):
    if isinstance(v, complex):
        return (rnd(v.real), rnd(v.imag))
    if v == 0:
        return 0.0
    return float('%.7g' % v)

class Env:
    def __init__(self, seed):
        self.seed = seed
        self.vals = {}
        self.leaf = {}
        self.busy = set()
        self.work = 0
        self.scale = 0.0
    def symbol(self, n):
        if n in self.vals:
            return self.vals[n]
        if n == 'j#':
            return 1j
        if n == 'pi':
            return math.pi
        if n in self.busy:
            raise Stuck('cyclic range')
        self.busy.add(n)
        try:
            if n in S.BIND:
                v = self.expr(S.BIND[n])
            elif n in DIVS:
                k, a, p = DIVS[n]
                a, p = self.int(a), self.int(p)
                v = a // p if k == 'q' else a % p
            elif n in S.RANGES:
                lo, hi = S.RANGES[n]
                lo = self.int(lo)
                if hi is None:
                    v = lo + int(h01(self.seed, n) * 2.999)
                else:
                    hi = self.int(hi)
                    if hi <= lo:
                        raise Stuck('empty range')
                    v = lo + int(h01(self.seed, n) * (hi - lo))
            else:
                v = 0.4 + 1.3 * h01(self.seed, n)
                if n in S.FRACTION:
                    v = 0.02 + 0.96 * h01(self.seed, n)
                if n not in S.POSITIVE and h01(self.seed, n, 's') < 0.3:
                    v = -v
        finally:
            self.busy.discard(n)
        self.vals[n] = v
        return v
    def int(self, e):
        v = self.expr(e)
        if isinstance(v, complex):
            raise Stuck('complex index')
        r = round(v)
        if abs(v - r) > 1e-6:
            raise Stuck('index is not an integer')
        return int(r)
    def element(self, nm, idx):
        k = ()
        for i in idx:
            v = self.expr(i)
            k += (int(round(v)) if not isinstance(v, complex) and abs(v - round(v)) < 1e-9 else rnd(v),)
        if nm == 'hz':
            if self.seed % 2 and 'hmax' not in S.RANGES:
                return 2 * k[0] + 1 + (self.seed // 2 % 2)
            return k[0] + 1
        if nm in S.SYMMETRIC:
            k = tuple(sorted(k))
        base, pre = nm, ''
        if base not in LEAFARGS and base[:1] in 'DW' and base[1:] in LEAFARGS:
            pre, base = base[0], base[1:]
        if base in LEAFARGS:
            nm = pre + '|' + self.leafkey(base)
        v = 0.3 + 1.4 * h01(self.seed, nm, k)
        if h01(self.seed, nm, k, 's') < 0.35 and nm not in S.POSITIVE:
            v = -v
        if nm.startswith('C:'):
            v = v + 1j * (0.3 + h01(self.seed, nm, k, 'i'))
        if nm in S.ELEM_MIN:
            v = S.ELEM_MIN[nm] + int(h01(self.seed, nm, k) * 3)
        return v
    def leafkey(self, nm):
        if nm in self.leaf:
            return self.leaf[nm]
        self.leaf[nm] = 'busy'
        kind, args = LEAFARGS[nm]
        parts = [kind]
        from . import arr as A
        for a in args:
            if isinstance(a, Expr):
                parts.append(rnd(self.expr(a)))
                continue
            if a.tag and a.tag[0] == 'leaf':
                tab = [('leaf', a.tag[1])]
                parts.append(tab)
            tab = []
            for ix, lab in A.generic_indices(a.shape, a.cuts, a.mods):
                e = a.f(ix)
                names = sorted({n for i in ix for n in i.syms if n.startswith('i~')})
                def loop(k):
                    if k == len(names):
                        tab.append((tuple(self.int(i) for i in ix), rnd(self.expr(e))))
                        return
                    n = names[k]
                    lo, hi = S.RANGES[n]
                    for v in range(self.int(lo), self.int(hi)):
                        self.vals[n] = v
                        loop(k + 1)
                        del self.vals[n]
                loop(0)
            parts[-1:] = parts[-1:] if not isinstance(parts[-1], list) else []
            parts.append(tuple(sorted(tab)))
        self.leaf[nm] = hashlib.md5(repr(parts).encode()).hexdigest()
        return self.leaf[nm]
    def expr(self, e):
        tot = 0.0
        for (b, f), c in e.terms.items():
            t = self.sum(b, f, 0)
            t = float(c) * t
            if abs(t) > self.scale:
                self.scale = abs(t)
            tot = tot + t
        return tot
    def sum(self, b, f, k):
        if k == len(b):
            self.work += 1
            if self.work > 400000:
                raise Stuck('too much work')
            p = 1.0
            # cheap zero factors first
            for a, e in f:
                if a.kind in ('Delta', 'Ind'):
                    p = p * self.factor(a, e)
                    if p == 0:
                        return 0.0
            for a, e in f:
                if a.kind not in ('Delta', 'Ind'):
                    p = p * self.factor(a, e)
                    if p == 0:
                        return 0.0
            return p
        n, hi = b[k]
        tot = 0.0
        saved = self.vals.get(n)
        for v in range(self.int(hi)):
            self.vals[n] = v
            tot = tot + self.sum(b, f, k + 1)
        if saved is None:
            self.vals.pop(n, None)
        else:
            self.vals[n] = saved
        return tot
    def factor(self, a, e):
        v = self.atom(a)
        p = self.expr(e) if isinstance(e, Expr) else (int(e) if e.denominator == 1 else float(e))
        if v == 0:
            if isinstance(p, complex) or p < 0:
                raise Stuck('division by zero')
            return 1.0 if p == 0 else 0.0
        if isinstance(v, (int, float)) and v < 0 and p != int(p if not isinstance(p, complex) else 0):
            v = complex(v)
        return v ** p
    def atom(self, a):
        k = a.kind
        if k == 'Sym':
            return self.symbol(a.args[0])
        if k == 'Num':
            return float(Fraction(a.args[0]))
        if k == 'Elem':
            return self.element(a.args[0], a.args[1])
        if k == 'Par':
            return self.expr(a.args[0])
        if k == 'Delta':
            return 1.0 if abs(self.expr(a.args[0])) < 1e-9 else 0.0
        if k == 'Ind':
            if a.args[0] == 'eq':
                return 1.0 if abs(self.expr(a.args[1][0])) < 1e-9 else 0.0
            vs = tuple(rnd(self.expr(x)) for x in a.args[1])
            return 1.0 if h01(self.seed, a.args[0], vs) < 0.5 else 0.0
        if k == 'Fn':
            return self.fn(a.args[0], [self.expr(x) for x in a.args[1]])
        raise Stuck(k)
    def fn(self, name, v):
        x = v[0]
        try:
            if name in ('sin', 'cos', 'exp', 'log', 'tanh', 'sqrt', 'tan'):
                if isinstance(x, complex) or (name in ('log', 'sqrt') and x < 0):
                    return getattr(cmath, name)(x)
                return getattr(math, name)(x)
            if name == 'stop':
                return x
            if name == 'abs':
                return abs(x)
            if name == 'sign':
                return (x > 0) - (x < 0)
            if name == 'max':
                return max(v)
            if name == 'min':
                return min(v)
            if name == 'gt':
                return 1.0 if v[0] - v[1] > 1e-12 else 0.0
            if name == 'atan2':
                return math.atan2(v[0], v[1])
            if name == 'real':
                return complex(x).real
            if name == 'imag':
                return complex(x).imag
            if name == 'conj':
                return complex(x).conjugate()
            if name == 'fmod':
                return math.fmod(v[0], v[1])
            if name == 'mod':
                return v[0] % v[1]
            if name in ('floor', 'ceil', 'trunc'):
                return float(getattr(math, name)(x))
            if name == 'rint':
                return float(round(x))
        except (ValueError, OverflowError, TypeError, ZeroDivisionError):
            raise Stuck('domain of ' + name)
        return 0.3 + h01(self.seed, name, tuple(rnd(y) for y in v))

def refuted(e, tries=24, need=2):
    """True when the expression is non zero under random interpretations,
    False when it vanishes under all of them, None when none could be evaluated"""
    good = zero = 0
    if any(x in e.key for x in ('Fn[sign', 'Fn[gt', 'Fn[max', 'Fn[min', 'Fn[abs')):
        tries *= 5
    for s in range(tries):
        env = Env(s)
        try:
            v = env.expr(e)
        except (Stuck, S.Undecided, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError):
            continue
        if v != v:
            continue
        if abs(v) > 1e-6 * max(env.scale, 1e-12):
            good += 1
            if good >= need:
                return True
        else:
            zero += 1
            if zero >= tries // 2 and not good:
                break
    if good:
        return None
    return False if zero else None
