"""Summaries of loops over a symbolic range: accumulation  x += f(k)  becomes a
sum, indexed stores  A[r(k)] = f(k)  become a family of stores resolved per
queried entry.  Anything else is left Unknown."""
import ast
from . import sym as S
from . import arr as A
from .sym import Expr, Undecided, ZERO, ONE, ge, const
from .arr import Arr

_cnt = [0]

def summarise(it, st, seq, fr):
    from .interp import (SeqSym, Env, NArr, Obj, PyList, PyDict, Unknown, MISSING, is_num, Raised, Abort, _raiser)
    for b in st.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.Break, ast.Return)):
                return _havoc(it, st, fr, 'loop with early exit')
    n = seq.n
    if ge(n, ONE) is None and ge(n, ZERO) is None:
        return _havoc(it, st, fr, 'loop count unknown')
    k = S.fresh('k', ZERO, n)
    kn = S.symname(k)
    def body():
        it.assign(st.target, seq.elem(k), fr)
        r, v = it.run(st.body, fr)
        if r not in ('fall', 'cont'):
            raise Abort('loop exit')
        return (r, v)
    it.need_peel = False
    _, cells, err = it.speculate(body)
    if it.need_peel:
        it.need_peel = False
        if ge(n, ONE) is True:
            it.assign(st.target, seq.elem(ZERO), fr)
            it.run(st.body, fr)
            rest = SeqSym(n - 1, lambda q: seq.elem(q + 1), seq.key)
            if (n - 1).is_zero():
                return None
            return summarise(it, st, rest, fr)
        return _havoc(it, st, fr, 'first iteration special')
    if err is not None:
        return _havoc(it, st, fr, 'loop body: %s' % err)
    # loop carried cells
    carried = []
    for cid, (obj, kind, key, val) in cells.items():
        pre = it.getcell(obj, kind, key)
        if isinstance(obj, Env):
            if obj is not fr.env and not _is_parent(obj, fr.env):
                continue
        elif not _reachable(obj, fr, it):
            continue
        carried.append((obj, kind, key, pre))
    leaves = {}
    saved = []
    def setup():
        for obj, kind, key, pre in carried:
            nm = None
            if kind == 'content' and pre is not None:
                _cnt[0] += 1
                nm = '@in%d' % _cnt[0]
                it.setcell(obj, kind, key, A.leaf(nm, pre.shape))
            elif pre is not MISSING and is_num(pre):
                try:
                    p = it.arr(pre)
                except Undecided:
                    continue
                _cnt[0] += 1
                nm = '@in%d' % _cnt[0]
                it.setcell(obj, kind, key, it.wrap(A.leaf(nm, p.shape)))
            if nm:
                leaves[(id(obj), kind, key)] = nm
        return body()
    _, outs, err = it.speculate(setup)
    if err is not None:
        return _havoc(it, st, fr, 'loop body: %s' % err)
    allin = set(leaves.values())
    premap = {}
    for obj, kind, key, pre in carried:
        nm = leaves.get((id(obj), kind, key))
        if nm:
            premap[nm] = pre if kind == 'content' else it.arr(pre)
    for obj, kind, key, pre in carried:
        cid = (id(obj), kind, key)
        nm = leaves.get(cid)
        if cid not in outs:
            continue
        out = outs[cid][3]
        if nm is None:
            # temporary of the body: value of the last iteration
            it.setcell(obj, kind, key, _last(it, out, kn, n, allin))
            continue
        P = premap[nm]
        if kind == 'content':
            O = out
        elif is_num(out):
            try:
                O = it.arr(out)
            except Undecided as u:
                it.setcell(obj, kind, key, Unknown(str(u)))
                continue
        else:
            it.setcell(obj, kind, key, out if isinstance(out, Unknown) else Unknown('loop carried'))
            continue
        if P.ndim != O.ndim and kind != 'content':
            it.setcell(obj, kind, key, Unknown('shape changed by a loop'))
            continue
        F = finalise(P, O, nm, kn, n, allin)
        if kind == 'content':
            it.setcell(obj, kind, key, F)
        else:
            try:
                it.setcell(obj, kind, key, it.wrap(F))
            except Undecided as u:
                it.setcell(obj, kind, key, Unknown(str(u)))
    return None

def _is_parent(e, env):
    while env is not None:
        if env is e:
            return True
        env = env.parent
    return False

def _reachable(obj, fr, it):
    from .interp import NArr, Obj, PyList, PyDict
    seen = set()
    stack = []
    e = fr.env
    while e is not None:
        stack += list(e.vars.values())
        e = e.parent
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x is obj:
            return True
        if isinstance(x, NArr) and x.base is not None:
            stack.append(x.base)
        elif isinstance(x, Obj):
            stack += list(x.attrs.values())
        elif isinstance(x, PyList):
            stack += list(x.items)
        elif isinstance(x, PyDict):
            stack += list(x.items.values())
        elif isinstance(x, tuple):
            stack += list(x)
    return False

def _elems(e):
    for (b, f), c in e.terms.items():
        for a, p in f:
            yield from _atom_elems(a)
            if isinstance(p, Expr):
                yield from _elems(p)

def _atom_elems(a):
    if a.kind == 'Elem':
        yield a
        for x in a.args[1]:
            yield from _elems(x)
    elif a.kind in ('Fn', 'Ind'):
        for x in a.args[1]:
            yield from _elems(x)
    elif a.kind in ('Par', 'Delta'):
        yield from _elems(a.args[0])

def mentions(e, names):
    return any(a.args[0] in names for a in _elems(e))

def _split_in(e, nm, ix):
    """e = coef * @in[ix] + rest ; coef is False when @in does not occur, True
    for coefficient one, otherwise an expression"""
    target = S.elem(nm, ix)
    if not mentions(e, {nm}):
        return False, e
    rest = e - target
    if not mentions(rest, {nm}):
        return True, rest
    coef, rest = S.ZERO, S.ZERO
    for (b, f), c in e.terms.items():
        t = Expr({(b, f): c})
        if not mentions(t, {nm}):
            rest = rest + t
            continue
        if b:
            return None, None
        hit = [x for x in f if atom_is(x[0], target) and x[1] == 1]
        if len(hit) != 1:
            return None, None
        k = Expr({((), tuple(x for x in f if x is not hit[0])): c})
        if mentions(k, {nm}):
            return None, None
        coef = coef + k
    return coef, rest

def atom_is(a, e):
    return S.atom(a) == e

def finalise(P, O, nm, kn, n, allin):
    def decide(ix, q):
        """value of entry ix after iteration q in terms of its value before"""
        e = O.f(ix)
        return e
    def generic(ix):
        e = O.f(ix)
        has, rest = _split_in(e, nm, ix)
        if isinstance(has, Expr):
            r = one_hit(has, rest, ix)
            if r is not None:
                return r
        if has is None or isinstance(has, Expr):
            raise Undecided('loop recurrence')
        if mentions(rest, allin):
            raise Undecided('loop carried cross dependency')
        if has:
            if rest.is_zero():
                return P.f(ix)
            return P.f(ix) + S.summation(rest, kn, n)
        return S.subst(rest, {kn: n - 1})
    def one_hit(has, rest, ix):
        """x <- (1 - g(k)) x + g(k) v(k) where g contains delta(k - s): only
        iteration s changes the entry"""
        g = ONE - has
        if len(g.terms) != 1 or mentions(rest, allin) or mentions(g, allin):
            return None
        (b, f), c = next(iter(g.terms.items()))
        if b or c != 1 or any(a.kind != 'Delta' or p != 1 for a, p in f):
            return None
        for a, p in f:
            if kn not in a.syms:
                continue
            lin, r = S._linear(a.args[0], kn)
            if lin is None or lin.const_value() not in (1, -1):
                continue
            s = -r if lin.const_value() == 1 else r
            if kn in s.syms or ge(s, ZERO) is not True or ge(n - 1, s) is not True:
                continue
            if any(not any(y.key == a.key for y, q in m[1]) for m in rest.terms):
                return None
            sub = {kn: s}
            gs = S.subst(g, sub)
            return (ONE - gs) * P.f(ix) + S.subst(rest, sub)
        return None
    def family(ix):
        cands = []
        for i in ix:
            for s in i.syms:
                if s in S.RANGES and s != kn:
                    b = S.sym(s)
                    cands += [b, b - 1, b + 1]
                    for d in (2,):
                        cands += [b - d, b + d]
        hits = []
        for i in ix:
            for a in _elems(i):
                for z in a.args[1]:
                    cands += [z, z - 1, z + 1]
        cands += [ZERO, n - 1]
        seen = set()
        for c in cands:
            if c.key in seen:
                continue
            seen.add(c.key)
            if ge(c, ZERO) is not True or ge(n - 1, c) is not True:
                continue
            v = at(ix, c)
            if v is None:
                continue
            has, rest = _split_in(v, nm, ix)
            if has is True and rest.is_zero():
                continue
            if has is None:
                # a non linear function of the old value of this entry only
                t = S.elem(nm, ix)
                if not all(a.args[0] != nm or atom_is(a, t) for a in _elems(v)):
                    continue
                rest = v
            hits.append((c, has, rest))
            break
        cl, sn = [], set()
        for c in cands:
            if c.key not in sn:
                sn.add(c.key)
                cl.append(c)
        def alone(c):
            v = at(ix, c)
            if v is None:
                return False
            h2, r2 = _split_in(v, nm, ix)
            return bool(h2 is True and r2.is_zero())
        def untouched(lo, hi, depth):
            """no iteration lo <= k < hi changes the entry"""
            if ge(lo, hi) is True:
                return True
            t = S.fresh('t', ZERO, hi - lo)
            if alone(lo + t):
                return True
            if depth == 0:
                return False
            for c in cl:
                if ge(c, lo) is True and ge(hi - 1, c) is True and alone(c):
                    if untouched(lo, c, depth - 1) and untouched(c + 1, hi, depth - 1):
                        return True
            return False
        # every other iteration must leave the entry alone
        if hits:
            c, has, rest = hits[0]
            if not (untouched(ZERO, c, 2) and untouched(c + 1, n, 2)):
                raise Undecided('store family overlap')
            if has is None:
                if mentions(rest, [x for x in allin if x != nm]):
                    raise Undecided('loop carried cross dependency')
                return S.replace_elem(rest, nm, P.f)
            if mentions(rest, allin):
                raise Undecided('loop carried cross dependency')
            if isinstance(has, Expr):
                return has * P.f(ix) + rest
            if has:
                return P.f(ix) + rest
            return rest
        # no candidate: prove that no iteration touches the entry
        if untouched(ZERO, n, 3):
            return P.f(ix)
        raise Undecided('store family membership of %s' % (ix,))
    def at(ix, c):
        old = S.BIND.get(kn)
        S.BIND[kn] = c
        try:
            e = O.f(ix)
            return S.subst(e, {kn: c})
        except Undecided:
            return None
        finally:
            if old is None:
                S.BIND.pop(kn, None)
            else:
                S.BIND[kn] = old
    def f(ix):
        try:
            return generic(ix)
        except Undecided:
            return family(ix)
    cuts = []
    for d in range(len(P.shape)):
        cuts.append([c for c in A.uniq(list(P.cuts[d]) + list(O.cuts[d])) if kn not in c.syms])
    return Arr(P.shape, f, cuts, P.mods)

def _last(it, out, kn, n, allin):
    from .interp import Unknown, is_num, NArr
    if is_num(out):
        try:
            a = it.arr(out)
            last = n - 1
            def f(ix):
                e = S.subst(a.f(ix), {kn: last})
                if mentions(e, allin):
                    raise Undecided('loop carried value')
                return e
            sub = {kn: last}
            shape = [S.subst(s, sub) for s in a.shape]
            return it.wrap(Arr(shape, f, [[S.subst(c, sub) for c in cs] for cs in a.cuts]))
        except Undecided as u:
            return Unknown(str(u))
    if isinstance(out, (bool, str, type(None))):
        return out
    if isinstance(out, tuple):
        return tuple(_last(it, x, kn, n, allin) for x in out)
    return Unknown('value after loop')

def _havoc(it, st, fr, why):
    from .interp import Unknown
    it.notes.append('loop at line %d of %s not summarised: %s' % (st.lineno, fr.mod.name, why))
    it.havoc(st.body + st.orelse, fr, why)
    for x in ast.walk(st.target):
        if isinstance(x, ast.Name):
            it.setcell(fr.env, 'var', x.id, Unknown(why))
    return None
