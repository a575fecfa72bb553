"""Harmonic stiffness (C04)."""
import os
from tsa import sym as S, arr as A, model as M
from tsa.interp import NArr, Func, has_unknown
from checks.residuals import compare

STIFF = 'tmdsimpy.utils.harmonic.harmonic_stiffness'

def repo_func(repo, dotted):
    r = repo.resolve(dotted)
    if not r or r[0] != 'func':
        raise M.AnchorLost(dotted + ' not found')
    return Func(r[2], r[1], None, None, r[1].name + '.' + r[2].name)

def where_func(repo, dotted):
    r = repo.resolve(dotted)
    return '%s:%s' % (os.path.relpath(r[1].path, repo.root), r[2].name)

def entry(c, key, E, ix, want, construct):
    """one obligation: entry ix of the array equals want"""
    try:
        if S.SIZES:
            names = sorted({n for i in ix for n in S.lift(i).syms if n in S.RANGES and S.RANGES[n][1] is not None and
                            S.RANGES[n][1].const_value() is not None and S.RANGES[n][0].const_value() is not None})
            rng = [range(int(S.RANGES[n][0].const_value()), int(S.RANGES[n][1].const_value())) for n in names]
            def diff(vals):
                sub = dict(zip(names, vals))
                return E.f(tuple(S.subst(S.lift(i), sub) for i in ix)) - S.subst(want, sub)
            v, d = A.each_entry(diff, rng)
            c.ob(key, v, construct, '' if v else 'difference: %s' % d)
            return
        d = E.f(ix) - want
        v = S.is_zero(d)
        c.ob(key, v, construct, '' if v else 'difference: %s' % d)
    except S.Undecided as u:
        c.ob(key, None, construct, u)

def stiffness(c):
    c.rule('R4 block structure', 'every entry of the assembled operator and of its frequency derivative, addressed by (harmonic, '
           'cos/sin, degree of freedom) for symbolic harmonic numbers, equals the entry of the exact operator; all other entries are 0')
    c.level = 'proof'
    tasks = []
    for h0 in (0, 1):
        for mode, kw in (('full', {}), ('value', {'calc_grad': False}), ('only_C', {'only_C': True}),
                         ('only_C scalar M,K', {'only_C': True, 'calc_grad': False})):
            key = 'harmonic_stiffness[h0=%d,%s]' % (h0, mode)
            def go(h0=h0, mode=mode, kw=kw, key=key):
                w = M.World(c.repo, h0)
                f = repo_func(c.repo, STIFF)
                wh = where_func(c.repo, STIFF)
                Nd, om = w.Nd, S.sym('w')
                C = w.leaf('C', Nd, Nd)
                if 'scalar' in mode:
                    args = [S.ZERO, C, S.ZERO, om, w.h]
                else:
                    args = [w.leaf('M', Nd, Nd), C, w.leaf('K', Nd, Nd), om, w.h]
                onlyC = 'only_C' in mode
                r = w.it.call(f, args, kw)
                if not isinstance(r, tuple):
                    c.ob(key + ' tuple', None if has_unknown(r) else False, wh, 'does not return a tuple')
                    return
                n = 2 if kw.get('calc_grad', True) else 1
                c.ob(key + ' number of results', len(r) == n, wh, '%d results' % len(r))
                hz = lambda k: S.elem('hz', (k,))
                m = lambda name, i, j: S.elem(name, (i, j))
                q = S.sym('q', 0, w.n)
                i, j = S.sym('ri', 0, Nd), S.sym('rj', 0, Nd)
                for pos, nm in enumerate(('E', 'dE/dw')[:n]):
                    if pos >= len(r) or has_unknown(r[pos]):
                        c.ob('%s %s' % (key, nm), None, wh, w.it.notes[-3:])
                        continue
                    E = w.it.arr(r[pos])
                    N = w.Nhc * Nd
                    c.ob('%s %s shape' % (key, nm), True if E.shape == (N, N) else A.shape_verdict(E, A.full((N, N), S.ZERO)), wh,
                         'shape %s' % (E.shape,))
                    for a in (0, 1):
                        for b in (0, 1):
                            for rel in ('same harmonic', 'lower', 'higher'):
                                if rel == 'same harmonic':
                                    p = q
                                elif rel == 'lower':
                                    p = S.sym('p1', 0, q)
                                else:
                                    p = q + 1 + S.sym('p2', 0, w.n - q - 1)
                                want = S.ZERO
                                if p is q:
                                    s = 1 if (a, b) == (0, 1) else -1 if (a, b) == (1, 0) else 0
                                    if s:
                                        want = s * hz(q) * m('C', i, j) * (om if pos == 0 else 1)
                                    elif not onlyC:
                                        want = m('K', i, j) - (hz(q) * om) ** 2 * m('M', i, j) if pos == 0 else \
                                            -2 * om * hz(q) ** 2 * m('M', i, j)
                                ix = (Nd * (2 * q + h0 + a) + i, Nd * (2 * p + h0 + b) + j)
                                entry(c, '%s %s block(%s,%s) %s' % (key, nm, 'cs'[a], 'cs'[b], rel), E, ix, want, wh)
                    if h0:
                        entry(c, '%s %s block(0,0)' % (key, nm), E, (i, j),
                              m('K', i, j) if pos == 0 and not onlyC else S.ZERO, wh)
                        for a in (0, 1):
                            entry(c, '%s %s block(0,%s)' % (key, nm, 'cs'[a]), E, (i, Nd * (2 * q + 1 + a) + j), S.ZERO, wh)
                            entry(c, '%s %s block(%s,0)' % (key, nm, 'cs'[a]), E, (Nd * (2 * q + 1 + a) + j, i), S.ZERO, wh)
            def wrap(go=go):
                try:
                    go()
                except M.AnchorLost as e:
                    c.anchor_lost(str(e))
            tasks.append((key, wrap, 300))
    # number of harmonic components
    def count():
        for h0 in (0, 1):
            w = M.World(c.repo, h0)
            r = w.it.call(repo_func(c.repo, 'tmdsimpy.utils.harmonic.Nhc'), [w.h], {})
            if has_unknown(r):
                c.ob('Nhc[h0=%d]' % h0, None, '', r)
            else:
                c.ob('Nhc[h0=%d]' % h0, S.is_zero(w.it.scalar(r) - w.Nhc), 'tmdsimpy/utils/harmonic.py:Nhc', r)
    tasks.append(('Nhc', count, 60))
    c.repo
    c.parallel(tasks)
