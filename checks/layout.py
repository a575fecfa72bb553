"""Layout of the unknowns in helpers and reduced order models (C19), callbacks (C20), interpolation (C21)."""
from tsa import sym as S, arr as A, model as M, rand
from tsa.interp import NArr, Obj, Prim, Unknown, has_unknown, PyList, PyDict, Raised, Text
from checks.harmonics import repo_func, where_func, entry
from checks.phase import TAIL as PTAIL

CONT = 'tmdsimpy.utils.continuation.'
HARM = 'tmdsimpy.utils.harmonic.'
POST = 'tmdsimpy.postprocess.continuation.'

def recov(w, name, blk, col=None):
    """sum_j R_j U_[blk*Nd + j]"""
    u = (lambda j: S.elem('X', (blk * w.Nd + j,))) if col is None else (lambda j: S.elem('X', (col, blk * w.Nd + j)))
    return A.sum_over(lambda j: S.elem(name, (j,)) * u(j), w.Nd, ())

def amplitude(w, name, r, factor, row=None):
    """amplitude of the harmonic with r non zero harmonics before it"""
    b = 2 * r + w.h0
    return S.power(recov(w, name, b, row) ** 2 + recov(w, name, b + 1, row) ** 2, S.const(1) / 2) * factor

def equal(a, b):
    d = S.lift(a) - S.lift(b)
    if d.is_zero():
        return True
    if rand.refuted(d):
        return False
    return True if S.is_zero(d) is True else None

def shaped(a, shp):
    return True if tuple(a.shape) == tuple(S.lift(x) for x in shp) else A.shape_verdict(a, A.full(shp, S.ZERO))

# ------------------------------------------------------------------ the files
class Files:
    """recorder for the file accesses of one call"""
    def __init__(self, w, present):
        self.w, self.log, self.present = w, [], present
        w.it.logs.append(self.log)
        ex = w.it.np.extra
        def exists(p):
            self.log.append(('exists', p))
            return self.present
        for d in ('os.path.exists', 'os.path.isfile'):
            ex[d] = exists
        w.it.np.py_open = self.open
        def load(p, **k):
            self.log.append(('load', p))
            self.loaded = PyDict({'XlamP': w.leaf('oldX', self.rows, self.n), 'dirP_prev': w.leaf('oldD', self.rows, self.n)})
            return self.loaded
        def save(p, *a, **k):
            self.log.append(('save', p, a, k))
        ex['numpy.load'] = ex['np.load'] = load
        for d in ('savez', 'savez_compressed'):
            ex['numpy.' + d] = ex['np.' + d] = save
    def open(self, p, mode='r', *a, **k):
        f = Obj(None, None, {}, name='file')
        n = len([x for x in self.log if x[0] == 'open'])
        self.log.append(('open', p, mode, n))
        f.entered = lambda: self.log.append(('with', n))
        def get(it, ob, at):
            if at == 'write':
                return Prim('write', lambda t: self.log.append(('write', n, t)))
            if at == 'writelines':
                return Prim('writelines', lambda ts: [self.log.append(('write', n, t)) for t in it.iterate(ts)] and None)
            if at == 'close':
                return Prim('close', lambda: self.log.append(('close', n)))
            if at in ('flush',):
                return Prim(at, lambda: None)
            if at == 'tell':
                return Prim(at, lambda: S.sym('filepos', positive=True) if self.present else S.ZERO)
            return Unknown('file.' + at)
        f.getter = get
        return f

def unconditional(c, key, log, wh):
    """the events happen whatever the values are; False when a condition on the data changes which events happen"""
    forks = [x for x in log if x[0] == 'fork']
    if not forks:
        return True
    def kinds(l):
        return [(x[0], kinds(x[2]), kinds(x[3])) if x[0] == 'fork' else x[0] for x in l]
    bad = [x for x in forks if x[1] is not None and kinds(x[2]) != kinds(x[3])]
    c.ob(key + ' recorded whatever the values are', False if bad else None, wh,
         'if %s: %s, otherwise %s' % (forks[0][1], kinds(forks[0][2]), kinds(forks[0][3])))
    return False

def lines(parts):
    """split a text into lines of cells: list of lists of cells, each a list of parts"""
    out, cur = [], []
    ended = True
    for p in parts:
        if isinstance(p, str):
            bits = p.split('\n')
            for k, b in enumerate(bits):
                if k:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    if cur:
        out.append(cur)
        ended = not any(not isinstance(x, str) or x.strip() for x in cur)
    return out, ended

def cells(line):
    res, cur = [], []
    for p in line:
        if isinstance(p, str):
            bits = p.split('&')
            for k, b in enumerate(bits):
                if k:
                    res.append(cur)
                    cur = []
                if b.strip():
                    cur.append(b.strip())
        else:
            cur.append(p)
    res.append(cur)
    return res

def values(line):
    """is this line made of values (and not of words)?"""
    return any(not isinstance(p, str) for p in line) and \
        not any(isinstance(p, str) and any(ch.isalpha() for ch in p) for p in line)

# the printing callbacks: function, trailing unknowns of the residual it documents, columns
def table(w, args):
    X = lambda k: S.elem('X', (w.N + k,))
    two_pi = 2 * S.sym('pi', positive=True)
    resp = lambda om, k, order: amplitude(w, 'R%d' % k, args['r'][k], S.power(args['hk'][k] * om, order))
    return {
        'print_epmc_stats': (3, lambda: [X(2), X(0) / two_pi, X(1) / (2 * X(0))]),
        'print_hbm_amp_stats': (2, lambda: [X(1) / two_pi, X(0), resp(X(1), 0, args['order'])]),
        'print_hbm_amp_phase_stats': (3, lambda: [args['freq'] / two_pi, args['amp'], X(0), X(1), resp(args['freq'], 0, args['order'])]),
        'print_vprnm_stats': (2, lambda: [X(1), X(0) / two_pi] + [resp(X(0), k, args['order']) for k in range(2)]),
        'print_vprnm_amp_phase_stats': (4, lambda: [X(3), X(0), X(1), X(2) / two_pi] + [resp(X(2), k, args['order']) for k in range(2)]),
    }

def call_stats(c, name, h0, present, hk0=None):
    w = M.world_of(c.repo, h0)
    w.it.np.lt_table[S.ONE.key] = S.ZERO              # the fundamental is in the list
    f, wh = repo_func(c.repo, CONT + name), where_func(c.repo, CONT + name)
    order = S.sym('order', 0, None)
    hk = [w.rhi, S.ONE]
    args = dict(order=order, freq=S.sym('freq', positive=True), amp=S.sym('amp', positive=True), hk=hk, r=[w.r1, S.ZERO])
    tail, cols = table(w, args)[name]
    n = w.N + tail
    fl = Files(w, present)
    X, D = w.leaf('X', n), w.leaf('D', n)
    k0, d0 = A.key_of(w.it.arr(X)), A.key_of(w.it.arr(D))
    R = [w.leaf('R0', w.Nd), w.leaf('R1', w.Nd)]
    extra = {'print_epmc_stats': {}, 'print_hbm_amp_stats': dict(h=w.h, order=order, output_recov=R[0], output_harmonic=hk[0]),
             'print_hbm_amp_phase_stats': dict(h=w.h, order=order, output_recov=R[0], output_harmonic=hk[0], freq=args['freq'], amp=args['amp']),
             'print_vprnm_stats': dict(h=w.h, order=order, output_recov_harmonic_list=PyList([(R[0], hk[0]), (R[1], hk[1])])),
             'print_vprnm_amp_phase_stats': dict(h=w.h, control_order=S.sym('corder', 0, None), output_order=order,
                                                 output_recov_harmonic_list=PyList([(R[0], hk[0]), (R[1], hk[1])]))}[name]
    r = w.it.call(f, [X, D, 'stats.dat'], extra)
    same = (A.key_of(w.it.arr(X)) == k0, A.key_of(w.it.arr(D)) == d0)
    return w, fl, wh, cols, r, same

def stats(c, name, h0):
    body = {}
    for present in (False, True):
        key = '%s[%s,%s]' % (name, M.label(h0), 'existing file' if present else 'new file')
        try:
            w, fl, wh, cols, r, same = call_stats(c, name, h0, present)
        except Raised:
            c.ob(key, None, CONT + name, 'raises')
            continue
        c.ob(key + ' the solution is not changed', all(same), wh, 'XlamP or dirP_prev is modified')
        if not unconditional(c, key, fl.log, wh):
            continue
        opens = [x for x in fl.log if x[0] == 'open']
        if any(has_unknown(x) for x in fl.log):
            c.ob(key, None, wh, [x for x in fl.log if has_unknown(x)][:2] + w.it.notes[-3:])
            continue
        c.ob(key + ' one file, the given one', (len(opens) == 1 and opens[0][1] == 'stats.dat') if opens else None, wh, opens)
        if not opens:
            continue
        mode = opens[-1][2]
        c.ob(key + ' appends', mode.replace('t', '') in ('a', 'a+') or not present and mode in ('w', 'x', 'wt'), wh, 'mode %r' % mode)
        ex = [k for k, x in enumerate(fl.log) if x[0] == 'exists']
        op = fl.log.index(opens[0])
        c.ob(key + ' presence is tested before the file is created', None if not ex else ex[0] < op, wh, fl.log[:3])
        c.ob(key + ' the presence test is on the same file', all(x[1] == 'stats.dat' for x in fl.log if x[0] == 'exists'), wh, fl.log[:2])
        last = max((k for k, x in enumerate(fl.log) if x[0] == 'write'), default=-1)
        closed = any(x[0] == 'with' for x in fl.log) or any(x[0] == 'close' and k > last for k, x in enumerate(fl.log))
        c.ob(key + ' the file is closed', closed, wh, 'no close')
        parts = ()
        bad = None
        for x in fl.log:
            if x[0] == 'write':
                if not isinstance(x[2], (str, Text)):
                    bad = x[2]
                    break
                parts += Text.parts_of(x[2])
        if bad is not None:
            c.ob(key + ' lines', None, wh, bad)
            continue
        ls, ended = lines(parts)
        isbody = [values(l) for l in ls]
        c.ob(key + ' one line per point, written last', sum(isbody) == 1 and isbody[-1], wh, '%d lines of values of %d' % (sum(isbody), len(ls)))
        c.ob(key + ' the line is complete', ended, wh, 'no end of line')
        c.ob(key + ' header only in a new file', (len(ls) == 1) == present, wh, '%d lines' % len(ls))
        if sum(isbody) != 1:
            continue
        row = cells(ls[isbody.index(True)])
        want = cols()
        c.ob(key + ' number of columns', len(row) == len(want), wh, '%d columns, expected %d' % (len(row), len(want)))
        widths = [len(cells(l)) for l, b in zip(ls, isbody) if not b]
        c.ob(key + ' header lines have the columns of the data', all(x == len(row) for x in widths), wh, 'columns %s, data %d' % (widths, len(row)))
        body[present] = row
        for k, (cell, e) in enumerate(zip(row, want)):
            v = None
            txt = [p for p in cell if not isinstance(p, str)]
            if len(txt) == 1 and len(cell) == 1:
                val = txt[0][2]
                try:
                    v = equal(w.it.scalar(val), e)
                    det = '%s; expected %s' % (val, e)
                except Exception as u:
                    det = u
            elif not txt:
                v, det = False, 'constant text %s' % cell
            else:
                det = 'composite cell'
            c.ob(key + ' column %d' % k, v, wh, det)

def harmonic_resp(c, h0):
    """zeroth and other harmonics"""
    for which in (('zeroth', 'fundamental', 'higher') if h0 == 1 or isinstance(h0, tuple) and 0 in h0[0] else ('fundamental', 'higher')):
        key = 'response amplitude[%s,%s]' % (M.label(h0), which)
        w = M.world_of(c.repo, h0)
        w.it.np.lt_table[S.ONE.key] = S.ZERO
        name = CONT + '_calc_harmonic_resp'
        f, wh = repo_func(c.repo, name), where_func(c.repo, name)
        n = w.N + S.sym('tail', 0, None)
        om, order = S.sym('om', positive=True), S.sym('order', 0, None)
        hk = {'zeroth': S.ZERO, 'fundamental': S.ONE, 'higher': w.rhi}[which]
        if which == 'zeroth':
            order = S.ZERO
        r = w.it.call(f, [w.leaf('X', n), om, w.h, order, w.leaf('R0', w.Nd), hk], {})
        if has_unknown(r):
            c.ob(key, None, wh, [r] + w.it.notes[-3:])
            continue
        if which == 'zeroth':
            want = S.power(recov(w, 'R0', S.ZERO) ** 2, S.const(1) / 2)
        else:
            want = amplitude(w, 'R0', S.ZERO if which == 'fundamental' else w.r1, S.power(hk * om, order))
        try:
            v = equal(w.it.scalar(r), want)
        except S.Undecided as u:
            v = None
        c.ob(key, v, wh, '%s; expected %s' % (r, want))

def saving(c):
    name = CONT + 'continuation_save'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    for present, count in ((False, None), (True, None), (True, 1), (True, 10 ** 6)):
        key = 'continuation_save[%s%s]' % ('existing file' if present else 'new file', '' if count is None else ' with %d points' % count)
        w = M.World(c.repo, 0)
        n = S.sym('n', 1, None)
        fl = Files(w, present)
        fl.rows, fl.n = S.sym('rows', 1, None) if count is None else S.const(count), n
        X, D = w.leaf('X', n), w.leaf('D', n)
        k0, d0 = A.key_of(w.it.arr(X)), A.key_of(w.it.arr(D))
        r = w.it.call(f, [X, D, 'data.npz'], {})
        c.ob(key + ' the solution is not changed', A.key_of(w.it.arr(X)) == k0 and A.key_of(w.it.arr(D)) == d0, wh, 'modified')
        if not unconditional(c, key, fl.log, wh):
            continue
        sv = [x for x in fl.log if x[0] == 'save']
        c.ob(key + ' saved once to the given file', (len(sv) == 1 and sv[0][1] == 'data.npz') if sv else None, wh, [x[:2] for x in fl.log] + w.it.notes[-2:])
        if present:
            ld = [x for x in fl.log if x[0] == 'load']
            c.ob(key + ' earlier points are read from the same file', bool(ld) and all(x[1] == 'data.npz' for x in ld), wh, [x[:2] for x in fl.log])
        c.ob(key + ' presence tested on the same file', all(x[1] == 'data.npz' for x in fl.log if x[0] == 'exists'), wh, [x[:2] for x in fl.log])
        if len(sv) != 1:
            continue
        kw = sv[0][3]
        c.ob(key + ' names', set(kw) == {'XlamP', 'dirP_prev'} and not sv[0][2], wh, 'saved %s' % sorted(kw))
        rows = fl.rows if present else S.ZERO
        for nm, old, new in (('XlamP', 'oldX', 'X'), ('dirP_prev', 'oldD', 'D')):
            v = kw.get(nm)
            if v is None or has_unknown(v):
                c.ob('%s %s' % (key, nm), None, wh, v)
                continue
            a = w.it.arr(v)
            if a.shape != (rows + 1, n):
                c.ob('%s %s shape' % (key, nm), shaped(a, (rows + 1, n)), wh, 'shape %s' % (a.shape,))
                continue
            j = S.sym('j', 0, n)
            entry(c, '%s %s new point is the last row' % (key, nm), a, (rows, j), S.elem(new, (j,)), wh)
            if present:
                i = S.sym('i', 0, rows)
                entry(c, '%s %s earlier points are kept in order' % (key, nm), a, (i, j), S.elem(old, (i, j)), wh)

def combine(c):
    name = CONT + 'combine_callback_funs'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    for n in (0, 1, 2, 3, 4):
        for kind in ('list', 'tuple'):
            w = M.World(c.repo, 0)
            log = []
            w.it.logs.append(log)
            m = S.sym('m', 1, None)
            X, D = w.leaf('X', m), w.leaf('D', m)
            kx, kd = A.key_of(w.it.arr(X)), A.key_of(w.it.arr(D))
            funs = [Prim('cb%d' % k, (lambda k: lambda *a, **kw: log.append((k, a, kw)))(k)) for k in range(n)]
            r = w.it.call(f, [PyList(funs) if kind == 'list' else tuple(funs), X, D], {})
            key = 'combine_callback_funs[%s of %d]' % (kind, n)
            if not unconditional(c, key, log, wh):
                continue
            c.ob(key + ' each function once, in order', [x[0] for x in log] == list(range(n)) if log or not n else None, wh, [x[0] for x in log] + w.it.notes[-2:])
            def is_(v, o, k):
                try:
                    return v is o or A.key_of(w.it.arr(v)) == k
                except Exception:
                    return False
            ok = True
            for k, a, kw in log:
                if len(a) != 2 or kw or not is_(a[0], X, kx) or not is_(a[1], D, kd):
                    ok = False
            c.ob(key + ' with the solution and the direction', ok, wh, [(x[0], len(x[1]), sorted(x[2])) for x in log])

STATS = ['print_epmc_stats', 'print_hbm_amp_stats', 'print_hbm_amp_phase_stats', 'print_vprnm_stats', 'print_vprnm_amp_phase_stats']

def callbacks(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R20 callbacks', 'each callback interpreted with recorded file accesses for a new and an existing file: order of accesses, '
           'mode, lines and cells written; every value is the physical quantity the documented residual keeps at that position; saved '
           'arrays are the earlier rows followed by the new one; combined callbacks called once each, in order, with identical arguments')
    tasks = []
    def add(key, fn, *a):
        def go():
            try:
                fn(c, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        tasks.append((key, go, 120))
    for nm in STATS:
        for h0 in [0, 1] + M.GAPS:
            add('%s %s' % (nm, M.label(h0)), stats, nm, h0)
    for h0 in [0, 1] + M.GAPS:
        add('response %s' % M.label(h0), harmonic_resp, h0)
    add('saving', saving)
    add('combine', combine)
    c.parallel(tasks)
    handlers(c)

# ------------------------------------------------------- C19: conditioning
def conditioning(c, h0, extras, kind):
    key = 'harmonic_wise_conditioning[h0=%d,%s,%s delta]' % (h0, 'extra unknowns' if extras else 'displacements only', kind)
    name = HARM + 'harmonic_wise_conditioning'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.World(c.repo, h0)
    m = S.sym('m', 1, None) if extras else S.ZERO
    H = w.n + h0
    d = w.leaf('dl', H + extras) if kind == 'array' else S.sym('delta', positive=True)
    dl = (lambda k: S.elem('dl', (S.lift(k),))) if kind == 'array' else (lambda k: d)
    w.it.type_is = lambda x, nm: kind == 'float' if nm == 'float' else None
    X = w.leaf('X', w.N + m)
    k0 = A.key_of(w.it.arr(X))
    r = w.it.call(f, [X, w.Nd, w.h, d], {})
    if has_unknown(r):
        c.ob(key, None, wh, [r] + w.it.notes[-3:])
        return
    c.ob(key + ' the baseline is not changed', A.key_of(w.it.arr(X)) == k0, wh, 'X modified')
    a = w.it.arr(r)
    c.ob(key + ' shape', shaped(a, (w.N + m,)), wh, 'shape %s' % (a.shape,))
    q, i, e = S.sym('q', 0, w.n), S.sym('i', 0, w.Nd), S.sym('e', 0, m)
    ab = lambda k: S.fn('abs', S.elem('X', (k,)))
    mean = lambda lo, n: A.sum_over(lambda j: ab(lo + j), n, ()) / n
    lo = w.Nd * (2 * q + h0)
    for nm, o in (('cosine', 0), ('sine', w.Nd)):
        entry(c, '%s %s entries of a harmonic' % (key, nm), a, (lo + o + i,), S.fn('max', dl(q + h0), mean(lo, 2 * w.Nd)), wh)
    if h0:
        entry(c, key + ' zeroth harmonic', a, (i,), S.fn('max', dl(0), mean(S.ZERO, w.Nd)), wh)
    if extras:
        entry(c, key + ' further unknowns', a, (w.N + e,), S.fn('max', dl(H), ab(w.N + e)), wh)

# ------------------------------------------------------------ C19: EPMC models
def extract(c, h0, which, epmc, one):
    key = 'superharmonic model amplitude[%s,%s%s%s]' % (M.label(h0), which, ', modal scale' if epmc else '', ', one row' if one else '')
    name = 'tmdsimpy.roms.vprnm._extract_harmonic_amplitude'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.world_of(c.repo, h0)
    w.it.np.lt_table[S.ONE.key] = S.ZERO
    t = 3 if epmc else S.sym('tail', 0, None)
    m = S.ONE if one else S.sym('m', 1, None)
    U = w.leaf('X', w.N + t) if one else w.leaf('X', m, w.N + t)
    hi = S.ONE if which == 'fundamental' else w.rhi
    r = w.it.call(f, [U, w.h, hi, w.leaf('R0', w.Nd)], dict(is_epmc=True) if epmc else {})
    if has_unknown(r):
        c.ob(key, None, wh, [r] + w.it.notes[-3:])
        return
    a = w.it.arr(r)
    c.ob(key + ' shape', shaped(a, (m,)), wh, 'shape %s' % (a.shape,))
    k = None if one else S.sym('k', 0, m)
    want = amplitude(w, 'R0', S.ZERO if which == 'fundamental' else w.r1, S.ONE, k)
    if epmc:
        want = want * S.power(S.const(10), S.elem('X', (w.N + 2,) if one else (k, w.N + 2)))
    entry(c, key, a, (S.ZERO if one else k,), want, wh)

class Spread(rand.Env):
    """interpretation where some leaves take values of different orders of magnitude"""
    def __init__(self, seed, small=()):
        super().__init__(seed)
        self.small = small
    def factor_(self, *k):
        return 10.0 ** (-2.5 * rand.h01(self.seed, 'size', *k))
    def symbol(self, n):
        if n in self.vals:
            return self.vals[n]
        v = super().symbol(n)
        if n in self.small:
            v = self.vals[n] = v * self.factor_(n)
        return v
    def element(self, nm, idx):
        v = super().element(nm, idx)
        for e in self.small:
            if isinstance(e, str):
                if e == nm:
                    v = v * self.factor_(nm, int(self.expr(idx[0])))
            elif e[0] == nm and abs(self.expr(idx[-1]) - self.expr(e[1])) < 1e-9:
                v = v * self.factor_(nm, int(self.expr(idx[0]))) if e[2] == 'small' else abs(v)
        return v

class Regime:
    PREFER, SPLIT, TRIES = 1, [], 3000
    """signs of the quantities the reduced order model branches on"""
    def __init__(self, facts, small=()):
        self.facts = facts            # [(expression, sign)]
        self.small = small
        self.other = []
        self.known = {}
        self.envs = None

    def __call__(self, d):
        if d.key in self.known:
            return self.known[d.key]
        r = None
        for e, s in self.facts:
            if (d - e).is_zero():
                r = s
            elif (d + e).is_zero():
                r = -s
        if r is None:
            r = self.sampled(d)
        self.known[d.key] = r
        if r is None:
            self.other.append(d)
        return r

    @staticmethod
    def sign(env, e):
        v = env.expr(e)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9 * abs(v.real):
                return None
            v = v.real
        if abs(v) <= 1e-9:
            return 0
        return 1 if v > 0 else -1

    def sampled(self, d):
        """sign of another expression under random interpretations of the leaves which lie in the regime"""
        bad = (rand.Stuck, S.Undecided, OverflowError, ZeroDivisionError, RecursionError, ValueError, TypeError)
        if self.envs is None:
            self.envs = []
            for s in range(self.TRIES):
                env = Spread(s, self.small)
                try:
                    if all(self.sign(env, e) == v for e, v in self.facts):
                        self.envs.append(s)
                except bad:
                    pass
                if len(self.envs) >= 12:
                    break
        got = {}
        for s in self.envs:
            try:
                got.setdefault(self.sign(Spread(s, self.small), d), []).append(s)
            except bad:
                return None
        got.pop(None, None)
        if not got:
            return None
        if len(got) > 1:
            # the regime contains both cases: go on in a part of it
            Regime.SPLIT.append(d)
        r = self.PREFER if self.PREFER in got else min(got)
        self.envs = got[r]
        return r

def frc(c, h0, inp, regime, rows=2):
    """epmc.constant_force: every reported point satisfies the modal equation and is ordered as the documentation says"""
    key = 'epmc.constant_force[h0=%d,%s,%s]' % (h0, inp, regime)
    name = 'tmdsimpy.roms.epmc.constant_force'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.World(c.repo, h0)
    w.it.np.lt_table[S.ONE.key] = S.ZERO
    Nd, N = w.Nd, w.N
    bb = w.leaf('bb', S.const(rows), N + 3)
    b = lambda i, k: S.elem('bb', (S.const(i), S.lift(k)))
    kws = {}
    W = lambda i: b(i, N)
    Z = lambda i: b(i, N + 1) / (2 * W(i))
    if 'scalar' in inp:
        kws.update(w=S.sym('w_in', positive=True), zeta=S.sym('z_in', positive=True))
        W, Z = (lambda i: S.sym('w_in')), (lambda i: S.sym('z_in'))
    elif 'vectors' in inp:
        kws.update(w=w.leaf('w_in', S.const(rows)), zeta=w.leaf('z_in', S.const(rows)))
        W, Z = (lambda i: S.elem('w_in', (S.const(i),))), (lambda i: S.elem('z_in', (S.const(i),)))
    elif 'frequency' in inp:
        kws.update(w=w.leaf('w_in', S.const(rows)))
        W = lambda i: S.elem('w_in', (S.const(i),))
    if 'modal force' in inp:
        if 'vectors' in inp:
            kws.update(phiH_Fl_real=w.leaf('fr', S.const(rows)), phiH_Fl_imag=w.leaf('fi', S.const(rows)))
            FR, FI = (lambda i: S.elem('fr', (S.const(i),))), (lambda i: S.elem('fi', (S.const(i),)))
        else:
            kws.update(phiH_Fl_real=S.sym('fr'), phiH_Fl_imag=S.sym('fi'))
            FR, FI = (lambda i: S.sym('fr')), (lambda i: S.sym('fi'))
    else:
        kws['Fl'] = w.leaf('Fl', N)
        dot = lambda i, x, y: A.sum_over(lambda j: S.elem('Fl', ((h0 + x) * Nd + j,)) * b(i, (h0 + y) * Nd + j), Nd, ())
        FR = lambda i: dot(i, 0, 0) + dot(i, 1, 1)
        FI = lambda i: dot(i, 0, 1) - dot(i, 1, 0)
    q = lambda i: S.power(S.const(10), b(i, N + 2))
    p2 = lambda i: W(i) ** 2 - 2 * (Z(i) * W(i)) ** 2
    disc = lambda i: p2(i) ** 2 - W(i) ** 4 + (FR(i) ** 2 + FI(i) ** 2) / q(i) ** 2
    om2 = lambda i, s: p2(i) + s * S.power(disc(i), S.const(1) / 2)
    neg = {'all points real': {}, 'upper branch only': {('om', i, -1): -1 for i in range(rows)},
           'last point not reached': {('d', rows - 1): -1}, 'first point without lower branch': {('om', 0, -1): -1},
           'resonance of the last point touched': {('d', rows - 1): 0}}[regime]
    facts, keep = [], []
    for i in range(rows):
        sd = neg.get(('d', i), 1)
        facts.append((disc(i), sd))
        for sg in (1, -1):
            so = neg.get(('om', i, sg), 1)
            if sd < 0:
                if sg > 0:
                    facts.append((p2(i), 1))
                continue
            facts.append((om2(i, sg), so))
            if so > 0:
                keep.append((i, sg))
    order = [(i, -1) for i in range(rows) if (i, -1) in keep] + [(i, 1) for i in reversed(range(rows)) if (i, 1) in keep]
    rg = Regime(facts, ('fr', 'fi', 'Fl', 'z_in', ('bb', N + 1, 'small'), ('bb', N, 'positive')))
    w.it.decide = rg
    k0 = A.key_of(w.it.arr(bb))
    r = w.it.call(f, [bb, Nd, w.h], kws)
    if has_unknown(r) or not isinstance(r, tuple) or len(r) != 3:
        c.ob(key, None, wh, [r, 'not understood: %s' % [str(x)[:150] for x in rg.other[:2]]] + w.it.notes[-3:])
        return
    c.ob(key + ' the backbone is not changed', A.key_of(w.it.arr(bb)) == k0, wh, 'epmc_bb modified')
    U, amp, ph = [w.it.arr(x) for x in r]
    if U.shape[0].const_value() != len(order):
        v = None if rg.other or U.shape[0].const_value() is None else False
        c.ob(key + ' points of the curve', v, wh, '%s points, expected %s' % (U.shape[0], order))
        return
    c.ob(key + ' shapes', shaped(U, (S.const(len(order)), N + 1)) and
         shaped(amp, (S.const(len(order)),)) and shaped(ph, (S.const(len(order)),)),
         wh, 'shapes %s' % [x.shape for x in (U, amp, ph)])
    j, hq = S.sym('j', 0, Nd), S.sym('hq', 0, w.n)
    for k, (i, sg) in enumerate(order):
        kk = S.const(k)
        def at(nm, arr, ix, want):
            try:
                v = arr.f(ix)
                c.ob('%s point %d %s' % (key, k, nm), equal(v, want), wh, 'difference %s' % (v - want))
            except S.Undecided as u:
                c.ob('%s point %d %s' % (key, k, nm), None, wh, u)
        om = S.power(om2(i, sg), S.const(1) / 2)
        at('frequency', U, (kk, N), om)
        at('modal amplitude', amp, (kk,), q(i))
        re, im = W(i) ** 2 - om ** 2, 2 * Z(i) * W(i) * om
        # the frequency satisfies |q (re + j im)| = |phi^H F|
        z = (re ** 2 + im ** 2) * q(i) ** 2 - FR(i) ** 2 - FI(i) ** 2
        c.ob('%s point %d reference satisfies the modal equation' % (key, k), equal(z, S.ZERO), wh, z)
        theta = S.fn('atan2', FR(i) * im - FI(i) * re, FR(i) * re + FI(i) * im)
        at('phase', ph, (kk,), theta)
        try:
            th = ph.f((kk,))
        except S.Undecided as u:
            continue
        ang = S.elem('hz', (hq,)) * th
        co, si = S.fn('cos', ang), S.fn('sin', ang)
        cc, sc = Nd * (2 * hq + h0) + j, Nd * (2 * hq + 1 + h0) + j
        at('cosine displacement', U, (kk, cc), q(i) * (b(i, cc) * co - b(i, sc) * si))
        at('sine displacement', U, (kk, sc), q(i) * (b(i, cc) * si + b(i, sc) * co))
        if h0:
            at('static displacement', U, (kk, j), b(i, j))

INTERP = 'tmdsimpy.postprocess.continuation.linear_interp'

class Part:
    """obligations of the other part of a regime"""
    def __init__(self, c):
        self.c = c
    def __getattr__(self, n):
        return getattr(self.c, n)
    def ob(self, key, *a):
        self.c.ob(key + ' (other part of the regime)', *a)

def both_parts(c, fn, *a):
    Regime.PREFER, Regime.SPLIT = 1, []
    fn(c, *a)
    if Regime.SPLIT:
        Regime.PREFER = -1
        fn(Part(c), *a)

class Interpolated:
    """opaque linear_interp: remembers its arguments, returns points of unknown content"""
    def __init__(self, w):
        self.w, self.calls = w, []
        w.it.hooks[INTERP] = self
    def __call__(self, it, f, args, kwargs):
        par = ['XlamP_full', 'new_values', 'reference_values']
        v = dict(zip(par, args))
        v.update(kwargs)
        k = len(self.calls)
        T = it.arr(v['XlamP_full'])
        n = it.arr(v['new_values'])
        m = S.ONE if n.ndim == 0 else n.shape[0]
        ref = v.get('reference_values')
        self.calls.append((T, n, None if ref is None else it.arr(ref), m))
        return self.w.leaf('P%d' % k, m, T.shape[1])

def constant_disp(c, h0, inp):
    key = 'epmc.constant_displacement[h0=%d,%s]' % (h0, inp)
    name = 'tmdsimpy.roms.epmc.constant_displacement'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.World(c.repo, h0)
    w.it.np.lt_table[S.ONE.key] = S.ZERO
    ip = Interpolated(w)
    Nd, N = w.Nd, w.N
    m, mo = S.sym('m', 1, None), S.sym('mout', 1, None)
    bb = w.leaf('bb', m, N + 3)
    k0 = A.key_of(w.it.arr(bb))
    amp = S.sym('amp', positive=True)
    k, i = S.sym('k', 0, m), S.sym('i', 0, mo)
    b = lambda col: S.elem('bb', (k, col))
    kws, W, XI = {}, b(N), b(N + 1)
    if 'w' in inp.split():
        kws['w'] = w.leaf('w_in', m) if 'vectors' in inp else S.sym('w_in', positive=True)
        W = S.elem('w_in', (k,)) if 'vectors' in inp else kws['w']
    if 'zeta' in inp.split():
        kws['zeta'] = w.leaf('z_in', m) if 'vectors' in inp else S.sym('z_in', positive=True)
        XI = 2 * W * (S.elem('z_in', (k,)) if 'vectors' in inp else kws['zeta'])
    r = w.it.call(f, [bb, w.h, w.leaf('Fc', Nd), w.leaf('Om', mo), w.leaf('R0', Nd), amp], kws)
    if has_unknown(r) or not isinstance(r, tuple) or len(r) != 2:
        c.ob(key, None, wh, [r] + w.it.notes[-3:])
        return
    c.ob(key + ' the backbone is not changed', A.key_of(w.it.arr(bb)) == k0, wh, 'epmc_bb modified')
    if len(ip.calls) != 1:
        c.ob(key + ' one interpolation', None, wh, len(ip.calls))
        return
    T, x, ref, _ = ip.calls[0]
    j = S.sym('j', 0, N)
    entry(c, key + ' interpolates the displacements', T, (k, j), b(j), wh)
    entry(c, key + ' interpolates the frequency', T, (k, N), W, wh)
    entry(c, key + ' interpolates the damping', T, (k, N + 1), XI, wh)
    q = S.power(S.const(10), b(N + 2))
    entry(c, key + ' interpolates the linear amplitude', T, (k, N + 2), q, wh)
    c.ob(key + ' requested amplitude', x.ndim <= 1 and equal(x.f((S.ZERO,) * x.ndim), amp), wh, x)
    rec = lambda o: A.sum_over(lambda jj: S.elem('R0', (jj,)) * b((h0 + o) * Nd + jj), Nd, ())
    if ref is None:
        c.ob(key + ' reference is the physical amplitude', False, wh, 'interpolates over the last column')
    else:
        entry(c, key + ' reference is the physical amplitude', ref, (k,), S.power(rec(0) ** 2 + rec(1) ** 2, S.const(1) / 2) * q, wh)
    P = lambda col: S.elem('P0', (S.ZERO, col))
    F, pt = w.it.arr(r[0]), w.it.arr(r[1])
    c.ob(key + ' shapes', shaped(F, (mo,)) and shaped(pt, (N + 3,)), wh, 'shapes %s %s' % (F.shape, pt.shape))
    om = S.elem('Om', (i,))
    pw, px, pq = P(N), P(N + 1), P(N + 2)
    dot = lambda o: A.sum_over(lambda jj: S.elem('Fc', (jj,)) * P((h0 + o) * Nd + jj), Nd, ())
    want = pq * S.power((pw ** 2 - om ** 2) ** 2 + (px * om) ** 2, S.const(1) / 2) / S.power(dot(0) ** 2 + dot(1) ** 2, S.const(1) / 2)
    try:
        v = F.f((i,))
        c.ob(key + ' force satisfies the modal equation', equal(v, want), wh, '%s; expected %s' % (v, want))
    except S.Undecided as u:
        c.ob(key + ' force satisfies the modal equation', None, wh, u)
    jj = S.sym('jj', 0, N + 2)
    entry(c, key + ' returned point', pt, (jj,), P(jj), wh)
    entry(c, key + ' returned amplitude on logarithmic scale', pt, (N + 2,), S.fn('log', pq) / S.fn('log', S.const(10)), wh)

def superharmonic(c, hv, hf, hr, rhi, tail, below, extra, correct=True):
    """vprnm.constant_h1_displacement for concrete harmonic lists, symbolic size of the model and content of the backbones"""
    key = 'vprnm.constant_h1_displacement[h_vprnm=%s,h_fund=%s,h_rhi=%s,%s,%d of 2 points below%s%s]' % (
        hv, hf, hr, 'force' if tail == 2 else 'amplitude and phase', below,
        '' if extra is None else ',extra frequency %s' % extra, '' if correct else ',force not corrected')
    key = key.replace(' ', '')
    name = 'tmdsimpy.roms.vprnm.constant_h1_displacement'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.World(c.repo, 0)
    it, Nd, C = w.it, w.Nd, S.const
    harm = lambda l: NArr(A.from_list([C(k) for k in l]))
    nhc = lambda l: 2 * len(l) - (l[0] == 0)
    pos = lambda l, k: nhc([x for x in l if x < k]) if any(x < k for x in l) else 0
    nv, nf, nr = [nhc(l) * Nd for l in (hv, hf, hr)]
    amp = S.sym('amp', positive=True)
    ip = Interpolated(w)
    frcs, disp, peaks, sorts, interps = [], [], [], [], []
    mo = 2
    def bound(fn, args, kwargs):
        par = [a.arg for a in fn.node.args.args]
        v = dict(zip(par, args))
        v.update(kwargs)
        return v
    def cforce(it_, fn, a, k):
        frcs.append(bound(fn, a, k))
        return (w.leaf('US', C(mo), nr + 1), w.leaf('qS', C(mo)), w.leaf('phS', C(mo)))
    def cdisp(it_, fn, a, k):
        disp.append(bound(fn, a, k))
        return (w.leaf('F', it_.arr(disp[-1]['Omega']).shape[0]), w.leaf('PF', nf + 3))
    it.hooks['tmdsimpy.roms.epmc.constant_force'] = cforce
    it.hooks['tmdsimpy.roms.epmc.constant_displacement'] = cdisp
    def argmin(x, *a, **k):
        peaks.append(it.arr(x))
        return C(1)
    def sort(x, *a, **k):
        sorts.append(it.arr(x))
        return w.leaf('sorted', it.arr(x).shape[0])
    def interp(x, xp, fp, **k):
        interps.append((it.arr(x), it.arr(xp), it.arr(fp)))
        return w.leaf('qI', it.arr(x).shape[0])
    for pre in ('numpy.', 'np.'):
        it.np.extra[pre + 'argmin'], it.np.extra[pre + 'sort'], it.np.extra[pre + 'interp'] = argmin, sort, interp
    v_ = lambda k: S.elem('P0', (S.ZERO, S.lift(k)))
    r_ = lambda k: S.elem('P1', (S.ZERO, S.lift(k)))
    bbr = lambda i, k: S.elem('bbr', (C(i), S.lift(k)))
    q10 = lambda i: S.power(C(10), bbr(i, nr + 2))
    OM = v_(nv) if tail == 2 else v_(nv + 2)
    us = lambda k, col: S.elem('US', (S.lift(k), S.lift(col)))
    facts = [(q10(i) - r_(nr + 2), -1 if i < below else 1) for i in range(2)]
    if extra is not None:
        facts.append((rhi * S.elem('extra', (S.ZERO,)) - us(1, nr), -1 if extra == 'below' else 1))
    it.decide = Regime(facts)
    args = [w.leaf('bbf', S.sym('mf', 1, None), nf + 3), harm(hf), w.leaf('bbr', C(2), nr + 3), harm(hr), w.leaf('bbv', S.sym('mv', 1, None), nv + tail),
            harm(hv), C(rhi), w.leaf('R1', Nd), amp, w.leaf('R3', Nd), w.leaf('Fc', Nd)]
    kept = [(x, A.key_of(it.arr(x))) for x in args if isinstance(x, NArr)]
    kws = {} if extra is None else dict(extra_Omega=w.leaf('extra', C(1)))
    if not correct:
        kws['correct_force'] = False
    r = it.call(f, args, kws)
    if has_unknown(r) or not isinstance(r, tuple) or len(r) != 3:
        c.ob(key, None, wh, [r] + it.notes[-3:])
        return
    c.ob(key + ' the backbones are not changed', all(A.key_of(it.arr(x)) == k for x, k in kept), wh, 'arguments modified')
    if len(ip.calls) != 2 + (extra is not None) or len(frcs) != 1 or len(disp) != 1 or len(peaks) != 1:
        c.ob(key + ' steps', None, wh, 'interpolations %d, curves %d %d, peaks %d' % (len(ip.calls), len(frcs), len(disp), len(peaks)))
        return
    def ob(nm, got, want):
        try:
            g = got() if callable(got) else got
            g = it.scalar(g) if not isinstance(g, S.Expr) else g
            c.ob('%s %s' % (key, nm), equal(g, want), wh, '%s; expected %s' % (g, want))
        except S.Undecided as u:
            c.ob('%s %s' % (key, nm), None, wh, u)
    half = C(1) / 2
    def mag(R, blk, at):
        a = [A.sum_over(lambda j: S.elem(R, (j,)) * at((blk + o) * Nd + j), Nd, ()) for o in (0, 1)]
        return S.power(a[0] ** 2 + a[1] ** 2, half)
    def angle(R, blk, at):
        a = [A.sum_over(lambda j: S.elem(R, (j,)) * at((blk + o) * Nd + j), Nd, ()) for o in (0, 1)]
        return S.fn('atan2', a[1], a[0])
    # interpolation of the superharmonic backbone to the controlled amplitude
    k, j = S.sym('k', 0, S.sym('mv', 1, None)), S.sym('j', 0, Nd)
    T, x, ref, m_ = ip.calls[0]
    c.ob(key + ' first interpolation is of the superharmonic backbone', equal(T.f((k, nv)), S.elem('bbv', (k, nv))) if shaped(T, (S.sym('mv'), nv + tail)) else False, wh, T.shape)
    ob('controlled amplitude', lambda: x.f((S.ZERO,) * x.ndim), amp)
    ob('amplitude along the superharmonic backbone', lambda: ref.f((k,)), mag('R1', pos(hv, 1), lambda col: S.elem('bbv', (k, col))))
    # interpolation of the higher mode
    T, x, ref, m_ = ip.calls[1]
    for i in range(2):
        ob('higher mode amplitude %d on linear scale' % i, lambda: T.f((C(i), nr + 2)), q10(i))
        ob('higher mode frequency %d' % i, lambda: T.f((C(i), nr)), bbr(i, nr))
        ob('reference amplitude %d of the higher mode' % i, lambda: ref.f((C(i),)), mag('R3', pos(hr, 1), lambda col: bbr(i, col)) * q10(i))
    ob('superharmonic amplitude requested', lambda: x.f((S.ZERO,) * x.ndim), mag('R3', pos(hv, rhi), v_))
    # the response of the higher mode
    a = frcs[0]
    z = lambda x_: x_(nr + 1) / (2 * x_(nr))
    ob('modal force of the superharmonic', lambda: a['phiH_Fl_real'], 2 * r_(nr + 2) * (rhi * OM) ** 2 * z(r_))
    ob('imaginary part of the modal force', lambda: a.get('phiH_Fl_imag'), S.ZERO)
    B, W, Z = it.arr(a['epmc_bb']), it.arr(a['w']), it.arr(a['zeta'])
    c.ob(key + ' points of the higher mode used', shaped(B, (C(below + 1), nr + 3)) and shaped(W, (C(below + 1),)) and shaped(Z, (C(below + 1),)), wh,
         'shapes %s %s %s' % (B.shape, W.shape, Z.shape))
    c.ob(key + ' sizes given to the response of the higher mode', equal(it.scalar(a['Ndof']), Nd) and A.key_of(it.arr(a['h'])) == A.key_of(it.arr(harm(hr))), wh, 'Ndof or h')
    if B.shape[0].const_value() == below + 1 and W.shape == Z.shape == (C(below + 1),):
        lg = lambda e: S.fn('log', e) / S.fn('log', C(10))
        for i in range(below + 1):
            last = i == below
            src = r_ if last else (lambda col: bbr(i, col))
            ob('displacement of point %d' % i, lambda: B.f((C(i), j)), src(j))
            g = None
            ob('amplitude of point %d' % i, lambda: B.f((C(i), nr + 2)), lg(r_(nr + 2)) if last else lg(q10(i)))
            ob('damping of point %d' % i, lambda: Z.f((C(i),)), z(src))
            ob('frequency of point %d' % i, lambda: W.f((C(i),)), rhi * OM if last else bbr(i, nr) * rhi * OM / r_(nr))
    # the peak
    kk = S.sym('kk', 0, 2)
    try:
        e = peaks[0].f((kk,))
        z0 = S.replace_elem(e, 'US', lambda ix: rhi * OM)
        c.ob(key + ' peak is the point at the superharmonic resonance', equal(z0, S.ZERO) if not (e - z0).is_zero() else None, wh, e)
    except S.Undecided as u:
        c.ob(key + ' peak is the point at the superharmonic resonance', None, wh, u)
    # the rest of the response
    a = disp[0]
    phS = angle('R3', pos(hv, rhi), v_) - angle('R3', pos(hr, 1), lambda col: us(1, col))
    n_out, peak = mo, 1
    def rot(at, h, kq, ph):
        """(cos, sin) blocks of harmonic kq of a rotated solution"""
        p = pos(h, kq) * Nd
        cc, ss = at(p + j), at(p + Nd + j)
        return cc * S.fn('cos', kq * ph) - ss * S.fn('sin', kq * ph), cc * S.fn('sin', kq * ph) + ss * S.fn('cos', kq * ph)
    sup = lambda i, kq: rot(lambda col: us(i, col), hr, kq, phS)
    freq = lambda i: us(i, nr)
    qs = lambda i: S.elem('qS', (C(i),))
    if extra is not None:
        n_out, peak = mo + 1, 1 + (extra == 'below')
        T, x, ref, m_ = ip.calls[2]
        c.ob(key + ' interpolation over frequency', ref is None, wh, 'reference values given')
        if len(sorts) != 1 or len(interps) != 1:
            c.ob(key + ' frequencies', None, wh, '%d sorts' % len(sorts))
            return
        want = [rhi * S.elem('extra', (S.ZERO,))] + [us(i, nr) for i in range(mo)]
        got = [sorts[0].f((C(i),)) for i in range(n_out)] if sorts[0].shape == (C(n_out),) else []
        c.ob(key + ' all frequencies are kept', len(got) == n_out and all(any(equal(g, q) for g in got) for q in want), wh, got)
        for i in range(mo):
            for kq in [x_ for x_ in hr if x_]:
                p = pos(hr, kq) * Nd
                for nm, o in (('cosine', 0), ('sine', 1)):
                    ob('interpolated %s %d of point %d' % (nm, kq, i), lambda: T.f((C(i), p + o * Nd + j)), sup(i, kq)[o])
        X, XP, FP = interps[0]
        for i in range(mo):
            ob('amplitude interpolated over the frequency %d' % i, lambda: XP.f((C(i),)), us(i, nr))
            ob('amplitude %d interpolated' % i, lambda: FP.f((C(i),)), qs(i))
        freq = lambda i: S.elem('sorted', (C(i),))
        for i in range(n_out):
            ob('amplitude interpolated at frequency %d' % i, lambda: X.f((C(i),)), freq(i))
            ob('response interpolated at frequency %d' % i, lambda: x.f((C(i),)), freq(i))
        qs = lambda i: S.elem('qI', (C(i),))
        def sup(i, kq):
            p = pos(hr, kq) * Nd
            return S.elem('P2', (C(i), p + j)), S.elem('P2', (C(i), p + Nd + j))
    Om, cp, ca, fl = it.arr(a['Omega']), it.arr(a['control_point']), a['control_amplitude'], it.arr(a['Flcos'])
    for i in range(n_out):
        ob('excitation frequency %d' % i, lambda: Om.f((C(i),)), freq(i) / rhi)
    ob('controlled point of the fundamental', lambda: cp.f((j,)), S.elem('R1', (j,)))
    ob('controlled amplitude of the fundamental', lambda: ca, amp)
    ob('force of the fundamental', lambda: fl.f((j,)), S.elem('Fc', (j,)))
    bf = it.arr(a['epmc_bb'])
    c.ob(key + ' fundamental backbone', A.key_of(bf) == A.key_of(it.arr(args[0])) and A.key_of(it.arr(a['h'])) == A.key_of(it.arr(harm(hf))), wh, 'other backbone')
    U, F, ho = it.arr(r[0]), it.arr(r[1]), it.arr(r[2])
    hout = sorted(set([hv[0]] + hf + [rhi * x_ for x_ in hr]))
    hs = [ho.f((C(i),)).const_value() for i in range(int(ho.shape[0].const_value()))] if ho.shape[0].const_value() is not None else None
    c.ob(key + ' harmonics', None if hs is None else hs == hout, wh, hs)
    if hs != hout:
        return
    nn = nhc(hout) * Nd
    c.ob(key + ' shapes', shaped(U, (C(n_out), nn + 1)) and shaped(F, (C(n_out),)), wh, 'shapes %s %s' % (U.shape, F.shape))
    pf = lambda col: S.elem('PF', (S.lift(col),))
    qf = S.power(C(10), pf(nf + 2))
    scaled = lambda col: qf * pf(col)
    phF = angle('R1', pos(hv, 1), v_) - angle('R1', pos(hf, 1), scaled)
    for i in range(n_out):
        ii = C(i)
        if hv[0] == 0:
            ob('static displacement of point %d' % i, lambda: U.f((ii, j)), v_(j))
        for kq in [x_ for x_ in hout if x_]:
            want = [S.ZERO, S.ZERO]
            if kq in hf:
                want = [x_ + y for x_, y in zip(want, rot(scaled, hf, kq, phF))]
            if kq % rhi == 0 and kq // rhi in hr:
                want = [x_ + y for x_, y in zip(want, sup(i, kq // rhi))]
            p = pos(hout, kq) * Nd
            for nm, o in (('cosine', 0), ('sine', 1)):
                ob('%s of harmonic %d of point %d' % (nm, kq, i), lambda: U.f((ii, p + o * Nd + j)), want[o])
        ob('frequency of point %d' % i, lambda: U.f((ii, nn)), freq(i) / rhi)
        fm = v_(nv + 1) if tail == 2 else S.power(v_(nv) ** 2 + v_(nv + 1) ** 2, half)
        F0 = lambda q_: S.elem('F', (C(q_),))
        mx = qs(0)
        for q_ in range(1, n_out):
            mx = S.fn('max', mx, qs(q_))
        ob('force of point %d' % i, lambda: F.f((ii,)), F0(i) + (fm - F0(peak)) * qs(i) / mx if correct else F0(i))

def stability(c, kw):
    """postprocess.shooting.time_stability on two opaque shooting solutions"""
    key = 'time_stability[%s]' % ('given Nt' if kw else 'default Nt')
    name = 'tmdsimpy.postprocess.shooting.time_stability'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.World(c.repo, 0)
    it, Nd, C = w.it, w.Nd, S.const
    nt = S.sym('nt', 1, None) if kw else C(128)
    calls, eig = [], []
    def res(Uw, Fl, *a, **k):
        n = len(calls)
        k = dict(zip(['Nt', 'return_aux'], a), **k)
        calls.append((it.arr(Uw), it.arr(Fl), k))
        N = k.get('Nt', C(128))
        out = (w.leaf('R%d' % n, 2 * Nd), w.leaf('J%d' % n, 2 * Nd, 2 * Nd), w.leaf('G%d' % n, 2 * Nd))
        return out + ((w.leaf('Mono%d' % n, 2 * Nd, 2 * Nd), w.leaf('y%d' % n, Nd, N + 1), w.leaf('v%d' % n, Nd, N + 1)),) if k.get('return_aux') is True else out
    def eigvals(x):
        eig.append(it.arr(x))
        return w.leaf('ev%d' % (len(eig) - 1), 2 * Nd)
    for pre in ('numpy.', 'np.', 'scipy.'):
        it.np.extra[pre + 'linalg.eigvals'] = eigvals
        it.np.extra[pre + 'linalg.eig'] = lambda x: (eigvals(x), Unknown('eigenvectors'))
    vib = Obj(None, None, {'M': w.leaf('M', Nd, Nd), 'shooting_res': Prim('shooting_res', res)})
    X, Fl = w.leaf('X', C(2), 2 * Nd + 1), w.leaf('Fl', 2 * Nd)
    mag = [it.scalar(it.np.maxf(NArr(A.ew(lambda x: S.fn('abs', x), it.arr(w.leaf('ev%d' % i, 2 * Nd)))))) for i in range(2)]
    it.decide = Regime([(mag[0] - 1, -1), (mag[1] - 1, 1)])
    r = it.call(f, [vib, X, Fl], {'Nt': nt} if kw else {})
    if has_unknown(r) or not isinstance(r, tuple) or len(r) != 4 or len(calls) != 2 or len(eig) != 2:
        c.ob(key, None, wh, [r, len(calls), len(eig)] + it.notes[-3:])
        return
    j, k, i, t = S.sym('j', 0, 2 * Nd + 1), S.sym('k', 0, 2 * Nd), S.sym('i', 0, Nd), S.sym('t', 0, nt + 1)
    y, v, st, mx = r
    mx = it.arr(mx)
    for n in range(2):
        U, F, kws = calls[n]
        nn = C(n)
        entry(c, key + ' solution %d' % n, U, (j,), S.elem('X', (nn, j)), wh)
        entry(c, key + ' force %d' % n, F, (k,), S.elem('Fl', (k,)), wh)
        c.ob(key + ' number of time steps %d' % n, equal(S.lift(kws.get('Nt', C(128))), nt), wh, kws)
        k2 = S.sym('k2', 0, 2 * Nd)
        entry(c, key + ' eigenvalues are those of the monodromy matrix %d' % n, eig[n], (k, k2), S.elem('Mono%d' % n, (k, k2)), wh)
        entry(c, key + ' displacement history %d' % n, it.arr(y), (i, t, nn), S.elem('y%d' % n, (i, t)), wh)
        entry(c, key + ' velocity history %d' % n, it.arr(v), (i, t, nn), S.elem('v%d' % n, (i, t)), wh)
        entry(c, key + ' largest multiplier %d' % n, mx, (nn,), mag[n], wh)
        entry(c, key + ' stable exactly when no multiplier is outside the unit circle %d' % n, it.arr(st), (nn,), S.const(1 - n), wh)

def local_forces(c, h0, kind):
    """postprocess.harmonic.local_harmonic_forces on opaque forces and opaque transforms"""
    key = 'local_harmonic_forces[h0=%d,%s]' % (h0, kind)
    name = 'tmdsimpy.postprocess.harmonic.local_harmonic_forces'
    f, wh = repo_func(c.repo, name), where_func(c.repo, name)
    w = M.World(c.repo, h0)
    it, Nd, N, C = w.it, w.Nd, w.N, S.const
    nh = 2 * w.n + h0
    om, nt = S.sym('om', positive=True), S.sym('nt', 1, None)
    hyst = kind != 'instantaneous'
    series, coef, forces = [], [], []
    def bound(par, args, kwargs):
        v = dict(zip(par, args))
        v.update(kwargs)
        return v
    def tsd(it_, fn, a, k):
        v = bound(['Nt', 'h', 'X0', 'order'], a, k)
        X0 = it_.arr(v['X0'])
        series.append((v, X0))
        return w.leaf('ts%d' % (len(series) - 1), S.lift(v['Nt']), X0.shape[1])
    def gfc(it_, fn, a, k):
        v = bound(['h', 'x_t'], a, k)
        x = it_.arr(v['x_t'])
        coef.append((v, x))
        return w.leaf('fc%d' % (len(coef) - 1), nh, x.shape[1])
    it.hooks[HARM + 'time_series_deriv'] = tsd
    it.hooks[HARM + 'get_fourier_coeff'] = gfc
    nl = [S.sym('nl%d' % k, 1, None) for k in range(2)]
    atol = S.sym('tol', positive=True)
    def law(n):
        def hist(*a, **k):
            forces.append((n, a, k))
            fl = w.leaf('ft%d' % n, nt, nl[n])
            return (fl, Unknown('gradients'), Unknown('gradients'))
        at = {'Q': w.leaf('Q%d' % n, nl[n], Nd), 'T': w.leaf('T%d' % n, Nd, nl[n]), 'nl_force_type': Prim('nl_force_type', lambda: C(1 if hyst else 0)),
              'local_force_history': Prim('local_force_history', hist)}
        if kind == 'hysteretic with slider positions':
            at['u0'] = w.leaf('u0%d' % n, nl[n])
        elif kind == 'hysteretic with scalar slider position':
            at['u0'] = S.sym('u0%d' % n)
        elif kind == 'hysteretic with unset slider position':
            at['u0'] = None
        return Obj(None, None, at, name='force%d' % n)
    vib = Obj(None, None, {'nonlinear_forces': PyList([law(0), law(1)])})
    U = w.leaf('X', N)
    r = it.call(f, [vib, U, om, w.h], {'Nt': nt, 'aft_tol': atol})
    r = r.items if isinstance(r, PyList) else r
    if has_unknown(r) or len(r) != 2 or len(forces) != 2:
        c.ob(key, None, wh, [r, len(forces)] + it.notes[-3:])
        return
    ix = lambda a: next((k for k in range(len(series)) if A.key_of(it.arr(a)) == A.key_of(it.arr(w.leaf('ts%d' % k, S.lift(series[k][0]['Nt']), series[k][1].shape[1])))), None)
    for n in range(2):
        k = key + ' force %d' % n
        i, q, t = S.sym('i%d' % n, 0, nl[n]), S.sym('q', 0, nh), S.sym('t', 0, nt)
        uh = lambda q_: A.sum_over(lambda j: S.elem('Q%d' % n, (i, j)) * S.elem('X', (q_ * Nd + j,)), Nd, ())
        if not isinstance(r[n], tuple) or len(r[n]) != 4:
            c.ob(k, None, wh, r[n])
            continue
        Uh, ut, Fh, ft = [it.arr(x) for x in r[n]]
        entry(c, k + ' local displacement coefficients', Uh, (q, i), uh(q), wh)
        a = [x for x in forces if x[0] == n]
        args, kws = a[0][1], a[0][2]
        pos = ['X', 'Xdot'] + (['h', 'cst', 'unlth0'] if hyst else [])
        v = bound(pos, args, kws)
        # displacement
        sx = [s for s in range(len(series)) if (it.arr(v['X']).f((t, i)) - S.elem('ts%d' % s, (t, i))).is_zero()]
        c.ob(k + ' receives a time series', len(sx) == 1 if sx else None, wh, v['X'])
        if len(sx) == 1:
            s = series[sx[0]]
            c.ob(k + ' displacement history is not differentiated', S.lift(s[0]['order']).const_value() == 0, wh, s[0]['order'])
            entry(c, k + ' displacement history of the local displacements', s[1], (q, i), uh(q), wh)
            c.ob(k + ' harmonics and time steps', s[0]['h'] is w.h and equal(S.lift(s[0]['Nt']), nt), wh, 'h or Nt')
            entry(c, k + ' returned displacement history', ut, (t, i), S.elem('ts%d' % sx[0], (t, i)), wh)
        e = it.arr(v['Xdot']).f((t, i))
        sv = [s for s in range(len(series)) if equal(e, om * S.elem('ts%d' % s, (t, i))) is True]
        c.ob(k + ' velocity is frequency times the first derivative', (len(sv) == 1 and S.lift(series[sv[0]][0]['order']).const_value() == 1) if sv else False, wh, e)
        if len(sv) == 1:
            entry(c, k + ' velocity of the local displacements', series[sv[0]][1], (q, i), uh(q), wh)
        if hyst:
            c.ob(k + ' harmonics given', v['h'] is w.h, wh, v['h'])
            c.ob(k + ' tolerance given', equal(S.lift(v.get('atol', S.ZERO)), atol), wh, sorted(v))
            cs = [s for s in range(len(series)) if A.key_of(it.arr(v['cst'])) == A.key_of(it.arr(w.leaf('ts%d' % s, S.lift(series[s][0]['Nt']), series[s][1].shape[1])))]
            if len(cs) == 1:
                q2 = S.sym('q2', 0, nh)
                entry(c, k + ' basis functions', series[cs[0]][1], (q, q2), S.delta(q - q2), wh)
                c.ob(k + ' basis functions are not differentiated', S.lift(series[cs[0]][0]['order']).const_value() == 0, wh, 'order')
            else:
                c.ob(k + ' basis functions', None, wh, v['cst'])
            u0 = {'hysteretic with slider positions': S.elem('u0%d' % n, (i,)), 'hysteretic with scalar slider position': S.sym('u0%d' % n)}.get(kind)
            if u0 is not None or h0:
                a0 = it.arr(v['unlth0'])
                entry(c, k + ' initial slider positions', a0, (i,) if a0.ndim else (), u0 if u0 is not None else uh(S.ZERO), wh)
        fs = [s for s in range(len(coef)) if A.key_of(coef[s][1]) == A.key_of(it.arr(w.leaf('ft%d' % n, nt, nl[n])))]
        c.ob(k + ' coefficients of the force history', len(fs) == 1 and coef[fs[0]][0]['h'] is w.h, wh, coef)
        entry(c, k + ' returned force history', ft, (t, i), S.elem('ft%d' % n, (t, i)), wh)
        if len(fs) == 1:
            entry(c, k + ' returned force coefficients', Fh, (q, i), S.elem('fc%d' % fs[0], (q, i)), wh)

# ------------------------------------------------------------ C21: interpolation
class Numbers:
    """numpy functions which depend on the order of numbers, decided by the regime"""
    def __init__(self, it, regime):
        self.it, self.rg = it, regime
        it.decide = regime
        it.asserts = True
        for pre in ('numpy.', 'np.'):
            for nm in ('interp', 'searchsorted'):
                it.np.extra[pre + nm] = getattr(self, nm)
            for nm in ('int64', 'int32', 'intp', 'floor', 'trunc', 'int_'):
                it.np.extra[pre + nm] = self.floor
    def sign(self, e):
        v = e.const_value()
        if v is not None:
            return (v > 0) - (v < 0)
        s = self.rg(e)
        if s is None:
            raise S.Undecided('order of %s' % e)
        return s
    def vec(self, x):
        if not isinstance(x, NArr) and not isinstance(x, (S.Expr, int, float)):
            if hasattr(x, 'lo') and hasattr(x, 'n'):
                x = PyList([x.lo + k for k in range(int(S.lift(x.n).const_value()))])
            else:
                x = PyList(list(self.it.iterate(x)))
        a = self.it.arr(x)
        if a.ndim == 0:
            return None, [a.f(())]
        n = a.shape[0].const_value()
        if a.ndim != 1 or n is None:
            raise S.Undecided('vector of unknown size')
        return int(n), [a.f((S.const(k),)) for k in range(int(n))]
    def back(self, n, xs):
        return xs[0] if n is None else NArr(A.from_list(xs))
    def whole(self, e):
        if '?nan' in e.syms:
            return e
        for n in range(-1, 12):
            if self.sign(e - n) >= 0 and self.sign(e - n - 1) < 0:
                return S.const(n)
        raise S.Undecided('integer part')
    def floor(self, x, *a, **k):
        n, xs = self.vec(x)
        return self.back(n, [self.whole(e) for e in xs])
    reached = None
    def reach(self):
        """was every condition before the first use of the coordinates decided?"""
        if self.reached is None:
            self.reached = not self.it.notes and not self.rg.other
    def interp(self, x, xp, fp, left=None, right=None, period=None):
        self.reach()
        if period is not None:
            raise S.Undecided('period')
        n, xs = self.vec(x)
        _, xp = self.vec(xp)
        _, fp = self.vec(fp)
        left, right = fp[0] if left is None else self.it.scalar(left), fp[-1] if right is None else self.it.scalar(right)
        out = []
        for e in xs:
            if self.sign(e - xp[0]) < 0:
                out.append(left)
            elif self.sign(e - xp[-1]) > 0:
                out.append(right)
            else:
                for k in range(len(xp)):
                    if self.sign(e - xp[k]) == 0:
                        out.append(fp[k])
                        break
                    if k + 1 < len(xp) and self.sign(e - xp[k]) > 0 and self.sign(e - xp[k + 1]) < 0:
                        out.append(fp[k] + (e - xp[k]) / (xp[k + 1] - xp[k]) * (fp[k + 1] - fp[k]))
                        break
                else:
                    raise S.Undecided('bracket')
        return self.back(n, out)
    def searchsorted(self, a, v, side='left', sorter=None):
        self.reach()
        if sorter is not None:
            raise S.Undecided('sorter')
        n, vs = self.vec(v)
        _, xs = self.vec(a)
        out = []
        for e in vs:
            out.append(S.const(sum(1 for x in xs if self.sign(x - e) < (0 if side == 'left' else 1))))
        return self.back(n, out)

def stored(rows, lam, order):
    """facts: order of the stored coordinates"""
    f = []
    for a in range(rows):
        for b in range(a + 1, rows):
            s = {'increasing': 1, 'decreasing': -1}.get(order)
            if s is None:
                s = 0 if order == 'repeated' and (a, b) == (0, 1) else -1 if order == 'not sorted' and (a, b) == (rows - 2, rows - 1) else 1
            f.append((lam(b) - lam(a), s))
    return f

def placed(rows, lam, e, where):
    """facts: place of a query; where is (lower row, upper row)"""
    lo, hi = where
    return [(e - lam(k), 1 if lo is not None and k <= lo else -1) for k in range(rows)]

PLACES = lambda rows: [('below', (None, 0)), ('above', (rows - 1, None))] + [('interval %d' % k, (k, k + 1)) for k in range(rows - 1)] + \
    [('point %d' % k, (k, k)) for k in range(rows)]

def linear(c, rows, given, place, where, order='increasing', scalar=False):
    key = 'linear_interp[%d points,%s,%s%s%s]' % (rows, 'given reference' if given else 'last column', place,
                                                    '' if order == 'increasing' else ',' + order, ',scalar request' if scalar else '')
    f, wh = repo_func(c.repo, INTERP), where_func(c.repo, INTERP)
    w = M.World(c.repo, 0)
    it, C = w.it, S.const
    n = S.sym('ncol', 1, None)
    X = w.leaf('X', C(rows), n)
    lam = (lambda k: S.elem('ref', (C(k),))) if given else (lambda k: S.elem('X', (C(k), n - 1)))
    lo, hi = where
    second = S.sym('second')
    if lo == hi:
        first, facts = lam(lo), []
    else:
        first = S.sym('first')
        facts = placed(rows, lam, first, where)
    # another request in the last interval, so that requests do not influence each other
    facts += placed(rows, lam, second, (rows - 2, rows - 1)) + stored(rows, lam, order)
    if order != 'increasing':
        facts = stored(rows, lam, order)
    rg = Regime(facts)
    rg.TRIES = 40000
    num = Numbers(it, rg)
    qs = [first] if scalar else [first, second]
    k0 = A.key_of(it.arr(X))
    ref = w.leaf('ref', C(rows)) if given else None
    try:
        r = it.call(f, [X, first if scalar else NArr(A.from_list(qs))] + ([ref] if given else []), {})
    except Raised:
        if order == 'increasing':
            c.ob(key + ' is answered', False, wh, 'raises')
        else:
            c.ob(key + ' is refused', True, wh, '')
        return
    if order != 'increasing':
        c.ob(key + ' is refused', False if num.reached else None, wh, ['reference values which do not increase are accepted'] + it.notes[-4:] + [str(x)[:200] for x in rg.other])
        return
    if has_unknown(r):
        c.ob(key, None, wh, [r] + it.notes[-3:])
        return
    c.ob(key + ' the stored points are not changed', A.key_of(it.arr(X)) == k0, wh, 'modified')
    a = it.arr(r)
    c.ob(key + ' shape', shaped(a, (C(len(qs)), n)), wh, a.shape)
    j = S.sym('j', 0, n)
    at = lambda k: S.elem('X', (C(k), j))
    for q, e in enumerate(qs):
        l, h = where if q == 0 else (rows - 2, rows - 1)
        nm = key + ' request %d' % q
        try:
            v = a.f((C(q), j))
        except S.Undecided as u:
            c.ob(nm, None, wh, u)
            continue
        if l is None or h is None:
            c.ob(nm + ' outside is marked as not a number', equal(v, S.sym('?nan')) if '?nan' in v.syms else False, wh, v)
        elif l == h:
            c.ob(nm + ' stored point is reproduced', equal(v, at(l)), wh, v)
        else:
            c.ob(nm + ' is the combination of the neighbours', equal(v, at(l) + (e - lam(l)) / (lam(h) - lam(l)) * (at(h) - at(l))), wh, v)

class Spline:
    def __init__(self, w):
        self.w, self.made, self.asked = w, [], []
        for nm in ('CubicHermiteSpline',):
            w.it.np.extra['scipy.interpolate.' + nm] = self.make
    def make(self, x, y, dydx, axis=S.ZERO, extrapolate=True):
        it = self.w.it
        self.made.append((it.arr(x), it.arr(y), it.arr(dydx), axis, extrapolate))
        n = len(self.made) - 1
        def ev(xs, nu=S.ZERO, extrapolate=None):
            q = it.arr(xs)
            self.asked.append((n, q, nu, extrapolate))
            return self.w.leaf('spline%d' % (len(self.asked) - 1), *(q.shape + self.made[n][1].shape[1:]))
        return Prim('spline', ev)

def hermite(c, func, rows, place, where, order='increasing', freq=None):
    key = '%s[%d points,%s%s%s]' % (func, rows, place, '' if order == 'increasing' else ',' + order, '' if freq is None else ',factor %d' % freq)
    f, wh = repo_func(c.repo, POST + func), where_func(c.repo, POST + func)
    w = M.World(c.repo, 0)
    it, C = w.it, S.const
    n = S.sym('ncol', 2, None)
    X, G = w.leaf('X', C(rows), n), w.leaf('G', C(rows), n)
    lam = lambda k: S.elem('X', (C(k), n - 1))
    g = lambda k: S.elem('G', (C(k), n - 1))
    facts = stored(rows, lam, order)
    for k in range(rows):
        facts.append((g(k), 1))
    qs = []
    if freq is None:
        lo, hi = where
        first = lam(lo) if lo == hi else S.sym('first')
        second = S.sym('second')
        qs = [first, second]
        if order == 'increasing':
            if lo != hi:
                facts += placed(rows, lam, first, where)
            facts += placed(rows, lam, second, (rows - 2, rows - 1))
    else:
        for k in range(rows - 1):
            qs += [lam(k) + C(p) / freq * (lam(k + 1) - lam(k)) for p in range(freq)]
        qs.append(lam(rows - 1))
    rg = Regime(facts)
    rg.TRIES = 40000
    Numbers(it, rg)
    sp = Spline(w)
    ks = A.key_of(it.arr(X)), A.key_of(it.arr(G))
    lams = NArr(A.from_list(qs))
    args, kws = [X, G], {}
    if func == 'hermite_interp':
        args.append(lams)
    elif freq is None:
        kws['new_lams'] = lams
    elif freq != 10:
        kws['upsample_freq'] = C(freq)
    raised = False
    try:
        r = it.call(f, args, kws)
    except Raised:
        raised = True
    outside = freq is None and (where[0] is None or where[1] is None)
    if order != 'increasing':
        # the library refuses coordinates which do not increase
        c.ob(key + ' is refused', True if raised or len(sp.made) == 1 and all(equal(sp.made[0][0].f((C(k),)), lam(k)) for k in range(rows)) else None, wh, '')
        return
    if raised:
        c.ob(key + (' is refused' if outside else ' is answered'), outside, wh, 'raises')
        return
    if has_unknown(r) or len(sp.made) != 1 or len(sp.asked) != 1:
        c.ob(key, None, wh, [r, len(sp.made), len(sp.asked)] + it.notes[-3:])
        return
    x, y, d, axis, ext = sp.made[0]
    _, q, nu, ext2 = sp.asked[0]
    if ext2 is not None:
        ext = ext2
    if outside:
        c.ob(key + ' is refused or marked', None if it.notes else ext is False, wh, 'request outside the stored points is extrapolated')
        return
    c.ob(key + ' the stored points are not changed', (A.key_of(it.arr(X)), A.key_of(it.arr(G))) == ks, wh, 'modified')
    j = S.sym('j', 0, n - 1)
    c.ob(key + ' spline data', shaped(x, (C(rows),)) and shaped(y, (C(rows), n - 1)) and shaped(d, (C(rows), n - 1)), wh, [x.shape, y.shape, d.shape])
    c.ob(key + ' along the points', S.lift(axis).const_value() == 0, wh, axis)
    c.ob(key + ' values are not differentiated', S.lift(nu).const_value() == 0, wh, nu)
    for k in range(rows):
        entry(c, key + ' coordinate of point %d' % k, x, (C(k),), lam(k), wh)
        entry(c, key + ' value of point %d' % k, y, (C(k), j), S.elem('X', (C(k), j)), wh)
        entry(c, key + ' tangent of point %d' % k, d, (C(k), j), S.elem('G', (C(k), j)) / g(k), wh)
    a = it.arr(r)
    c.ob(key + ' shape', shaped(a, (C(len(qs)), n)) and shaped(q, (C(len(qs)),)), wh, [a.shape, q.shape])
    if a.shape[0].const_value() != len(qs) or q.shape != (C(len(qs)),):
        return
    for k, e in enumerate(qs):
        entry(c, key + ' request %d' % k, q, (C(k),), e, wh)
        entry(c, key + ' coordinate of the result %d' % k, a, (C(k), n - 1), e, wh)
        entry(c, key + ' result %d' % k, a, (C(k), j), S.elem('spline0', (C(k), j)), wh)

def interpolation(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R21 interpolation', 'interpolation functions interpreted on branches of symbolic content in every position of the request relative '
           'to the stored points: bracketing combination, reproduction of stored points and tangents, refusal or marking outside')
    tasks = []
    def add(key, sec, fn, *a):
        def go():
            try:
                both_parts(c, fn, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        tasks.append((key, go, sec))
    for rows in (2, 3, 4) if c.thorough else (2, 3):
        for nm, wh in PLACES(rows):
            for given in (0, 1):
                add('linear %d %s %s' % (rows, nm, given), 200, linear, rows, given, nm, wh)
            for fn in ('hermite_interp', 'hermite_upsample'):
                add('%s %d %s' % (fn, rows, nm), 200, hermite, fn, rows, nm, wh)
    for nm, wh in PLACES(3):
        add('linear scalar %s' % nm, 200, linear, 3, 1, nm, wh, 'increasing', True)
    for order in ('decreasing', 'repeated', 'not sorted'):
        for given in (0, 1):
            add('linear %s %s' % (order, given), 200, linear, 3, given, 'point 1', (1, 1), order)
        add('hermite %s' % order, 200, hermite, 'hermite_interp', 3, 'point 1', (1, 1), order)
    for rows, fq in ((2, 1), (2, 2), (3, 2), (3, 3), (2, 10)):
        add('upsample %d %d' % (rows, fq), 200, hermite, 'hermite_upsample', rows, 'all', None, 'increasing', fq)
    c.parallel(tasks)

def layout(c):
    c.level = 'proof'
    c.small = 0
    c.rule('R19 unknown vectors', 'every helper and reduced order model interpreted on symbolic solution vectors of the documented residuals: '
           'each entry read or written is the quantity the residual keeps at that position; modal response equation, phase and ordering of '
           'the reduced order models compared algebraically in each regime of its branch conditions')
    tasks = []
    def add(key, sec, fn, *a):
        def go():
            try:
                fn(c, *a)
            except M.AnchorLost as e:
                c.anchor_lost(str(e))
        tasks.append((key, go, sec))
    for h0 in (0, 1):
        for ex in (0, 1):
            for kind in ('float', 'scalar', 'array'):
                add('cond %s %s %s' % (h0, ex, kind), 120, conditioning, h0, ex, kind)
    for h0 in [0, 1] + M.GAPS:
        for which in ('fundamental', 'higher'):
            for ep in (0, 1):
                for one in (0, 1):
                    add('extract %s %s %s %s' % (M.label(h0), which, ep, one), 60, extract, h0, which, ep, one)
    for h0 in (0, 1):
        for inp in ('backbone', 'scalar w', 'scalar zeta', 'scalar w zeta', 'vectors w', 'vectors zeta', 'vectors w zeta'):
            add('constant displacement %s %s' % (h0, inp), 120, constant_disp, h0, inp)
        for inp in ('force', 'force, scalar modal data', 'force, frequency', 'force, vectors of modal data', 'modal force', 'modal force, vectors of modal data'):
            for rg in ('all points real', 'upper branch only', 'last point not reached', 'first point without lower branch'):
                add('frc %s %s %s' % (h0, inp, rg), 300, both_parts, frc, h0, inp, rg)
    for kw in (0, 1):
        add('stability %d' % kw, 60, stability, kw)
    for h0 in (0, 1):
        for kind in ('instantaneous', 'hysteretic', 'hysteretic with slider positions', 'hysteretic with scalar slider position', 'hysteretic with unset slider position'):
            add('local forces %d %s' % (h0, kind), 60, local_forces, h0, kind)
    for n, (hv, hf, hr, rhi, tail, below, extra) in enumerate([
            ([0, 1, 3, 5], [0, 1, 2], [0, 1], 3, 2, 2, None), ([0, 1, 2, 3], [0, 1, 2, 3], [0, 1], 2, 4, 1, None), ([1, 3], [1, 3], [1], 3, 2, 1, None),
            ([1, 3], [1], [1, 3], 3, 4, 2, None), ([0, 1, 3], [1, 3], [1], 3, 4, 1, None), ([0, 1, 3], [0, 1], [1, 2], 3, 2, 0, None),
            ([1, 2, 5], [0, 1, 5], [1], 5, 2, 1, None), ([0, 1, 3], [0, 1, 3], [0, 1], 3, 2, 1, 'below'), ([0, 1, 3], [0, 1, 3], [0, 1], 3, 4, 1, 'above')]):
        add('superharmonic %d' % n, 300, both_parts, superharmonic, hv, hf, hr, rhi, tail, below, extra)
    add('superharmonic not corrected', 300, both_parts, superharmonic, [1, 3], [1, 3], [1], 3, 2, 1, None, False)
    c.parallel(tasks)

def handlers(c):
    """no exception of a callback or of the file system is swallowed"""
    import ast
    m = c.repo.modules.get(CONT[:-1])
    if m is None:
        c.anchor_lost(CONT)
        return
    bad = []
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ExceptHandler) and not any(isinstance(x, ast.Raise) for x in ast.walk(n)):
            bad.append('line %d' % n.lineno)
        if isinstance(n, ast.With) and any('suppress' in ast.unparse(i.context_expr) for i in n.items):
            bad.append('line %d' % n.lineno)
    c.ob('failures of callbacks and of writing are not swallowed', not bad if not bad else None, 'tmdsimpy/utils/continuation.py', bad)
