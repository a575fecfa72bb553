"""Check driver: collects obligations with three-valued verdicts, applies the
known-findings list, writes evidence and prints the violation lines.

True   the obligation is established by the analysis
False  both sides were understood completely and differ: a violation
None   the construct is outside what the analysis understands (reported in the
       evidence, never an alarm)
"""
import json, os, sys, time, signal, traceback
from .sym import Undecided

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Timeout(BaseException):
    pass

class Check:
    def __init__(self, pid, tier, repo_root='/repo'):
        self.pid, self.tier, self.root = pid, tier, repo_root
        self.t0 = time.time()
        self.obs = []            # (key, verdict, construct, detail)
        self.rules = {}
        self.level = 'other'
        self.info = {}
        self.lost = []
        self.small = 60
        self._repo = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    @property
    def repo(self):
        if self._repo is None:
            from .interp import Repo
            self._repo = Repo(self.root)
        return self._repo

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, key, verdict, construct='', detail=''):
        self.obs.append((key, verdict, construct, str(detail)[:2000]))

    def anchor_lost(self, what):
        self.lost.append(what)

    def guard(self, key, thunk, seconds=240, construct=''):
        """run one analysis step; comparisons the general analysis leaves open are
        repeated with all sizes fixed to small numbers, where only a
        difference counts"""
        from . import sym as S, model as M
        n0 = len(self.obs)
        r = self._guard(key, thunk, seconds, construct)
        if not any(o[1] is None for o in self.obs[n0:]) or not self.small or S.SIZES:
            return r
        first, lost = self.obs[n0:], list(self.lost)
        del self.obs[n0:]
        S.SIZES.update(S.SMALL)
        M._NAMES.clear()
        try:
            self._guard(key, thunk, min(seconds, self.small), construct)
        finally:
            S.SIZES.clear()
            M._NAMES.clear()
        self.lost = lost
        second = self.obs[n0:]
        del self.obs[n0:]
        txt = ', '.join('%s=%d' % kv for kv in sorted(S.SMALL.items()))
        bad = [o for o in second if o[1] is False]
        good = {o[0] for o in first if o[1] is True}
        for o in first:
            self.obs.append(o)
        for o in bad:
            if o[0] not in good:
                self.obs.append((o[0], False, o[2], 'with sizes %s: %s' % (txt, o[3])))
        return r

    def _guard(self, key, thunk, seconds=240, construct=''):
        """anything the analysis cannot handle is undecided"""
        def onalarm(*a):
            raise Timeout()
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            return thunk()
        except Timeout:
            self.ob(key, None, construct, 'analysis budget of %d s used up' % seconds)
        except Undecided as e:
            self.ob(key, None, construct, 'undecided: %s' % e)
        except RecursionError:
            self.ob(key, None, construct, 'expression too deep')
        except SyntaxError:
            raise
        except Exception as e:
            if os.environ.get('TSA_DEBUG'):
                traceback.print_exc(limit=-6)
            self.ob(key, None, construct, 'not understood: %s: %s' % (type(e).__name__, e))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def parallel(self, tasks, jobs=7):
        """tasks: [(key, thunk, seconds)]; every task is analysed in a forked
        child, its obligations come back over a pipe"""
        import pickle, select
        todo = list(enumerate(tasks))
        live, res = {}, {}
        sys.stdout.flush()
        while todo or live:
            while todo and len(live) < jobs:
                n, (key, thunk, sec) = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.obs, self.lost = [], []
                    try:
                        self.guard(key, thunk, sec)
                    except BaseException as e:
                        self.ob(key, None, '', 'not understood: %r' % (e,))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump((self.obs, self.lost), f)
                    os._exit(0)
                os.close(w)
                live[r] = (n, pid, key, [])
            for fd in select.select(list(live), [], [])[0]:
                data = os.read(fd, 1 << 20)
                n, pid, key, buf = live[fd]
                if data:
                    buf.append(data)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del live[fd]
                try:
                    res[n] = pickle.loads(b''.join(buf))
                except Exception:
                    res[n] = ([(key, None, '', 'analysis process ended early')], [])
        for n in sorted(res):
            self.obs += res[n][0]
            self.lost += [x for x in res[n][1] if x not in self.lost]

    # ------------------------------------------------------------ results
    def known(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if l.startswith('known: property=%s ' % self.pid):
                    body = l.split(' ', 2)[2]
                    key, _, text = body.partition(' :: ')
                    out.append((key.strip(), text.strip()))
        return out

    def finish(self):
        known = self.known()
        viol, listed = [], {}
        for o in self.obs:
            if o[1] is False:
                k = [x for x in known if o[0] == x[0]]
                if k:
                    listed[k[0]] = listed.get(k[0], 0) + 1
                else:
                    viol.append(o)
        for (k, text) in sorted(listed):
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, text, k))
        ev = os.path.join(VERIF, 'evidence')
        os.makedirs(ev, exist_ok=True)
        rp = os.path.join(ev, self.pid + '.violations.json')
        if os.path.exists(rp):
            os.remove(rp)
        n = {v: sum(1 for o in self.obs if o[1] is v) for v in (True, False, None)}
        proven = [o[0] for o in self.obs if o[1] is True]
        data = {
            'property': self.pid, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
            'level': self.level,
            'coverage': {
                'explanation': 'Static analysis of the current source tree: %d obligations decided, %d of them hold, '
                               '%d violated, %d outside what the analysis understands. ' % (
                                   n[True] + n[False], n[True], n[False], n[None]) +
                               ' '.join('%s: %s' % kv for kv in sorted(self.rules.items())),
                'obligations': len(self.obs), 'established': n[True], 'violated': n[False],
                'known_findings': sum(listed.values()), 'undecided': n[None],
                'undecided_list': [{'obligation': o[0], 'reason': o[3][:300]} for o in self.obs if o[1] is None][:200],
                'constructs': sorted({o[2] for o in self.obs if o[2]}),
                'sample': proven[:400],
            },
            'wall_s': round(time.time() - self.t0, 3),
        }
        data['coverage'].update(self.info)
        with open(os.path.join(ev, self.pid + '.json'), 'w') as f:
            json.dump(data, f, indent=1, default=str)
        print('%s %s: %d obligations, %d established, %d violated, %d known, %d undecided (%.1f s)' % (
            self.pid, self.tier, len(self.obs), n[True], n[False], sum(listed.values()), n[None],
            time.time() - self.t0))
        if viol:
            with open(rp, 'w') as f:
                json.dump([{'obligation': o[0], 'construct': o[2], 'detail': o[3]} for o in viol], f, indent=1)
            for o in viol[:12]:
                print('  violated: %s  at %s' % (o[0], o[2]))
                print('     %s' % o[3][:500])
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.lost:
            print('analysis anchor not found: ' + '; '.join(self.lost))
            return 2
        if not proven and not listed:
            print('nothing could be analysed')
            return 2
        return 0
