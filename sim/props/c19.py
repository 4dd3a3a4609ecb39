"""C19: progress tracking yields every item once under any clock."""
import copy, time, re, io, logging, itertools
import numpy as np
from ..lib import *
from ..workloads import SimUserError


def work(spec, ctx):
    from dedalus.tools.progress import log_progress, print_progress, track
    res = []
    for q in spec['calls']:
        n = q['n']
        items = [('it', k) for k in range(n)]
        src = dict(list=lambda: items, tuple=lambda: tuple(items), range=lambda: range(n), array=lambda: np.arange(n), dict=lambda: {k: 1 for k in range(n)}, str=lambda: ''.join(chr(97 + k % 26) for k in range(n)))[q['src']]()
        want = list(src)
        msgs = []
        kw = {k: q[k] for k in ('iter', 'frac', 'dt', 'desc') if k in q}
        if kw.get('iter') == 'inf': kw['iter'] = np.inf
        if q['api'] == 'log':
            lg = logging.getLogger('prog%d' % len(res)); lg.propagate = False; lg.setLevel(1)

            class H(logging.Handler):
                def emit(self, rec): msgs.append((cur[0], rec.levelno, rec.getMessage()))
            lg.addHandler(H())
            g = log_progress(src, lg, q['level'], **kw)
        elif q['api'] == 'print':
            class S(io.StringIO):
                def write(self, m):
                    if m.strip(): msgs.append((cur[0], 0, m))
                    return len(m)
            g = print_progress(src, stream=S() if not q.get('none') else None, **kw)
        else:
            g = track(src, lambda m: msgs.append((cur[0], 0, m)), **kw)
        cur = [0]; got = []; times = []; err = None
        t0 = time.time()
        try:
            for k, x in enumerate(g):
                got.append(x)
                cur[0] = k + 1
                s = q['sleeps'][k % len(q['sleeps'])]
                if s: time.sleep(s)
                if q.get('brk') == k: break
                if q.get('raise') == k: raise SimUserError('body')
                times.append(time.time())
        except SimUserError: err = 'user'
        if isinstance(src, np.ndarray): got = [int(x) for x in got]; want = [int(x) for x in want]
        res.append(dict(got=got == want[:len(got)], n=len(got), want=len(want), msgs=msgs, t0=t0, times=times, err=err))
    return res


class C19(Prop):
    id = 'C19'
    rule = ('random iterables (length 0 to 2000), cadences by count, fraction and time, the three entry points, loop bodies that sleep, break or raise, under random clock behaviours including frozen, backwards and jumping; yielded items and logged lines compared with a reference; '
            'non-trivial: at least one call of length 2 or more with a disturbed clock')
    quick_budget = 20
    quick_cases = 6000

    def gen(self, rng, i, tier):
        calls = []
        for _ in range(rng.randint(1, 8)):
            n = rng.choice([0, 1, 2, 3, 5, 10, 11, 50, 200, 2000])
            q = dict(n=n, src=rng.choice(['list', 'tuple', 'range', 'array', 'dict', 'str']), api=rng.choice(['log', 'print', 'track']))
            if rng.random() < 0.6: q['iter'] = rng.choice([1, 2, 3, 7, 100, 5000, 'inf'])
            if rng.random() < 0.6: q['frac'] = rng.choice([0.1, 0.25, 0.01, 1.0, 1e-6, 1 / 3])
            if rng.random() < 0.5: q['dt'] = rng.choice([0.5, 1.0, 10.0, 60.0])
            if rng.random() < 0.2: q['desc'] = 'A description'
            if q['api'] == 'log': q['level'] = rng.choice(['info', 'DEBUG', 'warning', 10, 20, 30])
            if q['api'] == 'print' and rng.random() < 0.1: q['none'] = True
            q['sleeps'] = rng.choice([[0], [0], [0.3, 0, 1.1], [rng.choice([0, 0, 0.7, 3.2, 12.5, 100.0]) for _ in range(5)]])
            if n and rng.random() < 0.12: q['brk'] = rng.randrange(n)
            elif n and rng.random() < 0.12: q['raise'] = rng.randrange(n)
            calls.append(q)
        env = dict(size=1, seed=rng.getrandbits(30))
        ck = gen_clocks(rng, 1, 10 * 10**9)[0]
        if rng.random() < 0.3: ck['jumps'] = sorted([rng.randrange(2 * 10**10), rng.choice([-1, 1]) * rng.randrange(10**12)] for _ in range(3))
        if rng.random() < 0.15: ck['frozen'] = True
        env['clocks'] = [ck]
        return dict(calls=calls, env=env)

    def run(self, sim, case):
        from ..runner import Outcome
        ck = case['env'].get('clocks', [{}])[0]
        o = Outcome(key=self.key(case['calls'], case['env']), probes={}, sample=case if sum(q['n'] for q in case['calls']) < 100 else None,
                    nontrivial=any(q['n'] > 1 for q in case['calls']) and any(ck.get(k) for k in ('drift', 'jumps', 'frozen', 'skew')))
        sc = sim.new_scratch(); write_cfg(sc, {})
        r = sim.run(dict(mod='c19', fn='work', calls=case['calls']), case['env'], sc)
        v = job_viol(r)
        if not v:
            for q, x in zip(case['calls'], r.results[0]):
                v = self.oracle(q, x, o['probes'])
                if v: break
        o['violation'] = v
        return o

    def oracle(self, q, x, P):
        n = q['n']
        stop = q.get('brk', q.get('raise'))
        if not x['got'] or x['n'] != (n if stop is None else stop + 1): return viol('items', 'tracking %s yielded %d of %d items or out of order' % (q, x['n'], x['want']))
        if (x['err'] == 'user') != ('raise' in q): return viol('error', 'the error of the loop body did not surface: %s' % q)
        if q.get('none'): return None
        done = n if stop is None else stop
        at = [m[0] for m in x['msgs']]
        if at != sorted(set(at)): return viol('messages', 'messages at items %s' % at[:20])
        for k, lv, m in x['msgs']:
            g = re.search(r'(\d+)/(\d+)', m)
            if not g or (int(g.group(1)), int(g.group(2))) != (k, n): return viol('text', 'message after item %d of %d says %r' % (k, n, m))
            if q.get('desc', 'Iteration') not in m: return viol('text', 'message %r lacks its description' % m)
            pct = re.search(r'\(~(\d+)%\)', m)
            if not pct or abs(int(pct.group(1)) - 100 * k / n) > 1: return viol('text', 'message after item %d of %d says %r' % (k, n, m))
            if q['api'] == 'log':
                want = q['level'] if isinstance(q['level'], int) else logging.getLevelName(q['level'].upper())
                if lv != want: return viol('level', 'message logged at level %s instead of %s' % (lv, want))
        it = q.get('iter', 1); it = math.inf if it == 'inf' else it
        it = min(it, math.ceil(q.get('frac', 1.0) * n))
        # reference: last fired divisors; time is only known up to clock ticks, so follow both outcomes near a boundary
        dt = q.get('dt')
        S = {(-1, -1)}
        for k in range(1, done + 1):
            logged = k in at
            el = x['times'][k - 1] - x['t0']
            if dt is None: tds = {0} if el > 0.1 else {-1, 0}
            else:
                a, b = math.floor((el - 0.1) / dt), math.floor((el + 0.1) / dt); tds = {a, b}
            N = set()
            for lt, li in S:
                for td in tds:
                    d = k // it
                    fire = td > lt or d > li or k == n
                    if fire == logged: N.add((td, d) if fire else (lt, li))
            if not N:
                return viol('cadence', 'item %d of %d %s (cadence iter=%s dt=%s, elapsed %.6f, earlier messages at %s)' % (k, n, 'was logged unexpectedly' if logged else 'was not logged', it, dt, el, [a for a in at if a < k][-3:]))
            S = N
        if done and 1 not in at: return viol('first', 'the first item was not logged: %s' % q)
        if done and done == n and n not in at: return viol('last', 'the last item was not logged: %s' % q)
        P['messages'] = P.get('messages', 0) + len(at); P['items'] = P.get('items', 0) + done
        return None

    def shrink(self, case):
        yield from self.shrink_list(case, 'calls')
        for j, q in enumerate(case['calls']):
            for k in ('iter', 'frac', 'dt', 'brk', 'raise', 'desc'):
                if k in q:
                    c = copy.deepcopy(case); del c['calls'][j][k]; yield c
            if q['n'] > 1 and 'brk' not in q and 'raise' not in q:
                for m in (1, 2, q['n'] // 2):
                    if m < q['n']:
                        c = copy.deepcopy(case); c['calls'][j]['n'] = m; yield c
        ck = case['env'].get('clocks', [{}])[0]
        for k in list(ck):
            c = copy.deepcopy(case); del c['env']['clocks'][0][k]; yield c


PROP = C19()
