"""C08: scheduled analysis fires exactly on its cadence."""
import copy, time
from fractions import Fraction
import numpy as np
from ..lib import *


def work(spec, ctx):
    import dedalus.public as d3
    from dedalus.core.evaluator import DictionaryHandler
    c = d3.CartesianCoordinates('x', 'y')
    dist = d3.Distributor(c, dtype=np.float64, mesh=spec.get('mesh'))
    b = [d3.RealFourier(c[n], size=4, bounds=(0, 1)) for n in ('x', 'y')]
    s = dist.Field(name='s', bases=b); t = dist.Field(name='t')
    mode = spec['mode']
    log = {}; cur = {'user': 0}

    class Rec(DictionaryHandler):
        def process(self, **kw):
            super().process(**kw)
            log[self.nm].append((cur['user'], {k: float(v) for k, v in kw.items()}))

    def add(solver, h):
        kw = {k: h[k] for k in ('iter', 'sim_dt', 'wall_dt') if h.get(k)}
        if h.get('custom') is not None:
            fire = set(h['custom'])
            def cs(iteration, fire=fire, nm=h['name'], **k):
                asked.append((nm, iteration)); return iteration in fire
            kw['custom_schedule'] = cs
        if h.get('group'): kw['group'] = h['group']
        log[h['name']] = []
        H = Rec(dist, {'s': s}, **kw); H.nm = h['name']
        solver.evaluator.add_handler(H)
        H.add_task(s if h['name'] == 'ref' else 2 * s, name='a')
        return H
    asked = []
    if mode == 'ivp':
        pr = d3.IVP([s], time=t, namespace={'s': s})
        pr.add_equation('dt(s) + s = 0')
        solver = pr.build_solver(spec['ts'])
        s['g'] = 1.0
        if spec.get('t0'): solver.sim_time = spec['t0']
        if spec.get('i0'): solver.iteration = solver.initial_iteration = spec['i0']
    else:
        f = dist.Field(name='f', bases=b); f['g'] = 1.0
        if mode == 'lbvp':
            pr = d3.LBVP([s], namespace={'s': s, 'f': f}); pr.add_equation('2*s = f')
        else:
            pr = d3.NLBVP([s], namespace={'s': s, 'f': f}); pr.add_equation('2*s = f')
        solver = pr.build_solver()
    hs = {h['name']: add(solver, h) for h in spec['handlers'] if not h.get('late')}
    for k, o in enumerate(spec['ops']):
        if o['k'] == 'step':
            if mode == 'ivp': solver.step(o['dt'])
            elif mode == 'lbvp': solver.solve()
            else: solver.newton_iteration()
        elif o['k'] == 'sleep': time.sleep(o['t'])
        elif o['k'] == 'user':
            cur['user'] = 1
            H = [hs[n] for n in o['h'] if n in hs]
            if mode == 'ivp': solver.evaluate_handlers(H or None, dt=o['dt'])
            else: solver.evaluate_handlers(H or None)
            cur['user'] = 0
        elif o['k'] == 'group':
            cur['user'] = 1
            solver.evaluator.evaluate_group(o['g'], iteration=int(solver.iteration), wall_time=0.0, sim_time=0.0, timestep=0.0)
            cur['user'] = 0
        elif o['k'] == 'late':
            for h in spec['handlers']:
                if h.get('late') and h['name'] not in hs: hs[h['name']] = add(solver, h)
    return dict(log=log, asked=asked)


class C08(Prop):
    id = 'C08'
    rule = ('random set of handlers (iter, sim_dt, wall_dt, custom schedules and combinations, groups, added late) over random timestep sequences, sleeps, clock behaviours and user-forced evaluations, on 1-4 ranks; every firing compared with an independent '
            'reference of each cadence; non-trivial: at least 5 steps')
    quick_budget = 30

    def gen(self, rng, i, tier):
        mode = rng.choice(['ivp'] * 8 + ['lbvp', 'nlbvp'])
        dt = rng.choice([0.1, 0.01, 1.0, 0.003])
        n = rng.randint(5, 40 if tier == 'quick' else 200)
        hs = [dict(name='ref', iter=1)]
        for j in range(rng.randint(1, 6)):
            h = dict(name='h%d' % j)
            while len(h) == 1:
                if rng.random() < 0.4: h['iter'] = rng.choice([1, 2, 3, 5, 7, 10])
                if mode == 'ivp' and rng.random() < 0.5: h['sim_dt'] = dt * rng.choice([0.3, 1, 1.0, 2, 2.5, 3.7, 5, 10, 1 / 3])
                if mode == 'ivp' and rng.random() < 0.35: h['wall_dt'] = rng.choice([0.0001, 0.001, 0.1, 1.0, 2.5, 10.0, 60.0])
                if rng.random() < 0.25: h['custom'] = sorted(rng.sample(range(n + 3), rng.randint(0, min(n, 6))))
            if rng.random() < 0.2: h['group'] = 'g%d' % rng.randrange(2)
            if rng.random() < 0.2: h['late'] = True
            hs.append(h)
        order = hs[:]; rng.shuffle(order)
        ops = []
        style = rng.choice(['const', 'jitter', 'grow', 'mix'])
        for k in range(n):
            r = rng.random()
            if r < 0.1: ops.append(dict(k='sleep', t=rng.choice([0.01, 0.3, 1.0, 2.5, 7.0, 100.0])))
            elif r < 0.16: ops.append(dict(k='user', h=rng.sample([h['name'] for h in hs], rng.randint(0, 2)), dt=rng.choice([0, dt])))
            elif r < 0.18: ops.append(dict(k='group', g='g%d' % rng.randrange(2)))
            elif r < 0.22: ops.append(dict(k='late'))
            d = dict(const=dt, jitter=dt * rng.uniform(0.2, 1.5), grow=dt * 1.05 ** k, mix=dt * rng.choice([1, 1, 0.5, 4, 0.1]))[style]
            ops.append(dict(k='step', dt=d))
        size = rng.choice([1, 1, 1, 2, 3])
        c = dict(mode=mode, ts=rng.choice(['RK111', 'RK222', 'SBDF1', 'SBDF2', 'RK443', 'CNAB2']), handlers=order, ops=ops, mesh=None if size == 1 else [size], env=gen_env(rng, size, 'wild'))
        if rng.random() < 0.25: c['t0'] = dt * rng.choice([3, 17.3, 0.5])
        if rng.random() < 0.25: c['i0'] = rng.choice([1, 7, 30])
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        spec = {k: case[k] for k in case if k not in ('env', 'index')}
        spec.update(mod='c08', fn='work')
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('index', 'env')}), probes={}, nontrivial=sum(x['k'] == 'step' for x in case['ops']) >= 5, sample=case if len(case['ops']) < 12 else None)
        sc = sim.new_scratch(); write_cfg(sc, {})
        r = sim.run(spec, case['env'], sc)
        o['violation'] = job_viol(r) or self.oracle(case, r.results, o['probes'])
        return o

    def oracle(self, case, res, probes):
        for q in res[1:]:
            if q['log'] != res[0]['log']: return viol('ranks', 'ranks fired handlers differently')
        R = res[0]
        # reference: the iter=1 handler sees every scheduled evaluation
        steps = [kw for u, kw in R['log']['ref'] if not u]
        n = sum(o['k'] == 'step' for o in case['ops'])
        if len(steps) != n: return viol('iter1', 'iter=1 handler fired %d times in %d steps' % (len(steps), n))
        i0 = case.get('i0', 0) if case['mode'] == 'ivp' else 0
        for k, kw in enumerate(steps):
            if kw['iteration'] != i0 + k: return viol('iteration', 'step %d evaluated at iteration %s' % (i0 + k, kw['iteration']))
        if case['mode'] == 'ivp':
            t = case.get('t0', 0.0); k = 0
            for o in case['ops']:
                if o['k'] == 'step':
                    if steps[k]['timestep'] != o['dt']: return viol('kwargs', 'timestep passed %r, taken %r' % (steps[k]['timestep'], o['dt']))
                    if abs(steps[k]['sim_time'] - t) > 1e-9 * (1 + abs(t)): return viol('kwargs', 'sim_time passed %r at step %d, expected %r' % (steps[k]['sim_time'], k, t))
                    t += o['dt']; k += 1
        start = {}; k = 0; late = False
        for o in case['ops']:
            if o['k'] == 'late' and not late:
                late = True
                for h in case['handlers']:
                    if h.get('late'): start[h['name']] = k
            if o['k'] == 'step': k += 1
        for h in case['handlers']:
            if h['name'] == 'ref': continue
            if h.get('late') and not late: continue
            st = start.get(h['name'], 0)
            fired = [kw for u, kw in R['log'][h['name']] if not u]
            if len({kw['iteration'] for kw in fired}) != len(fired): return viol('twice', '%s fired twice in one step' % h)
            fi = {int(kw['iteration']) for kw in fired}
            must, may = self.model(h, steps[st:])
            if not must <= fi: return viol('missed', 'handler %s missed iterations %s (fired %s)' % (h, sorted(must - fi)[:5], sorted(fi)[:20]))
            if not fi <= may: return viol('extra', 'handler %s fired unexpectedly at iterations %s (expected %s)' % (h, sorted(fi - may)[:5], sorted(must)[:20]))
            for kw in fired:
                ref = steps[int(kw['iteration']) - i0]
                if kw != ref: return viol('kwargs', 'handler %s evaluated with %s while another saw %s in the same step' % (h['name'], kw, ref))
            probes['fired'] = probes.get('fired', 0) + len(fired)
            for s in ('iter', 'sim_dt', 'wall_dt', 'custom'):
                if h.get(s) is not None: probes[s] = probes.get(s, 0) + 1
            if h.get('sim_dt') and len(h) == 2: 
                v = self.nodrift(h, steps[st:], fired, probes)
                if v: return v
        return None

    def model(self, h, steps):
        """(iterations that must fire, iterations that may fire).  Each cadence is a small machine
        remembering the last multiple it fired for; where rounding decides, both outcomes are followed."""
        must, may = set(), set()
        S = {k: {-1} for k in ('iter', 'wall_dt', 'sim_dt')}
        for kw in steps:
            it = int(kw['iteration']); m = p = False
            if h.get('custom') is not None and it in h['custom']: m = p = True
            for k in S:
                if not h.get(k): continue
                outs = [o for s in S[k] for o in getattr(self, 'next_' + k)(s, h[k], kw)]
                fires = [f for f, _ in outs]
                m |= all(fires); p |= any(fires)
                S[k] = {n for _, n in outs}
            if m: must.add(it)
            if p: may.add(it)
        return must, may

    def next_iter(self, s, n, kw):
        d = int(kw['iteration']) // n
        return [(d > s, max(d, s))]

    def next_wall_dt(self, s, D, kw):
        q = Fraction(kw['wall_time']) / Fraction(D); n = round(q)
        near = q != n and abs(q - n) < 1e-12 * max(1, abs(q))
        return [(d > s, max(d, s)) for d in ({n - 1, n} if near else {math.floor(q)})]

    def next_sim_dt(self, s, D, kw):
        t, dt = kw['sim_time'], kw['timestep']
        x = t / D; eps = 1e-9 * max(1, abs(x))
        cands = {math.floor(x), math.floor(x) + 1} if abs(abs(x - math.floor(x)) - 0.5) < eps else {int(round(x))}
        out = []
        for c in cands:
            if c <= s: out.append((False, s)); continue
            a, b = abs(t - c * D), abs(t + dt - c * D)
            if abs(a - b) < eps * D: out += [(True, c), (False, s)]
            elif a < b: out.append((True, c))
            else: out.append((False, s))
        return out

    def nodrift(self, h, steps, fired, probes):
        """With steps no longer than half the cadence, every target inside the run gets one output, at the nearest step."""
        D = h['sim_dt']
        ts = [kw['sim_time'] for kw in steps]
        dmax = max(kw['timestep'] for kw in steps)
        if dmax > 0.5 * D or len(ts) < 3: return None
        ft = [kw['sim_time'] for kw in fired]
        for c in range(math.ceil(ts[0] / D + 0.5), math.floor((ts[-1]) / D)):
            hit = [t for t in ft if abs(t - c * D) <= dmax * 0.5 * (1 + 1e-9)]
            near = [t for t in ft if abs(t - c * D) < 0.499 * D]
            if len(hit) < 1 or len(near) > 1: return viol('drift', 'handler %s: target time %g got outputs at %s' % (h, c * D, near))
            probes['targets'] = probes.get('targets', 0) + 1
        return None

    def shrink(self, case):
        for j in range(len(case['handlers'])):
            if case['handlers'][j]['name'] != 'ref':
                c = copy.deepcopy(case); del c['handlers'][j]; yield c
        yield from Prop.shrink_list(self, case, 'ops')
        for k in ('t0', 'i0'):
            if case.get(k):
                c = copy.deepcopy(case); del c[k]; yield c
        for j, h in enumerate(case['handlers']):
            for k in ('group', 'late', 'custom', 'wall_dt', 'sim_dt', 'iter'):
                if k in h and h['name'] != 'ref' and len(h) > 2:
                    c = copy.deepcopy(case); del c['handlers'][j][k]; yield c
        if case['env']['size'] > 1:
            c = copy.deepcopy(case); c['env'] = dict(size=1, seed=1); c['mesh'] = None; yield c
        yield from Prop.shrink_env(self, case)


PROP = C08()
