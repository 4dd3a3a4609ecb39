"""C07: all processes take the same run-control decisions under any clock behaviour."""
import copy, time
from fractions import Fraction
import numpy as np
from ..lib import *
from .c08 import PROP as C08P


def work(spec, ctx):
    import dedalus.public as d3
    from dedalus.core.evaluator import DictionaryHandler
    from dedalus.extras import flow_tools
    names = ['x', 'y', 'z'][:spec['dim']]
    c = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(c, dtype=np.float64, mesh=spec.get('mesh'))
    b = [d3.RealFourier(c[n], size=4, bounds=(0, 1)) for n in names]
    u = dist.VectorField(c, name='u', bases=b); t = dist.Field(name='t')
    pr = d3.IVP([u], time=t, namespace={'u': u, 'lap': d3.lap})
    pr.add_equation('dt(u) - lap(u) = - u')
    if spec.get('t0') and spec.get('tfield'): t['g'] = spec['t0']
    solver = pr.build_solver(spec['ts'], warmup_iterations=spec.get('warmup', 10), **({'enforce_real_cadence': spec['real']} if spec.get('real') else {}))
    fill(u, 3)
    t1 = time.time(); w = solver.wall_time; t2 = time.time()
    out = dict(init=[t1 - w, t2 - w], log=[], proceed=[], rec={}, user=[])
    if spec.get('t0') and not spec.get('tfield'): solver.sim_time = spec['t0']
    if spec.get('i0'): solver.iteration = solver.initial_iteration = spec['i0']
    for k, v in spec['stop'].items(): setattr(solver, 'stop_' + k, v)

    class Rec(DictionaryHandler):
        def process(self, **kw):
            super().process(**kw)
            out['rec'][self.nm].append({k: float(v) for k, v in kw.items()})
    hs = []
    for h in spec['handlers']:
        kw = {k: h[k] for k in ('iter', 'sim_dt', 'wall_dt') if h.get(k)}
        if h['kind'] == 'file': H = solver.evaluator.add_file_handler(h['name'], max_writes=h.get('max_writes', 100), parallel=h.get('parallel'), **kw)
        else:
            H = Rec(dist, {'u': u}, **kw); H.nm = h['name']; out['rec'][h['name']] = []
            solver.evaluator.add_handler(H)
        H.add_task(u, name='u', layout=h.get('layout', 'g')); hs.append(H)
    cfl = None
    if spec.get('cfl'):
        cfl = flow_tools.CFL(solver, **spec['cfl']); cfl.add_velocity(u)
    flow = None
    if spec.get('flow'):
        flow = flow_tools.GlobalFlowProperty(solver, cadence=spec['flow']); flow.add_property(u @ u, name='e')
    n = [0]

    def pick():
        return cfl.compute_timestep() if cfl else spec['dts'][n[0] % len(spec['dts'])]

    def between():
        k = n[0]
        for s in spec['sleeps']:
            if s['at'] == k: time.sleep(s['t'][ctx.rank % len(s['t'])])
        for s in spec['looks']:
            if s == k: out['user'].append(float(solver.wall_time)); solver.evaluate_handlers(dt=0)
        if flow and k: out['user'].append(float(flow.max('e')))

    def note(dt):
        n[0] += 1
        out['log'].append((int(solver.iteration), float(solver.sim_time), float(dt)))
    if spec['loop'] == 'evolve':
        pend = []

        def fn():
            out['proceed'].append((True, time.time(), time.time()))
            if pend: note(pend.pop())
            between()
            if n[0] > spec['cap']: solver.stop_iteration = 0
            pend.append(pick()); return pend[0]
        solver.evolve(fn, log_cadence=3)
        if pend: note(pend.pop())
    else:
        while True:
            a = time.time(); p = solver.proceed; z = time.time()
            out['proceed'].append((bool(p), a, z))
            if not p: break
            dt = pick(); solver.step(dt); note(dt)
            between()
            if n[0] > spec['cap']: break
        if spec.get('stats'): solver.log_stats()
    out['end'] = [int(solver.iteration), float(solver.sim_time)]
    return out


def read(spec, ctx):
    from ..prog import read_files
    return {p: [d.get('error'), None if 'scales' not in d else {k: np.array(v).tolist() for k, v in d['scales'].items() if np.ndim(v) == 1 and k in ('iteration', 'wall_time', 'sim_time')}] for p, d in read_files(spec, ctx).items()}


class C07(Prop):
    id = 'C07'
    rule = ('random stop criteria (iteration, simulation-time and wall-time limits and combinations), wall-time/other cadences, adaptive timesteps, manual loops and evolve(), rank-dependent sleeps, on 1-7 ranks with skewed, drifting, jumping, coarse and frozen clocks; '
            'all ranks compared bit for bit, decisions compared with the root clock; non-trivial: more than one rank and at least 2 proceed decisions')
    quick_budget = 30

    def gen(self, rng, i, tier):
        dim = rng.choice([2, 2, 3])
        size, mesh = gen_mesh(rng, dim, 7)
        if rng.random() < 0.1: size, mesh = 1, None
        dt = rng.choice([0.1, 0.01, 1.0, 1 / 3])
        n = rng.randint(1, 12 if tier == 'quick' else 40)
        c = dict(dim=dim, mesh=mesh, ts=rng.choice(['RK111', 'RK222', 'SBDF1', 'SBDF2', 'RKSMR', 'CNAB2', 'MCNAB2']), loop=rng.choice(['manual', 'manual', 'evolve']), cap=n + 25)
        st = {}
        while not st:
            if rng.random() < 0.5: st['iteration'] = rng.choice([n, n, 0, 1])
            if rng.random() < 0.5: st['sim_time'] = dt * rng.choice([n, n - 0.5, n * 0.1, n + 1e-9, 0])
            if rng.random() < 0.6: st['wall_time'] = rng.choice([0.0005, 0.5, 2.0, 8.0, 30.0, 1e3, 0])
        c['stop'] = st
        c['dts'] = [dt * rng.choice([1, 1, 0.5, 1.7]) for _ in range(rng.randint(1, 3))]
        if rng.random() < 0.3: c['t0'] = dt * rng.choice([2, 0.5, -1.5, -4]); c['tfield'] = rng.random() < 0.6
        if rng.random() < 0.2: c['i0'] = rng.choice([1, 5])
        hs = []
        for j in range(rng.randint(0, 3)):
            s = {}
            while not s:
                if rng.random() < 0.7: s['wall_dt'] = rng.choice([0.0001, 0.01, 0.5, 2.0, 10.0])
                if rng.random() < 0.25: s['iter'] = rng.choice([1, 2, 3])
                if rng.random() < 0.25: s['sim_dt'] = dt * rng.choice([1, 2, 2.5])
            hs.append(dict(kind='rec', name='r%d' % j, layout=rng.choice('gc'), **s))
            if rng.random() < 0.4: hs.append(dict(kind='file', name='f%d' % j, of='r%d' % j, parallel=rng.choice(['gather', 'virtual']), max_writes=rng.choice([1, 3, 100]), layout=rng.choice('gc'), **s))
        c['handlers'] = hs
        c['sleeps'] = [dict(at=rng.randrange(n + 1), t=[rng.choice([0, 0, 0.3, 1.1, 2.0, 7.5, 40.0]) for _ in range(size)]) for _ in range(rng.randint(0, 4))]
        c['looks'] = [rng.randrange(n + 1) for _ in range(rng.choice([0, 0, 1, 2]))]
        if rng.random() < 0.25: c['cfl'] = dict(initial_dt=dt, cadence=rng.choice([1, 2]), safety=0.5, max_dt=3 * dt, threshold=rng.choice([0, 0.1]))
        if rng.random() < 0.25: c['flow'] = rng.choice([1, 2])
        if rng.random() < 0.3: c['stats'] = True
        c['warmup'] = rng.choice([0, 1, 3, 10])
        if rng.random() < 0.2: c['real'] = rng.choice([1, 2, 5])
        c['env'] = gen_env(rng, size, 'wild')
        if rng.random() < 0.5: c['env']['stall_p'] = rng.choice([0.005, 0.02]); c['env']['stall_ns'] = rng.choice([10**9, 2 * 10**10])
        for k in c['env'].get('clocks', []):
            if 'jumps' in k: k['jumps'] = k['jumps'][:1]
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        spec = {k: case[k] for k in case if k not in ('env', 'index')}
        spec.update(mod='c07', fn='work')
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('index', 'env')}), probes={}, sample=case)
        sc = sim.new_scratch(); write_cfg(sc, {})
        r = sim.run(spec, case['env'], sc)
        o['violation'] = job_viol(r)
        if not o['violation']:
            files = None
            if any(h['kind'] == 'file' for h in case['handlers']):
                q = sim.run(dict(mod='c07', fn='read', dedalus=False), SERIAL, sc)
                o['violation'] = job_viol(q, 'reading: ')
                files = None if o['violation'] else q.results[0]
            o['violation'] = o['violation'] or self.oracle(case, r.results, files, o)
        return o

    def oracle(self, case, res, files, o):
        P = o['probes']
        R = res[0]
        for r, q in enumerate(res[1:], 1):
            for k in ('log', 'end', 'rec', 'user'):
                if q[k] != R[k]:
                    return viol('ranks', 'rank %d %s differs from rank 0: %s vs %s' % (r, k, str(q[k])[:300], str(R[k])[:300]))
            if [p[0] for p in q['proceed']] != [p[0] for p in R['proceed']]:
                return viol('ranks', 'rank %d took different run-control decisions' % r)
        st = case['stop']; log = R['log']
        i0, t0 = case.get('i0', 0), case.get('t0', 0.0)
        t = t0
        for k, (it, tt, dt) in enumerate(log):
            t += dt
            if it != i0 + k + 1: return viol('count', 'iteration %d after %d steps from %d' % (it, k + 1, i0))
            if abs(tt - t) > 1e-9 * (1 + abs(t)): return viol('time', 'simulation time %r after steps summing to %r' % (tt, t))
        capped = len(log) > case['cap']
        its = [i0] + [x[0] for x in log]; ts = [t0] + [x[1] for x in log]
        # decisions made before each step, and the final one
        nd = len(log)
        hard = [its[k] >= st.get('iteration', np.inf) or ts[k] >= st.get('sim_time', np.inf) for k in range(len(its))]
        for k in range(nd):
            if hard[k]: return viol('overrun', 'step taken at iteration %d, sim_time %r although the limits %s were reached' % (its[k], ts[k], st))
        lo, hi = R['init']
        lo, hi = min(lo, hi), max(lo, hi)
        # coarse/frozen clocks and floating point
        eps = 1e-5
        W = st.get('wall_time')
        trues = [p for p in R['proceed'] if p[0]]
        if len(trues) != nd and not capped: return viol('count', '%d affirmative decisions but %d steps' % (len(trues), nd))
        if W is not None:
            prev = None
            for p in trues:
                a, z = min(p[1], p[2]), max(p[1], p[2])
                e = a - hi if prev is None or case['loop'] == 'manual' else min(a, prev) - hi
                if e >= W + eps and not (prev is None and case['loop'] == 'evolve'):
                    return viol('wall-overrun', 'run continued with the root clock at %.6f s after the start, limit %g' % (e, W))
                prev = a
                P['wall_decisions'] = P.get('wall_decisions', 0) + 1
        if not capped and not hard[nd]:
            # must be the wall limit
            if W is None: return viol('early', 'run stopped at iteration %d, sim_time %r before its limits %s' % (its[-1], ts[-1], st))
            if case['loop'] == 'manual':
                p = R['proceed'][-1]
                if max(p[1], p[2]) - lo < W - eps: return viol('early', 'run stopped with the root clock at %.6f s, before the wall limit %g and the other limits %s' % (max(p[1], p[2]) - lo, W, st))
            P['wall_stops'] = P.get('wall_stops', 0) + 1
        elif not capped: P['limit_stops'] = P.get('limit_stops', 0) + 1
        # wall-scheduled outputs against the recorded (common) wall times
        for h in case['handlers']:
            if h['kind'] == 'rec' and len([k for k in h if k in ('wall_dt', 'iter', 'sim_dt')]) == 1 and h.get('wall_dt') and not case['looks']:
                P['wall_fired'] = P.get('wall_fired', 0) + len(R['rec'][h['name']])
                s = {-1}
                for kw in R['rec'][h['name']]:
                    outs = [x for q in s for x in C08P.next_wall_dt(q, h['wall_dt'], kw)]
                    if not any(f for f, _ in outs): return viol('wall-cadence', 'handler %s fired again at wall time %r' % (h, kw['wall_time']))
                    s = {x for _, x in outs}
            if h['kind'] == 'file':
                rec = R['rec'][h['of']]
                got = []
                for p in sorted((p for p in files if p.startswith(h['name'] + '/') and p.count('/') == 1), key=lambda p: int(p.rsplit('_s', 1)[1].split('.')[0])):
                    if files[p][0]: return viol('file', '%s unreadable: %s' % (p, files[p][0]))
                    got += list(zip(files[p][1]['iteration'], files[p][1]['wall_time']))
                want = [(kw['iteration'], kw['wall_time']) for kw in rec]
                if got != want: return viol('file', 'file handler with the cadence of %s wrote %s, expected %s' % (h['of'], got, want))
                P['file_writes'] = P.get('file_writes', 0) + len(got)
        o['nontrivial'] = len(res) > 1 and len(R['proceed']) > 1
        return None

    def case_dim(self, case): return case['dim']

    def shrink(self, case):
        for k in ('handlers', 'sleeps', 'looks'):
            for c in self.shrink_list(case, k):
                if all(h.get('of') is None or any(g['name'] == h['of'] for g in c['handlers']) for h in c['handlers']): yield c
        for k in ('cfl', 'flow', 'stats', 't0', 'i0', 'real'):
            if case.get(k):
                c = copy.deepcopy(case); del c[k]; yield c
        for k in list(case['stop']):
            if len(case['stop']) > 1:
                c = copy.deepcopy(case); del c['stop'][k]; yield c
        yield from self.shrink_mesh(case)
        yield from self.shrink_env(case)


PROP = C07()
