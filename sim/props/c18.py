"""C18: the evolve loop finishes cleanly or re-raises the user's own error."""
import copy, time, logging, re
import numpy as np
from ..lib import *
from ..workloads import SimUserError


class UserExit(BaseException):
    pass


EXC = {'user': SimUserError, 'value': ValueError, 'kbd': KeyboardInterrupt, 'exit': SystemExit, 'base': UserExit, 'zero': ZeroDivisionError, 'io': OSError, 'attr': AttributeError}


def work(spec, ctx):
    import dedalus.public as d3
    names = ['x', 'y', 'z'][:spec['dim']]
    c = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(c, dtype=np.float64, mesh=spec.get('mesh'))
    b = [d3.RealFourier(c[n], size=4, bounds=(0, 1)) for n in names]
    s = dist.Field(name='s', bases=b)
    lines = []

    class H(logging.Handler):
        def emit(self, rec): lines.append(rec.getMessage())
    lg = logging.getLogger('solvers'); lg.setLevel(logging.DEBUG); lg.propagate = False; lg.addHandler(H())
    out = dict(runs=[])
    f = spec.get('fail') or {}
    mine = bool(f) and (f['rank'] is None or f['rank'] == ctx.rank)
    st = dict(n=0, evals=0)
    marker = {}

    def boom():
        e = EXC[f['exc']]('injected', ctx.rank)
        marker['e'] = e
        raise e
    def rhs(*args):
        st['evals'] += 1
        if mine and f['where'] == 'rhs' and st['n'] == f['at'] and st['evals'] % 2: boom()
        return 0 * args[0]['g']
    frc = d3.GeneralFunction(dist, s.domain, (), np.float64, 'g', rhs, args=[s])
    pr = d3.IVP([s], namespace={'s': s, 'frc': frc, 'lap': d3.lap})
    pr.add_equation('dt(s) - lap(s) = frc' if f.get('where') == 'rhs' else 'dt(s) - lap(s) = 0')
    kw = dict(warmup_iterations=spec['warmup'])
    if spec.get('profile'): kw.update(profile=True, parallel_profile=spec['profile'] == 2)
    solver = pr.build_solver(spec['ts'], **kw)
    fill(s, 5)
    if spec.get('i0'): solver.iteration = solver.initial_iteration = spec['i0']

    def sched(iteration, **kw):
        if mine and f['where'] == 'schedule' and st['n'] == f['at']: boom()
        return False
    solver.evaluator.add_dictionary_handler(custom_schedule=sched).add_task(s, name='s')
    fh = None
    if spec.get('out'):
        fh = solver.evaluator.add_file_handler('out', iter=2, parallel=spec['out'], max_writes=2)
        fh.add_task(s, name='s')

    def step():
        st['n'] += 1; st['evals'] = 0
        if spec.get('sleep') and st['n'] % 3 == 0: time.sleep(spec['sleep'][ctx.rank % len(spec['sleep'])])
        if mine and f['where'] == 'timestep' and st['n'] == f['at']: boom()
        if f and f['where'] == 'nan' and st['n'] == f['at'] and mine: return f['bad']
        return 0.01
    for k, n in enumerate(spec['stops']):
        for a in ('iteration', 'sim_time', 'wall_time'): setattr(solver, 'stop_' + a, np.inf)
        for a, v in n.items(): setattr(solver, 'stop_' + a, v)
        del lines[:]
        n0 = st['n']
        try:
            ret = solver.evolve(step, log_cadence=spec['cad'])
        except BaseException as e:
            same = marker.get('e') is e
            names = type(e).__name__, str(e)
            ctx.note('caught', k, names[0], names[1], same, st['n'], list(lines))
            out['runs'].append(['exc', names[0], names[1], same])
            if spec.get('again'):
                # the error was the user's: statistics stay available on this process
                solver.log_stats(collective=False) if 'collective' in __import__('inspect').signature(solver.log_stats).parameters else None
            if marker.get('e') is e or f and f['where'] == 'nan' and 'stopping' not in names[1]: return out
            continue
        out['runs'].append(['ok', int(solver.iteration), float(solver.sim_time), st['n'] - n0, list(lines)])
        ctx.note('ok', k)
        if spec.get('final'): solver.evaluate_handlers(dt=0.0)
        if spec.get('stats'): solver.log_stats()
    out['data'] = gathered(s, 'g')
    return out


class C18(Prop):
    id = 'C18'
    rule = ('random stop criteria around the initial iteration and the end of warm-up, repeated evolve() calls, profiling on/off, any clock behaviour, and failures of user code (timestep function, right-hand side, schedule, invalid timestep) injected on one or all of 1-6 ranks at a random step; '
            'non-trivial: a failure was injected or the run stops within one step of the start or the end of warm-up')
    quick_budget = 28

    def gen(self, rng, i, tier):
        dim = rng.choice([2, 2, 3])
        size, mesh = gen_mesh(rng, dim, 6)
        if rng.random() < 0.25: size, mesh = 1, None
        warm = rng.choice([0, 1, 2, 3, 10])
        i0 = rng.choice([0, 0, 0, 1, 7])
        c = dict(dim=dim, mesh=mesh, ts=rng.choice(['RK111', 'RK222', 'SBDF1', 'SBDF2', 'RK443']), warmup=warm, cad=rng.choice([1, 2, 100]))
        if i0: c['i0'] = i0
        stops = []; it = i0
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = rng.random()
            if k < 0.6:
                it = it + rng.choice([0, 1, 2, warm, warm + 1, max(warm - 1, 0)]); stops.append(dict(iteration=it))
            elif k < 0.8: stops.append(dict(sim_time=0.01 * (it - i0 + rng.choice([0, 1, 3.5])), iteration=i0 + it + 40))
            elif k < 0.93: stops.append(dict(wall_time=rng.choice([0, 0.001, 1.0, 20.0]), iteration=it + 15))
            else: stops.append({})
        c['stops'] = stops
        if rng.random() < 0.25: c['profile'] = rng.choice([1, 2])
        if rng.random() < 0.3: c['out'] = rng.choice(['gather', 'virtual'])
        if rng.random() < 0.3: c['final'] = True
        if rng.random() < 0.3: c['stats'] = True
        if rng.random() < 0.3: c['sleep'] = [rng.choice([0, 0.5, 5.0]) for _ in range(size)]
        if rng.random() < 0.5:
            w = rng.choice(['timestep', 'timestep', 'rhs', 'schedule', 'nan'])
            c['fail'] = dict(where=w, rank=rng.choice([None, rng.randrange(size)]), at=rng.choice([1, 1, 2, warm, warm + 1, 4]) or 1, exc=rng.choice(sorted(EXC)))
            if w == 'nan': c['fail']['bad'] = rng.choice([float('nan'), float('inf'), -float('inf')])
            if rng.random() < 0.3: c['again'] = True
        c['env'] = gen_env(rng, size, 'wild')
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        spec = {k: case[k] for k in case if k not in ('env', 'index')}
        spec.update(mod='c18', fn='work')
        f = case.get('fail')
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('index', 'env')}), probes={}, sample=case,
                    nontrivial=bool(f) or any(s.get('iteration', 99) <= case.get('i0', 0) + 1 or abs(s.get('iteration', 99) - case.get('i0', 0) - case['warmup']) <= 1 for s in case['stops']))
        sc = sim.new_scratch(); write_cfg(sc, {})
        r = sim.run(spec, case['env'], sc)
        o['violation'] = self.oracle(case, r, o['probes'])
        return o

    def expected_fail(self, f):
        if f['where'] == 'nan': return 'ValueError'
        return EXC[f['exc']].__name__

    def oracle(self, case, r, P):
        f = case.get('fail')
        caught = {}
        for n in r.notes:
            if n[2] == 'caught': caught.setdefault(n[1], n)
        for rk, n in sorted(caught.items()):
            step, rank, _, k, name, msg, same, cnt, lines = n
            if name == 'ValueError' and 'No stopping' in msg and not case['stops'][k]:
                continue
            if not f or f['rank'] not in (None, rk):
                return viol('raised', 'evolve raised %s: %s on rank %d where nothing failed' % (name, msg, rk))
            if name != self.expected_fail(f) or (f['where'] != 'nan' and not same):
                return viol('replaced', 'user code on rank %d raised %s but the caller of evolve saw %s: %s' % (rk, EXC[f['exc']].__name__, name, msg))
            if cnt != f['at']: return viol('late', 'failure of step %d surfaced after step %d' % (f['at'], cnt))
            P['caught_' + f['where']] = P.get('caught_' + f['where'], 0) + 1
        reach = f and r.status in ('deadlock', 'mismatch') and f['rank'] is not None
        if reach:
            # one rank failed alone: it must have got its error; the others may only be waiting for it
            if f['rank'] not in caught: return viol('waits', 'rank %d failed in user code but its error never reached the caller: %s %s' % (f['rank'], r.status, r.detail))
            P['others_waiting'] = P.get('others_waiting', 0) + 1
            if r.status == 'mismatch': return viol('mismatch', 'after the failure of rank %d: %s' % (f['rank'], r.detail))
            return None
        v = job_viol(r)
        if v: return v
        res = r.results
        if f and f['rank'] is not None and res[f['rank']]['runs'] and res[f['rank']]['runs'][-1][0] == 'exc' and len(res) > 1 and 'data' not in res[f['rank']]: return None
        it, t = case.get('i0', 0), 0.0
        total = 0
        for k, s in enumerate(case['stops']):
            if any(len(q['runs']) <= k for q in res): return viol('ranks', 'evolve ended differently on the ranks: %s' % [q['runs'] for q in res]) if not f else None
            per = [q['runs'][k] for q in res]
            if any(x[0] != per[0][0] for x in per): return viol('ranks', 'evolve ended differently on the ranks: %s' % [x[0] for x in per])
            if per[0][0] == 'exc':
                if not s: continue
                if f and f['rank'] is None or f and len(res) == 1:
                    if not (f['at'] > total): return viol('twice', 'failure raised again')
                    if k + 1 < len(case['stops']): return None  # state after a failed step is the user's business
                    return None
                return viol('raised', 'unexpected %s' % per[0])
            if not s: return viol('nostop', 'evolve without a stopping criterion returned')
            for rk, x in enumerate(per):
                if x[1:4] != per[0][1:4]: return viol('ranks', 'rank %d ended at %s, rank 0 at %s' % (rk, x[1:4], per[0][1:4]))
            _, e, te, n, lines = per[0]
            want = None
            if 'wall_time' not in s:
                want = 0; tt = t
                while not (it + want >= s.get('iteration', np.inf) or tt >= s.get('sim_time', np.inf)): want += 1; tt += 0.01
                if n != want and not ('sim_time' in s and abs(n - want) <= 1): return viol('count', 'evolve call %d took %d steps, expected %d (limits %s from iteration %d)' % (k, n, want, s, it))
            if e != it + n: return viol('count', 'iteration %d after %d steps from %d' % (e, n, it))
            it, t = e, te; total += n
            P['completed'] = P.get('completed', 0) + 1
            fin = [l for l in lines if l.startswith('Final iteration')]
            if not fin or fin[0].split(':')[1].strip() != str(it): return viol('stats', 'run statistics missing or wrong: %s' % lines[-6:])
            for l in lines:
                if re.search(r'\bnan\b', l): return viol('stats', 'statistics are not numbers: %s' % l)
            started = it > case.get('i0', 0) + case['warmup']
            if started:
                if not any(l.startswith('Run time') for l in lines): return viol('stats', 'no run timings after %d steps with a warm-up of %d: %s' % (it - case.get('i0', 0), case['warmup'], lines[-4:]))
                P['timings'] = P.get('timings', 0) + 1
            if f and f['rank'] is None and f['at'] <= total: return viol('lost', 'the failure of step %d was swallowed' % f['at'])
        return None

    def case_dim(self, case): return case['dim']

    def shrink(self, case):
        yield from self.shrink_list(case, 'stops')
        for k in ('profile', 'out', 'final', 'stats', 'sleep', 'fail', 'i0', 'again'):
            if case.get(k):
                c = copy.deepcopy(case); del c[k]; yield c
        for c in self.shrink_mesh(case):
            f = c.get('fail')
            if not f or f['rank'] is None or f['rank'] < c['env']['size']: yield c
        yield from self.shrink_env(case)


PROP = C18()
