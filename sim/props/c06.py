"""C06: programs run collectively: no mismatched collectives, deadlock or livelock; no dependence on timing."""
import copy
import numpy as np
from ..lib import *
from .. import prog

run = prog.run
read_files = prog.read_files


class C06(Prop):
    id = 'C06'
    quick_budget = 33
    rule = ('random whole program (problem, timestepper, file/dictionary handlers with schedules, CFL, flow properties, user actions between steps, merging) on a random mesh, run under two independently drawn schedules '
            '(message timing, stalls, clocks, hash seeds, MPI freedoms); both must end, with identical results and outputs; non-trivial: >=2 ranks')

    def gen(self, rng, i, tier):
        c, size, dt = prog.gen_program(rng, tier, wall=False)
        c['cfg'] = gen_cfg(rng, 0.3)
        c['merge'] = rng.random() < 0.3
        c['stats'] = rng.random() < 0.2
        c['env'] = gen_env(rng, size, 'wild'); c['env2'] = gen_env(rng, size, 'wild')
        c['env']['reduce_shuffle'] = c['env2']['reduce_shuffle'] = False
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        spec = {k: case[k] for k in case if k not in ('env', 'env2', 'cfg', 'index')}
        spec.update(mod='c06', fn='run')
        size = case['env']['size']
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('index',)}), probes={}, nontrivial=size > 1, sample=case)
        res = []; files = []
        env2 = dict(case['env2'], size=size)
        for e in (case['env'], env2):
            sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
            r = sim.run(spec, e, sc)
            if r.status != 'ok':
                if r.status == 'exception' and self.unsupported(r):
                    o['probes'] = {'unsupported': 1}; o['nontrivial'] = False; o['note'] = '%s %s: %s' % (case['prob']['name'], case['dom']['kind'], str(r.detail.get('tb'))[-400:])
                    # serial must fail too
                    sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
                    s = sim.run(dict(spec, mesh=None), dict(SERIAL), sc)
                    if s.status == 'ok': o['violation'] = job_viol(r)
                    return o
                o['violation'] = job_viol(r); return o
            res.append(r)
            f = sim.run(dict(mod='c06', fn='read_files', dedalus=False), SERIAL, sc)
            if f.status != 'ok': o['violation'] = job_viol(f, 'reading outputs: '); return o
            files.append(f.results[0])
        p = o['probes']
        p['steps'] = res[0]['steps']
        if any(h['kind'] == 'file' for h in case['handlers']): p['files'] = 1
        for k in ('flow', 'cfl', 'merge'):
            if case.get(k): p[k] = 1
        for a in case['acts']: p['act_' + a['k']] = 1
        o['violation'] = self.oracle(res, files)
        return o

    def unsupported(self, r):
        return r.detail.get('exc') in ('NotImplementedError', 'UnsupportedEquationError', 'NonlinearOperatorError', 'SkipDispatchException')

    def oracle(self, res, files):
        a, b = res
        for r, (x, y) in enumerate(zip(a.results, b.results)):
            for z in (x, y):
                for l in z.get('rec', {}).values():
                    for e in l: e.pop('wall_time', None)
            d = diff(x, y, 'rank %d' % r)
            if d: return viol('timing', 'result depends on timing: ' + d)
        for r in a.results[1:]:
            if r['log'] != a.results[0]['log']: return viol('steps', 'ranks took different steps: %s vs %s' % (r['log'][-3:], a.results[0]['log'][-3:]))
        if set(files[0]) != set(files[1]): return viol('timing', 'output files depend on timing: %s' % sorted(set(files[0]) ^ set(files[1])))
        for n in files[0]:
            x, y = files[0][n], files[1][n]
            if 'error' in x or 'error' in y: return viol('file', '%s: %s' % (n, x.get('error') or y.get('error')))
            for z in (x, y): z['scales'].pop('wall_time', None)
            d = diff(x, y, n)
            if d: return viol('timing', 'output depends on timing: ' + d)
        return None

    def shrink(self, case):
        yield from prog.shrink_program(self, case)
        e2 = case['env2']
        for k in ('stall_p', 'slow', 'rendezvous', 'clocks', 'hashseeds'):
            if e2.get(k):
                c = copy.deepcopy(case); c['env2'].pop(k); yield c


def diff(x, y, where):
    """first difference between two nested records (bitwise; NaN equal)"""
    if type(x) != type(y): return '%s: %r vs %r' % (where, type(x), type(y))
    if isinstance(x, dict):
        if set(x) != set(y): return '%s: keys %s' % (where, sorted(set(x) ^ set(y), key=str))
        for k in x:
            d = diff(x[k], y[k], '%s/%s' % (where, k))
            if d: return d
        return None
    if isinstance(x, (list, tuple)):
        if len(x) != len(y): return '%s: length %d vs %d' % (where, len(x), len(y))
        for i, (p, q) in enumerate(zip(x, y)):
            d = diff(p, q, '%s[%d]' % (where, i))
            if d: return d
        return None
    if isinstance(x, np.ndarray):
        if x.shape != y.shape or x.dtype != y.dtype: return '%s: %s %s vs %s %s' % (where, x.dtype, x.shape, y.dtype, y.shape)
        if x.dtype.kind in 'fc':
            if not np.array_equal(x, y, equal_nan=True): return '%s: %d of %d values differ, max %.2e' % (where, int(np.sum(x != y)), x.size, float(np.nanmax(np.abs(x - y))))
        elif not np.array_equal(x, y): return '%s: arrays differ' % where
        return None
    if isinstance(x, float) and x != x and y != y: return None
    return None if x == y else '%s: %r vs %r' % (where, x, y)


PROP = C06()
