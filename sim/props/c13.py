"""C13: checkpoint and restart reproduce the run on any mesh."""
import copy, os, shutil
import numpy as np
from ..lib import *
from .. import probs
from ..prog import read_files as _rf

ONESTEP = ['RK111', 'RK222', 'RK443', 'RKSMR', 'SBDF1', 'CNAB1']
AWKWARD = {19: 1.1, 21: 1.25, 25: 1.1, 22: 1.1, 38: 1.6, 50: 1.1}      # sizes where scales recovered as a quotient do not round back


def read(spec, ctx):
    return {p: dict(error=d.get('error'), scales={k: np.array(d['scales'][k]).tolist() for k in ('write_number', 'iteration', 'sim_time', 'timestep')} if 'scales' in d else None) for p, d in _rf(dict(match='ck/'), ctx).items() if p.count('/') == 1}


def merge(spec, ctx):
    from dedalus.tools import post
    post.merge_analysis('ck', cleanup=spec['cleanup'])


def snap(P):
    return {v.name: gathered(v.copy(), 'c', True) for v in P.vars}


def work(spec, ctx):
    import dedalus.public as d3
    import h5py
    w = make_world(spec['dom'], spec.get('mesh'))
    P = probs.build(w, spec['prob'], 'IVP')
    solver = P.problem.build_solver(spec['ts'])
    out = dict(traj={}, loaded=[])
    probs.init_state(P, spec['prob']['seed'] + (999 if spec.get('loads') else 0), 0.4)
    dts = spec['dts']
    dt = lambda: dts[int(solver.iteration) % len(dts)]
    for L in spec.get('loads', []):
        for k in range(L['pre']): solver.step(dts[k % len(dts)] * L['predt'])
        for f in P.vars:
            if L['touch'] == 'g': f.change_layout('g')
            elif L['touch'] == 's': f.change_scales(2 if spec['dom']['kind'] not in probs.CURV else 1)
            elif L['touch'] == 'junk': f.fill_random(layout='g', seed=3) if f.domain.bases else None
        before = snap(P)
        try:
            wr, d = solver.load_state(L['path'], L['index'], **({'allow_missing': True} if L['allow'] else {}))
        except IOError as e:
            if L['omitted'] and not L['allow'] and 'not found' in str(e):
                out['loaded'].append(dict(refused=True)); continue
            raise
        rec = dict(write=int(wr), dt=float(d), iteration=int(solver.iteration), init=int(solver.initial_iteration), sim_time=float(solver.sim_time), t=float(P.t['g'].ravel()[0]) if spec['prob'].get('tdep') and P.t['g'].size else None, state=snap(P), before=before)
        if spec.get('extra') and L['fields']:
            f = P.main[0].copy(); f.preset_scales(1); f['g'] = 7
            with h5py.File(L['path'], 'r') as F: f.load_from_hdf5(F, L['index'], task='extra', func=lambda x: 3 * x)
            rec['extra'] = gathered(f, 'c', True)
        out['loaded'].append(rec)
    h = spec.get('handler')
    if h:
        kw = {k: h[k] for k in ('max_writes', 'parallel', 'mode') if h.get(k) is not None}
        ck = solver.evaluator.add_file_handler('ck', iter=h['iter'], **kw)
        fs = [f for f in solver.state if f.name not in h['omit']]
        sc = h['scales']
        if h['how'] == 'tasks': ck.add_tasks(fs, layout=h['layout'], scales=sc)
        else:
            for f in fs: ck.add_task(f, layout=h['layout'], scales=sc, name=f.name)
        if spec.get('extra'): ck.add_task(P.main[0], layout=h['layout'], scales=sc, name='extra')
        orig = ck.process; st = dict(n=0)

        def process(**kw):
            ctx.note('w0', st['n'], int(kw['iteration']))
            orig(**kw)
            ctx.note('w1', st['n'], int(kw['iteration'])); st['n'] += 1
            out.setdefault('writes', []).append(int(kw['iteration']))
        ck.process = process
    for k in range(spec['steps']):
        if spec.get('rec', True): out['traj'][int(solver.iteration)] = (float(solver.sim_time), snap(P))
        solver.step(dt())
    out['traj'][int(solver.iteration)] = (float(solver.sim_time), snap(P))
    return out


class C13(Prop):
    id = 'C13'
    rule = ('random problem and domain; a chain of 2-4 sessions, each on its own mesh, schedule and parallel output mode, writing checkpoints (grid or coefficient data, various scales and awkward sizes, rollover) and loading any earlier write by positive or negative index, possibly after stepping, merging, or a kill between writes; '
            'loaded iteration, time, write number, timestep and every field are compared with the recorded state, and one-step schemes must follow the uninterrupted serial reference; non-trivial: at least one load on another number of processes than wrote it')
    quick_budget = 33

    def gen(self, rng, i, tier):
        dom, pb = probs.gen_ivp(rng, small=True)
        c = dict(dom=dom, prob=pb, ts=rng.choice(ONESTEP) if rng.random() < 0.75 else rng.choice(probs.SCHEMES))
        k = dom['kind']
        scales = [None, 1, 1, 1.5, 2]
        if len(k) == 2 and k.strip('RZCLU') == '' and rng.random() < 0.3:
            n = rng.choice([x for x in AWKWARD if k[1] not in 'RZ' or x % 2 == 0])
            dom['N'][1] = n; scales = [AWKWARD[n], AWKWARD[n], (1, AWKWARD[n])]
        elif k.strip('RZCLU') == '':
            scales.append(tuple(rng.choice([1, 1.5, 2]) for _ in k))
        dt = rng.choice([0.01, 0.002])
        c['dts'] = [dt * rng.choice([1, 1, 0.5, 1.7]) for _ in range(rng.randint(1, 3))]
        c['extra'] = rng.random() < 0.4
        S = []
        layout = rng.choice(['g', 'g', 'g', 'c'])
        for s in range(rng.choice([2, 2, 3, 4])):
            size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 8)
            if rng.random() < 0.2: size, mesh = 1, None
            d = dict(mesh=mesh, env=gen_env(rng, size, 'none'), steps=rng.randint(1, 4) if s else rng.randint(1, 6), handler=dict(iter=rng.choice([1, 1, 2, 3]), max_writes=rng.choice([None, 1, 2, 3]), parallel=rng.choice(['gather', 'virtual', 'virtual', None]), mode='append', layout=layout, scales=rng.choice(scales), how=rng.choice(['tasks', 'task']), omit=[rng.choice([v for v in ('p', 'tp', 'ts1', 'tu1', 's', 'u', 'h')])] if rng.random() < 0.15 else []))
            if s: d['loads'] = [dict(pick=rng.choice([1.0, 1.0, rng.random()]), neg=rng.random() < 0.5, allow=rng.random() < 0.4, pre=rng.choice([0, 0, 1, 2]), predt=rng.choice([1, 0.5]), touch=rng.choice([None, 'g', 's', 'junk'])) for _ in range(rng.choice([1, 1, 2]))]
            if rng.random() < 0.25: d['kill'] = rng.random()
            if rng.random() < 0.3: d['merge'] = dict(cleanup=rng.random() < 0.5, env=gen_env(rng, rng.choice([1, 2, 3]), 'none'))
            S.append(d)
        c['sessions'] = S
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        o = Outcome(key=self.key({k: v for k, v in case.items() if k not in ('index',)}), probes=dict(loads=0, states_compared=0, killed=0), sample=case)
        P = o['probes']
        base = {k: case[k] for k in ('dom', 'prob', 'ts', 'dts', 'extra')}
        base.update(mod='c13', fn='work')
        one = case['ts'] in ONESTEP
        sc = sim.new_scratch(); write_cfg(sc, {})
        total = 14
        r = sim.run(dict(base, mesh=None, steps=total), dict(SERIAL), sc)
        if r.status == 'exception' and r.detail.get('exc') in ('NotImplementedError', 'UnsupportedEquationError', 'NonlinearOperatorError', 'SkipDispatchException'):
            o['probes'] = {'unsupported': 1}; o['note'] = '%s %s: %s' % (case['prob']['name'], case['dom']['kind'], str(r.detail.get('tb'))[-300:]); return o
        o['violation'] = job_viol(r, 'reference: ')
        if o.violation: return o
        ref = {it: (t, {v: assemble([x])[0] for v, x in s.items()}) for it, (t, s) in r.results[0]['traj'].items()}
        if not all(np.all(np.isfinite(x)) and np.max(np.abs(x), initial=0) < 1e6 for _, s in ref.values() for x in s.values()): o['note'] = 'unstable reference'; return o
        sc = sim.new_scratch(); write_cfg(sc, {})
        W = []      # writes: dict(path, index, write, iteration, sim_time, dt, state, omit, size)
        for si, s in enumerate(case['sessions']):
            what = 'session %d (%s on %s): ' % (si, case['ts'], s['mesh'] if s['env']['size'] > 1 else 'one process')
            spec = dict(base, mesh=s['mesh'], handler=s['handler'], steps=s['steps'])
            loads = []
            for L in s.get('loads', []):
                if not W: continue
                k = min(len(W) - 1, int(L['pick'] * len(W)))
                w = W[k]
                nin = sum(1 for x in W if x['path'] == w['path'])
                om = [v for v in w['omit'] if v in ref[0][1]]
                loads.append((dict(L, path=w['path'], index=w['index'] - (nin if L['neg'] else 0), omitted=om, fields=True), w))
            spec['loads'] = [l for l, _ in loads]
            if s.get('loads') and not loads: continue
            start = [w for l, w in loads if not (l['omitted'] and not l['allow'])]
            it0 = start[-1]['iteration'] if start else (sum(l['pre'] for l, _ in loads))
            spec['steps'] = max(1, min(s['steps'], total - it0))
            env = dict(s['env'])
            exact = one and not any(l['omitted'] for l, _ in loads) and (not loads or loads[-1][1]['exact'])
            if s.get('kill') is not None:
                pd = os.path.join(sim.tmp, 'prof'); shutil.rmtree(pd, ignore_errors=True); shutil.copytree(sc, pd)
                q = sim.run(spec, env, pd)
                o['violation'] = job_viol(q, what + '(unkilled) ')
                if o.violation: return o
                nw = len(q.results[0].get('writes', []))
                gaps = []
                for j in range(nw):
                    a = max(n[0] for n in q.notes if n[2] == 'w1' and n[3] == j)
                    z = min([n[0] for n in q.notes if n[2] == 'w0' and n[3] == j + 1] + [q.steps])
                    if z - a > 1: gaps.append((a + 1, z - 1, j + 1))
                if gaps:
                    a, z, j = gaps[int(s['kill'] * len(gaps))]
                    env['kill'] = dict(step=a + int((s['kill'] * 7919 % 1) * (z - a)))
                    nkill = j
                    full = q
            r = sim.run(spec, env, sc)
            if env.get('kill'):
                if r.status != 'killed':
                    o['violation'] = job_viol(r, what) or viol('harness', what + 'kill did not happen: %s' % r.status)
                    return o
                P['killed'] += 1
                res = full.results; writes = res[0]['writes'][:nkill]
            else:
                o['violation'] = job_viol(r, what)
                if o.violation: return o
                res = r.results; writes = res[0].get('writes', [])
            # loads
            for j, (l, w) in enumerate(loads):
                lw = what + 'load of %s index %d (write %d, iteration %d): ' % (l['path'], l['index'], w['write'], w['iteration'])
                rec = [x['loaded'][j] for x in res]
                if l['omitted'] and not l['allow']:
                    if not all(x.get('refused') for x in rec): o['violation'] = viol('missing', lw + 'missing fields %s were not reported' % l['omitted']); return o
                    continue
                P['loads'] += 1
                if w['size'] != s['env']['size']: o['nontrivial'] = True
                for rk, x in enumerate(rec):
                    for kk in ('write', 'dt', 'iteration', 'sim_time'):
                        if x[kk] != w[kk]: o['violation'] = viol('attr', lw + 'rank %d: %s is %r, written with %r' % (rk, kk, x[kk], w[kk])); return o
                    if x['init'] != w['iteration'] or x['t'] is not None and x['t'] != w['sim_time']: o['violation'] = viol('attr', lw + 'rank %d: initial iteration %r, time field %r' % (rk, x['init'], x['t'])); return o
                for v in w['state']:
                    X, err = assemble([x['state'][v] for x in rec])
                    if err: o['violation'] = viol('tile', lw + '%s: %s' % (v, err)); return o
                    if v in l['omitted']: Y = assemble([x['before'][v] for x in rec])[0]; 
                    else: Y = w['state'][v]
                    e = relerr(X, Y)
                    P['states_compared'] += 1
                    if not e < 1e-9: o['violation'] = viol('state', lw + '%s differs from the %s state by %.2e' % (v, 'previous (the file has no such field)' if v in l['omitted'] else 'written', e)); return o
                if case['extra']:
                    X, err = assemble([x['extra'] for x in rec])
                    e = relerr(X, 3 * w['extra'])
                    if err or not e < 1e-9: o['violation'] = viol('state', lw + 'loading a task into a field: %s' % (err or e)); return o
            # trajectory
            fin = {}
            for it in sorted(res[0]['traj']):
                t = [x['traj'][it][0] for x in res]
                st = {}
                for v in ref[0][1]:
                    st[v], err = assemble([x['traj'][it][1][v] for x in res])
                    if err: o['violation'] = viol('tile', what + '%s: %s' % (v, err)); return o
                fin[it] = (t[0], st)
                if len(set(t)) > 1: o['violation'] = viol('time', what + 'ranks disagree on the time at iteration %d: %s' % (it, t)); return o
                if exact and it in ref:
                    if abs(t[0] - ref[it][0]) > 1e-12 * (1 + abs(t[0])): o['violation'] = viol('time', what + 'time %r at iteration %d, uninterrupted run %r' % (t[0], it, ref[it][0])); return o
                    fl = max(float(np.max(np.abs(x), initial=0)) for x in ref[it][1].values())
                    for v in st:
                        e = relerr(st[v], ref[it][1][v], fl)
                        P['states_compared'] += 1
                        if not e < 1e-7: o['violation'] = viol('trajectory', what + 'started from iteration %d, %s at iteration %d differs from the uninterrupted run by %.2e' % (it0, v, it, e)); return o
            if s.get('merge'):
                q = sim.run(dict(mod='c13', fn='merge', cleanup=s['merge']['cleanup']), s['merge']['env'], sc)
                o['violation'] = job_viol(q, what + 'merging: ')
                if o.violation: return o
            q = sim.run(dict(mod='c13', fn='read'), SERIAL, sc)
            o['violation'] = job_viol(q, what + 'reading: ')
            if o.violation: return o
            disk = []
            files = {p: d for p, d in q.results[0].items() if p.count('/') == 1}
            for p in sorted(files, key=lambda p: int(p.rsplit('_s', 1)[1][:-3])):
                d = files[p]
                if d['error']: o['violation'] = viol('unreadable', what + '%s: %s' % (p, d['error'])); return o
                for ix, row in enumerate(zip(*[d['scales'][k] for k in ('write_number', 'iteration', 'sim_time', 'timestep')])): disk.append((p, ix) + row)
            new = disk[len(W):]
            if [(x['path'], x['index'], x['write'], x['iteration']) for x in W] != [x[:4] for x in disk[:len(W)]] or [x[3] for x in new] != writes or [x[2] for x in disk] != list(range(1, len(disk) + 1)):
                o['violation'] = viol('writes', what + 'checkpoints on disk %s do not continue %s with iterations %s' % ([x[:4] for x in disk], [(x['path'], x['index'], x['write'], x['iteration']) for x in W], writes)); return o
            for p, ix, wn, it, t, d in new:
                if t != fin[it][0] or d != case['dts'][it % len(case['dts'])]: o['violation'] = viol('attr', what + 'write %d at iteration %d has time %r, timestep %r; the run had %r, %r' % (wn, it, t, d, fin[it][0], case['dts'][it % len(case['dts'])])); return o
                W.append(dict(path=p, index=ix, write=int(wn), iteration=int(it), sim_time=t, dt=d, state=fin[it][1], omit=s['handler']['omit'], size=s['env']['size'], exact=exact, extra=fin[it][1][self.main(case)]))
        return o

    def main(self, case):
        return {'heat': 's', 'ncc': 's', 'rb': 's', 'ns': 'u', 'sw': 'u'}[case['prob']['name']]

    def shrink(self, case):
        yield from self.shrink_list(case, 'sessions')
        for i, s in enumerate(case['sessions']):
            for k in ('kill', 'merge'):
                if s.get(k) is not None:
                    c = copy.deepcopy(case); del c['sessions'][i][k]; yield c
            if len(s.get('loads', [])) > 1:
                for j in range(len(s['loads'])):
                    c = copy.deepcopy(case); del c['sessions'][i]['loads'][j]; yield c
            if s['steps'] > 1:
                c = copy.deepcopy(case); c['sessions'][i]['steps'] = 1; yield c
            if s['env']['size'] > 1:
                c = copy.deepcopy(case); c['sessions'][i].update(mesh=None, env=dict(SERIAL)); yield c
                if s['env']['size'] > 2:
                    c = copy.deepcopy(case); c['sessions'][i].update(mesh=[2], env=dict(size=2, seed=1, policy='des')); yield c
            for k, v in (('omit', []), ('max_writes', None), ('iter', 1), ('scales', 1), ('parallel', 'gather')):
                if s['handler'][k] != v:
                    c = copy.deepcopy(case); c['sessions'][i]['handler'][k] = v; yield c
        if case['extra']:
            c = copy.deepcopy(case); c['extra'] = False; yield c


PROP = C13()
