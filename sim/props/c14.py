"""C14: observing a simulation does not change it."""
import copy, os
import numpy as np
from ..lib import *
from .. import probs, prog

OBS = ['gather', 'allgather', 'layout', 'scales', 'reduce', 'eval', 'handlers', 'norm', 'copy', 'random', 'interp', 'mean', 'read', 'read', 'evalF', 'op', 'cfl', 'lbvp', 'require', 'group', 'add', 'point', 'rhsdata', 'str']


def snap(P):
    return {v.name: gathered(v.copy(), 'c', True) for v in P.vars}


def resolve(P):
    """Radial conversions truncate: drop the highest radial modes of the forcing, so that it has the same projection wherever it is evaluated."""
    f = P.forcing
    f.change_scales(1); f['c']
    n = f.layout.global_shape(f.domain, 1)[-1]
    ix = np.arange(n)[f.layout.slices(f.domain, 1)[-1]]
    f.data[..., ix >= n - 3] = 0


def share(P, e):
    """an expression of the problem itself, or a piece of it"""
    k, path = e
    F = [q['F'] for q in P.problem.eqs if not isinstance(q['F'], (int, float)) and getattr(q['F'], 'args', None)]
    if not F: return P.main[0]
    x = F[k % len(F)]
    for p in path:
        a = [y for y in getattr(x, 'args', []) if hasattr(y, 'evaluate') and hasattr(y, 'domain')]
        if not a: break
        x = a[p % len(a)]
    return x


def observe(P, solver, a, ctx, hs, st, spec):
    import dedalus.public as d3
    from dedalus.extras import flow_tools
    k = a['k']; f = P.vars[a['f'] % len(P.vars)]; x = a['x']
    if k == 'read':
        for _ in range(1 + x % 3):
            g = P.vars[x % len(P.vars)]
            [lambda: g['g'], lambda: g['c'], lambda: (g.change_scales([1, 1.5, 2, 1.5][x % 4]), g['g']), lambda: g.data.sum(), lambda: g.get_basis(P.problem.dist.coords[0])][x % 5](); x = x // 5 + 1
    elif k == 'evalF':
        r = share(P, a['sh'])
        r = r.evaluate() if hasattr(r, 'evaluate') else r
        if a['x'] % 2: r.change_scales(1); r['g']
    elif k == 'op':
        m = P.main[a['f'] % len(P.main)]
        for o in [lambda: d3.lap(m), lambda: d3.grad(m), lambda: m * m if not m.tensorsig else m @ m, lambda: -2 * m, lambda: np.exp(0.1 * m) if not m.tensorsig else m + m, lambda: d3.Grid(m), lambda: d3.Coeff(m)][a['x'] % 7:][:1]:
            r = o().evaluate()
            if a['x'] % 7 < 5: r['g' if a['x'] % 3 else 'c']
    elif k == 'cfl':
        if spec['dom']['dtype'] != 'f': return
        if 'cfl' not in st: return
        st['cfl'].compute_timestep()
    elif k == 'require':
        fs = [v for i, v in enumerate(P.vars) if (a['x'] >> i) & 1]
        (solver.evaluator.require_grid_space if a['x'] % 2 else solver.evaluator.require_coeff_space)(fs)
    elif k == 'group':
        solver.evaluator.evaluate_group('F')
    elif k == 'add':
        H = solver.evaluator.add_dictionary_handler(iter=1 + a['x'] % 2)
        H.add_task(share(P, a['sh']), layout='g' if a['x'] % 3 else 'c', scales=[None, 1, 2][a['x'] % 3], name='n')
        hs.append(H)
    elif k == 'point':
        m = P.main[0]
        if spec['dom']['kind'] in probs.CURV: return
        c = P.problem.dist.coords[a['x'] % len(P.problem.dist.coords)]
        b = m.get_basis(c)
        lo, hi = b.bounds
        d3.Interpolate(m, c, lo + 0.4 * (hi - lo)).evaluate()['g']
    elif k == 'rhsdata':
        for F in solver.F: F.copy()['g' if a['x'] % 2 else 'c']
    elif k == 'str':
        [(str(q['F']), repr(q['L'])) for q in P.problem.eqs]
    else:
        prog.act(P, solver, dict(a, s=a.get('s', 1)), ctx, hs, {}, None)


def work(spec, ctx):
    import dedalus.public as d3
    from dedalus.extras import flow_tools
    w = make_world(spec['dom'], spec.get('mesh'))
    P = probs.build(w, spec['prob'], 'IVP')
    P.curv = spec['dom']['kind'] in probs.CURV
    if P.curv and spec['dom']['kind'] != 'sphere': resolve(P)
    P.integrable = spec['dom']['kind'] not in ('sphere', 'shell', 'ball', 'cyl', 'cylA')
    solver = P.problem.build_solver(spec['ts'], **({'enforce_real_cadence': spec['real']} if spec.get('real') else {}))
    probs.init_state(P, spec['prob']['seed'], 0.5)
    obs = spec['observed']
    out = dict(traj=[]); hs = []; st = {}
    flow = None
    if obs:
        hs = prog.add_handlers(P, solver, spec['handlers'], out, ctx)
        for i, h in enumerate(spec['shared']):
            H = solver.evaluator.add_dictionary_handler(iter=h['iter'])
            for j, t in enumerate(h['tasks']): H.add_task(share(P, t['sh']), layout=t['layout'], scales=t['scales'], name='q%d' % j)
            hs.append(H)
        if any(a['k'] == 'cfl' for a in spec['acts']) and spec['dom']['dtype'] == 'f':
            st['cfl'] = c = flow_tools.CFL(solver, initial_dt=0.01, cadence=1 + spec['steps'] % 3, safety=0.5, max_dt=0.1)
            us = [v for v in P.main if len(v.tensorsig) == 1]
            c.add_velocity(us[0]) if us else c.add_frequency(P.main[0])
        if spec.get('flow'):
            flow = flow_tools.GlobalFlowProperty(solver, cadence=spec['flow'])
            flow.add_property(P.main[0] @ P.main[0] if P.main[0].tensorsig else P.main[0] * 2, name='fp')
    dts = spec['dts']
    for n in range(spec['steps'] + 1):
        if obs:
            for a in spec['acts']:
                if a['at'] == n: observe(P, solver, a, ctx, hs, st, spec)
            if flow and n and spec['dom']['dtype'] == 'f': flow.max('fp'); flow.grid_average('fp')
        out['traj'].append((int(solver.iteration), float(solver.sim_time), snap(P)))
        if n < spec['steps']: solver.step(dts[n % len(dts)])
    return out


class C14(Prop):
    id = 'C14'
    rule = ('random problem, scheme and mesh run twice: bare, and with random file/dictionary handlers (also of expressions shared with the equations), flow properties, timestep estimates and 0-10 user observations between steps (layout and scale changes, gathers, reductions, evaluations, integrals, copies, auxiliary problems, handlers added mid-run); '
            'the state after every step must agree to rounding and the clocks exactly; non-trivial: at least one observation happened')
    quick_budget = 33

    def gen(self, rng, i, tier):
        dom, pb = probs.gen_ivp(rng, small=True)
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 8)
        if rng.random() < 0.4: size, mesh = 1, None
        n = rng.randint(2, 6 if tier == 'quick' else 12)
        dt = rng.choice([0.01, 0.002])
        dom['dealias'] = rng.choice([1.5, 1.5, 1.5, 1, 2])
        if dom['kind'] in probs.CURV: dom['dealias'] = rng.choice([1.5, 1.5, 1])
        c = dict(dom=dom, prob=pb, mesh=mesh, ts=rng.choice(probs.SCHEMES), dts=[dt * rng.choice([1, 1, 0.5, 1.7]) for _ in range(rng.randint(1, 3))], steps=n)
        c['handlers'] = [prog.gen_handler(rng, pb['name'], j, True, ('file', 'dict', 'rec'), dt, size) for j in range(rng.choice([0, 1, 1, 2]))]
        sh = lambda: [rng.randrange(6), [rng.randrange(2) for _ in range(rng.choice([0, 0, 0, 1, 2]))]]
        c['shared'] = [dict(iter=rng.choice([1, 1, 2, 3]), tasks=[dict(sh=sh(), layout=rng.choice(['g', 'c']), scales=rng.choice([None, 1, 1.5, 2])) for _ in range(rng.choice([1, 2, 3]))]) for _ in range(rng.choice([0, 1, 1, 2]))]
        if dom['kind'] == 'sphere':
            for t in [t for h in c['handlers'] for t in h['tasks']]:
                if t['e'] == 'integ(s)': t['e'] = 's'
        c['acts'] = []
        for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 10])):
            a = prog.gen_act(rng, pb['name'], n, size, OBS); a['sh'] = sh()
            if a['k'] == 'eval' and dom['kind'] == 'sphere' and a['e'] == 'integ(s)': a['e'] = 's'
            if a['k'] == 'scales' and a['s'] < 1: a['s'] = 2
            c['acts'].append(a)
        if rng.random() < 0.3: c['flow'] = rng.choice([1, 2, 3])
        if rng.random() < 0.3: c['real'] = rng.choice([1, 2, 3])
        c['cfg'] = gen_cfg(rng, 0.15)
        c['env'] = gen_env(rng, size, 'mild')
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        base = {k: case[k] for k in case if k not in ('env', 'cfg', 'index')}
        base.update(mod='c14', fn='work')
        o = Outcome(key=self.key({k: v for k, v in case.items() if k not in ('index', 'env')}), probes={}, sample=case)
        size = case['env']['size']
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        a = sim.run(dict(base, observed=False), dict(size=size, seed=1, policy='des'), sc)
        if a.status == 'exception' and a.detail.get('exc') in ('NotImplementedError', 'UnsupportedEquationError', 'NonlinearOperatorError', 'SkipDispatchException'):
            o['probes'] = {'unsupported': 1}; o['note'] = 'bare: %s %s: %s' % (case['prob']['name'], case['dom']['kind'], str(a.detail.get('tb'))[-300:]); return o
        o['violation'] = job_viol(a, 'bare run: ')
        if o.violation: return o
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        b = sim.run(dict(base, observed=True), case['env'], sc)
        if b.status == 'exception' and b.detail.get('exc') in ('NotImplementedError', 'UnsupportedEquationError', 'NonlinearOperatorError', 'SkipDispatchException'):
            o['probes'] = {'unsupported': 1}; o['note'] = 'observed: %s %s: %s' % (case['prob']['name'], case['dom']['kind'], str(b.detail.get('tb'))[-300:]); return o
        o['violation'] = job_viol(b, 'observed run: ')
        if o.violation: return o
        o['nontrivial'] = bool(case['handlers'] or case['shared'] or case['acts'] or case.get('flow'))
        P = o['probes']
        P['states_compared'] = 0
        for x in case['acts']: P['act_' + x['k']] = P.get('act_' + x['k'], 0) + 1
        P['tasks'] = sum(len(h['tasks']) for h in case['handlers'] + case['shared'])
        for n in range(case['steps'] + 1):
            A = [x['traj'][n] for x in a.results]; B = [x['traj'][n] for x in b.results]
            for r, (x, y) in enumerate(zip(A, B)):
                if x[:2] != y[:2]: o['violation'] = viol('clock', 'rank %d step %d: iteration and time %s, unobserved %s' % (r, n, y[:2], x[:2])); return o
            S = {}
            for v in A[0][2]:
                X, e1 = assemble([x[2][v] for x in A]); Y, e2 = assemble([x[2][v] for x in B])
                if e1 or e2: o['violation'] = viol('tile', '%s: %s' % (v, e1 or e2)); return o
                S[v] = (X, Y)
            fl = max(float(np.max(np.abs(X), initial=0)) for X, Y in S.values())
            if not np.isfinite(fl) or fl > 1e6: o['note'] = 'unstable'; return o
            for v, (X, Y) in S.items():
                P['states_compared'] += 1
                e = relerr(Y, X, fl)
                if not e < 1e-8: o['violation'] = viol('changed', 'step %d: %s differs by %.2e between the observed and the unobserved run' % (n, v, e)); return o
        return o

    def shrink(self, case):
        for k in ('acts', 'shared'): yield from self.shrink_list(case, k)
        for i, h in enumerate(case['shared']):
            for j in range(len(h['tasks'])):
                if len(h['tasks']) > 1:
                    c = copy.deepcopy(case); del c['shared'][i]['tasks'][j]; yield c
        if case['steps'] > 1:
            c = copy.deepcopy(case); c['steps'] -= 1; yield c
        if case['env']['size'] > 1:
            c = copy.deepcopy(case); c['mesh'] = None; c['env'] = dict(SERIAL); yield c
        if case.get('real'):
            c = copy.deepcopy(case); del c['real']; yield c
        if len(case['dts']) > 1:
            c = copy.deepcopy(case); c['dts'] = c['dts'][:1]; yield c
        if case['ts'] != 'RK111':
            c = copy.deepcopy(case); c['ts'] = 'RK111'; yield c
        yield from prog.shrink_program(self, dict(case, stop={}))


PROP = C14()
