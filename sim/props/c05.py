"""C05: solver results do not depend on the process mesh (or matrix solver)."""
import copy
import numpy as np
from ..lib import *
from .. import probs

SOLVERS = ['superlunaturalspsolve', 'superlucolamdspsolve', 'superlunaturalfactorized', 'superlunaturalfactorizedtranspose', 'superlucolamdfactorized', 'superlucolamdfactorizedtranspose', 'sparseinverse', 'denseinverse', 'scipydenselu']


def state(P):
    out = {}
    for v in P.vars:
        out[v.name] = gathered(v, 'c', True)
    return out


def work(spec, ctx):
    import dedalus.public as d3
    w = make_world(spec['dom'], spec.get('mesh'))
    pt = spec['ptype']
    P = probs.build(w, spec['prob'], pt)
    kw = dict(spec.get('kw') or {})
    out = dict(steps=[])
    if pt == 'IVP':
        solver = P.problem.build_solver(spec['ts'], **kw)
        probs.init_state(P, spec['prob']['seed'])
        for k, dt in enumerate(spec['dts']):
            solver.step(dt)
            if k in (0, len(spec['dts']) - 1): out['steps'].append(state(P))
        out['time'] = [float(solver.sim_time), int(solver.iteration)]
        out['modes'] = int(solver.total_modes)
    elif pt == 'LBVP':
        solver = P.problem.build_solver(**kw)
        solver.solve()
        out['steps'].append(state(P))
        if spec.get('again'):
            P.forcing.change_scales(1)
            P.forcing['g'] *= -2.5
            solver.solve(rebuild_matrices=spec['again'] == 'rebuild')
            out['steps'].append(state(P))
    elif pt == 'NLBVP':
        solver = P.problem.build_solver(**kw)
        probs.init_state(P, spec['prob']['seed'], 0.1)
        for _ in range(spec['newton']):
            solver.newton_iteration(damping=spec.get('damping', 1))
        out['steps'].append(state(P))
    else:
        solver = P.problem.build_solver(**kw)
        out['eig'] = []
        solver.build_matrices()
        for sp in solver.subproblems:
            if not sp.size: continue
            A, B = sp.L_min.toarray(), -sp.M_min.toarray()
            rec = dict(group=tuple(sp.group), L=A, M=B, n=len(sp.subsystems))
            solver.solve_dense(sp)
            rec['ev'] = np.array(solver.eigenvalues)
            # check eigenvectors of a few well-separated finite modes against the matrices of the expanded system
            out['eig'].append(rec)
    out['subs'] = [tuple(None if g is None else int(g) for g in ss.group) for ss in solver.subsystems]
    out['sps'] = [(tuple(None if g is None else int(g) for g in sp.group), sp.size, [tuple(None if g is None else int(g) for g in ss.group) for ss in sp.subsystems]) for sp in solver.subproblems]
    return out


class C05(Prop):
    id = 'C05'
    quick_budget = 33
    rule = ('random problem (heat, Navier-Stokes, Rayleigh-Benard, shallow water, non-constant coefficients; IVP/LBVP/NLBVP/EVP) on a random domain, timestepper and timestep sequence, matrix solver and mesh, '
            'solved on one process and on a simulated mesh; non-trivial: >=2 ranks and messages exchanged')

    def gen(self, rng, i, tier):
        pt = rng.choice(['IVP', 'IVP', 'IVP', 'LBVP', 'EVP', 'NLBVP'])
        if pt == 'IVP':
            dom, pb = probs.gen_ivp(rng)
        else:
            names = dict(LBVP=['heat', 'ns', 'ncc', 'heat'], NLBVP=['heat', 'heat', 'ncc'], EVP=['heat', 'ns', 'ncc', 'sw', 'rb'])[pt]
            dom, pb = probs.gen_ivp(rng, names=names, small=pt == 'EVP')
            if pt == 'EVP':
                dom['kind'] = {'RC': 'ZC', 'RRC': 'ZZC', 'RL': 'ZC', 'RU': 'ZC', 'RR': 'ZZ', 'RRR': 'ZZ'}.get(dom['kind'], dom['kind'])
                dom['N'] = dom['N'][:2] if len(dom['kind']) == 2 and dom['kind'][0] == 'Z' else dom['N']
                dom['dtype'] = 'c'
        if pt == 'NLBVP':       # nonlinear terms couple every axis they depend on: only the last axis may be
            pb['radial'] = dom['kind'] in ('RC', 'ZC', 'RRC', 'ZZC', 'RL', 'RU') and rng.random() < 0.7
            pb['al'] = (pb['al'] or 0.2) if pb['radial'] else 0.0
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
        c = dict(ptype=pt, dom=dom, prob=pb, mesh=mesh, kw={}, cfg=gen_cfg(rng, 0.25, nonlin=True))
        if rng.random() < 0.5 and pt != 'EVP':
            c['kw']['matsolver'] = rng.choice(SOLVERS)
        if pt == 'IVP':
            c['ts'] = rng.choice(probs.SCHEMES)
            n = rng.randint(2, 7)
            d = rng.choice([0.01, 0.002])
            c['dts'] = [d] * n if rng.random() < 0.4 else [d * rng.choice([1, 1, 0.5, 1.3, 2]) for _ in range(n)]
        if pt == 'LBVP': c['again'] = rng.choice([None, 'solve', 'rebuild'])
        if pt == 'NLBVP':
            c['newton'] = rng.randint(1, 4); c['damping'] = rng.choice([1, 1, 0.7])
        c['env'] = gen_env(rng, size)
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        spec = {k: case[k] for k in case if k not in ('env', 'mesh', 'cfg', 'index', 'kw')}
        spec.update(mod='c05', fn='work')
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('env', 'index')}), probes={}, nontrivial=False, sample=case)
        sc = sim.new_scratch(); write_cfg(sc, {})
        r0 = sim.run(spec, SERIAL, sc)
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        r1 = sim.run(dict(spec, mesh=case['mesh'], kw=case['kw']), case['env'], sc)
        o['nontrivial'] = bool(r1.stats.get('coll.alltoall', 0) or r1.stats.get('p2p', 0) or r1.stats.get('coll.allreduce', 0))
        if r0.status != 'ok':
            if r0.status == 'exception' and r1.status == 'exception' and r0.detail.get('exc') == r1.detail.get('exc'):
                o['probes'] = {'unsupported': 1}; o['nontrivial'] = False; o['note'] = '%s %s %s: %s' % (case['ptype'], case['prob']['name'], case['dom']['kind'], str(r0.detail.get('tb'))[-300:])
                return o
            o['violation'] = job_viol(r0, 'serial: '); return o
        o['violation'] = job_viol(r1) or self.oracle(case, r0.results, r1.results, o['probes'])
        o['probes'][case['ptype']] = 1
        return o

    def oracle(self, case, ser, par, probes):
        S = ser[0]
        # every subsystem exactly once
        allsubs = [g for p in par for g in p['subs']]
        if sorted(map(str, allsubs)) != sorted(map(str, S['subs'])):
            return viol('subsystems', 'subsystems over the mesh do not partition the serial ones: serial %d, mesh %s, missing %s, duplicated or new %s' % (len(S['subs']), [len(p['subs']) for p in par], sorted(set(S['subs']) - set(allsubs), key=str)[:5], sorted({g for g in allsubs if allsubs.count(g) > 1 or g not in S['subs']}, key=str)[:5]))
        if any(not p['subs'] for p in par): probes['empty_rank'] = 1
        for p in par:
            inside = [g for sp in p['sps'] for g in sp[2]]
            if sorted(map(str, inside)) != sorted(map(str, p['subs'])): return viol('subsystems', 'subproblems of a rank do not cover its subsystems once')
        if case['ptype'] == 'EVP':
            mats = {}
            for e in S['eig']: mats[e['group']] = e
            seen = set()
            for r, p in enumerate(par):
                for e in p['eig']:
                    s = mats.get(e['group'])
                    if s is None: return viol('subsystems', 'rank %d solved subproblem %s absent in serial' % (r, e['group']))
                    seen.add(e['group'])
                    for q in 'LM':
                        if relerr(e[q], s[q]) > 1e-10: return viol('matrix', 'rank %d, subproblem %s: matrix %s differs from serial by %.2e' % (r, e['group'], q, relerr(e[q], s[q])))
                    a = e['ev'][np.isfinite(e['ev'])]; b = s['ev'][np.isfinite(s['ev'])]
                    if relerr(e['L'], s['L']) == 0 and relerr(e['M'], s['M']) == 0 and not np.array_equal(a, b):
                        if a.shape != b.shape or relerr(a, b) > 1e-6: return viol('eigenvalues', 'rank %d, subproblem %s: eigenvalues differ for identical matrices' % (r, e['group']))
            if seen != set(mats): return viol('subsystems', 'subproblems %s not solved on the mesh' % sorted(set(mats) - seen, key=str)[:5])
            return None
        if case['ptype'] == 'IVP':
            for p in par:
                if p['time'] != S['time']: return viol('time', 'time/iteration %s, serial %s' % (p['time'], S['time']))
                if p['modes'] != S['modes']: return viol('modes', 'total modes %s, serial %s' % (p['modes'], S['modes']))
        for k in range(len(S['steps'])):
            scale = 0
            glob = {}
            for n in S['steps'][k]:
                g, err = assemble([p['steps'][k][n] for p in par])
                if err: return viol('tiling', 'record %d, %s: %s' % (k, n, err))
                s, err = assemble([S['steps'][k][n]])
                if err: return viol('tiling', 'serial %d, %s: %s' % (k, n, err))
                if not np.all(np.isfinite(s)): probes['serial_nonfinite'] = 1; return None
                glob[n] = (g, s); scale = max(scale, float(np.max(np.abs(s))) if s.size else 0)
            if scale > 1e6: probes['blowup'] = 1; return None
            for n, (g, s) in glob.items():
                e = float(np.max(np.abs(g - s))) if s.size else 0.0
                tol = 1e-7 * max(float(np.max(np.abs(s))) if s.size else 0, 1e-2 * scale, 1e-3)
                if not e < tol: return viol('value', 'record %d: %s differs from serial by %.2e (max %.2e)' % (k, n, e, np.max(np.abs(s))))
        return None

    def shrink(self, case):
        if len(case.get('dts') or []) > 1:
            c = copy.deepcopy(case); c['dts'] = c['dts'][:-1]; yield c
        if case['kw']:
            c = copy.deepcopy(case); c['kw'] = {}; yield c
        for k, v in (('again', None), ('newton', 1)):
            if case.get(k) and case[k] != v:
                c = copy.deepcopy(case); c[k] = v; yield c
        yield from Prop.shrink(self, case)


PROP = C05()
