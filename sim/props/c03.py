"""C03: global reductions agree on all processes and with the serial value; CFL rules."""
import copy, math
import numpy as np
from ..lib import *


def make_arr(a):
    rs = np.random.RandomState(a['seed'])
    n = a['shape']
    x = rs.standard_normal(n) * a['scale'] + a['shift']
    if a['dtype'] == 'i':
        x = np.round(x * 10).astype(np.int64)
    for k in a.get('special', []):
        if x.size and a['dtype'] != 'i':
            x.ravel()[k[0] % x.size] = {'inf': np.inf, '-inf': -np.inf, 'zero': 0.0}[k[1]]
    return x


def part(a, x, rank, size):
    cuts = [0] + [int(c) for c in a['cuts'][:size - 1]] + [x.shape[0]]
    cuts = sorted(min(c, x.shape[0]) for c in cuts)
    return x[cuts[rank]:cuts[rank + 1]]


def work_array(spec, ctx):
    from mpi4py import MPI
    from dedalus.extras.flow_tools import GlobalArrayReducer
    comm = MPI.COMM_WORLD
    out = []
    red = GlobalArrayReducer(comm)
    for a in spec['arrays']:
        x = make_arr(a)
        p = part(a, x, comm.rank, comm.size)
        r = red if a['dtype'] == 'f' or not a.get('own') else GlobalArrayReducer(comm, dtype=np.int64)
        v = []
        for op in a['ops']:
            if op == 'min': v.append(float(red.global_min(p)))
            elif op == 'max': v.append(float(red.global_max(p)))
            elif op == 'mine': v.append(float(red.global_min(p, empty=a['empty'])))
            elif op == 'maxe': v.append(float(red.global_max(p, empty=a['empty'])))
            elif op == 'mean': v.append(float(red.global_mean(p)))
            elif op == 'sum': v.append(float(red.reduce_scalar(np.sum(p), MPI.SUM)))
            elif op == 'smax': v.append(float(r.reduce_scalar(a['scal'][comm.rank], MPI.MAX)))
            elif op == 'smin': v.append(float(r.reduce_scalar(a['scal'][comm.rank], MPI.MIN)))
            elif op == 'ssum': v.append(float(r.reduce_scalar(a['scal'][comm.rank], MPI.SUM)))
        out.append(dict(v=v, n=p.size))
    return out


def work_norm(spec, ctx):
    import dedalus.public as d3
    w = make_world(spec['dom'], spec.get('mesh'))
    fs = []
    for i, fd in enumerate(spec['fields']):
        f = new_field(w, fd['part'], fd['rank'], 'f%d' % i)
        fill(f, fd['seed'])
        if fd.get('amp') is not None:
            f['g'] *= fd['amp']
        fs.append(f)
    out = []
    for op in spec['ops']:
        f = fs[op[1] % len(fs)]
        rec = {}
        k = op[0]
        order = {'2': 2, '1': 1, 'inf': np.inf, '3': 3}.get(op[3], 2)
        if k == 'norm':
            f.change_scales(op[4])
            rec['v'] = f.allreduce_data_norm(layout=op[2], order=order)
            rec['g'] = gathered(f, f.layout)
        elif k == 'max':
            f.change_scales(op[4])
            rec['v'] = f.allreduce_data_max(layout=op[2])
            rec['g'] = gathered(f, f.layout)
            order = np.inf
        elif k == 'l2':
            rec['v'] = f.allreduce_L2_norm(normalize_volume=op[4])
        elif k == 'normalize':
            before = gathered(f, 'g')
            f.normalize(normalize_volume=op[4])
            rec['v'] = f.allreduce_L2_norm(normalize_volume=op[4])
            rec['g0'] = before; rec['g1'] = gathered(f, 'g')
        elif k == 'integ':
            if len(f.tensorsig):
                f = (f @ f if len(f.tensorsig) == 1 else d3.trace(f)).evaluate()
            r = d3.integ(f) if op[4] else d3.ave(f)
            r = r.evaluate()
            rec['g'] = gathered(r, 'g')
            rec['v'] = [float(np.max(np.abs(r['g']))) if r['g'].size else None]
        if k in ('norm', 'max'):
            rec['order'] = float(order)
        out.append(rec)
    return out


def work_flow(spec, ctx):
    import dedalus.public as d3
    from dedalus.extras import flow_tools
    w = make_world(spec['dom'], spec.get('mesh'))
    u = w.dist.VectorField(w.vec, name='u', bases=w.bases)
    v = w.dist.VectorField(w.vec, name='v', bases=w.bases)
    s = w.dist.Field(name='s', bases=w.bases)
    fill(u, spec['seeds'][0]); fill(v, spec['seeds'][1]); fill(s, spec['seeds'][2])
    base = {f: f['c'].copy() for f in (u, v, s)}
    pr = d3.IVP([u, v, s], namespace=dict(u=u, v=v, s=s))
    curv = spec['dom']['kind'] in ('disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl', 'cylA')      # the Laplacian makes the radius coupled
    pr.add_equation('dt(u) - 0.001*lap(u) = 0' if curv else 'dt(u) + u = 0'); pr.add_equation('dt(v) - 0.001*lap(v) = -v' if curv else 'dt(v) = -v'); pr.add_equation('dt(s) - 0.001*lap(s) = 0' if curv else 'dt(s) + s = 0')
    solver = pr.build_solver(spec['ts'])
    if spec['it0']:
        solver.iteration = solver.initial_iteration = spec['it0']
    c = spec['cfl']
    kw = {k: (np.inf if x == 'inf' else x) for k, x in c['kw'].items()}
    cfl = flow_tools.CFL(solver, initial_dt=c['dt0'], **kw)
    vel = []
    for n in c['vel']:
        f = {'u': u, 'v': v}.get(n)
        if f is not None:
            cfl.add_velocity(f); vel.append(d3.AdvectiveCFL(f, w.vec))
        else:
            cfl.add_frequency(3 * s); vel.append(3 * s)     # resolved: no dependence on where products are truncated
    flow = flow_tools.GlobalFlowProperty(solver, cadence=spec['flowcad'])
    ex = {'s': lambda: 1 * s, 's2': lambda: s * s, 'uu': lambda: u @ u, 'us': lambda: np.sqrt(u @ u + 1), 'neg': lambda: -(s * s) - 1}
    for n, pi in spec['props']:
        flow.add_property(ex[n](), name=n, precompute_integral=pi)
    out = []
    dealias = w.full.dealias if not isinstance(w.full, tuple) else tuple(b.dealias[i] for b in w.full for i in range(b.dim))
    for k in range(spec['niter']):
        amp = spec['amps'][k % len(spec['amps'])]
        for f in (u, v, s):
            f.preset_scales(1); f['c'] = base[f] * amp
        rec = dict(it=solver.iteration)
        # frequencies at the state the coming step starts from
        tot = 0
        for op in vel:
            r = op.evaluate()
            r.change_scales(dealias)
            tot = tot + np.abs(r['g'])
        rec['freq'] = float(np.max(tot)) if tot.size else None
        if k < 2 and spec['dom']['kind'].strip('RCZ') == '':
            rec['ug'] = []
            for f in (u, v):
                f.change_scales(dealias); rec['ug'].append(gathered(f, 'g'))
            s.change_scales(dealias); rec['ug'].append(gathered(s, 'g'))
        for f in (u, v, s):
            f.change_scales(1)
        rec['dt'] = float(cfl.compute_timestep())
        solver.step(rec['dt'])
        rec['flow'] = {}
        for n, pi in spec['props']:
            F = rec['flow'][n] = dict(min=float(flow.min(n)), max=float(flow.max(n)), ave=float(np.real(flow.grid_average(n))), g=gathered(flow.properties[n], 'g'))
            F['integ'] = float(np.real(flow.volume_integral(n)))      # last: it truncates the property field
        rec['amp'] = amp
        out.append(rec)
    return out


class C03(Prop):
    id = 'C03'
    quick_budget = 32
    rule = ('one of: reductions of arrays split unevenly over ranks (incl. empty pieces, infinities); norms/normalisation/integrals of random fields; an IVP with flow properties and CFL control over several '
            'rescaled iterations; run on a simulated mesh; non-trivial: >=2 ranks and at least one reduction executed')

    def gen(self, rng, i, tier):
        prog = ['array', 'norm', 'flow', 'flow', 'norm'][i // 8 % 5] if i % 3 else rng.choice(['array', 'norm', 'flow'])
        case = dict(prog=prog, cfg=gen_cfg(rng))
        if prog == 'array':
            size = rng.randint(2, 8)
            case['mesh'] = None
            A = []
            for _ in range(rng.randint(2, 8)):
                nd = rng.choice([1, 1, 2, 3])
                shape = [rng.randint(0, 12)] + [rng.randint(1, 4) for _ in range(nd - 1)]
                A.append(dict(seed=rng.randrange(10**6), shape=shape, scale=rng.choice([1, 1e-6, 1e6]), shift=rng.choice([0, -50, 50]), dtype=rng.choice('ffi'), own=rng.random() < 0.5, empty=rng.choice([-3, 0, 7.5]),
                              special=[[rng.randrange(99), rng.choice(['inf', '-inf', 'zero'])] for _ in range(rng.choice([0, 0, 1, 2]))],
                              cuts=sorted(rng.randint(0, 12) for _ in range(size)), scal=[rng.randint(-50, 50) for _ in range(size)], ops=[rng.choice(['min', 'max', 'mine', 'maxe', 'mean', 'sum', 'smax', 'smin', 'ssum']) for _ in range(rng.randint(2, 5))]))
            case['arrays'] = A
            case['env'] = gen_env(rng, size)
            return case
        if prog == 'norm':
            dom = gen_domain(rng)
            size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
            parts = [p for p in part_names(dom) if p != 'const']     # integration over no axes is not defined
            case.update(dom=dom, mesh=mesh, fields=[dict(part=rng.choice(['full', 'full'] + parts), rank=rng.choice([0, 0, 1, 1, 2]), seed=rng.randrange(10**6), amp=rng.choice([None, None, 0.0, 1e-3, 1e4])) for _ in range(rng.randint(1, 3))])
            for f in case['fields']:
                if f['part'] == 'surface': f['rank'] = min(f['rank'], 1)     # no trace of tensors on a sphere in a 3D geometry
            ops = []
            for _ in range(rng.randint(3, 8)):
                k = rng.choice(['norm', 'norm', 'max', 'l2', 'normalize', 'integ'])
                ops.append([k, rng.randrange(3), rng.choice(['g', 'c']), rng.choice(['2', 'inf', '1', '3']), (rng.choice([1, 1.5, 2]) if k in ('norm', 'max') else rng.random() < 0.5)])
            case['ops'] = ops
            case['env'] = gen_env(rng, size)
            return case
        kinds = ['RR', 'RC', 'CR', 'CC', 'RRC', 'ZZ', 'ZC', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'RRR', 'RCR', 'cyl', 'cylA', 'RL']
        dom = gen_domain(rng, kinds)
        dom['N'] = [max(n, 4) for n in dom['N']] if dom['kind'].strip('RCZL') == '' else dom['N']
        if dom['kind'] in ('annulus', 'shell', 'cylA') and dom['dealias'] == 1: dom['dealias'] = 1.5
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
        kw = dict(cadence=rng.choice([1, 1, 2, 3, 4]), safety=rng.choice([1.0, 0.5, 0.3]))
        if rng.random() < 0.7: kw['max_dt'] = rng.choice([0.1, 0.01, 1.0])
        if rng.random() < 0.4: kw['min_dt'] = rng.choice([1e-3, 1e-2, 0.05])
        if rng.random() < 0.6: kw['max_change'] = rng.choice([1.5, 1.1, 3.0])
        if rng.random() < 0.6: kw['min_change'] = rng.choice([0.5, 0.9, 0.1])
        if rng.random() < 0.5: kw['threshold'] = rng.choice([0.07, 0.23, 0.41])
        amps = [rng.choice([1.0, 1.0, 1.3, 0.2, 5.0, 0.9, 1.02]) for _ in range(rng.randint(3, 8))]
        if 'max_dt' in kw and rng.random() < 0.3: amps[rng.randrange(len(amps))] = 0.0
        case.update(dom=dom, mesh=mesh, seeds=[rng.randrange(10**6) for _ in range(3)], ts=rng.choice(['SBDF1', 'SBDF2', 'RK111', 'RK222', 'CNAB1', 'MCNAB2']), it0=rng.choice([0, 0, 0, 1, 3, 10]),
                    cfl=dict(dt0=rng.choice([0.01, 0.05, 0.001]), kw=kw, vel=rng.choice([['u'], ['u'], ['u', 'v'], ['u', 's'], ['s']])), flowcad=rng.choice([1, 1, 2, 3]),
                    props=[[n, rng.random() < 0.4] for n in rng.sample(['s', 's2', 'uu', 'us', 'neg'], rng.randint(1, 3))], niter=rng.randint(4, 9), amps=amps)
        case['env'] = gen_env(rng, size)
        return case

    def run(self, sim, case):
        from ..runner import Outcome
        k = case['prog']
        spec = {x: case[x] for x in case if x not in ('env', 'cfg', 'mesh', 'index')}
        spec.update(mod='c03', fn='work_' + k)
        o = Outcome(key=self.key({x: case[x] for x in case if x not in ('env', 'index')}), nontrivial=False, probes={}, sample={x: case[x] for x in case})
        if k == 'array':
            r1 = sim.run(spec, case['env'], sim.new_scratch())
            o['nontrivial'] = r1.stats.get('coll.allreduce', 0) > 0
            v = job_viol(r1)
            o['violation'] = v or self.o_array(case, r1.results, o['probes'])
            return o
        sc = sim.new_scratch(); write_cfg(sc, {})
        r0 = sim.run(spec, SERIAL, sc)
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        r1 = sim.run(dict(spec, mesh=case['mesh']), case['env'], sc)
        o['nontrivial'] = r1.stats.get('coll.allreduce', 0) > 0
        if r0.status != 'ok':
            if r0.status == 'exception' and r1.status == 'exception' and r0.detail.get('exc') == r1.detail.get('exc') == 'NotImplementedError':
                o['probes'] = {'unsupported': 1}; o['nontrivial'] = False; o['note'] = str(r0.detail.get('tb'))[-400:]
                return o
            o['violation'] = job_viol(r0, 'serial: ')
            return o
        v = job_viol(r1)
        o['violation'] = v or (self.o_norm if k == 'norm' else self.o_flow)(case, r0.results, r1.results, o['probes'])
        return o

    def o_array(self, case, res, probes):
        n = case['env']['size']
        for j, a in enumerate(case['arrays']):
            x = make_arr(a).astype(float)
            P = [part(a, x, r, n) for r in range(n)]
            for q, op in enumerate(a['ops']):
                vals = [r[j]['v'][q] for r in res]
                tag = 'array %d %s over %d ranks (pieces %s): ' % (j, op, n, [p.size for p in P])
                if any(p.size == 0 for p in P): probes['empty_pieces'] = probes.get('empty_pieces', 0) + 1
                if any(not (v == vals[0] or (v != v and vals[0] != vals[0])) for v in vals): return viol('disagree', tag + 'ranks disagree: %s' % vals)
                with np.errstate(all='ignore'):
                    if op == 'min': e = x.min() if x.size else np.inf
                    elif op == 'max': e = x.max() if x.size else -np.inf
                    elif op in ('mine', 'maxe'):
                        l = [(p.min() if op == 'mine' else p.max()) if p.size else a['empty'] for p in P]
                        e = min(l) if op == 'mine' else max(l)
                    elif op == 'mean': e = np.float64(np.sum(x)) / np.float64(x.size)
                    elif op == 'sum': e = np.sum(x)
                    else: e = {'smax': max, 'smin': min, 'ssum': sum}[op](a['scal'][:n])
                g = vals[0]
                ok = (g == e) or (np.isnan(g) and np.isnan(e)) or (op in ('mean', 'sum') and np.isfinite(e) and abs(g - e) <= 1e-11 * (1e-300 + np.sum(np.abs(x[np.isfinite(x)])) if op == 'sum' else max(1e-300, np.max(np.abs(x)))))
                if not ok: return viol('value', tag + 'got %r, expected %r' % (g, float(e)))
        return None

    def same(self, tag, vals):
        if any(v != vals[0] and not (v != v and vals[0] != vals[0]) for v in vals): return viol('disagree', tag + 'ranks disagree: %s' % vals)

    def o_norm(self, case, ser, par, probes):
        for k, op in enumerate(case['ops']):
            S = ser[0][k]; P = [p[k] for p in par]
            tag = 'op %d %s: ' % (k, op)
            if op[0] == 'integ':
                a, err = assemble([p['g'] for p in P]); b, err2 = assemble([S['g']])
                if err or err2: return viol('tiling', tag + str(err or err2))
                if not relerr(a, b) < 1e-10: return viol('value', tag + 'integral/average %s, serial %s' % (a.ravel()[:4], b.ravel()[:4]))
                continue
            v = self.same(tag, [float(p['v']) for p in P])
            if v: return v
            a, b = float(P[0]['v']), float(S['v'])
            if not (abs(a - b) <= 1e-9 * max(abs(b), 1e-9) or (np.isnan(a) and np.isnan(b))): return viol('value', tag + 'got %r, serial value %r' % (a, b))
            if 'order' in S:
                for what, recs in (('parallel', P), ('serial', [S])):
                    g, err = assemble([p['g'] for p in recs])
                    if err: return viol('tiling', tag + err)
                    if any(p['g']['data'].size == 0 for p in recs): probes['empty_rank'] = probes.get('empty_rank', 0) + 1
                    o = recs[0]['order']
                    e = float(np.max(np.abs(g))) if np.isinf(o) else float(np.sum(np.abs(g) ** o) ** (1 / o))
                    x = float(recs[0]['v'])
                    if not (abs(x - e) <= 1e-10 * max(abs(e), 1e-12) or (np.isnan(x) and np.isnan(e))): return viol('value', tag + '%s norm %r, whole-array value %r' % (what, x, e))
            if op[0] == 'normalize' and np.isfinite(b):
                g0, _ = assemble([p['g0'] for p in P]); g1, _ = assemble([p['g1'] for p in P])
                if abs(a - 1) > 1e-8 and np.max(np.abs(g0)) > 0: return viol('normalize', tag + 'norm after normalisation is %r' % a)
        return None

    def spacing(self, dom):
        out = []
        for i, k in enumerate(dom['kind']):
            N = dom['N'][i]; L = (1.0 + 0.5 * i) - 0.2 * i; d = dom['dealias']
            Nd = int(math.ceil(d * N)) if k == 'C' else int(d * N)
            if k in 'RZ': x = np.full(Nd, L / Nd * d)
            else:
                x = d * (L / 2) * np.sin(np.pi * (np.arange(Nd) + 0.5) / Nd) * np.pi / Nd
            sh = [1] * len(dom['kind']); sh[i] = -1
            out.append(x.reshape(sh))
        return out

    def o_flow(self, case, ser, par, probes):
        kw = dict(cadence=1, safety=1.0, max_dt=np.inf, min_dt=0.0, max_change=np.inf, min_change=0.0, threshold=0.0)
        kw.update(case['cfl']['kw'])
        for what, res in (('serial', ser), ('parallel', par)):
            stored = case['cfl']['dt0']
            lastfreq = {}
            for k in range(case['niter']):
                recs = [r[k] for r in res]
                tag = '%s iteration %d: ' % (what, recs[0]['it'])
                fl = [r['freq'] for r in recs if r['freq'] is not None]
                mf = max(fl) if fl else -np.inf
                sm = ser[0][k]['freq']
                if abs(mf - sm) > 1e-9 * max(sm, 1e-6): return viol('freq', tag + 'largest CFL frequency %r, serial %r' % (mf, sm))
                if 'ug' in recs[0]:
                    ug = []
                    for q in range(3):
                        g, err = assemble([r['ug'][q] for r in recs])
                        if err: return viol('tiling', tag + err)
                        ug.append(g)
                    dx = self.spacing(case['dom'])
                    tot = 0
                    for n in case['cfl']['vel']:
                        tot = tot + (np.abs(3 * ug[2]) if n == 's' else sum(np.abs(ug['uv'.index(n)][i]) / dx[i] for i in range(len(dx))))
                    e = float(np.max(tot))
                    probes['independent_freq'] = probes.get('independent_freq', 0) + 1
                    if abs(e - mf) > 1e-9 * max(e, 1e-6):
                        return viol('freq', tag + 'largest CFL frequency %r, sum of |u_i|/dx_i gives %r' % (mf, e))
                n = recs[0]['it']
                v = self.same(tag + 'timestep: ', [r['dt'] for r in recs])
                if v: return v
                border = False
                if (n - 1) % kw['cadence'] == 0 and n - 1 > case['it0']:
                    f = lastfreq.get(n - 1)
                    dt = np.inf if f == 0 else 1 / f
                    dt *= kw['safety']
                    dt = min(dt, kw['max_dt'], kw['max_change'] * stored)
                    dt = max(dt, kw['min_dt'], kw['min_change'] * stored)
                    probes['cfl_updates'] = probes.get('cfl_updates', 0) + 1
                    border = abs(abs(dt - stored) - kw['threshold'] * stored) < 1e-8 * stored
                    if abs(dt - stored) > kw['threshold'] * stored: new = dt
                    else: new = stored
                    if border: new = recs[0]['dt']
                    stored = new
                if abs(recs[0]['dt'] - stored) > 1e-9 * stored: return viol('cfl-rule', tag + 'timestep %r, rules give %r (settings %s, frequency at previous step %r)' % (recs[0]['dt'], stored, case['cfl'], lastfreq.get(n - 1)))
                lastfreq[n] = mf
                for p, pi in case['props']:
                    F = [r['flow'][p] for r in recs]
                    for q in ('min', 'max', 'ave', 'integ'):
                        v = self.same(tag + 'flow %s of %s: ' % (q, p), [x[q] for x in F])
                        if v: return v
                        e = ser[0][k]['flow'][p][q]
                        if abs(F[0][q] - e) > 1e-9 * max(abs(e), 1e-2): return viol('flow', tag + 'flow %s of %s is %r, serial %r' % (q, p, F[0][q], e))
                    g, err = assemble([x['g'] for x in F])
                    if err: return viol('tiling', tag + err)
                    g = np.real(g)
                    for q, e in (('min', g.min()), ('max', g.max()), ('ave', g.mean())):
                        if abs(F[0][q] - e) > 1e-10 * max(abs(e), np.max(np.abs(g))): return viol('flow', tag + 'flow %s of %s is %r, whole-array value %r' % (q, p, F[0][q], e))
        return None

    def shrink(self, case):
        if case['prog'] == 'array':
            yield from self.shrink_list(case, 'arrays')
        elif case['prog'] == 'flow':
            if case['niter'] > 2:
                c = copy.deepcopy(case); c['niter'] -= 1; yield c
            if len(case['props']) > 1:
                for i in range(len(case['props'])):
                    c = copy.deepcopy(case); del c['props'][i]; yield c
            for k in list(case['cfl']['kw']):
                if k != 'max_dt':
                    c = copy.deepcopy(case); del c['cfl']['kw'][k]; yield c
        yield from Prop.shrink(self, case)


PROP = C03()
