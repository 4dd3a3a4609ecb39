"""A whole user program: problem, solver, analysis handlers, CFL, flow properties, user actions
between steps, run control.  Shared by the properties about running programs (rank side)
with its case generator (controller side)."""
import os, glob, time
import numpy as np
from .lib import *
from . import probs

# name -> (expression, linear/resolved?)  evaluated in the problem namespace
TASKS = {
    'heat': ['s', 'lap(s)', 'grad(s)', 's*s', 'integ(s)', 'f', 's+f', '2*s', 'f*s'],
    'ncc': ['s', 'lap(s)', 'grad(s)', 's*s', 'f', 's+2*f', 's*s*f'],
    'ns': ['u', 'p', 'div(u)', 'u@u', 'grad(p)', 'lap(u)', 'integ(p)', 'tp'],
    'rb': ['u', 's', 'p', 'u@u', 'lap(s)', 's*u', 'integ(s)', 'trace(grad(u))'],
    'sw': ['u', 'h', 'div(u)', 'u@u', 'lap(h)', 'h*u'],
}
LINEAR = {'s', 'lap(s)', 'grad(s)', 'integ(s)', 'f', 's+f', '2*s', 's+2*f', 'u', 'p', 'div(u)', 'grad(p)', 'lap(u)', 'integ(p)', 'tp', 'h', 'lap(h)', 'trace(grad(u))'}
FIELDS = {'s', 'u', 'p', 'h', 'tp', 'f'}


def gen_task(rng, name, i, linear=False, grid=None):
    pool = [t for t in TASKS[name] if not linear or t in LINEAR]
    e = rng.choice(pool)
    return dict(e=e, layout=rng.choice(['g', 'g', 'c']) if grid is None else 'g' if grid else 'c', scales=rng.choice([None, 1, 1, 1.5, 2]), name='t%d' % i)


def gen_sched(rng, wall=True, horizon=8, dt=0.01):
    s = {}
    while not s:
        if rng.random() < 0.55: s['iter'] = rng.choice([1, 1, 2, 3, 4, 7])
        if rng.random() < 0.35: s['sim_dt'] = dt * rng.choice([0.7, 1, 1.5, 2, 3.3, 5])
        if wall and rng.random() < 0.3: s['wall_dt'] = rng.choice([0.001, 0.5, 3.0, 10.0])
        if rng.random() < 0.2: s['custom'] = sorted(rng.sample(range(horizon + 2), rng.randint(0, 4)))
    return s


def gen_handler(rng, name, i, wall=True, kinds=('file', 'dict', 'rec'), dt=0.01, size=1, linear=False):
    h = dict(kind=rng.choice(kinds), name='h%d' % i, sched=gen_sched(rng, wall, dt=dt), tasks=[gen_task(rng, name, j, linear) for j in range(rng.randint(1, 3))])
    if h['kind'] == 'file':
        h['parallel'] = rng.choice(['gather', 'virtual', None])
        h['max_writes'] = rng.choice([None, 1, 2, 3, 5])
        h['mode'] = rng.choice([None, 'overwrite', 'append'])
    return h


ACTS = ['gather', 'allgather', 'layout', 'scales', 'reduce', 'eval', 'handlers', 'norm', 'sleep', 'world', 'copy', 'random', 'sync', 'rotate', 'mkdir', 'load', 'lbvp', 'interp', 'mean', 'ranks']


def gen_act(rng, name, nsteps, size, pool=None):
    k = rng.choice(pool or ACTS)
    a = dict(k=k, at=rng.randrange(nsteps + 1), e=rng.choice(TASKS[name]), f=rng.randrange(4), x=rng.randrange(1000))
    if k == 'sleep': a['t'] = [rng.choice([0, 0, 0.3, 2.0, 7.5, 40.0]) for _ in range(size)]
    if k == 'layout': a['l'] = rng.choice(['g', 'c', 1])
    if k == 'scales': a['s'] = rng.choice([1, 1.5, 2, 0.5])
    return a


class Rec:
    pass


def make_rec(d3core, log):
    from dedalus.core.evaluator import DictionaryHandler

    class RecHandler(DictionaryHandler):
        def process(self, **kw):
            super().process(**kw)
            log.append({k: float(v) for k, v in kw.items()})
    return RecHandler


def parse(P, e):
    import dedalus.public as d3
    from dedalus.core.future import FutureField
    ns = dict(P.problem.namespace)
    return eval(e, {}, ns)


def add_handlers(P, solver, hspecs, out, ctx=None):
    hs = []
    for h in hspecs:
        kw = {k: h['sched'][k] for k in ('iter', 'sim_dt', 'wall_dt') if k in h['sched']}
        if 'custom' in h['sched']:
            fire = set(h['sched']['custom'])
            kw['custom_schedule'] = lambda iteration, fire=fire, **k: iteration in fire
        if h['kind'] == 'file':
            for k in ('max_writes', 'mode', 'parallel'):
                if h.get(k) is not None: kw[k] = h[k]
            H = solver.evaluator.add_file_handler(h.get('path', h['name']), **kw)
        elif h['kind'] == 'dict':
            H = solver.evaluator.add_dictionary_handler(**kw)
        else:
            log = out.setdefault('rec', {}).setdefault(h['name'], [])
            H = make_rec(None, log)(solver.dist, P.problem.namespace, **kw)
            solver.evaluator.add_handler(H)
        for t in h['tasks']:
            kw = dict(layout=t['layout'], name=t['name'])
            if t['scales'] is not None: kw['scales'] = t['scales']
            op = parse(P, t['e']) if not h.get('strings') else t['e']
            H.add_task(op, **kw)
        hs.append(H)
    return hs


def act(P, solver, a, ctx, hs, out, names):
    import dedalus.public as d3
    from dedalus.tools import parallel
    vs = [v for v in P.vars]
    f = vs[a['f'] % len(vs)]
    k = a['k']
    if k == 'gather':
        r = f.gather_data(layout='g' if a['x'] % 2 else 'c'); return None if r is None else float(np.sum(np.abs(r)))
    if k == 'allgather':
        return float(np.sum(np.abs(f.allgather_data(layout='g'))))
    if k == 'layout':
        L = a['l']
        f.change_layout([l for l in P.problem.dist.layouts if int(np.sum(l.grid_space)) == 1][0] if L == 1 else L)
    elif k == 'scales': f.change_scales(a['s'] if a['s'] >= 1 else 1)
    elif k == 'reduce':
        from dedalus.extras.flow_tools import GlobalArrayReducer
        R = GlobalArrayReducer(P.problem.dist.comm_cart)
        g = f['g'].real
        return [float(R.global_min(g)), float(R.global_max(g))]
    elif k == 'mean':
        from dedalus.extras.flow_tools import GlobalArrayReducer
        return float(GlobalArrayReducer(P.problem.dist.comm_cart).global_mean(f['g'].real))
    elif k == 'eval':
        e = parse(P, a['e']); r = e.evaluate() if hasattr(e, 'evaluate') else e
        return float(r.allreduce_data_max(layout='g')) if r.dtype == np.float64 else None
    elif k == 'interp':
        if not P.integrable: return None
        r = d3.Integrate(P.main[0]) if not P.main[0].tensorsig else d3.Average(P.main[0] @ P.main[0])
        r = r.evaluate(); return float(np.sum(np.abs(r.allgather_data('g'))))
    elif k == 'handlers': solver.evaluate_handlers([hs[a['x'] % len(hs)]] if hs and a['x'] % 3 else None, dt=0.0)
    elif k == 'norm': return [float(f.allreduce_data_norm(layout='g')), float(P.main[0].allreduce_L2_norm()) if P.integrable else 0.0]
    elif k == 'sleep': time.sleep(a['t'][ctx.rank % len(a['t'])])
    elif k == 'world': solver.world_time; solver.wall_time
    elif k == 'copy': c = f.copy(); c['g']; c['c']
    elif k == 'random': c = f.copy(); c.fill_random(layout='g' if a['x'] % 2 else 'c', seed=a['x'])
    elif k == 'sync':
        with parallel.Sync(P.problem.dist.comm): pass
    elif k == 'rotate':
        with parallel.RotateProcesses(P.problem.dist.comm): pass
    elif k == 'mkdir': parallel.parallel_mkdir('d%d' % (a['x'] % 3), comm=P.problem.dist.comm)
    elif k == 'ranks': solver.print_subproblem_ranks if a['x'] % 5 else solver.print_subproblem_ranks()
    elif k == 'lbvp' and P.curv: return None
    elif k == 'lbvp':
        q = P.problem.dist.Field(bases=P.main[0].domain.bases, name='q')
        pr = d3.LBVP([q], namespace={'q': q, 'rhs': P.forcing, 'lap': d3.lap})
        pr.add_equation('3*q = rhs')
        pr.build_solver().solve()
    elif k == 'load':
        fs = sorted(glob.glob('ck/ck_s*.h5'))
        if fs: pass
    return None


def run(spec, ctx):
    """The program.  Records every step; state at the end."""
    import dedalus.public as d3
    from dedalus.extras import flow_tools
    w = make_world(spec['dom'], spec.get('mesh'))
    P = probs.build(w, spec['prob'], 'IVP')
    P.curv = spec['dom']['kind'] in probs.CURV
    P.integrable = spec['dom']['kind'] not in ('sphere', 'shell', 'ball', 'cyl', 'cylA')
    out = dict(log=[], acts=[], flow=[])
    solver = P.problem.build_solver(spec['ts'], **(spec.get('kw') or {}))
    probs.init_state(P, spec['prob']['seed'], spec.get('amp', 0.5))
    stop = spec.get('stop', {})
    if 'iter' in stop: solver.stop_iteration = stop['iter']
    if 'sim' in stop: solver.stop_sim_time = stop['sim']
    if 'wall' in stop: solver.stop_wall_time = stop['wall']
    hs = add_handlers(P, solver, spec.get('handlers', []), out, ctx)
    flow = None
    if spec.get('flow'):
        flow = flow_tools.GlobalFlowProperty(solver, cadence=spec['flow'])
        flow.add_property(P.main[0] @ P.main[0] if P.main[0].tensorsig else P.main[0] * 2, name='fp')
    cfl = None
    if spec.get('cfl'):
        c = dict(spec['cfl'])
        cfl = flow_tools.CFL(solver, **c)
        us = [v for v in P.main if len(v.tensorsig) == 1]
        cfl.add_velocity(us[0]) if us else cfl.add_frequency(P.main[0])
    dts = spec['dts']
    todo = sorted(spec.get('acts', []), key=lambda a: a['at'])
    if ctx.size > 1 and spec.get('rotate_acts'): pass
    n = 0
    for a in todo:
        if a['at'] == 0: out['acts'].append(act(P, solver, a, ctx, hs, out, None))
    while solver.proceed:
        dt = cfl.compute_timestep() if cfl else dts[n % len(dts)]
        ctx.note('step', int(solver.iteration))
        solver.step(dt)
        n += 1
        out['log'].append((int(solver.iteration), float(solver.sim_time), float(dt)))
        for a in todo:
            if a['at'] == n: out['acts'].append(act(P, solver, a, ctx, hs, out, None))
        if flow and spec['dom']['dtype'] == 'f':
            out['flow'].append([float(flow.max('fp')), float(flow.min('fp')), float(flow.grid_average('fp')), float(flow.volume_integral('fp')) if P.integrable else 0.0])
        if n > spec.get('cap', 60): break
    if spec.get('final_handlers'): solver.evaluate_handlers()
    if spec.get('stats'):
        solver.log_stats()
    out['state'] = {v.name: gathered(v, 'c', True) for v in P.vars}
    out['dicts'] = {}
    for h, H in zip(spec.get('handlers', []), hs):
        if h['kind'] in ('dict', 'rec'):
            out['dicts'][h['name']] = {n: gathered(F, F.layout, True) for n, F in sorted(H.fields.items())}
    if spec.get('merge'):
        from dedalus.tools import post
        for h in spec['handlers']:
            if h['kind'] == 'file' and h.get('parallel') == 'virtual' and os.path.isdir(h['name']): post.merge_analysis(h['name'])
    return out


def read_files(spec, ctx):
    """Read every HDF5 file below the working directory (one process)."""
    import h5py
    out = {}
    for dp, dn, fn in sorted(os.walk('.')):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith('.h5') or f.startswith('tmp_'): continue      # tmp_: remains of an interrupted merge
            p = os.path.relpath(os.path.join(dp, f), '.')
            if spec.get('match') and spec['match'] not in p: continue
            out[p] = read_file(p, spec.get('procs', False))
    return out


def read_file(p, procs=True):
    import h5py
    try:
        with h5py.File(p, 'r') as F:
            d = dict(attrs={k: (v.tolist() if hasattr(v, 'tolist') else v) for k, v in F.attrs.items()}, scales={}, tasks={}, virtual={})
            if 'scales' in F:
                for k in F['scales']: d['scales'][k] = np.array(F['scales'][k])
            for k in F['tasks'] if 'tasks' in F else []:
                D = F['tasks'][k]
                dims = []
                for ax in range(D.ndim):
                    dims.append((D.dims[ax].label, sorted((os.path.basename(D.dims[ax][j].name), ) for j in range(len(D.dims[ax]))) if 'DIMENSION_LIST' in D.attrs else []))
                d['tasks'][k] = dict(data=np.array(D), dims=dims, virtual=bool(D.is_virtual), attrs={a: np.array(D.attrs[a]).tolist() for a in ('constant', 'grid_space', 'scales') if a in D.attrs}, dtype=str(D.dtype))
            return d
    except Exception as e:
        return dict(error='%s: %s' % (type(e).__name__, e))


def gen_program(rng, tier, wall=True, kinds=None, names=None, acts=None, cfl=True, nmax=8, handler_kinds=('file', 'dict', 'rec'), maxsize=None, linear=False, tdep=None):
    dom, pb = probs.gen_ivp(rng, kinds=kinds, names=names, small=True)
    size, mesh = gen_mesh(rng, domain_dim(dom), maxsize or (6 if tier == 'quick' else 8))
    dt = rng.choice([0.01, 0.002])
    n = rng.randint(2, nmax)
    c = dict(dom=dom, prob=pb, mesh=mesh, ts=rng.choice(probs.SCHEMES), dts=[dt * rng.choice([1, 1, 1, 0.5, 1.7]) for _ in range(rng.randint(1, 4))], stop=dict(iter=n), cap=4 * nmax + 10)
    c['handlers'] = [gen_handler(rng, pb['name'], i, wall, handler_kinds, dt, size, linear) for i in range(rng.randint(0, 3))]
    c['acts'] = [gen_act(rng, pb['name'], n, size, acts) for _ in range(rng.randint(0, 5))]
    if dom['kind'] == 'sphere':
        for t in [t for h in c['handlers'] for t in h['tasks']] + c['acts']:
            if t['e'] == 'integ(s)': t['e'] = 's'
    if rng.random() < 0.3: c['flow'] = rng.choice([1, 2, 3])
    if cfl and rng.random() < 0.3 and pb['name'] in ('ns', 'rb', 'sw') and dom['dtype'] == 'f':
        c['cfl'] = dict(initial_dt=dt, cadence=rng.choice([1, 2, 3]), safety=rng.choice([0.5, 1.0]), max_dt=5 * dt, threshold=rng.choice([0, 0.1]), max_change=rng.choice([1.5, 4]), min_change=0.5)
    return c, size, dt


def shrink_program(self, case):
    import copy
    for k in ('handlers', 'acts'):
        yield from Prop.shrink_list(self, case, k)
    for i, h in enumerate(case['handlers']):
        if len(h['tasks']) > 1:
            for j in range(len(h['tasks'])):
                c = copy.deepcopy(case); del c['handlers'][i]['tasks'][j]; yield c
    for k in ('flow', 'cfl', 'final_handlers', 'merge', 'stats'):
        if case.get(k):
            c = copy.deepcopy(case); del c[k]; yield c
    if case['stop'].get('iter', 0) > 1:
        c = copy.deepcopy(case); c['stop']['iter'] -= 1; yield c
    if case['ts'] != 'SBDF1':
        c = copy.deepcopy(case); c['ts'] = 'SBDF1'; yield c
    yield from Prop.shrink_cfg(self, case)
    yield from Prop.shrink_mesh(self, case)
    yield from Prop.shrink_env(self, case)
