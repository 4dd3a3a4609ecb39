"""C09: output files hold the right data and metadata in every parallel mode."""
import copy, os, traceback
import numpy as np
from ..lib import *
from . import c01, c02


def work(spec, ctx):
    import dedalus.public as d3
    from dedalus.core.evaluator import DictionaryHandler
    w = make_world(spec['dom'], spec.get('mesh'))
    dist = w.dist
    add_alt(w, spec.get('alt'))
    fs = []
    for i, fd in enumerate(spec['leaves']):
        f = new_field(w, fd['part'], fd['rank'], 'f%d' % i); fill(f, fd['seed']); fs.append(f)
    if c02.is_cart(spec['dom']): w.eunit = w.cs.unit_vector_fields(dist)
    if spec.get('probe'):
        bad = []
        for j, t in enumerate(spec['tasks']):
            try:
                x = c02.build(t['e'], fs, w); assert hasattr(x, 'evaluate') or t['e'][0] == 'f'
                y = x.evaluate() if hasattr(x, 'evaluate') else x; y['g'], y['c']
                for b in y.domain.bases: b.global_grids(dist, (1,) * b.dim)      # bases without grids cannot be written at all
            except Exception as exc:
                bad.append((j, '%s: %s' % (type(exc).__name__, str(exc)[:80])))
        return bad
    q = dist.Field(name='q')
    pr = d3.IVP([q], namespace={'q': q, **{f.name: f for f in fs}})
    pr.add_equation('dt(q) + q = 0')
    solver = pr.build_solver('RK111')
    q['g'] = 1
    if spec.get('t0'): solver.sim_time = spec['t0']
    out = dict(writes=[], rec=[], grids={}, metas=[])

    class Rec(DictionaryHandler):
        def process(self, **kw):
            super().process(**kw)
            out['rec'].append({k: float(v) for k, v in kw.items()})

    def layout(t):
        return t['layout'] if isinstance(t['layout'], str) else dist.layouts[t['layout'] % len(dist.layouts)]
    sched = {k: spec[k] for k in ('iter', 'sim_dt') if spec.get(k)}
    H = []
    for mode in spec['modes']:
        h = solver.evaluator.add_file_handler('out_%s' % mode, parallel=mode if mode != 'default' else None, max_writes=spec['max_writes'], **sched)
        for t in spec['tasks']:
            kw = dict(layout=layout(t))
            if t['scales'] is not None: kw['scales'] = tuple(t['scales']) if isinstance(t['scales'], list) else t['scales']
            e = c02.build(t['e'], fs, w)
            h.add_task(e, name=t['name'], **kw)
        H.append(h)
    r = Rec(dist, {}, **sched); solver.evaluator.add_handler(r); r.add_task(fs[0], name='x')
    exprs = [c02.build(t['e'], fs, w) for t in spec['tasks']]

    def expected(save=True):
        rec = []
        for t, x in zip(spec['tasks'], exprs):
            y = x.evaluate() if hasattr(x, 'evaluate') else x
            y = y.copy()
            y.change_layout('c')
            y.change_scales(1 if t['scales'] is None else tuple(t['scales']) if isinstance(t['scales'], list) else t['scales'])
            rec.append(gathered(y, layout(t)))
            if not any(y.layout.grid_space):
                m = y.copy(); m.preset_layout(dist.coeff_layout); m.data[...] = 1
                rec[-1]['mask'] = gathered(m, layout(t), mask=True)
            key = t['name']
            if key not in out['grids'] and save:
                g = []
                for ax in range(dist.dim):
                    b = y.domain.full_bases[ax]
                    if b is None: g.append(None); continue
                    sub = ax - dist.get_basis_axis(b)
                    if y.layout.grid_space[ax]:
                        bs = y.scales[ax - sub:ax - sub + b.dim]
                        N = int(y.layout.global_shape(y.domain, y.scales)[ax])
                        if y.layout is dist.grid_layout: a = b.local_grids(dist, bs)[sub]; sl = sl_json(y.layout.slices(y.domain, y.scales)[ax])
                        else: a = b.global_grids(dist, bs)[sub]; sl = ('s', 0, N, None)
                        g.append(('g', b.coordsys.coords[sub].name, np.ravel(a), sl, N))
                    else:
                        a = y.layout.local_group_arrays(y.domain, y.scales)[ax]
                        g.append(('c', b.coordsys.coords[sub].name, np.ma.filled(np.ma.array(a, dtype=float), np.nan), [sl_json(s) for s in y.layout.slices(y.domain, y.scales)], tuple(int(v) for v in y.layout.global_shape(y.domain, y.scales))))
                out['grids'][key] = g
                out['metas'].append(dict(name=key, const=[bool(v) for v in y.domain.constant], grid=[bool(v) for v in y.layout.grid_space], scales=[float(v) for v in y.scales]))
        out['writes'].append(rec)
    for k in range(spec['n']):
        for f, fd in zip(fs, spec['leaves']):
            if fd.get('vary'): fill(f, fd['seed'] + k)
            if fd.get('lay') is not None: f.change_scales(fd['scale']); f.change_layout(dist.layouts[fd['lay'] % len(dist.layouts)])
        n = len(out['rec'])
        expected()
        solver.step(spec['dts'][k % len(spec['dts'])])
        if len(out['rec']) == n: out['writes'].pop()
        if k in spec['forced']:
            expected(); solver.evaluate_handlers(dt=0.125)
    return out


def read(spec, ctx):
    from ..prog import read_files
    out = {p: d for p, d in read_files({}, ctx).items() if p.count('/') == 1}
    if spec.get('xarray'):
        from dedalus.tools import post
        for p in out:
            if 'error' in out[p]: continue
            names = [k for k in out[p]['tasks'] if all(out[p]['tasks'][k]['attrs'].get('grid_space', []))]
            try:
                x = post.load_tasks_to_xarray(p, tasks=names, squeeze_constant=False)
                out[p]['xr'] = {k: (np.array(v.values), list(v.dims), {d: np.array(v.coords[d].values) for d in v.coords if v.coords[d].ndim == 1}) for k, v in x.items()}
            except Exception as e:
                out[p]['xr'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-800:])
    return out


class C09(Prop):
    id = 'C09'
    rule = ('random tasks (fields of any tensor rank and domain part, linear expressions, slices, integrals; grid, coefficient and intermediate layouts; scales) written by gathered, virtual and default handlers on 1-6 ranks under seeded schedules, data changing between writes; '
            'every file read back in a separate process and compared with values assembled outside dedalus, and with a one-process run; non-trivial: more than one rank and at least one write')
    quick_budget = 33
    tol = 1e-9

    def gen(self, rng, i, tier):
        dom = gen_domain(rng)
        if dom['kind'] in ('annulus', 'shell', 'cylA'): dom['dealias'] = max(dom['dealias'], 1.5)
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
        parts = part_names(dom)
        leaves = [dict(part='full', rank=0, seed=rng.randrange(10**6))] + [dict(part=rng.choice(['full', 'full'] + parts), rank=rng.choice([0, 0, 1, 1, 2]), seed=rng.randrange(10**6)) for _ in range(rng.randint(0, 2))]
        for f in leaves:
            f['vary'] = rng.random() < 0.7
            if rng.random() < 0.3: f['lay'] = rng.randrange(8); f['scale'] = rng.choice([1, 1.5, 2])
        ranks = [f['rank'] for f in leaves]
        tasks = []
        for j in range(rng.randint(1, 4)):
            for _ in range(20):
                e = ['f', rng.randrange(len(leaves))] if rng.random() < 0.4 else c02.gen_unmixed(rng, dom, ranks, rng.choice([0, 0, 1, 2]), rng.choice([1, 1, 2]))
                if not c02.nonlinear(e) and not c02.locked(e): break
            else: e = ['f', 0]
            s = rng.choice([None, 1, 1, 1.5, 2])
            if s and rng.random() < 0.2 and c02.is_cart(dom): s = [rng.choice([1, 1.5, 2]) for _ in range(domain_dim(dom))]
            tasks.append(dict(e=e, layout=rng.choice(['g', 'g', 'c', 'c', rng.randrange(8)]), scales=s, name=rng.choice(['t%d', 'a task %d', 'T_%d']) % j))
        alt = None
        if rng.random() < 0.3:      # a field on other bases of the same coordinates, real next to complex
            alt = c01.gen_alt(rng, dom)
            if alt['kind'] in ('annulus', 'shell', 'cylA') and dom['dealias'] < 1.5: alt = None
        if alt:
            leaves.append(dict(part='alt', rank=rng.choice([0, 0, 1]), seed=rng.randrange(10**6), vary=True))
            tasks.insert(rng.randrange(len(tasks) + 1), dict(e=['f', len(leaves) - 1], layout=rng.choice(['g', 'g', 'c', rng.randrange(8)]), scales=rng.choice([None, 1, 1.5]), name='alt'))
        c = dict(dom=dom, alt=alt, mesh=mesh, leaves=leaves, tasks=tasks, n=rng.randint(1, 5), max_writes=rng.choice([None, 1, 2, 3, 10]), dts=[rng.choice([0.01, 0.1, 0.25]) for _ in range(2)],
                 modes=rng.choice([['gather', 'virtual'], ['virtual', 'gather'], ['virtual'], ['gather'], ['default', 'gather', 'virtual']]), forced=[k for k in range(5) if rng.random() < 0.15])
        if rng.random() < 0.7: c['iter'] = rng.choice([1, 1, 2, 3])
        else: c['sim_dt'] = 0.1
        if rng.random() < 0.3: c['t0'] = 1.7
        c['cfg'] = gen_cfg(rng)
        if rng.random() < 0.3: c['cfg']['analysis/FILEHANDLER_TOUCH_TMPFILE'] = 'True'
        if rng.random() < 0.3: c['cfg']['analysis/FILEHANDLER_PARALLEL_DEFAULT'] = rng.choice(['gather', 'virtual'])
        c['env'] = gen_env(rng, size, 'wild')
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        spec = {k: case[k] for k in case if k not in ('env', 'index', 'cfg', 'mesh')}
        spec.update(mod='c09', fn='work')
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('index', 'env')}), probes={}, sample=case)
        sc = sim.new_scratch(); write_cfg(sc, {})
        r = sim.run(dict(spec, probe=True), SERIAL, sc)
        if r.status != 'ok': o['violation'] = job_viol(r, 'serial: '); return o
        bad = {j for j, _ in r.results[0]}
        if bad:
            o['note'] = r.results[0][0][1]; o['probes']['unsupported_expr'] = len(bad)
            case = dict(case, tasks=[t for j, t in enumerate(case['tasks']) if j not in bad]); spec['tasks'] = case['tasks']
            if not case['tasks']: return o
        size = case['env']['size']
        F = {}; W = {}
        for nm in (['ser'] if size == 1 else ['ser', 'par']):
            sc = sim.new_scratch(nm); write_cfg(sc, case['cfg'] if nm == 'par' or size == 1 else {})
            par = nm == 'par' or size == 1
            r = sim.run(dict(spec, mesh=case['mesh'] if par else None), case['env'] if par else SERIAL, sc)
            o['violation'] = job_viol(r, '' if par else 'serial: ')
            if o.violation: return o
            q = sim.run(dict(mod='c09', fn='read', xarray=True), SERIAL, sc)
            o['violation'] = job_viol(q, 'reading %s: ' % nm)
            if o.violation: return o
            W[nm], F[nm] = r.results, q.results[0]
            o['violation'] = self.oracle(case, r.results, q.results[0], o['probes'])
            if o.violation: return o
        if size > 1: o['violation'] = self.compare(case, W, F)
        o['nontrivial'] = size > 1 and bool(W['par'][0]['rec'])
        return o

    def oracle(self, case, res, files, P):
        R = res[0]
        n = len(R['rec'])
        for q in res[1:]:
            if q['rec'] != R['rec']: return viol('ranks', 'ranks disagree on the writes')
        if len(R['writes']) != n: raise RuntimeError('bookkeeping')
        # expected values, assembled outside dedalus
        exp = []
        for k in range(n):
            row = []
            for j, t in enumerate(case['tasks']):
                a, err = assemble([q['writes'][k][j] for q in res])
                if err: return viol('tiling', err)
                m = None
                if 'mask' in R['writes'][k][j]:
                    m, err = assemble([q['writes'][k][j]['mask'] for q in res]); m = m != 0
                row.append((a, m))
            exp.append(row)
        grids = {}
        for t in case['tasks']:
            g = []
            for ax, x in enumerate(R['grids'].get(t['name'], [])):
                if x is None: g.append(('constant', None)); continue
                per = [q['grids'][t['name']][ax] for q in res]
                if x[0] == 'g':
                    a = np.full(x[4], np.nan)
                    for p in per:
                        if len(sl_back(p[3], x[4])) != len(p[2]): raise RuntimeError(str((case['dom'], t, ax, p, R['metas'])))
                        a[sl_back(p[3], x[4])] = p[2]
                else:
                    a = np.full(x[4], np.nan)
                    for p in per:
                        ix = [sl_back(s, N) for s, N in zip(p[3], x[4])]
                        v = p[2]
                        shape = tuple(len(i) for i in ix)
                        try: v = np.broadcast_to(v, shape)
                        except ValueError: return viol('groups', 'local group arrays of shape %s for local data %s' % (v.shape, shape))
                        a[np.ix_(*ix)] = v
                g.append((x[1] if x[0] == 'g' else 'k' + x[1], a))
            grids[t['name']] = g
        mw = case['max_writes'] or 10**9
        for mode in case['modes']:
            pre = 'out_%s/out_%s_s' % (mode, mode)
            mine = {p: d for p, d in files.items() if p.startswith('out_%s/' % mode)}
            nsets = -(-n // mw)
            if set(mine) != {pre + '%d.h5' % (s + 1) for s in range(nsets)}: return viol('sets', '%s: %d writes with max_writes=%s gave files %s' % (mode, n, case['max_writes'], sorted(mine)))
            for s in range(nsets):
                p = pre + '%d.h5' % (s + 1); d = mine[p]
                if 'error' in d: return viol('unreadable', '%s: %s' % (p, d['error']))
                ks = list(range(s * mw, min(n, (s + 1) * mw)))
                if d['attrs'].get('writes') != len(ks) or d['attrs'].get('set_number') != s + 1 or d['attrs'].get('handler_name') != 'out_%s' % mode: return viol('attrs', '%s: attributes %s, %d writes expected' % (p, d['attrs'], len(ks)))
                want = {a: [R['rec'][k][a] for k in ks] for a in ('sim_time', 'iteration', 'timestep', 'wall_time')}
                want['write_number'] = [k + 1 for k in ks]
                for a, v in want.items():
                    if d['scales'].get(a) is None or d['scales'][a].tolist() != v: return viol('scales', '%s: %s is %s, expected %s' % (p, a, d['scales'].get(a), v))
                if set(d['tasks']) != {t['name'] for t in case['tasks']}: return viol('tasks', '%s: tasks %s' % (p, sorted(d['tasks'])))
                for j, t in enumerate(case['tasks']):
                    T = d['tasks'][t['name']]
                    what = '%s task %s (%s, layout %s, scales %s)' % (p, t['name'], t['e'], t['layout'], t['scales'])
                    X = T['data']
                    full = (len(ks),) + exp[0][j][0].shape
                    if X.shape != full: return viol('shape', '%s: stored shape %s, expected %s' % (what, X.shape, full))
                    for i, k in enumerate(ks):
                        a, m = exp[k][j]
                        x = X[i]
                        if m is not None:
                            m = np.broadcast_to(m, a.shape); a = np.where(m, a, 0); x = np.where(m, x, 0)
                        e = relerr(x, a, 1e-13 * c02.amp(t['e'], case['dom']) / 1e-11)
                        if not e <= 1e-11: return viol('data', '%s: write %d differs from the values of the task by %.2e' % (what, k, e))
                        P['compared'] = P.get('compared', 0) + 1
                    # metadata
                    meta = [q for q in R['metas'] if q['name'] == t['name']][0]
                    at = T['attrs']
                    if [bool(v) for v in np.ravel(at.get('constant', []))] != meta['const'] or [bool(v) for v in np.ravel(at.get('grid_space', []))] != meta['grid']: return viol('attrs', '%s: attributes %s, expected %s' % (what, at, meta))
                    if np.dtype(T['dtype']) != exp[0][j][0].dtype: return viol('dtype', '%s: stored as %s' % (what, T['dtype']))
                    dims = T['dims']
                    if dims[0][0] != 't' or {x[0] for x in dims[0][1]} != {'sim_time', 'wall_time', 'timestep', 'iteration', 'write_number'}: return viol('dims', '%s: time dimension %s' % (what, dims[0]))
                    nt = len(dims) - 1 - len(grids[t['name']])
                    for ax, (lab, val) in enumerate(grids[t['name']]):
                        L, sc = dims[1 + nt + ax]
                        if L != lab or len(sc) != 1: return viol('dims', '%s: axis %d labelled %r with scales %s, expected %r' % (what, ax, L, sc, lab))
                        st = np.asarray(d['scales'][sc[0][0]])
                        if val is None: continue
                        if lab[0] != 'k' or val.ndim == 1:
                            bad = st.shape != val.shape or not np.allclose(st, val, rtol=1e-12, atol=1e-12)
                        else:
                            # wavenumbers: given for every coefficient that represents a mode
                            try: st = np.broadcast_to(st, val.shape)
                            except ValueError: return viol('scales', '%s: wavenumbers of axis %d have shape %s, coefficients %s' % (what, ax, st.shape, val.shape))
                            ok = ~np.isnan(val)
                            bad = not np.array_equal(np.asarray(st, dtype=float)[ok], val[ok])
                        if bad: return viol('scales', '%s: scale %s of axis %d is %s, expected %s' % (what, lab, ax, np.ravel(st)[:6], np.ravel(val)[:6]))
                        P['axes'] = P.get('axes', 0) + 1
                if 'xr' in d:
                    if isinstance(d['xr'], str): return viol('xarray', '%s: %s' % (p, d['xr']))
                    for nm, (v, dims, co) in d['xr'].items():
                        if not np.array_equal(v, d['tasks'][nm]['data'], equal_nan=True): return viol('xarray', '%s: task %s loads with different values' % (p, nm))
                        if not np.array_equal(co.get('t', co.get('sim_time')), d['scales']['sim_time']): return viol('xarray', '%s: task %s loads with times %s' % (p, nm, co.get('t')))
        return None

    def compare(self, case, W, F):
        for p in sorted(F['ser']):
            if p not in F['par']: return viol('mesh', '%s exists on one process but not on the mesh' % p)
            A, B = F['ser'][p], F['par'][p]
            for t in case['tasks']:
                if not isinstance(t['layout'], str): continue
                a, b = A['tasks'][t['name']]['data'], B['tasks'][t['name']]['data']
                if a.shape != b.shape: return viol('mesh', '%s %s: shape %s on one process, %s on the mesh' % (p, t['name'], a.shape, b.shape))
                if t['layout'] == 'c':
                    j = case['tasks'].index(t)
                    m, _ = assemble([q['writes'][0][j]['mask'] for q in W['ser']]); m = np.broadcast_to(m != 0, a.shape)
                    a, b = np.where(m, a, 0), np.where(m, b, 0)
                e = relerr(b, a, 1e-13 * c02.amp(t['e'], case['dom']) / self.tol)
                if not e < self.tol: return viol('mesh', '%s %s (%s): mesh output differs from one process by %.2e' % (p, t['name'], t['e'], e))
                if A['tasks'][t['name']]['dims'] != B['tasks'][t['name']]['dims']: return viol('mesh', '%s %s: dimension scales differ: %s vs %s' % (p, t['name'], A['tasks'][t['name']]['dims'], B['tasks'][t['name']]['dims']))
            for a in ('sim_time', 'iteration', 'timestep', 'write_number'):
                if A['scales'][a].tolist() != B['scales'][a].tolist(): return viol('mesh', '%s: %s differs between meshes' % (p, a))
        return None

    def shrink(self, case):
        yield from self.shrink_list(case, 'tasks')
        if len(case['modes']) > 1:
            for m in case['modes']:
                c = copy.deepcopy(case); c['modes'] = [m]; yield c
        if case['n'] > 1:
            c = copy.deepcopy(case); c['n'] -= 1; yield c
        for j, t in enumerate(case['tasks']):
            for s in t['e'][1:]:
                if isinstance(s, list) and s and isinstance(s[0], str):
                    c = copy.deepcopy(case); c['tasks'][j]['e'] = s; yield c
        for j, f in enumerate(case['leaves']):
            if 'lay' in f:
                c = copy.deepcopy(case); del c['leaves'][j]['lay']; yield c
        if case['forced']:
            c = copy.deepcopy(case); c['forced'] = []; yield c
        yield from self.shrink_cfg(case)
        yield from self.shrink_mesh(case)
        yield from self.shrink_env(case)


PROP = C09()
