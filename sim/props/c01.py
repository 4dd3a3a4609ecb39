"""C01: layout changes are pure redistributions of one global array."""
import copy
import numpy as np
from ..lib import *
from ..controller import HarnessError


def work(spec, ctx):
    import dedalus.public as d3
    from dedalus.core.evaluator import Evaluator
    w = make_world(spec['dom'], spec.get('mesh'))
    dist = w.dist
    add_alt(w, spec.get('alt'))
    fs = []
    for i, fd in enumerate(spec['fields']):
        f = new_field(w, fd['part'], fd['rank'], 'f%d' % i)
        fill(f, fd['seed'])
        fs.append(f)
    ev = Evaluator(dist, {})
    out = []

    def layout_for(ngrid, late):
        L = [l for l in dist.layouts if int(np.sum(l.grid_space)) == ngrid]
        return L[-1] if late else L[0]

    def setdata(f, layout, seed):
        lay = dist.get_layout_object(layout)
        gs = tuple(c.dim for c in f.tensorsig) + tuple(lay.global_shape(f.domain, f.scales))
        a = np.random.RandomState(seed).standard_normal(gs)
        if np.dtype(f.dtype).kind == 'c': a = a + 0.5j * a[::-1]
        f[layout] = a[tuple(slice(None) for _ in f.tensorsig) + tuple(lay.slices(f.domain, f.scales))]
        return a

    for k, op in enumerate(spec['ops']):
        kind = op[0]
        rec = dict(k=k, op=kind)
        f = fs[op[1] % len(fs)] if kind not in ('group', 'path') else None
        if kind == 'to':
            f.change_layout(layout_for(min(op[2], dist.dim), op[3]))
            rec['f'] = [gathered(f, f.layout)]
        elif kind == 'need':
            ax = op[2] % dist.dim
            if op[3] == 'g': f.require_grid_space(ax)
            elif op[3] == 'c': f.require_coeff_space(ax)
            elif op[3] == 'l':
                f.require_local(ax)
            rec['f'] = [gathered(f, f.layout)]
            rec['local'] = bool(f.layout.local[ax])
            rec['gridax'] = bool(f.layout.grid_space[ax])
        elif kind == 'scale':
            f.change_scales(op[2])
            rec['f'] = [gathered(f, f.layout)]
        elif kind == 'allgather':
            g = f.allgather_data('g' if op[2] else 'c')
            rec['f'] = [gathered(f, f.layout)]
            rec['api'] = g
            # the data handed out must not alias or change the field
            if g.size:
                g.ravel()[0] = 12345.0
            rec['f2'] = gathered(f, f.layout)
        elif kind == 'gather':
            root = op[3] % dist.comm.size
            g = f.gather_data(root=root, layout='g' if op[2] else 'c')
            rec['f'] = [gathered(f, f.layout)]
            rec['root'] = root
            rec['apiroot'] = g
        elif kind in ('gload', 'cload'):
            lay = dist.grid_layout if kind == 'gload' else dist.coeff_layout
            sc = op[3] if kind == 'gload' else 1
            gs = tuple(c.dim for c in f.tensorsig) + tuple(int(x) for x in lay.global_shape(f.domain, sc))
            a = np.random.RandomState(op[2]).standard_normal(gs)
            if np.dtype(f.dtype).kind == 'c': a = a + 1j * np.random.RandomState(op[2] + 1).standard_normal(gs)
            if kind == 'gload':
                f.load_from_global_grid_data(a)
                rec['f'] = [gathered(f, 'g')]
            else:
                f.load_from_global_coeff_data(a)
                rec['f'] = [gathered(f, 'c')]
                rec['expect'] = a
            f['c'], f['g']      # truncated alike however the following operations move it
        elif kind == 'group':
            g = [fs[i % len(fs)] for i in op[1]]
            g = [x for i, x in enumerate(g) if not any(x is y for y in g[:i])]
            (ev.require_grid_space if op[2] == 'g' else ev.require_coeff_space)(g)
            rec['f'] = [gathered(x, x.layout) for x in g]
        elif kind == 'path':
            # step a list of fields (constant ones included) through every transform/transpose together
            g = [fs[i % len(fs)] for i in op[1]]
            g = [x for i, x in enumerate(g) if not any(x is y for y in g[:i])]
            for x in g: x.change_layout('g')
            n = min(op[2], len(dist.paths))
            walk = []
            for p in dist.paths[::-1][:n]: p.decrement(g); walk.append([x.layout is p.layout0 for x in g])
            if op[3]:
                for p in dist.paths[len(dist.paths) - n:]: p.increment(g); walk.append([x.layout is p.layout1 for x in g])
            rec['inlay'] = all(all(x) for x in walk)
            for x in g: x.change_layout('c')
            rec['f'] = [gathered(x, x.layout) for x in g]
        elif kind == 'copy':
            c = f.copy()
            c.change_layout(layout_for(min(op[2], dist.dim), op[3]))
            rec['f'] = [gathered(c, c.layout), gathered(f, f.layout)]
        elif kind == 'perm':
            # unique ids written through the layout's own slices, then moved through every
            # neighbouring layout that only redistributes
            lay = layout_for(min(op[2], dist.dim), op[3])
            f.preset_layout(lay)
            sl = tuple(slice(None) for _ in f.tensorsig) + tuple(lay.slices(f.domain, f.scales))
            gs = tuple(c.dim for c in f.tensorsig) + tuple(int(x) for x in lay.global_shape(f.domain, f.scales))
            ids = (1.0 + np.arange(int(np.prod(gs)))).reshape(gs)
            f.data[...] = ids[sl]
            same = [l for l in dist.layouts if np.array_equal(l.grid_space, lay.grid_space)]
            walk = []
            order = same if lay is same[0] else same[::-1]
            for l in order + order[::-1]:
                f.change_layout(l)
                walk.append(gathered(f, l))
            rec['walk'] = walk
            rec['ids'] = ids if ctx.rank == 0 else None
            rec['nwalk'] = len(same)
            # restore resolved data
            fill(f, op[4])
            rec['f'] = [gathered(f, f.layout)]
        elif kind == 'assign':
            f.change_layout(layout_for(min(op[2], dist.dim), op[3]))
            a = -2 * f.allgather_data()
            f.set_global_data(a)
            rec['f'] = [gathered(f, f.layout)]
            rec['expect'] = a
            f.set_local_data(f.data.copy() / -2)
        elif kind == 'set':
            setdata(f, 'g' if op[2] else 'c', op[3])
            rec['f'] = [gathered(f, f.layout)]
            f['c'], f['g']
        out.append(rec)
    return out


def gen_alt(rng, dom):
    k, N = dom['kind'], list(dom['N'])
    dt = dom['dtype']
    if rng.random() < 0.35: dt = 'c' if dt == 'f' else 'f'      # real and complex fields side by side
    swap = dict(disk='annulus', annulus='disk', ball='shell', shell='ball', cyl='cylA', cylA='cyl')
    if k in swap: k = swap[k] if rng.random() < 0.8 else k
    elif k != 'sphere':
        f = 'R' if dt == 'f' else 'Z'
        if dt != dom['dtype']: k = ''.join((f if n % 2 == 0 and n > 1 else 'C') if a in 'RZ' else a for a, n in zip(k, N))
        k = ''.join(('C' if a in 'RZ' else f if n % 2 == 0 and n > 1 else 'U') if rng.random() < 0.7 else a for a, n in zip(k, N))
    if (k == dom['kind'] and dt == dom['dtype']) or rng.random() < 0.3:      # another resolution
        j = rng.randrange(len(N))
        N[j] += rng.choice([2, 4]) if k not in ('sphere', 'ball', 'shell', 'disk', 'annulus', 'cyl', 'cylA') or j == len(N) - 1 else 4
    if k in ('sphere', 'ball', 'shell'): N[1] = max(N[1], N[0] // 2)
    if k == 'ball': N[2] = max(N[2], N[1] // 2 + 1)      # resolutions the transforms support
    if k in ('disk', 'cyl'): N[-1] = max(N[-1], N[-2] // 4 + 1)
    return dict(kind=k, N=N, dtype=dt)


class C01(Prop):
    id = 'C01'
    rule = ('random domain (Fourier/Jacobi/polar/sphere/ball/shell/cylinder, mixed and constant axes, scalar to rank-2), mesh, transpose options and history of layout/scale/gather/load/group '
            'operations, run on a simulated mesh under a seeded schedule; non-trivial: >=2 ranks and at least one transpose executed')
    quick_budget = 38

    def gen(self, rng, i, tier):
        dom = gen_domain(rng)
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
        parts = part_names(dom)
        nf = rng.randint(1, 4)
        fields = [dict(part=rng.choice(['full', 'full', 'full'] + parts), rank=rng.choice([0, 0, 0, 1, 1, 2]), seed=rng.randrange(10**6)) for _ in range(nf)]
        if rng.random() < 0.5:      # several fields on one domain: grouped transposes
            fields = [dict(part=fields[0]['part'], rank=rng.choice([0, fields[0]['rank']]), seed=rng.randrange(10**6)) for _ in range(rng.randint(2, 4))]
        alt = None
        if rng.random() < 0.4:      # fields on another set of bases of the same coordinates
            alt = gen_alt(rng, dom)
            for fd in fields:
                if rng.random() < 0.5: fd['part'] = 'alt'
        ops = []
        dim = domain_dim(dom)
        for _ in range(rng.randint(3, 10)):
            k = rng.choice(['to', 'to', 'need', 'scale', 'allgather', 'gather', 'gload', 'cload', 'group', 'group', 'group', 'path', 'path', 'copy', 'perm', 'perm', 'set', 'assign'])
            fi = rng.randrange(nf)
            if k in ('to', 'copy', 'assign'): ops.append([k, fi, rng.randint(0, dim), rng.random() < 0.5])
            elif k == 'need': ops.append([k, fi, rng.randrange(dim), rng.choice('gcl')])
            elif k == 'scale': ops.append([k, fi, rng.choice([1, 1.5, 2, 0.5])])
            elif k == 'allgather': ops.append([k, fi, rng.random() < 0.5])
            elif k == 'gather': ops.append([k, fi, rng.random() < 0.5, rng.randrange(8)])
            elif k in ('gload', 'cload'): ops.append([k, fi, rng.randrange(10**6), rng.choice([1, 1.5, 2])])
            elif k == 'group': ops.append([k, [rng.randrange(4) for _ in range(rng.randint(2, 4))], rng.choice('gc')])
            elif k == 'path': ops.append([k, [rng.randrange(4) for _ in range(rng.randint(2, 4))], rng.randint(1, 6), rng.random() < 0.5])
            elif k == 'perm': ops.append([k, fi, rng.randint(0, dim), rng.random() < 0.5, rng.randrange(10**6)])
            elif k == 'set': ops.append([k, fi, rng.random() < 0.5, rng.randrange(10**6)])
        cfg = gen_cfg(rng)
        return dict(dom=dom, alt=alt, mesh=mesh, fields=fields, ops=ops, cfg=cfg, env=gen_env(rng, size))

    def run(self, sim, case):
        spec = dict(mod='c01', fn='work', dom=case['dom'], alt=case.get('alt'), fields=case['fields'], ops=case['ops'])
        sc = sim.new_scratch(); write_cfg(sc, {})
        r0 = sim.run(spec, SERIAL, sc)
        o = dict(key=self.key(case['dom'], case['mesh'], case['fields'], case['ops']), nontrivial=False, probes={}, sample=dict(dom=case['dom'], alt=case.get('alt'), mesh=case['mesh'], size=case['env']['size'], fields=case['fields'], ops=case['ops'], cfg=case['cfg'], env=case['env']))
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        r1 = sim.run(dict(spec, mesh=case['mesh']), case['env'], sc)
        from ..runner import Outcome
        o = Outcome(o)
        o['probes']['transposes'] = r1.stats.get('coll.alltoall', 0) + r1.stats.get('p2p', 0)
        o['nontrivial'] = o['probes']['transposes'] > 0
        if r0.status != 'ok':
            if r0.status == 'exception' and r1.status == 'exception' and r0.detail.get('exc') == r1.detail.get('exc'):
                o['probes'] = {'unsupported': 1}; o['nontrivial'] = False; o['note'] = str(r0.detail)[:300]
                return o
            v = job_viol(r0, 'serial: ')
            o['violation'] = v
            return o
        v = job_viol(r1)
        if v:
            o['violation'] = v; return o
        o['violation'] = self.oracle(case, r0.results, r1.results, o['probes'])
        return o

    def oracle(self, case, ser, par, probes):
        for k, op in enumerate(case['ops']):
            S = ser[0][k]; P = [p[k] for p in par]
            tag = 'op %d %s: ' % (k, op)
            for j in range(len(P[0]['f'])):
                g, err = assemble([p['f'][j] for p in P])
                if err: return viol('tiling', tag + err)
                if any(p['f'][j]['data'].size == 0 for p in P): probes['empty_rank'] = 1
                s, err = assemble([S['f'][j]])
                if err: return viol('tiling', tag + 'serial: ' + err)
                if P[0]['f'][j]['grid'] == S['f'][j]['grid']:
                    e = relerr(g, s)
                    if not e < 1e-10: return viol('value', tag + 'global array differs from serial by %.2e (layout grid=%s)' % (e, P[0]['f'][j]['grid']))
                elif j == 0 and case['ops'][k][0] in ('to', 'copy', 'group', 'path', 'allgather', 'gather', 'gload', 'cload', 'set'):
                    return viol('layout', tag + 'grid flags differ from serial: %s vs %s' % (P[0]['f'][j]['grid'], S['f'][j]['grid']))
                if 'api' in S:
                    for r, p in enumerate(P):
                        if p['api'].ravel().size and p['api'].shape == g.shape:
                            a = p['api'].copy(); a.ravel()[0] = g.ravel()[0]
                            if not np.array_equal(a, g): return viol('allgather', tag + 'all-gathered array on rank %d differs from the distributed blocks' % r)
                        elif p['api'].shape != g.shape:
                            return viol('allgather', tag + 'all-gathered shape %s, expected %s' % (p['api'].shape, g.shape))
                    g2, err = assemble([p['f2'] for p in P])
                    if err or not np.array_equal(g2, g): return viol('allgather', tag + 'modifying gathered data changed the field')
                if 'apiroot' in S:
                    for r, p in enumerate(P):
                        if r == p['root']:
                            if p['apiroot'] is None or not np.array_equal(p['apiroot'], g): return viol('gather', tag + 'gathered array on root %d differs from the distributed blocks' % r)
                if 'expect' in S:
                    if not np.array_equal(g, P[0]['expect']): return viol('load', tag + 'assigned global data not reproduced')
            if op[0] == 'path' and not all(p['inlay'] for p in P + [S]): return viol('layout', tag + 'fields stepped together were left in another layout')
            if op[0] == 'need':
                for p in P:
                    if (op[3] == 'g' and not p['gridax']) or (op[3] == 'c' and p['gridax']) or (op[3] == 'l' and not p['local']):
                        return viol('layout', tag + 'requirement not met')
            if op[0] == 'perm':
                probes['pure_transposes'] = probes.get('pure_transposes', 0) + P[0]['nwalk'] - 1
                ids = P[0]['ids']
                for j in range(len(P[0]['walk'])):
                    g, err = assemble([p['walk'][j] for p in P])
                    if err: return viol('tiling', tag + 'walk %d: ' % j + err)
                    if not np.array_equal(g, ids): return viol('permutation', tag + 'redistribution step %d altered %d of %d values' % (j, int(np.sum(g != ids)), ids.size))
        return None


PROP = C01()
