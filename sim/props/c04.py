"""C04: seeded random fields do not depend on the mesh, layout decomposition or chunk size."""
import copy
import numpy as np
from ..lib import *

DISTS = [('standard_normal', {}), ('standard_normal', {}), ('uniform', dict(low=-1, high=2)), ('normal', dict(loc=3, scale=0.1)), ('exponential', dict(scale=2.0)), ('weibull', dict(a=1.5)), ('integers', dict(low=-5, high=9)),
         ('poisson', dict(lam=3.0)), ('laplace', {}), ('uniform', {}), ('standard_cauchy', {}), ('binomial', dict(n=9, p=0.3)), ('beta', dict(a=0.7, b=2.0))]


def work(spec, ctx):
    w = make_world(spec['dom'], spec.get('mesh'))
    dist = w.dist
    out = []
    fs = [new_field(w, fd['part'], fd['rank'], 'f%d' % i) for i, fd in enumerate(spec['fields'])]
    for op in spec['ops']:
        f = fs[op['f'] % len(fs)]
        rec = {}
        if op['k'] == 'fill':
            L = op['layout']
            if isinstance(L, int):
                # a distributor layout: the last one with that many grid axes
                L = [l for l in dist.layouts if int(np.sum(l.grid_space)) == min(L, dist.dim)][-1 if op.get('late') else 0]
            name, kw = op['dist']
            if op['pre'] is not None:
                f.preset_scales(op['pre'])
                f.preset_layout('g')
                f.data[...] = 1e3
            if L is None:
                f.preset_layout('g' if op['gl'] else 'c')
            f.fill_random(layout=L, scales=op['scales'], seed=op['seed'], chunk_size=op['chunk'], distribution=name, **kw)
            rec['raw'] = gathered(f, f.layout)
            rec['scales'] = tuple(float(s) for s in f.scales)
        elif op['k'] == 'arr':
            from dedalus.tools.random_arrays import ChunkedRandomArray
            name, kw = op['dist']
            A = ChunkedRandomArray(tuple(op['shape']), seed=op['seed'], chunk_size=op['chunk'], distribution=name, **kw)
            n = op['shape'][0]
            cuts = sorted(min(c, n) for c in [0] + op['cuts'][:ctx.size - 1] + [n])
            sl = slice(cuts[ctx.rank], cuts[ctx.rank + 1])
            key = {0: (sl,), 1: (sl, slice(None, None, 2)), 2: sl}[op['key']] if len(op['shape']) > 1 else sl
            rec['arr'] = A[key]
        elif op['k'] == 'low':
            f.low_pass_filter(scales=op['s']) if op['mode'] == 's' else f.low_pass_filter(shape=tuple(max(1, int(x * op['s'])) for x in dist.grid_layout.global_shape(f.domain, 1)))
            rec['f'] = gathered(f, 'c')
        elif op['k'] == 'high':
            f.high_pass_filter(scales=op['s'])
            rec['f'] = gathered(f, 'c')
        out.append(rec)
    return out


class C04(Prop):
    id = 'C04'
    rule = 'random domain, mesh, fields and sequence of seeded fills (distributions, layouts, scales, chunk sizes) and spectral filters; bitwise comparison with one process and with numpy; non-trivial: >=2 ranks and at least one fill'
    quick_budget = 36

    def gen(self, rng, i, tier):
        dom = gen_domain(rng)
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
        parts = part_names(dom)
        fields = [dict(part=rng.choice(['full', 'full', 'full'] + parts), rank=rng.choice([0, 0, 1, 2])) for _ in range(rng.randint(1, 3))]
        ops = []
        for _ in range(rng.randint(2, 7)):
            k = rng.choice(['fill'] * 5 + ['arr', 'low', 'high'])
            o = dict(k=k, f=rng.randrange(3))
            if k in ('fill', 'arr'):
                o.update(seed=rng.randrange(10**6), dist=rng.choice(DISTS), chunk=rng.choice([1, 2, 3, 5, 7, 16, 17, 64, 100, 2**20, 2**20]))
            if k == 'fill':
                o.update(layout=rng.choice(['g', 'g', 'g', 'c', 'c', None, 1, 2]), late=rng.random() < 0.5, gl=rng.random() < 0.7, scales=rng.choice([None, None, 1, 1.5, 0.5, 2]), pre=rng.choice([None, None, 1, 1.5]))
            if k == 'arr':
                o.update(shape=[rng.randint(1, 9)] + [rng.randint(1, 5) for _ in range(rng.randint(0, 2))], cuts=sorted(rng.randint(0, 9) for _ in range(size)), key=rng.randrange(3))
            if k in ('low', 'high'):
                o.update(s=rng.choice([0.5, 0.75, 0.3]), mode=rng.choice('sg'))
            ops.append(o)
        return dict(dom=dom, mesh=mesh, fields=fields, ops=ops, env=gen_env(rng, size), chunk2=rng.choice([1, 4, 9, 2**20]), cfg=gen_cfg(rng, 0.2))

    def run(self, sim, case):
        from ..runner import Outcome
        spec = dict(mod='c04', fn='work', dom=case['dom'], fields=case['fields'], ops=case['ops'])
        o = Outcome(key=self.key(case['dom'], case['mesh'], case['fields'], case['ops']), probes={}, nontrivial=case['env']['size'] > 1 and any(x['k'] == 'fill' for x in case['ops']), sample=case)
        ops0 = copy.deepcopy(case['ops'])
        for x in ops0:
            if 'chunk' in x: x['chunk'] = case['chunk2']
        sc = sim.new_scratch(); write_cfg(sc, {})
        r0 = sim.run(dict(spec, ops=ops0), SERIAL, sc)
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        r1 = sim.run(dict(spec, mesh=case['mesh']), case['env'], sc)
        if r0.status != 'ok':
            if r0.status == 'exception' and r1.status == 'exception' and r0.detail.get('exc') == r1.detail.get('exc'):
                o['probes'] = {'unsupported': 1}; o['nontrivial'] = False; o['note'] = str(r0.detail.get('tb'))[-300:]
                return o
            o['violation'] = job_viol(r0, 'serial: '); return o
        o['violation'] = job_viol(r1) or self.oracle(case, r0.results, r1.results, o['probes'])
        return o

    def reference(self, op, gshape, cplx):
        name, kw = op['dist']
        sh = tuple(gshape) + ((2,) if cplx else ())
        a = getattr(np.random.default_rng(op['seed']), name)(size=int(np.prod(sh)), **kw).reshape(sh)
        return (a[..., 0] + 1j * a[..., 1]) if cplx else a

    def oracle(self, case, ser, par, probes):
        for k, op in enumerate(case['ops']):
            S = ser[0][k]; P = [p[k] for p in par]
            tag = 'op %d %s: ' % (k, op)
            if op['k'] == 'fill':
                g, err = assemble([p['raw'] for p in P]); s, err2 = assemble([S['raw']])
                if err or err2: return viol('tiling', tag + str(err or err2))
                if any(p['raw']['data'].size == 0 for p in P): probes['empty_rank'] = probes.get('empty_rank', 0) + 1
                if any(p['scales'] != S['scales'] for p in P): return viol('scales', tag + 'scales %s, serial %s' % ([p['scales'] for p in P], S['scales']))
                if P[0]['raw']['grid'] != S['raw']['grid']: return viol('layout', tag + 'field left in layout %s, serial %s' % (P[0]['raw']['grid'], S['raw']['grid']))
                if g.shape != s.shape or not np.array_equal(g, s): return viol('random', tag + 'global array differs from serial in %s of %d values' % (int(np.sum(g != s)) if g.shape == s.shape else 'shape', s.size))
                ref = self.reference(op, s.shape, s.dtype.kind == 'c')
                if not np.array_equal(ref, g): return viol('stream', tag + 'global array is not the seeded %s stream in C order (%d of %d values differ)' % (op['dist'][0], int(np.sum(ref != g)), g.size))
                probes['fills'] = probes.get('fills', 0) + 1
            elif op['k'] == 'arr':
                name, kw = op['dist']
                ref = self.reference(op, op['shape'], False)
                n = op['shape'][0]; size = case['env']['size']
                cuts = sorted(min(c, n) for c in [0] + op['cuts'][:size - 1] + [n])
                for r, p in enumerate(P):
                    e = ref[cuts[r]:cuts[r + 1]]
                    if op['key'] == 1 and len(op['shape']) > 1: e = e[:, ::2]
                    if p['arr'].shape != e.shape or not np.array_equal(p['arr'], e): return viol('array', tag + 'rank %d: slice %d:%d differs from the whole random array' % (r, cuts[r], cuts[r + 1]))
            elif 'f' in S:
                g, err = assemble([p['f'] for p in P]); s, err2 = assemble([S['f']])
                if err or err2: return viol('tiling', tag + str(err or err2))
                if not relerr(g, s) < 1e-10: return viol('filter', tag + 'filtered field differs from serial by %.2e' % relerr(g, s))
        return None


PROP = C04()
