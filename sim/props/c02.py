"""C02: distributed expression evaluation equals serial evaluation."""
import copy, traceback
import numpy as np
from ..lib import *

CART = set('RZCUJL')


def is_cart(d):
    return all(c in CART for c in d['kind'])


# ---------------------------------------------------------------- generation
def gen_expr(rng, dom, leaves, rank, depth):
    """random expression of the given tensor rank; leaves: list of ranks"""
    dim = domain_dim(dom)
    cart = is_cart(dom)
    kind = dom['kind']
    coords = ['x', 'y', 'z'][:dim] if cart else []

    def leaf(r):
        c = [i for i, x in enumerate(leaves) if x == r]
        return ['f', rng.choice(c)] if c else None
    if depth <= 0:
        l = leaf(rank)
        if l: return l
        if rank > 0: return ['grad', gen_expr(rng, dom, leaves, rank - 1, 0)]
        return ['f', 0]
    sub = lambda r, d=depth - 1: gen_expr(rng, dom, leaves, r, d)
    ops = ['add', 'add', 'num', 'mul', 'leaf', 'sub', 'neg', 'addc', 'gf']
    if dom['dtype'] == 'c': ops += ['conj']
    if 'J' not in kind: ops += ['lift']
    if not cart: ops += ['cazave', 'cazave', 'csinteg', 'phinterp']
    if kind in ('sphere', 'ball', 'shell'): ops += ['sphave', 'thinterp', 'ellp']
    if kind == 'sphere': ops += ['mulcos']
    if rank == 0:
        ops += ['lap', 'div', 'dot', 'fn', 'pow', 'integ', 'ave', 'interp', 'trace']
        if cart: ops += ['diff', 'diff', 'comp', 'axinteg', 'axave', 'axinterp']
        if kind in ('ball', 'shell', 'disk', 'annulus'): ops += ['radial', 'angdot']
        if kind in ('disk', 'annulus'): ops += ['azim']
        if any(k in 'RZ' for k in kind) and cart: ops += ['hilb']
        ops += ['cfl']
        if kind in ('disk', 'annulus', 'cyl', 'cylA'): ops += ['edge']
        if kind in ('ball', 'shell'): ops += ['edge', 'edge']
    if rank == 1:
        ops += ['grad', 'grad', 'lap', 'dotT', 'div', 'comp1']
        if dim == 3 and kind not in ('cyl', 'cylA'): ops += ['curl', 'cross']
        if dim == 2: ops += ['skew']
        if cart: ops += ['diff', 'axinterp']
        if kind in ('ball', 'shell', 'disk', 'annulus', 'cyl', 'cylA'): ops += ['edge']
        if kind in ('ball', 'shell', 'disk', 'annulus'): ops += ['radialT']
    if rank == 2:
        ops += ['grad', 'outer', 'trans', 'trans']
        if kind in ('ball', 'shell', 'disk', 'annulus'): ops += ['edge']
    o = rng.choice(ops)
    if o == 'leaf':
        return leaf(rank) or sub(rank)
    if o == 'add':
        return ['add', sub(rank), sub(rank)]
    if o == 'sub': return ['sub', sub(rank), sub(rank)]
    if o in ('neg', 'conj', 'cazave', 'csinteg', 'sphave', 'mulcos'): return [o, sub(rank)]
    if o == 'addc': return ['addc', round(rng.uniform(-2, 2), 3), sub(rank)]
    if o in ('phinterp', 'thinterp'): return [o, round(rng.uniform(0.1, 3.0), 3), sub(rank)]
    if o == 'ellp': return ['ellp', rng.randint(1, 3), sub(rank)]
    if o == 'gf': return ['gf', rng.randint(0, 2), sub(rank)]
    if o == 'cfl': return ['cfl', sub(1)]
    if o == 'angdot': return ['angdot', sub(1), sub(1)]
    if o == 'azim': return ['azim', sub(1)]
    if o == 'radialT': return ['radialT', rng.choice([0, 1]), sub(2)]
    if o == 'lift': return ['lift', rng.randrange(dim), rng.choice([-1, -1, -2]), rng.choice([0, 1]), sub(rank)]
    if o == 'num': return ['num', round(rng.uniform(-2, 2), 3), sub(rank)]
    if o == 'mul': return ['mul', sub(0), sub(rank)] if rng.random() < 0.5 else ['mul', sub(rank), sub(0)]
    if o == 'lap': return ['lap', sub(rank)]
    if o == 'div': return ['div', sub(rank + 1)] if rank + 1 <= 2 else sub(rank)
    if o == 'dot': return ['dot', sub(1), sub(1)]
    if o == 'dotT': return ['dot', sub(1), sub(2)] if rng.random() < 0.5 else ['dot', sub(2), sub(1)]
    if o == 'fn': return ['fn', rng.choice(['sin', 'cos', 'exp', 'tanh', 'absolute']), ['num', 0.2, leaf(0) or ['f', 0]]]
    if o == 'pow': return ['pow', sub(0, 0), rng.choice([2, 3])]
    if o in ('integ', 'ave'): return [o, sub(0)]
    if o == 'interp':
        return ['axinterp', rng.choice(coords), rng.random(), sub(rank)] if cart else sub(rank)
    if o == 'trace': return ['trace', sub(2)]
    if o == 'diff': return ['diff', rng.choice(coords), sub(rank)]
    if o == 'comp': return ['comp', rng.randrange(dim), sub(1)]
    if o == 'comp1': return ['comp', rng.randrange(dim), sub(2)] if cart else sub(1)
    if o in ('axinteg', 'axave'): return [o, rng.choice(coords), sub(rank)]
    if o == 'axinterp': return ['axinterp', rng.choice(coords), rng.choice(['left', 'right', 'center', round(rng.random(), 3)]), sub(rank)]
    if o == 'hilb': return ['hilb', coords[rng.choice([i for i, k in enumerate(kind) if k in 'RZ'])], sub(0)]
    if o == 'radial': return ['radial', sub(1)]
    if o == 'edge': return ['edge', rng.choice([0, 1, 1]), sub(rank)]
    if o == 'grad': return ['grad', sub(rank - 1)]
    if o == 'curl': return ['curl', sub(1)]
    if o == 'cross': return ['cross', sub(1), sub(1)]
    if o == 'skew': return ['skew', sub(1)]
    if o == 'outer': return ['mul', sub(1), sub(1)]
    if o == 'trans': return ['trans', sub(2)]
    raise ValueError(o)


def mixes(e, kind):
    """Does an expression combine a field averaged or interpolated along part of a curvilinear basis with another one?  (Not supported by
    dedalus in coefficient space, in serial either; products with azimuthal averages happen on the grid, where azimuth is local.)"""
    if not isinstance(e, list) or e[0] == 'f': return False
    sub = [x for x in e[1:] if isinstance(x, list)]
    if any(mixes(x, kind) for x in sub): return True
    if e[0] == 'edge' and kind in ('disk', 'annulus', 'cyl', 'cylA') and reduced(e, ('cazave',)): return True   # coefficients of a constant with the two parts of m = 0
    if len(sub) < 2: return e[0] in ('addc', 'lift') and reduced(e, ('cazave', 'phinterp', 'sphave', 'thinterp'))
    if e[0] == 'mul' and not kind.startswith('cyl'): return reduced(e, ('sphave', 'thinterp'))
    return reduced(e, ('cazave', 'phinterp', 'sphave', 'thinterp'))


def reduced(e, kinds):
    return isinstance(e, list) and (e[0] in kinds or any(reduced(x, kinds) for x in e[1:]))


def gen_unmixed(rng, dom, leaves, rank, depth):
    for _ in range(20):
        e = gen_expr(rng, dom, leaves, rank, depth)
        if not mixes(e, dom['kind']): return e
    return ['f', 0]


def locked(e):
    """Operators whose results cannot leave grid space."""
    return reduced(e, ('cfl', 'phinterp', 'thinterp'))


def nonlinear(e):
    return isinstance(e, list) and (e[0] in ('mul', 'dot', 'cross', 'pow', 'fn', 'comp', 'gf', 'cfl', 'angdot') or any(nonlinear(x) for x in e[1:]))


def amp(e, dom):
    """Magnitude of the intermediate values of an expression: sets the roundoff of results that cancel (curl of a gradient, ...)."""
    D = 10.0
    for i, n in enumerate(dom['N']):
        k = dom['kind'][i] if is_cart(dom) else 'C'
        D = max(D, 7.0 * n if k in 'RZ' else 2.0 * n * n)
    A = lambda x: amp(x, dom)
    o = e[0]
    if o == 'f': return 5.0
    if o in ('add', 'sub'): return A(e[1]) + A(e[2])
    if o == 'addc': return A(e[2]) + abs(e[1])
    if o in ('cfl', 'mulcos'): return D * A(e[1])
    if o == 'ellp': return D * D * A(e[2])
    if o == 'gf': return max(A(e[2]), A(e[2]) ** 2) if e[1] == 0 else 3 * A(e[2])
    if o in ('mul', 'dot', 'cross', 'angdot'): return A(e[1]) * A(e[2])
    if o == 'num': return max(1.0, abs(e[1])) * A(e[2])
    if o == 'lap': return D * D * A(e[1])
    if o in ('div', 'grad', 'curl'): return D * A(e[1])
    if o == 'diff': return D * A(e[2])
    if o == 'pow': return A(e[1]) ** e[2]
    if o == 'fn': return 10.0
    return 3 * max([A(x) for x in e[1:] if isinstance(x, list)] or [1.0])


# ---------------------------------------------------------------- building
def build(e, fs, w):
    import dedalus.public as d3
    import dedalus.core.operators as ops
    o = e[0]
    B = lambda x: build(x, fs, w)
    if o == 'f': return fs[e[1]]
    if o == 'add': return B(e[1]) + B(e[2])
    if o == 'sub': return B(e[1]) - B(e[2])
    if o == 'neg': return -B(e[1])
    if o == 'conj': return np.conj(B(e[1]))
    if o == 'addc': return B(e[2]) + e[1]
    if o == 'cazave': return d3.Average(B(e[1]), (w.cp if w.kind.startswith('cyl') else w.cs).coords[0])
    if o == 'sphave': return d3.Average(B(e[1]), w.cs if w.kind == 'sphere' else w.cs.S2coordsys)
    if o == 'csinteg': return d3.Integrate(B(e[1]), w.cp if w.kind.startswith('cyl') else w.cs)
    if o == 'phinterp': return d3.Interpolate(B(e[2]), (w.cp if w.kind.startswith('cyl') else w.cs).coords[0], e[1])
    if o == 'thinterp': return d3.Interpolate(B(e[2]), w.cs.coords[1], e[1])
    if o == 'mulcos': return ops.MulCosine(B(e[1]))
    if o == 'ellp':
        p = e[1]
        if w.kind == 'sphere': return ops.SphereEllProduct(B(e[2]), w.cs, lambda ell, r: (ell + 1.0) ** p / (ell + 1.0))
        return ops.SphericalEllProduct(B(e[2]), w.cs, lambda ell: (ell + 1.0) ** p / (ell + 1.0))
    if o == 'gf':
        x = B(e[2])
        fn = [lambda f: f.data * np.abs(f.data), lambda f: np.tanh(f.data), lambda f: 0.5 * f.data + 1][e[1]]
        return ops.GeneralFunction(w.dist, x.domain, x.tensorsig, x.dtype, 'g', fn, args=[x])
    if o == 'cfl': return d3.AdvectiveCFL(B(e[1]), w.cs)
    if o == 'angdot': return d3.dot(d3.angular(B(e[1])), d3.angular(B(e[2])))
    if o == 'azim': return d3.azimuthal(B(e[1]))
    if o == 'radialT': return d3.radial(B(e[2]), index=e[1])
    if o == 'lift':
        x = B(e[4]); k = w.kind
        if len(k) > 3 or k == 'cyl':
            r = {'disk': 1.5, 'ball': 1.5, 'annulus': 1.9, 'shell': 1.9, 'cyl': 1.5, 'cylA': 1.9}[k]
            bas = w.bases[-1]
            x = d3.Interpolate(x, (w.cp if k.startswith('cyl') else w.cs)['r'], r)
        else:
            jac = [i for i, b in enumerate(w.bases) if hasattr(b, 'a')]
            i = jac[e[1] % len(jac)]; bas = w.bases[i]
            x = d3.Interpolate(x, w.cs[w.names[i]], 'right')
        return d3.Lift(x, bas.derivative_basis(1) if e[3] else bas, e[2])
    if o == 'num': return e[1] * B(e[2])
    if o == 'mul': return B(e[1]) * B(e[2])
    if o == 'dot': return d3.dot(B(e[1]), B(e[2]))
    if o == 'cross': return d3.cross(B(e[1]), B(e[2]))
    if o == 'lap': return d3.lap(B(e[1]))
    if o == 'div': return d3.div(B(e[1]))
    if o == 'grad': return d3.grad(B(e[1]))
    if o == 'curl': return d3.curl(B(e[1]))
    if o == 'skew': return d3.skew(B(e[1]))
    if o == 'trace': return d3.trace(B(e[1]))
    if o == 'trans': return d3.trans(B(e[1]))
    if o == 'radial': return d3.radial(B(e[1]))
    if o == 'fn': return getattr(np, e[1])(B(e[2]))
    if o == 'pow': return B(e[1]) ** e[2]
    if o == 'integ': return d3.integ(B(e[1]))
    if o == 'ave': return d3.ave(B(e[1]))
    if o == 'diff': return d3.Differentiate(B(e[2]), w.cs[e[1]])
    if o == 'comp':
        x = B(e[2])
        return getattr(w, 'eunit')[e[1]] @ x
    if o == 'axinteg': return d3.Integrate(B(e[2]), w.cs[e[1]])
    if o == 'axave': return d3.Average(B(e[2]), w.cs[e[1]])
    if o == 'axinterp':
        x = B(e[3]); v = e[2]
        ax = w.names.index(e[1])
        b0, b1 = 0.2 * ax, 1.0 + 0.5 * ax
        if not isinstance(v, str): v = b0 + v * (b1 - b0)
        if isinstance(v, str):
            v = {'left': b0, 'right': b1, 'center': 0.5 * (b0 + b1)}[v]
        return d3.Interpolate(x, w.cs[e[1]], v)
    if o == 'hilb': return ops.HilbertTransform(B(e[2]), w.cs[e[1]])
    if o == 'edge':
        x = B(e[2]); k = w.kind
        r = {'disk': [1.5, 0.9], 'ball': [1.5, 0.8], 'annulus': [1.9, 0.7], 'shell': [1.9, 0.7], 'cyl': [1.5, 0.9], 'cylA': [1.9, 0.7]}[k][e[1]]
        cs = w.cp if k.startswith('cyl') else w.cs
        return d3.Interpolate(x, cs['r'] if hasattr(cs, '__getitem__') else cs.radius, r)
    raise ValueError(o)


def unresolved(x, top=True):
    """Does the value of an expression depend on the path of its evaluation?  Dedalus truncates wherever the evaluation passes through
    coefficient space, so intermediate results have to be resolved: their grid data unchanged by that truncation."""
    import dedalus.core.operators as ops
    from dedalus.core.field import Field
    from dedalus.core.future import Future
    if not isinstance(x, Future): return False
    if any(unresolved(a, False) for a in x.args): return True
    if isinstance(x, ops.Convert):
        a = x.args[0].evaluate() if isinstance(x.args[0], Future) else x.args[0].copy()
        y = Field(dist=x.dist, bases=x.domain.bases, tensorsig=x.tensorsig, dtype=x.dtype)
        a.change_scales(x.domain.dealias); y.change_scales(x.domain.dealias)
        y['g'] = a['g']
    elif not top:
        y = x.evaluate().copy()
    else:
        return False
    if not any(y.layout.grid_space): return False
    y.change_layout('g')
    d = y.data.copy()
    y.change_layout('c'); y.change_layout('g')
    return bool(np.max(np.abs(y.data - d), initial=0) > 1e-11 * np.max(np.abs(d), initial=0))


def degree(e):
    if e[0] == 'f': return 1
    d = [degree(x) for x in e[1:] if isinstance(x, list)]
    if e[0] in ('mul', 'dot', 'cross', 'angdot'): return sum(d)
    if e[0] in ('gf', 'cfl'): return 2 * d[0]
    if e[0] == 'pow': return d[0] * e[2]
    return max(d)


def work(spec, ctx):
    import dedalus.public as d3
    from dedalus.core.evaluator import Evaluator
    w = make_world(spec['dom'], spec.get('mesh'))
    dist = w.dist
    fs = []
    for i, fd in enumerate(spec['leaves']):
        f = new_field(w, fd['part'], fd['rank'], 'f%d' % i)
        fill(f, fd['seed'])
        if fd.get('low'): lowpass(f, fd['low'])
        fs.append(f)
    if is_cart(spec['dom']):
        w.eunit = w.cs.unit_vector_fields(dist)
    out = []
    ex = []
    for j, e in enumerate(spec['exprs']):
        if spec.get('serial'):
            # find out on one process which generated expressions dedalus supports
            try:
                x = build(e, fs, w)
                if hasattr(x, 'evaluate'):
                    y = x.evaluate()
                    if spec['handler'] and hasattr(y, 'lock_to_layouts') and 'c' in spec['tlay']: out.append(dict(bad=j, why='locked result')); continue
                    y = y.copy(); y['g'], y['c']
                    if (nonlinear(e) or spec['dom']['kind'] in ('annulus', 'shell', 'cylA')) and unresolved(build(e, fs, w)):
                        out.append(dict(bad=j, why='unresolved')); continue
                ex.append(x)
            except Exception as exc:
                out.append(dict(bad=j, why='%s: %s | %s' % (type(exc).__name__, str(exc)[:80], traceback.format_exc().strip().split('\n')[-3][:90])))
        else:
            ex.append(build(e, fs, w))
    ex = [x for x in ex if hasattr(x, 'evaluate')]

    def place():
        for f, fd in zip(fs, spec['leaves']):
            if isinstance(fd['lay'], str):
                f.change_scales(1); f.change_layout(fd['lay'])
            elif spec.get('serial'):
                f.change_scales(1); f.change_layout('c')
            else:
                f.change_scales(fd['scale']); f.change_layout(dist.layouts[fd['lay'] % len(dist.layouts)])

    def rec(r, tag):
        r2 = r.copy()
        r2.change_layout('c')
        for s in (1, 1.5):
            r2.change_scales(s)
            out.append(dict(tag=tag + ' grid scale %s' % s, g=gathered(r2, 'g')))
        out.append(dict(tag=tag + ' coeff', g=gathered(r2, 'c')))
    for rep in range(spec['reps']):
        place()
        if spec['handler']:
            ev = Evaluator(dist, {})
            hs = []
            for j, x in enumerate(ex):
                if j == 0 or not spec['onehandler']:
                    hs.append(ev.add_dictionary_handler(iter=1))
                hs[-1].add_task(x, layout=spec['tlay'][j % len(spec['tlay'])], name='t%d' % j, scales=None)
            ev.evaluate_handlers(hs, iteration=0, wall_time=0, sim_time=0, timestep=1)
            allr = {}
            for h in hs: allr.update(h.fields)
            for j in range(len(ex)):
                rec(allr['t%d' % j], 'task %d' % j)
        else:
            for j, x in enumerate(ex):
                rec(x.evaluate(), 'expr %d' % j)
        for j, f in enumerate(fs):
            c = f.copy()
            c.change_scales(1)
            out.append(dict(tag='operand %d afterwards' % j, g=gathered(c, 'g')))
    return out


class C02(Prop):
    id = 'C02'
    rule = ('random expression trees (arithmetic, products, calculus, interpolation, integration, components, nonlinear functions) on random domains, operand layouts and mesh, '
            'evaluated directly or as grouped handler tasks under a seeded schedule and compared with one process; non-trivial: >=2 ranks and transposes or reductions executed')
    tol = 1e-7

    def gen(self, rng, i, tier):
        dom = gen_domain(rng)
        if dom['kind'] in ('annulus', 'shell', 'cylA'):
            # basis conversion on an undealiased radial grid aliases, by design: results then depend on the evaluation layout
            dom['dealias'] = max(dom['dealias'], 1.5)
        size, mesh = gen_mesh(rng, domain_dim(dom), 6 if tier == 'quick' else 9)
        parts = part_names(dom)
        nf = rng.randint(1, 3)
        leaves = [dict(part='full', rank=0, seed=rng.randrange(10**6))] + [dict(part=rng.choice(['full', 'full', 'full'] + parts), rank=rng.choice([0, 0, 1, 1, 2]), seed=rng.randrange(10**6)) for _ in range(nf)]
        for f in leaves:
            f['lay'] = rng.randrange(8); f['scale'] = rng.choice([1, 1, 1.5, 2])
        ranks = [f['rank'] for f in leaves]
        exprs = [gen_unmixed(rng, dom, ranks, rng.choice([0, 0, 1, 1, 2]), rng.choice([1, 1, 2, 2, 3])) for _ in range(rng.randint(1, 4))]
        if any(nonlinear(e) for e in exprs):
            # products of unresolved data are truncated wherever evaluation passes through coefficient space, so the
            # layouts of the operands are the same on one process and on the mesh
            full = rng.random() < 0.4
            low = round(1.0 / max(degree(e) for e in exprs), 3) if rng.random() < 0.7 else 0
            for f in leaves:
                f['low'] = low
                f['lay'] = 'g' if full else 'c'
        elif dom['kind'] in ('annulus', 'shell', 'cylA') and rng.random() < 0.5:
            for f in leaves: f['low'] = 0.5
        return dict(dom=dom, mesh=mesh, leaves=leaves, exprs=exprs, reps=rng.choice([1, 1, 2]), handler=rng.random() < 0.4, onehandler=rng.random() < 0.6,
                    tlay=[rng.choice('gc') for _ in range(3)], cfg=gen_cfg(rng, nonlin=any(nonlinear(e) for e in exprs)), env=gen_env(rng, size))

    def shrink(self, case):
        yield from self.shrink_list(case, 'exprs')
        if case['reps'] > 1:
            c = copy.deepcopy(case); c['reps'] = 1; yield c
        if case['handler']:
            c = copy.deepcopy(case); c['handler'] = False; yield c
        # replace an expression by one of its subtrees
        for j, e in enumerate(case['exprs']):
            for s in e[1:]:
                if isinstance(s, list) and s and isinstance(s[0], str) and s[0] != 'f':
                    c = copy.deepcopy(case); c['exprs'][j] = s; yield c
            for k, s in enumerate(e):
                if isinstance(s, list) and s and s[0] != 'f':
                    for s2 in s[1:]:
                        if isinstance(s2, list):
                            c = copy.deepcopy(case); c['exprs'][j][k] = s2; yield c
        yield from self.shrink_cfg(case)
        yield from self.shrink_mesh(case)
        yield from self.shrink_env(case)

    def run(self, sim, case):
        from ..runner import Outcome
        keys = ('dom', 'leaves', 'exprs', 'reps', 'handler', 'onehandler', 'tlay')
        spec = dict(mod='c02', fn='work', **{k: case[k] for k in keys})
        sc = sim.new_scratch(); write_cfg(sc, {})
        o = Outcome(key=self.key(case['dom'], case['mesh'], case['leaves'], case['exprs']), nontrivial=False, probes={}, sample={k: v for k, v in case.items()})
        if not case['exprs']:
            return o
        r0 = sim.run(dict(spec, serial=True), SERIAL, sc)
        if r0.status == 'ok':
            bad = [x for x in r0.results[0] if 'bad' in x]
            if bad:
                case = dict(case, exprs=[e for j, e in enumerate(case['exprs']) if j not in [x['bad'] for x in bad]])
                spec['exprs'] = case['exprs']
                o['probes']['unresolved_expr'] = sum(x['why'] == 'unresolved' for x in bad)
                o['probes']['unsupported_expr'] = len(bad) - o['probes']['unresolved_expr']
                if o['probes']['unsupported_expr']: o['note'] = [x['why'] for x in bad if x['why'] != 'unresolved'][0]
                r0.results[0] = [x for x in r0.results[0] if 'bad' not in x]
                if not case['exprs']:
                    return o
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        if r0.status == 'ok':
            r1 = sim.run(dict(spec, mesh=case['mesh']), case['env'], sc)
        if r0.status != 'ok':
            o['violation'] = job_viol(r0, 'serial: ')
            return o
        o['violation'] = job_viol(r1)
        o['probes']['transposes'] = r1.stats.get('coll.alltoall', 0) + r1.stats.get('p2p', 0)
        o['nontrivial'] = case['env']['size'] > 1 and (o['probes']['transposes'] > 0 or r1.stats.get('coll.allreduce', 0) > 0)
        if not o.violation:
            o['violation'] = self.oracle(case, r0.results, r1.results)
        return o

    def oracle(self, case, ser, par):
        if any(len(p) != len(ser[0]) for p in par):
            return viol('value', 'different number of results')
        for k, S in enumerate(ser[0]):
            P = [p[k] for p in par]
            if 'value' in S:
                if any(p['value'] != S['value'] for p in P): return viol('value', '%s: %s vs serial %s' % (S['tag'], [p['value'] for p in P], S['value']))
                continue
            g, err = assemble([p['g'] for p in P])
            if err: return viol('tiling', S['tag'] + ': ' + err)
            s, err = assemble([S['g']])
            if err: return viol('tiling', S['tag'] + ': serial: ' + err)
            j = int(S['tag'].split()[1])
            e = relerr(g, s, 0 if 'operand' in S['tag'] else 1e-13 * amp(case['exprs'][j], case['dom']) / self.tol)
            if not e < self.tol:
                return viol('value', '%s: differs from serial by %.2e (max |serial| %.3e); expression %s' % (S['tag'], e, np.max(np.abs(s)) if s.size else 0, case['exprs'][j] if 'operand' not in S['tag'] else 'operand'))
        return None


PROP = C02()
