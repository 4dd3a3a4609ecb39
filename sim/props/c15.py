"""C15: no stale results. A history of changes to fields, coefficients, parameters, scales, time and timestep, interleaved with
evaluations of persistent operators, handlers and solvers, against a model that rebuilds everything from the current data each time."""
import copy
import numpy as np
from ..lib import *
from .. import probs
from . import c02

HOW = ['g', 'c', 'data', 'scaled', 'scaled_data', 'global', 'globalc', 'view']
MULTISTEP = list(probs.MULTI)


class Flaky(Exception):
    pass


# ---------------------------------------------------------------- rank side
def put(w, f, seed, how, keep=None):
    """Give field f the reference content of (seed) through one of the ways users have."""
    t = f.copy()
    t.change_scales(1)
    fill(t, seed)
    if keep: lowpass(t, keep)
    else: probs.smooth(t)
    if how == 'g': f.change_scales(1); f['g'] = t['g']
    elif how == 'c': f['c'] = t['c']
    elif how == 'data': f.change_layout('c'); t['c']; f.data[...] = t.data
    elif how == 'view': a = f['c']; a[...] = t['c']
    elif how in ('scaled', 'scaled_data'):
        s = f.domain.dealias
        t.change_scales(s); f.change_scales(s)
        if how == 'scaled': f['g'] = t['g']
        else: t['g']; f['g']; f.data[...] = t.data
    elif how == 'global': t['g']; f.change_scales(1); f.load_from_global_grid_data(t.allgather_data('g'))
    elif how == 'globalc': t['c']; f.load_from_global_coeff_data(t.allgather_data('c'))
    else: raise ValueError(how)


def change(w, f, a, model):
    """apply one change action to a field"""
    o = a[0]
    if o == 'set': put(w, f, a[2], 'c' if model else a[3], w.keep)
    elif o == 'mul':
        if model: f['c']; f.data[...] *= a[2]
        elif a[3] == 'data': f.data *= a[2]
        elif a[3] == 'imul': f[f.layout] *= a[2]
        else: f[a[3]] *= a[2]
    elif o == 'scales':
        if not model: f.change_scales(a[2])
    elif o == 'lay':
        if not model: f.change_layout(w.dist.layouts[a[2] % len(w.dist.layouts)])
    else: raise ValueError(o)


def flaky(w, x):
    import dedalus.public as d3
    def user(arg):
        if w.fail: raise Flaky('user function failed')
        return 2 * arg.data
    return d3.GeneralFunction(w.dist, x.domain, x.tensorsig, x.dtype, 'g', user, args=[x])


def build(e, fs, w):
    if e[0] == 'flaky': return flaky(w, build(e[1], fs, w))
    if e[0] == 'sum': return build(e[1], fs, w) + build(e[2], fs, w)
    return c02.build(e, fs, w)


def rec(out, r, tag, j=None):
    r2 = r.copy()
    r2.change_layout('c')
    r2.change_scales(1)
    out.append(dict(tag=tag, j=j, g=gathered(r2, 'g')))


def exprs(spec, ctx):
    from dedalus.core.evaluator import Evaluator
    w = make_world(spec['dom'], spec.get('mesh'))
    dist = w.dist; w.keep = 0.34; w.fail = False
    model = spec.get('model')
    out = []
    if c02.is_cart(spec['dom']): w.eunit = w.cs.unit_vector_fields(dist)
    fs = []
    for i, fd in enumerate(spec['leaves']):
        f = new_field(w, fd['part'], fd['rank'], 'f%d' % i)
        put(w, f, fd['seed'], 'c', w.keep)
        fs.append(f)
    if spec.get('probe'):       # which generated expressions dedalus supports
        for j, e in enumerate(spec['exprs']):
            try:
                x = build(e, fs, w)
                if hasattr(x, 'evaluate') and not any(x is f for f in fs):
                    y = x.evaluate(); y['g'], y['c']; out.append(j)
            except Exception: pass
        return out

    def fresh():
        new = []
        for i, (f, fd) in enumerate(zip(fs, spec['leaves'])):
            g = new_field(w, fd['part'], fd['rank'], 'f%d' % i)
            g['c'] = f['c']
            new.append(g)
        return new
    if not model:
        nodes = {}

        def shared(e):
            """the same subexpression is the same operator object when the case shares nodes"""
            k = str(e)
            if not spec['share'] or k not in nodes: nodes[k] = build(e, fs, w)
            return nodes[k]
        ex = [shared(e[1]) + shared(e[2]) if e[0] == 'sum' else shared(e) for e in spec['exprs']]
        ev = Evaluator(dist, {})
        hs = []
        for h in spec['handlers']:
            H = ev.add_dictionary_handler(iter=h['iter'])
            for j in h['tasks']: H.add_task(ex[j], layout=h['lay'], name='t%d' % j)
            hs.append(H)
    else: ex = [None] * len(spec['exprs'])

    def value(j):
        return build(spec['exprs'][j], fresh(), w).evaluate()
    for n, a in enumerate(spec['acts']):
        o = a[0]
        if o in ('set', 'mul', 'scales', 'lay'): change(w, fs[a[1]], a, model)
        elif o == 'copy': fs[a[1]]['c'] = fs[a[2]]['c']
        elif o in ('eval', 'item', 'twice'):
            for k in range(2 if o == 'twice' else 1):
                if model: r = value(a[1])
                elif o == 'item':
                    ex[a[1]][a[2]]
                    r = ex[a[1]].evaluate()
                else: r = ex[a[1]].evaluate()
                rec(out, r, 'action %d %s' % (n, a), a[1])
        elif o == 'idle':       # a result handed out earlier is the user's own: read and discard
            if not model: ex[a[1]].attempt()
        elif o == 'hand':
            H = [hs[k] for k in a[1]] if not model else None
            if not model: ev.evaluate_handlers(H, iteration=a[2], wall_time=0.0, sim_time=0.0, timestep=1.0)
            for k in a[1]:
                for j in spec['handlers'][k]['tasks']:
                    r = value(j) if model else hs[k].fields['t%d' % j]
                    rec(out, r, 'action %d %s handler %d task %d' % (n, a, k, j), j)
        elif o == 'fail':       # the user's function raises in this evaluation and the user goes on
            if not model:
                w.fail = True
                try:
                    if a[1] == 'hand': ev.evaluate_handlers([hs[k] for k in a[2]], iteration=0, wall_time=0.0, sim_time=0.0, timestep=1.0)
                    else: ex[a[2]].evaluate()
                    raised = False
                except Flaky: raised = True
                w.fail = False
                ctx_note(ctx, raised)
        else: raise ValueError(o)
    for i, f in enumerate(fs):
        rec(out, f, 'leaf %d afterwards' % i)
    return out


def ctx_note(ctx, raised):
    pass


def fields_of(P):
    d = {v.name: v for v in P.vars}
    for n in ('f', 'a', 'bv', 'c', 'fu'):
        if n in P.ns: d[n] = P.ns[n]
    return d


class Solvers:
    """persistent solver (the run) or freshly built ones (the model)"""

    def __init__(self, spec, model):
        self.spec, self.model = spec, model
        self.w = w = make_world(spec['dom'], spec.get('mesh'))
        w.keep = 0.34 if w.kind in ('annulus', 'shell', 'cylA') else None       # radial basis conversions truncate unresolved forcings depending on the evaluation path
        self.pt = spec['ptype']
        self.P = probs.build(w, spec['prob'], self.pt)
        self.F = fields_of(self.P)
        for n in ('f', 'fu'):
            if w.keep and n in self.F: lowpass(self.F[n], w.keep)
        probs.init_state(self.P, spec['prob']['seed'], 0.1 if self.pt == 'NLBVP' else 0.5)
        self.time = 0.0
        self.cref = {n: np.array(self.F['c']['c']) for n in ('c',) if n in self.F}       # coefficient the matrices were built with
        self.hist = []
        if not model:
            self.solver = self.P.problem.build_solver(*([spec['ts']] if self.pt == 'IVP' else []), **self.kw())
            if self.pt == 'LBVP': pass
            e = self.exprs(self.P)
            self.ex = e
            self.h = self.solver.evaluator.add_dictionary_handler(iter=1)
            for j, x in enumerate(e): self.h.add_task(x, name='t%d' % j)

    def kw(self): return dict(self.spec.get('kw') or {}) if not self.model else {}

    def exprs(self, P):
        import dedalus.public as d3
        s = P.main[0]; f = P.ns['f']
        if self.w.kind == 'cylA':   # sums of terms with different radial bases are truncated depending on the evaluation path
            return [d3.Differentiate(s, self.w.cz), d3.Differentiate(f, self.w.cz), P.ns['a'] * f]
        out = [d3.lap(s), d3.grad(s), d3.lap(f)]
        if len(P.main) > 1: out.append(d3.grad(P.main[1]))
        if 'a' in P.ns: out.append(P.ns['a'] * f)
        return out

    def fresh(self, solver=True, oldc=False):
        """a new problem (and solver) holding the current data"""
        P = probs.build(self.w, self.spec['prob'], self.pt)
        G = fields_of(P)
        for n, f in self.F.items():
            G[n]['c'] = f['c']
            if oldc and n in self.cref: G[n]['c'] = self.cref[n]
        S = P.problem.build_solver(*([self.spec['ts']] if self.pt == 'IVP' else [])) if solver else None
        if S is not None and self.pt == 'IVP': S.sim_time = self.time
        return P, S

    def take(self, P):
        for v, u in zip(self.P.vars, P.vars): v['c'] = u['c']

    def solve(self, rebuild, first):
        if not self.model: self.solver.solve(rebuild_matrices=rebuild); return
        if rebuild or first:
            if 'c' in self.F: self.cref['c'] = np.array(self.F['c']['c'])
        P, S = self.fresh(oldc=True)
        S.solve(); self.take(P)

    def newton(self, damping):
        if not self.model:
            if self.w.keep:
                for v in self.P.vars: v.change_layout('c')      # the residual of an unresolved state is truncated depending on the layout it starts from
            self.solver.newton_iteration(damping=damping); return
        P, S = self.fresh()
        S.newton_iteration(damping=damping); self.take(P)

    def step(self, dt):
        if not self.model: self.solver.step(dt); return
        P, S = self.fresh(oldc=True)
        ts = self.spec['ts']
        if ts not in probs.MULTI: S.step(dt)
        else:
            # reference multistep update from the matrices, the freshly evaluated right-hand side and the recorded history
            T = S.timestepper
            for v in P.vars: v.change_layout('c')
            sps = [sp for sp in S.subproblems if sp.size]
            X = [np.array(sp.gather_inputs(P.vars)) for sp in sps]
            S.evaluator.evaluate_handlers(S.evaluator.groups['F'], iteration=0, wall_time=0.0, sim_time=self.time, timestep=dt)
            for f in S.F: f.change_layout('c')
            Fs = [np.array(sp.gather_outputs(S.F)) for sp in sps]
            self.hist.insert(0, dict(dt=dt, MX=[sp.M_min @ x for sp, x in zip(sps, X)], LX=[sp.L_min @ x for sp, x in zip(sps, X)], F=Fs))
            dts = [h['dt'] for h in self.hist]
            dts = (dts + [0.0] * T.steps)[:T.steps]
            a, b, c = T.compute_coefficients(dts, len(self.hist) - 1)
            new = []
            for i, sp in enumerate(sps):
                r = 0
                for j in range(1, len(c)):
                    if j <= len(self.hist): r = r + c[j] * self.hist[j - 1]['F'][i]
                    elif c[j]: raise AssertionError('history')
                for j in range(1, len(a)):
                    if j <= len(self.hist): r = r - a[j] * self.hist[j - 1]['MX'][i]
                for j in range(1, len(b)):
                    if j <= len(self.hist): r = r - b[j] * self.hist[j - 1]['LX'][i]
                A = (a[0] * sp.M_min + b[0] * sp.L_min).toarray()
                new.append(np.linalg.solve(A, r))
            for v in P.vars: v.preset_layout('c')
            for sp, x in zip(sps, new): sp.scatter_inputs(x, P.vars)
        self.time += dt
        self.take(P)

    def values(self):
        """tasks evaluated now"""
        if not self.model: return None
        P, _ = self.fresh(solver=False)
        return [x.evaluate() for x in self.exprs(P)]


def solvers(spec, ctx):
    S = Solvers(spec, spec.get('model'))
    w, P, model, pt = S.w, S.P, S.model, S.pt
    out = []
    first = True

    def state(tag):
        for v in P.vars:
            c = v.copy(); c.change_scales(1)
            out.append(dict(tag=tag + ' ' + v.name, j=None, g=gathered(c, 'c', True)))
    for n, a in enumerate(spec['acts']):
        o = a[0]
        tag = 'action %d %s' % (n, a)
        if o in ('set', 'mul', 'scales', 'lay'):
            names = list(S.F)
            f = S.F[a[1]] if a[1] in S.F else (P.main[0] if a[1] == 'main' else None)
            if f is None: continue
            change(w, f, a, model)
        elif o == 'time':
            S.time = a[1]
            if not model and pt == 'IVP': S.solver.sim_time = a[1]
        elif o == 'iter':
            if not model: S.solver.iteration = a[1]
        elif o == 'go':
            if pt == 'LBVP': S.solve(a[1]['rebuild'], first)
            elif pt == 'NLBVP': S.newton(a[1]['damping'])
            else: S.step(a[1]['dt'])
            first = False
            state(tag)
        elif o == 'eval':
            j = a[1] % (len(S.ex) if not model else len(S.exprs(P)))
            rec(out, S.values()[j] if model else S.ex[j].evaluate(), tag, j)
        elif o == 'hand':
            if not model: S.solver.evaluate_handlers([S.h])
            R = S.values() if model else [S.h.fields['t%d' % j] for j in range(len(S.ex))]
            for j, r in enumerate(R): rec(out, r, tag + ' task %d' % j, j)
        else: raise ValueError(o)
    return out


def eig(spec, ctx):
    """eigenvalue problem with changing coefficients"""
    w = make_world(spec['dom'], spec.get('mesh')); w.keep = None
    model = spec.get('model')
    P = probs.build(w, spec['prob'], 'EVP')
    solver = None
    out = []
    old = None
    for n, a in enumerate(spec['acts']):
        if a[0] == 'mul':
            if 'c' in P.ns: change(w, P.ns['c'], a, model)
        elif a[0] == 'go':
            c = np.array(P.ns['c']['c']) if 'c' in P.ns else None
            if model:
                if a[1]['rebuild'] or old is None: old = c
                Q = probs.build(w, spec['prob'], 'EVP')
                if c is not None: Q.ns['c']['c'] = old
                s = Q.problem.build_solver()
            else:
                if solver is None: solver = P.problem.build_solver(**(spec.get('kw') or {}))
                s = solver
            res = {}
            flag = False
            if model or not len(out): s.build_matrices()
            elif a[1]['rebuild']:
                flag = spec['nranks'] == 1
                if not flag: s.build_matrices()     # collective; rebuild_matrices=True is for a subproblem every process solves
            for sp in s.subproblems:
                if not sp.size: continue
                s.solve_dense(sp, rebuild_matrices=flag)
                ev = np.array(s.eigenvalues)
                res[str(tuple(sp.group))] = dict(L=np.sort(np.abs(sp.L_min.toarray()).ravel()), ev=ev[np.isfinite(ev) & (np.abs(ev) < 1e3)])
            out.append(dict(tag='action %d' % n, eig=res))
    return out


# ---------------------------------------------------------------- controller side
def count_nonlinear(e):
    return (1 if e[0] in ('mul', 'dot', 'cross', 'pow') else 0) + sum(count_nonlinear(x) for x in e[1:] if isinstance(x, list))


def bad_ops(e):
    return e[0] in ('fn', 'gf', 'cfl', 'angdot', 'phinterp', 'thinterp') or (e[0] == 'pow' and e[2] > 2) or any(bad_ops(x) for x in e[1:] if isinstance(x, list))


def has_flaky(e):
    return e[0] == 'flaky' or any(has_flaky(x) for x in e[1:] if isinstance(x, list))


class C15(Prop):
    id = 'C15'
    rule = ('random histories of changes (field data through every access path, in-place edits, scales, layouts, coefficients, boundary values, simulation time, timestep, iteration, failures of user functions) '
            'interleaved with evaluations of persistent expressions, handlers, LBVP, NLBVP, IVP and EVP solvers on a simulated mesh; every result compared with a model that rebuilds everything from the current data on one process; '
            'non-trivial: at least one evaluation after a change of its inputs')
    tol = 1e-7

    def gen(self, rng, i, tier):
        kind = rng.choice(['exprs', 'exprs', 'solvers', 'solvers', 'solvers', 'eig'] if i % 3 == 0 else ['exprs', 'solvers', 'solvers'])
        return getattr(self, 'gen_' + kind)(rng, tier)

    def gen_exprs(self, rng, tier):
        dom = gen_domain(rng); dom['dealias'] = 1.5
        if dom['kind'].strip('RZCULJ') == '' and len(dom['kind']) < 4: dom['N'] = [rng.choice([6, 8, 10]) for _ in dom['kind']]
        size, mesh = gen_mesh(rng, domain_dim(dom), 4 if tier == 'quick' else 8)
        if rng.random() < 0.4: size, mesh = 1, None
        parts = part_names(dom)
        leaves = [dict(part='full', rank=0, seed=rng.randrange(10**6)), dict(part='full', rank=rng.choice([0, 1]), seed=rng.randrange(10**6))]
        leaves += [dict(part=rng.choice(['full'] + parts), rank=rng.choice([0, 0, 1, 2]), seed=rng.randrange(10**6)) for _ in range(rng.randint(0, 2))]
        ranks = [f['rank'] for f in leaves]
        ex = []
        while len(ex) < rng.randint(2, 5):
            r = rng.choice([0, 0, 1, 1, 2])
            e = c02.gen_unmixed(rng, dom, ranks, r, rng.choice([1, 1, 2]))
            if e[0] == 'f' or bad_ops(e) or count_nonlinear(e) > 1: continue
            q = rng.random()
            if q < 0.25: e = ['flaky', e]
            elif q < 0.5:
                s = [x for x in ex if x[0] not in ('flaky', 'sum')]
                e2 = rng.choice(s) if s and rng.random() < 0.7 else ['flaky', e]
                e = ['sum', e, e2]
                if c02.mixes(e, dom['kind']): continue
            ex.append(e)
        hs = [dict(tasks=sorted(rng.sample(range(len(ex)), rng.randint(1, len(ex)))), lay=rng.choice('gc'), iter=1) for _ in range(rng.randint(1, 3))]
        acts = []
        n = rng.randint(4, 12)
        for _ in range(n):
            o = rng.choice(['set', 'set', 'mul', 'mul', 'scales', 'lay', 'copy', 'eval', 'eval', 'eval', 'item', 'twice', 'idle', 'hand', 'hand', 'hand', 'fail'])
            l = rng.randrange(len(leaves))
            if o == 'set': a = ['set', l, rng.randrange(10**6), rng.choice(HOW)]
            elif o == 'mul': a = ['mul', l, rng.choice([-1.0, 2.0, 0.5, 1.7]), rng.choice(['g', 'c', 'data', 'imul'])]
            elif o == 'scales': a = ['scales', l, rng.choice([1, 1.5, 2])]
            elif o == 'lay': a = ['lay', l, rng.randrange(8)]
            elif o == 'copy':
                same = [k for k in range(len(leaves)) if k != l and leaves[k]['part'] == leaves[l]['part'] and leaves[k]['rank'] == leaves[l]['rank']]
                if not same: continue
                a = ['copy', l, rng.choice(same)]
            elif o in ('eval', 'twice', 'idle'): a = [o, rng.randrange(len(ex))]
            elif o == 'item': a = [o, rng.randrange(len(ex)), rng.choice('gc')]
            elif o == 'hand': a = ['hand', sorted(rng.sample(range(len(hs)), rng.randint(1, len(hs)))), rng.choice([0, 1, 2, 5])]
            else: a = ['fail', rng.choice(['hand', 'eval']), None]; a[2] = sorted(rng.sample(range(len(hs)), rng.randint(1, len(hs)))) if a[1] == 'hand' else rng.randrange(len(ex))
            acts.append(a)
        acts.append(['eval', rng.randrange(len(ex))]); acts.append(['hand', list(range(len(hs))), 7])
        return dict(kind='exprs', dom=dom, mesh=mesh, env=gen_env(rng, size), leaves=leaves, exprs=ex, handlers=hs, acts=acts, share=rng.random() < 0.6, cfg=gen_cfg(rng, 0.3))

    def gen_solvers(self, rng, tier):
        pt = rng.choice(['LBVP', 'LBVP', 'IVP', 'IVP', 'IVP', 'NLBVP'])
        names = dict(IVP=['heat', 'ns', 'rb', 'sw', 'ncc', 'heat'], LBVP=['heat', 'ns', 'ncc', 'ncc'], NLBVP=['heat', 'ncc'])[pt]
        dom, pb = probs.gen_ivp(rng, names=names, small=True)
        pb['par'] = True
        if pt == 'IVP': pb['tdep'] = rng.random() < 0.6
        if pt == 'NLBVP':
            pb['radial'] = dom['kind'] in ('RC', 'ZC', 'RRC', 'ZZC', 'RL', 'RU') and rng.random() < 0.7
            pb['al'] = (pb['al'] or 0.2) if pb['radial'] else 0.0
        size, mesh = gen_mesh(rng, domain_dim(dom), 4 if tier == 'quick' else 8)
        if rng.random() < 0.4: size, mesh = 1, None
        c = dict(kind='solvers', ptype=pt, dom=dom, prob=pb, mesh=mesh, env=gen_env(rng, size), cfg=gen_cfg(rng, 0.3, nonlin=True), kw={}, acts=[])
        if pt == 'IVP':
            c['ts'] = rng.choice(probs.SCHEMES)
            d = rng.choice([0.01, 0.002]); pool = [d * rng.choice([1, 0.5, 2, 1.3, 1 + 1e-6]) for _ in range(2)] + [d]
        k = 0
        for _ in range(rng.randint(5, 12)):
            o = rng.choice(['set', 'mul', 'mul', 'c', 'scales', 'lay', 'time', 'iter', 'go', 'go', 'go', 'eval', 'hand'])
            l = rng.choice(['f', 'f', 'a', 'bv', 'main', 'fu'])
            if o == 'set':
                if l in ('a', 'bv', 'main'): continue
                a = ['set', l, rng.randrange(10**6), rng.choice(HOW)]
            elif o == 'mul': a = ['mul', l, rng.choice([-1.0, 0.5, 0.9, 1.7, 1 + 1e-5]), rng.choice(['g', 'c', 'data', 'imul'])]
            elif o == 'c': a = ['mul', 'c', rng.choice([0.8, 1.3]), rng.choice(['g', 'c', 'data', 'imul'])]
            elif o == 'scales': a = ['scales', rng.choice([l, 'main', 'c']), rng.choice([1, 1.5, 2])]
            elif o == 'lay': a = ['lay', rng.choice([l, 'main', 'c']), rng.randrange(8)]
            elif o == 'time': a = ['time', rng.choice([0.0, 0.3, 1.1])]
            elif o == 'iter': a = ['iter', rng.choice([0, 0, 3])]
            elif o == 'go':
                if k >= 5: continue
                k += 1
                a = ['go', dict(rebuild=rng.random() < 0.5, damping=rng.choice([1, 0.7]))]
                if pt == 'IVP': a[1]['dt'] = rng.choice(pool)
            elif o == 'eval': a = ['eval', rng.randrange(4)]
            else: a = ['hand']
            if pt == 'IVP' and a[0] == 'mul' and a[1] == 'c': continue      # coefficients of an IVP are built once
            if a[0] == 'time' and pt != 'IVP': continue
            c['acts'].append(a)
        c['acts'].append(['go', dict(rebuild=True, damping=1, dt=pool[0] if pt == 'IVP' else 0)])
        return c

    def gen_eig(self, rng, tier):
        dom, pb = probs.gen_ivp(rng, names=['ncc'], small=True)
        dom['kind'] = {'RC': 'ZC', 'RRC': 'ZZC', 'RL': 'ZC'}.get(dom['kind'], dom['kind']); dom['dtype'] = 'c'
        size, mesh = gen_mesh(rng, domain_dim(dom), 4)
        acts = [['go', dict(rebuild=False)]]
        for _ in range(rng.randint(1, 3)):
            acts.append(['mul', 'c', rng.choice([0.7, 1.4]), rng.choice(['g', 'c', 'data'])])
            acts.append(['go', dict(rebuild=rng.random() < 0.7)])
        return dict(kind='eig', dom=dom, prob=pb, mesh=mesh, env=gen_env(rng, size), acts=acts, cfg=gen_cfg(rng, 0.3), kw={})

    def spec(self, case, model):
        keys = [k for k in case if k not in ('env', 'cfg', 'index', 'kind', 'mesh')]
        s = dict(mod='c15', fn=case['kind'], **{k: case[k] for k in keys})
        if model: s['model'] = True
        else: s['mesh'] = case['mesh']; s['nranks'] = case['env']['size']
        return s

    def run(self, sim, case):
        from ..runner import Outcome
        P = {}
        o = Outcome(key=self.key({k: case[k] for k in case if k not in ('index', 'env')}), probes=P, nontrivial=False, sample=case if len(str(case)) < 4000 else None)
        if case['kind'] == 'exprs':
            sc = sim.new_scratch(); write_cfg(sc, {})
            r = sim.run(dict(self.spec(case, True), probe=True), SERIAL, sc)
            if r.status != 'ok': o['violation'] = job_viol(r, 'model: '); return o
            case = self.restrict(case, r.results[0])
            if not case['exprs']: P['unsupported'] = 1; return o
        sc = sim.new_scratch(); write_cfg(sc, {})
        m = sim.run(self.spec(case, True), SERIAL, sc)
        if m.status != 'ok':
            if case['kind'] == 'exprs': o['violation'] = job_viol(m, 'model: ')
            else: P['unsupported'] = 1; o['note'] = str(m.detail)[:600]
            return o
        sc = sim.new_scratch(); write_cfg(sc, case['cfg'])
        r = sim.run(self.spec(case, False), case['env'], sc)
        P[case['kind'] + ' ' + case.get('ptype', '')] = 1
        for a in case['acts']: P['act_' + a[0]] = P.get('act_' + a[0], 0) + 1
        o['nontrivial'] = any(a[0] in ('set', 'mul', 'time', 'copy') for a in case['acts'])
        o['violation'] = job_viol(r) or self.oracle(case, m.results, r.results, P)
        return o

    def restrict(self, case, ok):
        """drop unsupported expressions"""
        if len(ok) == len(case['exprs']): return case
        c = copy.deepcopy(case)
        new = {j: k for k, j in enumerate(ok)}
        c['exprs'] = [case['exprs'][j] for j in ok]
        hmap = {}
        H = []
        for k, h in enumerate(c['handlers']):
            h['tasks'] = [new[j] for j in h['tasks'] if j in new]
            if h['tasks']: hmap[k] = len(H); H.append(h)
        c['handlers'] = H
        acts = []
        for a in c['acts']:
            if a[0] in ('eval', 'twice', 'idle', 'item') or (a[0] == 'fail' and a[1] == 'eval'):
                p = 2 if a[0] == 'fail' else 1
                if a[p] not in new: continue
                a[p] = new[a[p]]
            elif a[0] == 'hand' or a[0] == 'fail':
                p = 1 if a[0] == 'hand' else 2
                a[p] = [hmap[k] for k in a[p] if k in hmap]
                if not a[p]: continue
            acts.append(a)
        c['acts'] = acts
        return c

    def oracle(self, case, mod, par, P):
        M = mod[0]
        if case['kind'] == 'eig':
            for k, m in enumerate(M):
                seen = set()
                for p in par:
                    for g, e in p[k]['eig'].items():
                        seen.add(g)
                        s = m['eig'][g]
                        if e['L'].shape != s['L'].shape or relerr(e['L'], s['L']) > 1e-9: return viol('matrix', '%s, subproblem %s: the matrix is not that of the current coefficients' % (m['tag'], g))
                if seen != set(m['eig']): return viol('subsystems', 'subproblems %s not solved' % sorted(set(m['eig']) - seen))
            return None
        if any(len(p) != len(M) for p in par): return viol('value', 'different number of results')
        big = 0.0
        for k, m in enumerate(M):
            g, err = assemble([p[k]['g'] for p in par])
            if err: return viol('tiling', m['tag'] + ': ' + err)
            s, err = assemble([m['g']])
            if err: return viol('tiling', m['tag'] + ': model: ' + err)
            if not np.all(np.isfinite(s)): P['nonfinite'] = 1; return None
            mx = float(np.max(np.abs(s))) if s.size else 0.0
            if case['kind'] == 'exprs':
                e = case['exprs'][m['j']] if m['j'] is not None else ['f', 0]
                floor = 1e-13 * self.amp(e, case['dom']) / self.tol
            else:
                big = max(big, mx); floor = 1e-2 * big
                if big > 1e6: P['blowup'] = 1; return None
                if m['j'] is not None: floor = 3e-1 * big
            d = relerr(g, s, floor)
            if not d < self.tol: return viol('stale', '%s: differs by %.2e from a rebuild with the current data (max %.2e)%s' % (m['tag'], d, mx, ' expression %s' % (case['exprs'][m['j']],) if case['kind'] == 'exprs' and m['j'] is not None else ''))
        return None

    def amp(self, e, dom):
        if e[0] == 'flaky': return 2 * self.amp(e[1], dom)
        if e[0] == 'sum': return self.amp(e[1], dom) + self.amp(e[2], dom)
        return c02.amp(e, dom)

    def shrink(self, case):
        yield from self.shrink_list(case, 'acts')
        if case['kind'] == 'exprs':
            for j in range(len(case['exprs'])):
                yield self.restrict(case, [k for k in range(len(case['exprs'])) if k != j])
            if case['share']: c = copy.deepcopy(case); c['share'] = False; yield c
            for k, h in enumerate(case['handlers']):
                for t in h['tasks']:
                    if len(h['tasks']) > 1:
                        c = copy.deepcopy(case); c['handlers'][k]['tasks'] = [x for x in h['tasks'] if x != t]; yield c
        if case.get('env', {}).get('size', 1) > 1:
            c = copy.deepcopy(case); c['env'] = dict(SERIAL); c['mesh'] = None; yield c
        yield from self.shrink_cfg(case)
        yield from self.shrink_mesh(case)
        yield from self.shrink_env(case)


PROP = C15()
