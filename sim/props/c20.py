"""C20: performance options never change results."""
import copy
import numpy as np
from ..lib import *
from .. import probs
from . import c02, c05

MATS = ['SuperLUNaturalSpsolve', 'SuperLUColamdSpsolve', 'SuperLUNaturalFactorized', 'SuperLUNaturalFactorizedTranspose', 'SuperLUColamdFactorized', 'SuperLUColamdFactorizedTranspose', 'ScipyBanded', 'SparseInverse', 'DenseInverse', 'ScipyDenseLU']
OPTS = {
    'transforms/DEFAULT_LIBRARY': ['scipy', 'fftw'], 'transforms/GROUP_TRANSFORMS': ['True', 'False'], 'transforms-fftw/PLANNING_RIGOR': ['estimate', 'measure', 'patient'],
    'parallelism/TRANSPOSE_LIBRARY': ['fftw', 'mpi'], 'parallelism/SYNC_TRANSPOSES': ['True', 'False'], 'parallelism/GROUP_TRANSPOSES': ['True', 'False'],
    'parallelism-fftw/IN_PLACE': ['True', 'False'], 'parallelism-fftw/PLANNING_RIGOR': ['estimate', 'measure'], 'parallelism-mpi/ALLTOALLV': ['True', 'False'],
    'matrix construction/BC_TOP': ['True', 'False'], 'matrix construction/TAU_LEFT': ['True', 'False'], 'matrix construction/INTERLEAVE_COMPONENTS': ['True', 'False'], 'matrix construction/STORE_EXPANDED_MATRICES': ['True', 'False'],
    'linear algebra/MATRIX_SOLVER': MATS, 'linear algebra/MATRIX_FACTORIZER': MATS, 'linear algebra/SPLIT_CSR_MATVECS': ['True', 'False'], 'linear algebra/OLD_CSR_MATVECS': ['True', 'False'],
    'memory/STORE_OUTPUTS': ['True', 'False'],
}
PATHOPTS = {'memory/STORE_LAST_DEFAULT': ['True', 'False'], 'transforms/DEALIAS_BEFORE_CONVERTING': ['True', 'False']}      # move the truncation of unresolved products
KW = {'matrix construction/BC_TOP': 'bc_top', 'matrix construction/TAU_LEFT': 'tau_left', 'matrix construction/INTERLEAVE_COMPONENTS': 'interleave_components', 'matrix construction/STORE_EXPANDED_MATRICES': 'store_expanded_matrices'}


def gen_opts(rng, linear, p=0.5):
    O = dict(OPTS)
    if linear: O.update(PATHOPTS)
    return {k: rng.choice(v) for k, v in O.items() if rng.random() < p}


def gen_lib(rng, dom):
    real = dom['dtype'] == 'f'
    k = dom['kind']
    d = {}
    if (set(k) & set('RZ') or k in probs.CURV) and rng.random() < 0.7: d['az'] = rng.choice(['matrix', 'fftpack', 'scipy', 'fftw', 'fftw_hc'] if real and 'Z' not in k else ['matrix', 'scipy', 'fftw'])
    if ('C' in k and k not in probs.CURV or k in ('annulus', 'shell', 'cylA')) and rng.random() < 0.7: d['rad'] = rng.choice(['matrix', 'scipy_dct', 'fftw_dct'])
    return d


def evp(spec, ctx):
    """matrices and eigenpairs of an eigenvalue problem"""
    w = make_world(spec['dom'], spec.get('mesh'))
    P = probs.build(w, spec['prob'], 'EVP')
    solver = P.problem.build_solver(**(spec.get('kw') or {}))
    out = dict(eig=[])
    solver.build_matrices()
    for sp in solver.subproblems:
        if not sp.size: continue
        A, B = sp.L_min.toarray(), -sp.M_min.toarray()
        rec = dict(group=tuple(sp.group), L=np.sort(np.abs(A[A != 0])), M=np.sort(np.abs(B[B != 0])), rows=sorted(tuple(np.sort(np.abs(r[r != 0]))) for r in np.hstack([A, B])), cols=sorted(tuple(np.sort(np.abs(r[r != 0]))) for r in np.hstack([A.T, B.T])))
        solver.solve_dense(sp, left=True, normalize_left=False)
        ev, vec = np.array(solver.eigenvalues), np.array(solver.eigenvectors)
        ok = np.isfinite(ev) & (np.abs(ev) < 1e3)
        rec['n'] = int(ok.sum())
        rec['small'] = ev[ok]
        V = sp.pre_right.conj().T @ vec         # back from variables to matrix columns (a selection)
        V = V / np.maximum(np.linalg.norm(V, axis=0), 1e-300)
        nA, nB = np.linalg.norm(A), np.linalg.norm(B)
        rec['res'] = max([float(np.linalg.norm(A @ V[:, k] - ev[k] * (B @ V[:, k])) / (nA + abs(ev[k]) * nB)) for k in np.where(ok)[0]], default=0.0)
        def left(lv):
            U = sp.pre_left @ np.array(solver.left_eigenvectors)
            U = U / np.maximum(np.linalg.norm(U, axis=0), 1e-300)
            return max([float(np.linalg.norm(U[:, k].conj() @ A - lv[k] * (U[:, k].conj() @ B)) / (nA + abs(lv[k]) * nB)) for k in range(len(lv)) if np.isfinite(lv[k]) and abs(lv[k]) < 1e3], default=0.0)
        rec['left_res'] = left(ev)
        if len(A) > 6:
            try:
                try:
                    solver.solve_sparse(sp, 2, 0.3 + 0.1j, left=True, normalize_left=False, raise_on_mismatch=False)
                    rec['sparse_left_res'] = left(np.conj(solver.left_eigenvalues))
                except NotImplementedError: solver.solve_sparse(sp, 2, 0.3 + 0.1j)        # most matsolvers cannot solve the adjoint system
                sv = np.array(solver.eigenvalues)
                W = sp.pre_right.conj().T @ np.array(solver.eigenvectors)
                W = W / np.maximum(np.linalg.norm(W, axis=0), 1e-300)
                rec['sparse'] = len(sv)
                rec['sparse_res'] = max(float(np.linalg.norm(A @ W[:, k] - sv[k] * (B @ W[:, k])) / (nA + abs(sv[k]) * nB)) for k in range(len(sv)))
            except Exception as e: rec['sparse_err'] = type(e).__name__ + ': ' + str(e)[:100]
        out['eig'].append(rec)
    return out


class C20(Prop):
    id = 'C20'
    rule = ('a random expression set, IVP, LBVP, NLBVP or EVP evaluated on one process with the default configuration and then 2-3 times, on one process or a simulated mesh, with random combinations of all documented options (dedalus.cfg and solver keywords), transform libraries and matrix solvers; '
            'results compared up to rounding; non-trivial: at least 4 options set and either at least two ranks or a solver')
    quick_budget = 34
    tol = 1e-7

    def gen(self, rng, i, tier):
        kind = rng.choice(['expr', 'expr', 'solve', 'solve', 'solve', 'evp'])
        c = dict(kind=kind, runs=[])
        if kind == 'expr':
            b = c02.PROP.gen(rng, i, tier)
            c.update({k: b[k] for k in ('dom', 'leaves', 'exprs', 'reps', 'handler', 'onehandler', 'tlay')})
            linear = not any(c02.nonlinear(e) for e in b['exprs'])
        else:
            for _ in range(50):
                b = c05.PROP.gen(rng, i, tier)
                if (b['ptype'] == 'EVP') == (kind == 'evp'): break
            c.update({k: b[k] for k in b if k not in ('mesh', 'env', 'cfg', 'kw')})
            linear = b['ptype'] == 'LBVP' or kind == 'evp'
        for _ in range(rng.choice([2, 2, 3])):
            size, mesh = gen_mesh(rng, domain_dim(c['dom']), 6 if tier == 'quick' else 8)
            if rng.random() < 0.4: size, mesh = 1, None
            o = gen_opts(rng, linear)
            r = dict(cfg=o, mesh=mesh, env=gen_env(rng, size), lib=gen_lib(rng, c['dom']), kw={})
            if kind != 'expr' and rng.random() < 0.4:       # the same option as a keyword overrides the file
                for k, a in KW.items():
                    if rng.random() < 0.5: r['kw'][a] = rng.random() < 0.5
                if rng.random() < 0.5: r['kw']['matsolver'] = rng.choice(MATS)
            if kind == 'evp' and rng.random() < 0.6: r['kw']['matsolver'] = rng.choice(MATS)
            c['runs'].append(r)
        return c

    def spec(self, case, r=None):
        if case['kind'] == 'expr':
            s = dict(mod='c02', fn='work', **{k: case[k] for k in ('dom', 'leaves', 'exprs', 'reps', 'handler', 'onehandler', 'tlay')})
        else:
            s = {k: case[k] for k in case if k not in ('runs', 'index', 'kind')}
            s.update(mod='c20' if case['kind'] == 'evp' else 'c05', fn='evp' if case['kind'] == 'evp' else 'work')
            if r: s['kw'] = r['kw']
        if r: s['mesh'] = r['mesh']; s['dom'] = dict(case['dom'], lib=r['lib'])
        return s

    def run(self, sim, case):
        from ..runner import Outcome
        P = {}
        o = Outcome(key=self.key({k: case[k] for k in case if k != 'index'}), probes=P, nontrivial=False, sample=case if len(str(case)) < 5000 else None)
        s0 = self.spec(case)
        if case['kind'] == 'expr':
            if not case['exprs']: return o
            s0['serial'] = True
        sc = sim.new_scratch(); write_cfg(sc, {})
        r0 = sim.run(s0, SERIAL, sc)
        if case['kind'] == 'expr' and r0.status == 'ok':
            bad = [x['bad'] for x in r0.results[0] if 'bad' in x]
            if bad:
                P['unsupported_expr'] = len(bad)
                case = dict(case, exprs=[e for j, e in enumerate(case['exprs']) if j not in bad])
                r0.results[0] = [x for x in r0.results[0] if 'bad' not in x]
                if not case['exprs']: return o
        if r0.status != 'ok':
            if case['kind'] == 'expr': o['violation'] = job_viol(r0, 'default options: ')
            P['unsupported'] = 1; o['note'] = str(r0.detail)[:300]
            return o
        for k, r in enumerate(case['runs']):
            sc = sim.new_scratch(); write_cfg(sc, r['cfg'])
            q = sim.run(self.spec(case, r), r['env'], sc)
            what = 'options %s, libraries %s, keywords %s, %d processes: ' % (r['cfg'], r['lib'], r['kw'], r['env']['size'])
            v = job_viol(q, what)
            if not v:
                if case['kind'] == 'expr': v = c02.PROP.oracle(case, r0.results, q.results)
                elif case['kind'] == 'solve': v = c05.PROP.oracle(case, r0.results, q.results, P)
                else: v = self.eig(r0.results, q.results, P)
                if v: v['msg'] = what + v['msg']
            P[case.get('ptype', 'expr')] = P.get(case.get('ptype', 'expr'), 0) + 1
            if len(r['cfg']) > 3 and (r['env']['size'] > 1 or case['kind'] != 'expr'): o['nontrivial'] = True
            if v: o['violation'] = v; return o
        return o

    def eig(self, ser, par, P):
        S = {e['group']: e for e in ser[0]['eig']}
        seen = set()
        for r, p in enumerate(par):
            for e in p['eig']:
                s = S.get(e['group'])
                if s is None: return viol('subsystems', 'subproblem %s only with these options' % (e['group'],))
                seen.add(e['group'])
                for q in 'LM':
                    if e[q].shape != s[q].shape or relerr(e[q], s[q]) > 1e-9: return viol('matrix', 'subproblem %s: the entries of %s are not those of the default ordering' % (e['group'], q))
                for q in ('rows', 'cols'):
                    a, b = [sorted(len(x) for x in m[q]) for m in (e, s)]
                    if a != b: return viol('matrix', 'subproblem %s: the %s are not a permutation of the default ones' % (e['group'], q))
                for q in ('res', 'sparse_res', 'left_res', 'sparse_left_res'):
                    if q in e and q in s and max(e[q], s[q]) > 1e-6 and min(e[q], s[q]) <= 1e-8: return viol('eigenpair', 'subproblem %s: eigenpairs do not solve the eigenvalue problem (%s %.1e, default options %.1e)' % (e['group'], q, e[q], s[q]))
                if ('sparse_err' in e) != ('sparse_err' in s): return viol('eigs', 'subproblem %s: sparse eigenvalue search: %s, default options: %s' % (e['group'], e.get('sparse_err'), s.get('sparse_err')))
                a, b = e['small'], s['small']
                if e['n'] != s['n']: P['eig_count_differs'] = P.get('eig_count_differs', 0) + 1
                elif e['n']:
                    D = np.abs(a[:, None] - b[None, :]); d = max(D.min(axis=0).max(), D.min(axis=1).max())
                    if d > 1e-3 * (1 + np.abs(b).max()): return viol('eigenvalues', 'subproblem %s: eigenvalues differ by %.1e from those with default options' % (e['group'], d))
        if seen != set(S): return viol('subsystems', 'subproblems %s not solved' % sorted(set(S) - seen, key=str)[:5])
        return None

    def shrink(self, case):
        if len(case['runs']) > 1:
            for r in case['runs']: c = copy.deepcopy(case); c['runs'] = [r]; yield c
        for i, r in enumerate(case['runs']):
            for f in ('cfg', 'lib', 'kw'):
                for k in r[f]: c = copy.deepcopy(case); del c['runs'][i][f][k]; yield c
            if r['env'].get('size', 1) > 1:
                c = copy.deepcopy(case); c['runs'][i]['env'] = dict(SERIAL); c['runs'][i]['mesh'] = None; yield c
                if r['env'].get('stall_p') or r['env'].get('slow'):
                    c = copy.deepcopy(case); [c['runs'][i]['env'].pop(k, None) for k in ('stall_p', 'slow', 'stall_ns', 'clocks', 'hashseeds', 'latency')]; yield c
        if case['kind'] == 'expr': yield from self.shrink_list(case, 'exprs')
        if len(case.get('dts') or []) > 1:
            c = copy.deepcopy(case); c['dts'] = c['dts'][:-1]; yield c
        for k, v in (('again', None), ('newton', 1)):
            if case.get(k) and case[k] != v: c = copy.deepcopy(case); c[k] = v; yield c


PROP = C20()
