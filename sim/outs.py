"""Output sessions: file handlers driven write by write, with data that encodes which write it is.
Shared by the properties about output files (C10, C11, C12, C16): rank-side workload and controller-side model."""
import os, re, hashlib, shutil
import numpy as np
from .lib import *

TASKS = {'s': 0, 'v': 1, 'T': 2, 'q': 0, 'e': 0, 'x': 0}      # task kind -> tensor rank
LEN = [1.0, 2.0, 3.0]


def profile(dim, N, scale):
    """cos/sin profile on the grid, resolved by every N >= 4"""
    g = [np.arange(int(n * scale)) / int(n * scale) for n in N]
    out = np.zeros([int(n * scale) for n in N])
    for ax in range(dim):
        sh = [1] * dim; sh[ax] = -1
        out = out + ((ax + 1) * np.cos(2 * np.pi * g[ax])).reshape(sh)
    return out


def expected(kind, dim, N, code, scale, layout):
    """global array of a task for the write with this code; None where only the mean is checked"""
    p = profile(dim, N, scale)
    amp = float(code)
    if kind == 'q': return np.full([1] * dim, amp)
    if kind == 's': base = amp + p
    elif kind == 'e': base = 2 * (amp + p) - 1.0
    elif kind == 'v': base = np.stack([(i + 1) * amp + p for i in range(dim)])
    elif kind == 'T': base = np.stack([np.stack([(i + 1) * (j + 2) * amp + p for j in range(dim)]) for i in range(dim)])
    elif kind == 'x':       # mean over the first axis
        sh = list(p.shape); sh[0] = 1
        base = amp + (p - p.mean(axis=0, keepdims=True)).mean(axis=0, keepdims=True) + profile(dim, N, scale).mean(axis=0, keepdims=True)
    return base


def session(spec, ctx):
    import dedalus.public as d3
    from dedalus.core.evaluator import Evaluator
    dim, N = spec['dim'], spec['N']
    names = ['x', 'y', 'z'][:dim]
    c = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(c, dtype=np.float64, mesh=spec.get('mesh'))
    b = tuple(d3.RealFourier(c[n], size=N[i], bounds=(0, LEN[i]), dealias=1) for i, n in enumerate(names))
    F = dict(s=dist.Field(name='s', bases=b), v=dist.VectorField(c, name='v', bases=b), T=dist.TensorField((c, c), name='T', bases=b), q=dist.Field(name='q'))
    F['e'] = 2 * F['s'] - 1
    F['x'] = d3.Average(F['s'], c['x'])
    lay = dist.get_layout_object('g')

    def load(code):
        p = profile(dim, N, 1)
        for k in ('s', 'v', 'T', 'q'):
            f = F[k]; f.preset_scales(1)
            f['g'] = expected(k, dim, N, code, 1, 'g')[(slice(None),) * TASKS[k] + tuple(lay.slices(f.domain, 1))]
    ev = Evaluator(dist, {})
    H = []
    for i, h in enumerate(spec['handlers']):
        kw = {k: h[k] for k in ('mode', 'max_writes') if h.get(k) is not None}
        ctx.note('ctor', i)
        fh = ev.add_file_handler(h['path'], parallel=h.get('parallel'), iter=1, **kw)
        for t in h['tasks']: fh.add_task(F[t['k']], layout=t['layout'], scales=t['scales'], name=t['name'])
        ctx.note('made', i, int(fh.set_num), int(fh.total_write_num))
        orig = fh.process
        st = dict(n=0)

        def process(orig=orig, i=i, st=st, fh=fh, **kw):
            ctx.note('start', i, st['n'])
            orig(**kw)
            ctx.note('end', i, st['n'], int(fh.set_num), int(fh.total_write_num))
            st['n'] += 1
        fh.process = process
        H.append(fh)
    for k, who in enumerate(spec['plan']):
        code = spec['code'] + k
        load(code)
        if spec.get('touch'): F['s'].change_scales(1.5); F['v'].change_layout('c')
        for _ in range(spec.get('idle', 0)): dist.comm.Barrier()
        t = spec.get('t0', 0.0) + 0.25 * k
        ev.evaluate_handlers([H[i] for i in who], iteration=spec['code'] + k, wall_time=10.0 * k, sim_time=t, timestep=0.25)
    return True


def verify(spec, ctx):
    """Read every HDF5 file below the working directory (one process)."""
    from .prog import read_files
    return read_files(spec, ctx)


# ---------------------------------------------------------------- controller side
def snapshot(root):
    out = {}
    for dp, dn, fn in os.walk(root):
        rel = os.path.relpath(dp, root)
        if rel != '.': out[rel + '/'] = 'dir'
        for f in fn:
            p = os.path.join(dp, f)
            out[os.path.relpath(p, root)] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return out


def gen_tasks(rng):
    n = rng.randint(1, 3)
    return [dict(k=rng.choice(['s', 's', 'v', 'T', 'q', 'e', 'x']), layout=rng.choice(['g', 'g', 'g', 'c']), scales=rng.choice([None, 1, 1.5, 2]), name=rng.choice(['t%d', 'task %d', 'a.b_%d']) % j) for j in range(n)]


def gen_world(rng, tier='quick'):
    dim = rng.choice([2, 2, 3])
    size, mesh = gen_mesh(rng, dim, 6 if tier == 'quick' else 8)
    if rng.random() < 0.15: size, mesh = 1, None
    N = [rng.choice([4, 6, 8]) for _ in range(dim)]
    return dim, N, size, mesh


def stem(path):
    import pathlib
    return pathlib.PurePosixPath(path).stem


def setfile(path, n):
    return '%s/%s_s%d.h5' % (path, stem(path), n)


def own(path, p):
    """set number if p (relative file or dir/) belongs to a set of the handler at path"""
    m = re.match(re.escape('%s/%s_s' % (path, stem(path))) + r'(\d+)(\.h5$|/)', p)
    return int(m.group(1)) if m else None


def check_set(d, h, world, writes, setnum, what):
    """compare a file record of prog.read_file with its expected writes [(code, write_number, index in session, t0)]"""
    dim, N = world['dim'], world['N']
    if 'error' in d: return viol('unreadable', '%s: %s' % (what, d['error']))
    a = d['attrs']
    if a.get('set_number') != setnum or a.get('writes') != len(writes) or a.get('handler_name') != stem(h['path']): return viol('attrs', '%s: attributes %s, expected set %d with %d writes' % (what, a, setnum, len(writes)))
    for name, v in (('write_number', [w[1] for w in writes]), ('iteration', [w[0] for w in writes]), ('sim_time', [w[3] + 0.25 * w[2] for w in writes]), ('wall_time', [10.0 * w[2] for w in writes]), ('timestep', [0.25] * len(writes))):
        got = d['scales'].get(name)
        if got is None or got.tolist() != v: return viol('scales', '%s: %s is %s, expected %s' % (what, name, None if got is None else got.tolist(), v))
    if set(d['tasks']) != {t['name'] for t in h['tasks']}: return viol('tasks', '%s: tasks %s' % (what, sorted(d['tasks'])))
    for t in h['tasks']:
        X = d['tasks'][t['name']]['data']
        sc = 1 if t['scales'] is None or t['layout'] == 'c' else t['scales']
        if t['k'] == 'q': sc = 1
        r = TASKS[t['k']]
        if t['layout'] == 'g':
            for ax in range(dim):
                lab, names = d['tasks'][t['name']]['dims'][1 + r + ax]
                if t['k'] == 'q' or t['k'] == 'x' and ax == 0: g, want = np.zeros(1), 'constant'
                else: g, want = LEN[ax] * np.arange(int(N[ax] * sc)) / int(N[ax] * sc), 'xyz'[ax]
                got = d['scales'].get(names[0][0]) if len(names) == 1 else None
                if lab != want or got is None or got.shape != g.shape or not np.allclose(got, g, rtol=0, atol=1e-12): return viol('grid', '%s task %s: axis %d has label %s and scales %s = %s, expected %s' % (what, t['name'], ax, lab, names, got, g))
        if len(X) != len(writes): return viol('shape', '%s task %s: %d writes stored, expected %d' % (what, t['name'], len(X), len(writes)))
        for i, w in enumerate(writes):
            if t['layout'] == 'g':
                E = expected(t['k'], dim, N, w[0], sc, 'g')
                x = X[i]
            else:
                E = expected(t['k'], dim, N, w[0], 1, 'g')
                E = E.mean(axis=tuple(range(r, E.ndim)))
                x = X[i][(slice(None),) * r + (0,) * dim]
            if x.shape != E.shape: return viol('shape', '%s task %s: shape %s, expected %s' % (what, t['name'], x.shape, E.shape))
            e = relerr(x, E)
            if not e < 1e-11: return viol('data', '%s task %s: stored write %d (number %d) differs from the data of that write by %.2e' % (what, t['name'], i, w[1], e))
    return None


class Model:
    """What must be on disk under each handler's base path."""

    def __init__(self):
        self.sets = {}      # path -> {set number: dict(h, world, writes, complete)}

    def begin(self, h):
        S = self.sets.setdefault(h['path'], {})
        if h['mode'] == 'overwrite': S.clear()
        last = max(S) if S else 0
        nw = 0
        if S: nw = S[last]['writes'][-1][1]
        return last, nw

    def run(self, spec, upto=None):
        """apply a completed session; upto: {handler: number of writes} actually finished"""
        for i, h in enumerate(spec['handlers']):
            cur, nw = self.begin(h)
            S = self.sets[h['path']]
            ks = [k for k, who in enumerate(spec['plan']) if i in who]
            if upto is not None: ks = ks[:upto[i]]
            n = 0
            for k in ks:
                if n == 0 or (h.get('max_writes') and len(S[cur]['writes']) >= h['max_writes']):
                    cur += 1; S[cur] = dict(h=h, world=spec, writes=[])
                n += 1; nw += 1
                S[cur]['writes'].append((spec['code'] + k, nw, k, spec.get('t0', 0.0)))

    def check(self, files, skip=()):
        for path, S in self.sets.items():
            for n, s in S.items():
                if (path, n) in skip: continue
                p = setfile(path, n)
                if p not in files: return viol('missing', 'set file %s is missing; found %s' % (p, sorted(files)))
                v = check_set(files[p], s['h'], s['world'], s['writes'], n, p)
                if v: return v
            extra = [p for p in files if own(path, p) is not None and '/' not in p[len(path) + 1:] and own(path, p) not in S]
            if extra: return viol('extra', 'unexpected set files %s; expected sets %s' % (extra, sorted(S)))
        return None
