"""Shared building blocks: case generation (controller side) and domain
construction (rank side).  numpy only at import; dedalus is imported lazily."""
import os, json, hashlib, math
import numpy as np

REAL = ['dedalus (all Python and Cython code)', 'mpi4py', 'FFTW and FFTW-MPI', 'scipy/SuperLU', 'h5py/HDF5', 'kernel file system (tmpfs)']
STUB = ['MPI library (simulated transport, LD_PRELOAD)', 'clock, sleep and entropy', 'file-system call scheduling and faults']
ASSUME = ['simulated MPI follows the MPI-3 semantics used by dedalus, mpi4py and FFTW (blocking and trivially completed non-blocking operations)',
          'FFTW planning is run with the ESTIMATE rigor so that plans do not depend on measured time',
          'samples schedules, configurations and inputs; not exhaustive']


# ---------------------------------------------------------------- config
def cfg_text(opts=None):
    base = {('logging', 'stdout_level'): 'none', ('logging', 'nonroot_level'): 'critical', ('transforms-fftw', 'PLANNING_RIGOR'): 'estimate', ('parallelism-fftw', 'PLANNING_RIGOR'): 'estimate'}
    for k, v in (opts or {}).items():
        s, o = k.split('/')
        base[(s, o)] = v
    secs = {}
    for (s, o), v in base.items():
        secs.setdefault(s, []).append('%s = %s\n' % (o, v))
    return ''.join('[%s]\n%s' % (s, ''.join(l)) for s, l in secs.items())


def write_cfg(scratch, opts=None):
    with open(os.path.join(scratch, 'dedalus.cfg'), 'w') as f:
        f.write(cfg_text(opts))


def gen_cfg(rng, p=0.5, nonlin=True):
    """Options that must not change results."""
    o = {}

    def mb(k, vals):
        if rng.random() < p:
            o[k] = rng.choice(vals)
    mb('parallelism/GROUP_TRANSPOSES', ['True', 'False'])
    mb('parallelism/SYNC_TRANSPOSES', ['True', 'False'])
    mb('parallelism/TRANSPOSE_LIBRARY', ['fftw', 'mpi', 'mpi'])
    mb('parallelism-fftw/IN_PLACE', ['True', 'False'])
    mb('memory/STORE_OUTPUTS', ['True', 'False'])
    if not nonlin:      # moves the truncation of unresolved intermediate products
        mb('memory/STORE_LAST_DEFAULT', ['True', 'False'])
    return o


# ---------------------------------------------------------------- schedules
def gen_env(rng, size, clocks='mild'):
    e = dict(size=size, seed=rng.getrandbits(30))
    e['policy'] = rng.choice(['des', 'des', 'random', 'pct', 'starve', 'run'])
    if e['policy'] == 'starve':
        e['victim'] = rng.randrange(size)
    e['sync'] = rng.choice(['sync', 'eager', 'random', 'random'])
    e['rendezvous'] = rng.random() < 0.3
    if rng.random() < 0.3:
        e['stall_p'] = rng.choice([0.002, 0.02]); e['stall_ns'] = rng.choice([10**7, 10**9, 3 * 10**10])
    if rng.random() < 0.2 and size > 1:
        e['slow'] = [rng.randrange(size)]
    e['hashseeds'] = [rng.randrange(3) for _ in range(size)]
    if clocks == 'mild':
        if rng.random() < 0.5:
            e['clocks'] = [dict(skew=rng.randrange(-10**9, 10**9)) for _ in range(size)]
    elif clocks == 'wild':
        e['clocks'] = gen_clocks(rng, size)
    return e


def gen_clocks(rng, size, horizon=10**9):
    out = []
    for r in range(size):
        c = dict(skew=rng.choice([0, rng.randrange(-10**9, 10**9), rng.randrange(-3600 * 10**9, 3600 * 10**9)]), drift=rng.choice([0.0, 0.0, 1e-3, -1e-3, 0.5, -0.5]),
                 tick=rng.choice([0, 1000, 100000, 5000000]))
        if rng.random() < 0.3:
            c['jumps'] = sorted([rng.randrange(horizon), rng.randrange(-20 * 10**9, 20 * 10**9)] for _ in range(rng.randint(1, 3)))
        if rng.random() < 0.08:
            c['frozen'] = True
        out.append(c)
    return out


SERIAL = dict(size=1, seed=1, policy='des')


def gen_mesh(rng, dim, maxsize=6, curv=False):
    """(size, mesh) for a dim-dimensional distributor"""
    if dim < 2:
        return 1, None
    if dim == 2:
        n = rng.choice([2, 2, 3, 3, 4, 5, 6, 7][:maxsize + 1] if maxsize >= 6 else [2, 3, 4])
        n = min(n, maxsize)
        return n, rng.choice([[n], [n], None])
    opts = [[2], [3], [4], [5], [2, 1], [1, 2], [1, 3], [2, 2], [2, 2], [2, 3], [3, 2], [1, 4], [2, 2], [3, 1]]
    if maxsize >= 8:
        opts += [[4, 2], [2, 4], [3, 3]]
    opts = [m for m in opts if np.prod(m) <= maxsize]
    m = rng.choice(opts)
    return int(np.prod(m)), m


# ---------------------------------------------------------------- domains
def gen_domain(rng, kinds=None, small=True):
    kind = rng.choice(kinds or ['RR', 'RC', 'CR', 'CC', 'RRC', 'RRR', 'RCR', 'CRR', 'ZZ', 'ZC', 'ZZC', 'RL', 'RU', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'RRC', 'RC', 'cyl', 'cylA'])
    d = dict(kind=kind)
    d['dealias'] = rng.choice([1, 1.5, 1.5, 1.5, 2])
    if kind in ('disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl', 'cylA', 'S2xC'):
        d['dtype'] = rng.choice(['f', 'f', 'c'])
        if kind in ('disk', 'annulus'):
            d['N'] = [rng.choice([4, 8, 8, 12]), rng.choice([4, 5, 6, 8])]
        elif kind == 'sphere':
            d['N'] = list(rng.choice([(4, 4), (4, 6), (8, 4), (8, 6), (12, 6)]))
        elif kind in ('cyl', 'cylA'):
            d['N'] = [rng.choice([4, 6]), rng.choice([4, 8]), rng.choice([4, 5, 6])]
        else:
            d['N'] = list(rng.choice([(4, 3), (4, 4), (4, 6), (8, 4), (8, 6)])) + [rng.choice([3, 4, 6])]
    else:
        d['dtype'] = 'c' if 'Z' in kind else rng.choice(['f', 'f', 'f', 'c']) if 'R' not in kind else 'f'
        d['N'] = [(rng.choice([2, 4, 6, 8, 10, 12]) if k in 'RZ' else rng.choice([1, 3, 4, 5, 6, 8, 9])) for k in kind]
        d['jac'] = [rng.choice([0.0, -0.5, 0.5]) for _ in kind]
    return d


def domain_dim(d):
    return {'disk': 2, 'annulus': 2, 'sphere': 2, 'ball': 3, 'shell': 3, 'cyl': 3, 'cylA': 3}.get(d['kind']) or len(d['kind'])


class World:
    pass


def make_world(spec, mesh, on=None):
    """Build coordinates, distributor and bases for a domain spec."""
    import dedalus.public as d3
    w = World(); w.spec = spec
    kind, N = spec['kind'], spec['N']
    w.dtype = dt = np.float64 if spec['dtype'] == 'f' else np.complex128
    dl = spec['dealias']
    lib = spec.get('lib') or {}      # transform libraries
    az = dict(azimuth_library=lib['az']) if lib.get('az') else {}
    rl = dict(radius_library=lib['rad']) if lib.get('rad') else {}
    fl = dict(library=lib['az']) if lib.get('az') else {}
    jl = dict(library=lib['rad']) if lib.get('rad') else {}
    w.kind = kind
    Dist = (lambda *a, **k: on.dist) if on else d3.Distributor
    Co = lambda f, *a: on.cs if on else f(*a)
    if kind in ('disk', 'annulus'):
        w.cs = Co(d3.PolarCoordinates, 'phi', 'r'); w.names = ['phi', 'r']
        w.dist = Dist(w.cs, dtype=dt, mesh=mesh)
        if kind == 'disk':
            w.full = d3.DiskBasis(w.cs, shape=tuple(N), dtype=dt, radius=1.5, dealias=(dl, dl), **az); w.edge = w.full.edge
        else:
            w.full = d3.AnnulusBasis(w.cs, shape=tuple(N), dtype=dt, radii=(0.7, 1.9), dealias=(dl, dl), **az, **rl); w.edge = w.full.outer_edge
        w.bases = (w.full,); w.parts = {'edge': (w.edge,)}
        w.vec = w.cs
    elif kind == 'sphere':
        w.cs = Co(d3.S2Coordinates, 'phi', 'theta'); w.names = ['phi', 'theta']
        w.dist = Dist(w.cs, dtype=dt, mesh=mesh)
        w.full = d3.SphereBasis(w.cs, shape=tuple(N), dtype=dt, radius=1.3, dealias=(dl, dl), **az)
        w.bases = (w.full,); w.parts = {}
        w.vec = w.cs
    elif kind in ('ball', 'shell'):
        w.cs = Co(d3.SphericalCoordinates, 'phi', 'theta', 'r'); w.names = ['phi', 'theta', 'r']
        w.dist = Dist(w.cs, dtype=dt, mesh=mesh)
        if kind == 'ball':
            w.full = d3.BallBasis(w.cs, shape=tuple(N), dtype=dt, radius=1.5, dealias=(dl,) * 3, **az); surf = w.full.surface
        else:
            w.full = d3.ShellBasis(w.cs, shape=tuple(N), dtype=dt, radii=(0.7, 1.9), dealias=(dl,) * 3, **az, **rl); surf = w.full.outer_surface
        w.bases = (w.full,); w.parts = {'surface': (surf,)}
        if hasattr(w.full, 'radial_basis'):
            w.parts['radial'] = (w.full.radial_basis,)
        w.vec = w.cs
    elif kind in ('cyl', 'cylA'):
        w.cz, w.cp = (on.cz, on.cp) if on else (d3.Coordinate('z'), d3.PolarCoordinates('phi', 'r'))
        w.cs = Co(d3.DirectProduct, w.cz, w.cp); w.names = ['z', 'phi', 'r']
        w.dist = Dist(w.cs, dtype=dt, mesh=mesh)
        F = d3.RealFourier if dt is np.float64 else d3.ComplexFourier
        zb = F(w.cz, size=N[0], bounds=(0, 2.0), dealias=dl, **fl)
        if kind == 'cyl':
            pb = d3.DiskBasis(w.cp, shape=(N[1], N[2]), dtype=dt, radius=1.5, dealias=(dl, dl), **az); ed = pb.edge
        else:
            pb = d3.AnnulusBasis(w.cp, shape=(N[1], N[2]), dtype=dt, radii=(0.7, 1.9), dealias=(dl, dl), **az, **rl); ed = pb.outer_edge
        w.full = (zb, pb); w.bases = (zb, pb); w.parts = {'edge': (zb, ed), 'z': (zb,), 'polar': (pb,)}
        w.vec = w.cs
    else:
        w.names = ['x', 'y', 'z', 'w'][:len(kind)]
        w.cs = Co(d3.CartesianCoordinates, *w.names)
        w.dist = Dist(w.cs, dtype=dt, mesh=mesh)
        bs = []
        for i, k in enumerate(kind):
            c = w.cs[w.names[i]]; b = (0.2 * i, 1.0 + 0.5 * i)
            if k == 'R': bs.append(d3.RealFourier(c, size=N[i], bounds=b, dealias=dl, **fl))
            elif k == 'Z': bs.append(d3.ComplexFourier(c, size=N[i], bounds=b, dealias=dl, **fl))
            elif k == 'C': bs.append(d3.ChebyshevT(c, size=N[i], bounds=b, dealias=dl, **jl))
            elif k == 'U': bs.append(d3.ChebyshevU(c, size=N[i], bounds=b, dealias=dl))
            elif k == 'L': bs.append(d3.Legendre(c, size=N[i], bounds=b, dealias=dl))
            elif k == 'J': bs.append(d3.Jacobi(c, size=N[i], bounds=b, a=spec['jac'][i], b=spec['jac'][i], dealias=dl))
        w.bases = tuple(bs); w.full = w.bases
        w.parts = {w.names[i]: (bs[i],) for i in range(len(bs))}
        if len(bs) == 3:
            w.parts.update({'xy': (bs[0], bs[1]), 'yz': (bs[1], bs[2]), 'xz': (bs[0], bs[2])})
        w.vec = w.cs
    w.parts['full'] = w.bases
    w.parts['const'] = ()
    return w


def add_alt(w, alt):
    """A second set of bases on the same coordinates and distributor (w.parts['alt'])."""
    if not alt: return
    d = dict(w.spec, **alt)
    w2 = make_world(d, None, w)
    w.parts['alt'] = w2.bases
    w.alt_dtype = w2.dtype


def part_names(spec):
    k = spec['kind']
    if k in ('disk', 'annulus'): return ['edge', 'const']
    if k == 'sphere': return ['const']
    if k in ('ball', 'shell'): return ['surface', 'const', 'radial']
    if k in ('cyl', 'cylA'): return ['edge', 'z', 'polar', 'const']
    n = ['x', 'y', 'z'][:len(k)]
    return n + (['xy', 'yz', 'xz'] if len(k) == 3 else []) + ['const']


def new_field(w, part, rank, name=None):
    b = w.parts[part]
    kw = dict(dtype=w.alt_dtype) if part == 'alt' else {}
    if rank == 0: return w.dist.Field(name=name, bases=b, **kw)
    if rank == 1: return w.dist.VectorField(w.vec, name=name, bases=b, **kw)
    return w.dist.TensorField((w.vec,) * rank, name=name, bases=b, **kw)


def fill(f, seed, kind='coeff'):
    """Deterministic, mesh-independent smooth data set through the public API
    from an array every rank computes identically (no reliance on fill_random)."""
    lay = f.dist.get_layout_object('g')
    f.preset_scales(1)
    shape = tuple(c.dim for c in f.tensorsig) + tuple(lay.global_shape(f.domain, scales=1))
    rs = np.random.RandomState(seed)
    a = rs.standard_normal(shape)
    if np.dtype(f.dtype).kind == 'c':
        a = a + 1j * rs.standard_normal(shape)
    sl = tuple(slice(None) for _ in f.tensorsig) + tuple(lay.slices(f.domain, scales=1))
    f['g'] = a[sl]
    if kind == 'coeff':
        f['c']
        f['g']      # project on resolved modes
    return f


def lowpass(f, frac):
    """keep only the low modes of every axis, so that products of two such fields are resolved"""
    f.change_scales(1)
    a = f['c']
    lay = f.layout
    gs = lay.global_shape(f.domain, f.scales)
    for ax, (n, q) in enumerate(zip(gs, lay.slices(f.domain, f.scales))):
        ix = np.arange(n)[q] if isinstance(q, slice) else np.asarray(q).ravel()
        sh = [1] * len(gs); sh[ax] = -1
        a = a * ((ix <= n * frac) | (n == 1)).reshape(sh)
    f.data[...] = a
    return f


def gathered(f, layout, mask=False):
    """Global array assembled from per-rank pieces by the controller (not by dedalus).
    mask: zero the coefficient slots that represent no mode (their content is unspecified)."""
    f.change_layout(layout)
    lay = f.layout
    if mask and not any(lay.grid_space):
        try: f.data[~np.broadcast_to(f.valid_modes, f.data.shape)] = 0
        except AttributeError: pass     # basis without mode validity (radial part of a shell): every slot is a mode
        if f.data.size:
            grp = lay.local_group_arrays(f.domain, f.scales)
            f.data[..., np.ma.getmaskarray(grp).any(axis=0)] = 0
    sl = lay.slices(f.domain, f.scales)
    gs = tuple(c.dim for c in f.tensorsig) + tuple(lay.global_shape(f.domain, f.scales))
    return dict(data=np.array(f.data), sl=[sl_json(s) for s in sl], gshape=tuple(int(x) for x in gs), grid=tuple(bool(b) for b in lay.grid_space), nt=len(f.tensorsig))


def sl_json(s):
    if isinstance(s, slice):
        return ('s', s.start, s.stop, s.step)
    return ('i', np.asarray(s).ravel().tolist())


def sl_back(s, n):
    if s[0] == 's':
        return np.arange(n)[slice(*s[1:])]
    return np.array(s[1], dtype=int)


def assemble(pieces):
    """Assemble a global array from per-rank gathered() records; returns (array, error)."""
    g = pieces[0]['gshape']
    for p in pieces:
        if p['gshape'] != g:
            return None, 'ranks disagree on the global shape: %s vs %s' % (g, p['gshape'])
    nt = pieces[0]['nt']
    out = np.full(g, np.nan, dtype=pieces[0]['data'].dtype)
    count = np.zeros(g, dtype=int)
    for r, p in enumerate(pieces):
        idx = [np.arange(g[k]) for k in range(nt)] + [sl_back(s, g[nt + k]) for k, s in enumerate(p['sl'])]
        want = tuple(len(i) for i in idx)
        if p['data'].shape != want:
            return None, 'rank %d: data shape %s does not match its slices %s' % (r, p['data'].shape, want)
        if p['data'].size:
            ix = np.ix_(*idx)
            out[ix] = p['data']; count[ix] += 1
    if not np.all(count == 1):
        return None, 'blocks do not tile the global array: coverage counts %s' % (sorted(set(count.ravel().tolist())),)
    return out, None


def relerr(a, b, floor=0.0):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float('inf')
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        ok = np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(a[np.isfinite(a)].shape, b[np.isfinite(b)].shape)
        if not ok: return float('inf')
        m = np.isfinite(a) & np.isfinite(b)
        if not np.array_equal(a[~m & ~np.isnan(a)], b[~m & ~np.isnan(b)]): return float('inf')
        a, b = a[m], b[m]
        if a.size == 0: return 0.0
    s = max(1e-3, floor, float(np.max(np.abs(b))))
    return float(np.max(np.abs(a - b))) / s


# ---------------------------------------------------------------- property base
def viol(cls, msg):
    return dict(cls=cls, msg=msg)


BAD = ('mismatch', 'deadlock', 'steplimit', 'stuck', 'died', 'abort', 'exception')


def job_viol(r, what=''):
    """A job that must simply succeed."""
    if r.status == 'ok':
        return None
    d = r.detail
    if r.status == 'exception':
        cls = 'exception-' + str(d.get('exc'))
        return viol(cls, '%srank %s raised %s: %s\n%s' % (what, d.get('rank'), d.get('exc'), d.get('msg'), d.get('tb', '')[-1500:]))
    return viol(r.status, '%s%s: %s' % (what, r.status, d))


class Prop:
    level = 'exploration'
    quick_cases = 100000
    quick_budget = 36
    thorough_budget = 1500
    real, stub, assumptions = REAL, STUB, ASSUME
    rule = ''

    def repeatable(self, case):
        """is every message of this case determined by the seed?  (FFTW chooses its plans by measuring them, and profiles hold addresses)"""
        t = str(case)
        return not ("'measure'" in t or "'patient'" in t or case.get('profile'))

    def key(self, *a):
        return hashlib.md5(json.dumps(a, sort_keys=True, default=str).encode()).hexdigest()[:16]

    def shrink_env(self, case):
        import copy
        e = case.get('env')
        if not e:
            return
        for k in ('stall_p', 'slow', 'rendezvous', 'clocks', 'hashseeds', 'latency'):
            if e.get(k):
                c = copy.deepcopy(case); c['env'].pop(k); yield c
        if e.get('policy', 'des') != 'des':
            c = copy.deepcopy(case); c['env']['policy'] = 'des'; yield c
        if e.get('sync') != 'sync':
            c = copy.deepcopy(case); c['env']['sync'] = 'sync'; yield c
        for i in range(len(e.get('faults') or [])):
            c = copy.deepcopy(case); del c['env']['faults'][i]; yield c

    def shrink_list(self, case, key):
        import copy
        n = len(case.get(key) or [])
        k = n // 2
        while k >= 1:
            for i in range(0, n, k):
                if n - k >= 1 or True:
                    c = copy.deepcopy(case); del c[key][i:i + k]
                    if len(c[key]) < n: yield c
            k //= 2

    def shrink_cfg(self, case):
        import copy
        for k in list(case.get('cfg') or {}):
            c = copy.deepcopy(case); del c['cfg'][k]; yield c

    def shrink_mesh(self, case):
        import copy
        if case.get('mesh') is not None or case.get('env', {}).get('size', 1) > 2:
            for m in ([2], [1, 2], [3], [2, 2]):
                n = int(np.prod(m))
                if n < case['env']['size'] or (n == case['env']['size'] and case.get('mesh') is not None and len(m) < len(case['mesh'])):
                    if len(m) < self.case_dim(case):
                        c = copy.deepcopy(case); c['mesh'] = m; c['env']['size'] = n
                        c['env'].pop('slow', None); c['env'].pop('hashseeds', None); c['env'].pop('clocks', None)
                        if c['env'].get('victim', 0) >= n: c['env']['victim'] = 0
                        yield c

    def case_dim(self, case):
        return domain_dim(case['dom']) if 'dom' in case else 3

    def shrink(self, case):
        for k in ('ops', 'fields'):
            if case.get(k):
                yield from self.shrink_list(case, k)
        yield from self.shrink_cfg(case)
        yield from self.shrink_mesh(case)
        yield from self.shrink_env(case)
