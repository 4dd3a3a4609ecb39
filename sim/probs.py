"""Problem library shared by the solver-level properties (rank side) and its generator (controller side)."""
import numpy as np
from .lib import *

CH = ['RC', 'ZC', 'RRC', 'ZZC', 'RL', 'RU']
FF = ['RR', 'ZZ', 'RRR']
CURV = ['disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl', 'cylA']
SCHEMES = ['CNAB1', 'SBDF1', 'CNAB2', 'MCNAB2', 'SBDF2', 'CNLF2', 'SBDF3', 'SBDF4', 'RK111', 'RK222', 'RK443', 'RKSMR']
MULTI = {'CNAB1': 1, 'SBDF1': 1, 'CNAB2': 2, 'MCNAB2': 2, 'SBDF2': 2, 'CNLF2': 2, 'SBDF3': 3, 'SBDF4': 4}


def gen_ivp(rng, kinds=None, names=None, small=False):
    """(domain, problem) for an initial value problem"""
    name = rng.choice(names or ['heat', 'heat', 'ns', 'ns', 'rb', 'sw', 'ncc'])
    if name == 'rb': pool = ['RC', 'RRC', 'RC', 'ZC']
    elif name == 'sw': pool = ['sphere']
    elif name == 'ns': pool = ['RR', 'RC', 'RRC', 'RRR', 'disk', 'annulus', 'ball', 'shell', 'RC', 'ZZ']
    elif name == 'ncc': pool = ['RC', 'ZC', 'RRC', 'disk', 'annulus', 'ball', 'shell', 'RL']
    else: pool = CH + FF + CURV
    if kinds: pool = [k for k in pool if k in kinds] or ['RC']
    dom = gen_domain(rng, [rng.choice(pool)])
    fix_domain(rng, dom, small)
    return dom, dict(name=name, nu=rng.choice([0.02, 0.1, 0.5]), al=rng.choice([0.0, 0.3, -0.2]), seed=rng.randrange(10**6), tdep=rng.random() < 0.4)


def fix_domain(rng, dom, small=False):
    dom['dealias'] = 1.5
    k = dom['kind']
    if k.strip('RZCLUJ') == '':
        dom['N'] = [rng.choice([4, 6, 8, 10]) if c in 'RZ' else rng.choice([5, 6, 8]) for c in k]
        if small or len(k) == 3: dom['N'] = [rng.choice([4, 6]) if c in 'RZ' else rng.choice([5, 6]) for c in k]
    elif k in ('disk', 'annulus'):
        dom['N'] = [rng.choice([4, 8, 12]), rng.choice([5, 6, 8])]
    elif k in ('ball', 'shell'):
        dom['N'] = list(rng.choice([(4, 4), (8, 4), (8, 6)])) + [rng.choice([4, 5, 6])]
    elif k in ('cyl', 'cylA'):
        dom['N'] = [4, rng.choice([4, 8]), rng.choice([5, 6])]


class Prob:
    pass


def build(w, pb, ptype='IVP'):
    """Returns Prob with .problem, .state (list), .main (prognostic fields), .ns"""
    import dedalus.public as d3
    kind, dist, cs = w.kind, w.dist, w.cs
    nu, al, name = pb['nu'], pb.get('al', 0.0), pb['name']
    P = Prob()
    curv = kind in CURV
    B = w.bases
    if pb.get('radial'):        # only the last (coupled) axis
        B = (w.full.radial_basis,) if kind in ('annulus', 'shell') else w.bases[-1:]
    ns = dict(nu=nu, al=al, np=np)
    vars_, eqs = [], []
    F = lambda n, b=None: dist.Field(name=n, bases=b)
    V = lambda n, b=None: dist.VectorField(w.vec, name=n, bases=b)
    if ptype == 'EVP':
        sg = dist.Field(name='sg'); ns['sg'] = sg
    dt = (lambda a: 'dt(%s)' % a) if ptype == 'IVP' else (lambda a: 'sg*%s' % a) if ptype == 'EVP' else (lambda a: '0.7*%s' % a)
    f = F('f', B); fill(f, pb['seed'] + 1, 'coeff'); smooth(f); ns['f'] = f
    P.forcing = f
    fs = 'f'
    if ptype == 'IVP' and pb.get('tdep'): fs = 'np.cos(3*t)*f'
    if pb.get('par'):       # amplitude and boundary value held in fields without basis
        a = F('a'); a['g'] = 1.0; ns['a'] = a; bv = F('bv'); bv['g'] = 0.3; ns['bv'] = bv
        fs = 'a*' + fs
    if ptype == 'EVP': rhs_s = '0'
    elif ptype == 'LBVP': rhs_s = fs
    elif al: rhs_s = 'al*s*s + ' + fs
    else: rhs_s = fs
    rhs_u = '0' if ptype == 'EVP' else 'fu' if ptype == 'LBVP' else '-u@grad(u)'
    if name in ('ns', 'rb') and ptype == 'LBVP':
        fu = V('fu', B); fill(fu, pb['seed'] + 2); smooth(fu); ns['fu'] = fu
    # geometry
    if kind.strip('RZ') == '': geo = 'per'
    elif kind in ('disk', 'ball', 'cyl'): geo = 'one'
    elif kind == 'sphere': geo = 'per'
    else: geo = 'two'
    if kind in ('annulus', 'shell'):
        full = w.full; nr = 1 if kind == 'annulus' else 2
        rv = dist.VectorField(cs, name='rv', bases=full.radial_basis); rv['g'][nr] = dist.local_grids(full)[nr]
        ns['nv'] = rv
        lb = full.derivative_basis(1); ns['lift'] = lambda A: d3.Lift(A, lb, -1)
        edge = w.edge if kind == 'annulus' else w.parts['surface'][0]
        bcs = ('(r=0.7)', '(r=1.9)'); eb = edge
    elif kind in ('disk', 'ball'):
        full = w.full; ns['lift'] = lambda A: d3.Lift(A, full, -1)
        eb = w.edge if kind == 'disk' else w.parts['surface'][0]; bcs = ('(r=1.5)',)
    elif kind in ('cyl', 'cylA'):
        pbs = w.full[1]; eb = w.parts['edge']
        if kind == 'cyl':
            ns['lift'] = lambda A: d3.Lift(A, pbs, -1); bcs = ('(r=1.5)',)
        else:
            lb = pbs.derivative_basis(2); ns['lift1'] = lambda A: d3.Lift(A, lb, -1); ns['lift2'] = lambda A: d3.Lift(A, lb, -2); bcs = ('(r=0.7)', '(r=1.9)')
    elif geo == 'two':
        zn = w.names[-1]; zb = w.bases[-1]
        ns['lb'] = lb = zb.derivative_basis(1); ns['lift'] = lambda A: d3.Lift(A, lb, -1)
        ns['nv'] = cs.unit_vector_fields(dist)[-1]
        lo, hi = zb.bounds
        ns['zlo'], ns['zhi'] = lo, hi
        bcs = ('(%s=zlo)' % zn, '(%s=zhi)' % zn); eb = w.bases[:-1]
    else:
        eb, bcs = None, ()
    if pb.get('radial'): eb = None
    # coefficient
    c = None
    if name == 'ncc':
        if kind in CURV:
            if hasattr(w.full, 'radial_basis'):
                rb = w.full.radial_basis; ri = -1
                c = F('c', rb); c['g'] = 1 + dist.local_grids(w.full)[ri] ** 2
        else:
            c = F('c', w.bases[-1]); z = dist.local_grids(*w.bases)[-1]; c['g'] = 1 + z + 0.3 * z ** 2
        ns['c'] = c
    main = []
    s = None
    if name in ('heat', 'ncc', 'rb'):
        s = F('s', B); ns['s'] = s; main.append(s)
        extra = '' if c is None else ' + c*s'
        if geo == 'per':
            eqs.append('%s - nu*lap(s)%s = %s' % (dt('s'), extra, rhs_s)); vars_.append(s)
        elif geo == 'one':
            t1 = F('ts1', eb); ns['ts1'] = t1
            eqs += ['%s - nu*lap(s)%s + lift(ts1) = %s' % (dt('s'), extra, rhs_s), 's%s = 0' % bcs[0]]; vars_ += [s, t1]
        else:
            t1, t2 = F('ts1', eb), F('ts2', eb); ns.update(ts1=t1, ts2=t2)
            if kind == 'cylA':
                eqs += ['%s - nu*lap(s) + lift1(ts1) + lift2(ts2) = %s' % (dt('s'), rhs_s)]
            else:
                ns['gs'] = d3.grad(s) + ns['nv'] * ns['lift'](t1)
                r = rhs_s if name != 'rb' else ('0' if ptype == 'EVP' else fs if ptype == 'LBVP' else '-u@grad(s) + ' + fs)
                eqs += ['%s - nu*div(gs)%s + lift(ts2) = %s' % (dt('s'), extra, r)]
            eqs += ['s%s = 0' % bcs[0], 's%s = %s' % (bcs[1], '0' if ptype == 'EVP' else 'bv' if pb.get('par') else '0.3')]; vars_ += [s, t1, t2]
    if name in ('ns', 'rb'):
        u, p, tp = V('u', B), F('p', B), F('tp'); ns.update(u=u, p=p, tp=tp); main.append(u)
        buoy = ' - s*nv' if name == 'rb' else ''
        if geo == 'per':
            eqs += ['%s - nu*lap(u) + grad(p) = %s' % (dt('u'), rhs_u), 'div(u) + tp = 0', 'integ(p) = 0']; vars_ += [u, p, tp]
        elif geo == 'one':
            t1 = V('tu1', eb); ns['tu1'] = t1
            eqs += ['%s - nu*lap(u) + grad(p) + lift(tu1) = %s' % (dt('u'), rhs_u), 'div(u) + tp = 0', 'u%s = 0' % bcs[0], 'integ(p) = 0']; vars_ += [u, p, tp, t1]
        else:
            t1, t2 = V('tu1', eb), V('tu2', eb); ns.update(tu1=t1, tu2=t2)
            ns['gu'] = d3.grad(u) + ns['nv'] * ns['lift'](t1)
            eqs += ['trace(gu) + tp = 0', '%s - nu*div(gu) + grad(p)%s + lift(tu2) = %s' % (dt('u'), buoy, rhs_u), 'u%s = 0' % bcs[0], 'u%s = 0' % bcs[1], 'integ(p) = 0']; vars_ += [u, p, tp, t1, t2]
    if name == 'sw':
        u, h = V('u', B), F('h', B); ns.update(u=u, h=h); main += [u, h]
        ns['zcross'] = lambda A: d3.MulCosine(d3.skew(A))
        eqs += ['%s - nu*lap(u) + grad(h) + 2*zcross(u) = %s' % (dt('u'), '0' if ptype == 'EVP' else '-u@grad(u)'), '%s - nu*lap(h) + div(u) = %s' % (dt('h'), '0' if ptype == 'EVP' else '-div(h*u)')]
        vars_ += [u, h]
    if ptype == 'IVP':
        if pb.get('tdep'):
            P.t = ns['t'] = dist.Field(name='t')
            pr = d3.IVP(vars_, time=ns['t'], namespace=ns)
        else:
            pr = d3.IVP(vars_, namespace=ns)
    elif ptype == 'LBVP': pr = d3.LBVP(vars_, namespace=ns)
    elif ptype == 'NLBVP': pr = d3.NLBVP(vars_, namespace=ns)
    else: pr = d3.EVP(vars_, eigenvalue=sg, namespace=ns)
    for e in eqs: pr.add_equation(e)
    P.problem, P.vars, P.main, P.ns, P.eqs = pr, vars_, main, ns, eqs
    P.s = s
    return P


def smooth(f):
    """Damp the high modes by a mesh-independent global profile (in coefficient space)."""
    f.change_scales(1)
    a = f['c']
    lay = f.layout
    sl = lay.slices(f.domain, f.scales)
    gs = lay.global_shape(f.domain, f.scales)
    fac = 1.0
    for ax, (n, q) in enumerate(zip(gs, sl)):
        ix = np.arange(n)[q] if isinstance(q, slice) else np.asarray(q).ravel()
        sh = [1] * len(gs); sh[ax] = -1
        fac = fac * (1.0 / (1.0 + 0.5 * ix)).reshape(sh)
    f.data[...] = a * fac
    return f


def init_state(P, seed, amp=0.5):
    for i, f in enumerate(P.main):
        fill(f, seed + 17 * i)
        smooth(f)
        f.data *= amp

