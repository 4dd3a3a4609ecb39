"""C17: parallel helpers (Sync, RotateProcesses, parallel_mkdir) order processes as documented."""
import copy, os, time, errno, pathlib
import numpy as np
from ..lib import *
from ..workloads import SimUserError

EXC = dict(user=SimUserError, value=ValueError, key=KeyError, stop=StopIteration, kbd=KeyboardInterrupt, exit=SystemExit, gen=GeneratorExit, os=OSError, arith=ZeroDivisionError, nothing=None)


def isdir(ctx, p):
    ctx.fs(0)
    try: return os.path.isdir(p)
    finally: ctx.fs(1)


def work(spec, ctx):
    from mpi4py import MPI
    from dedalus.tools import parallel
    W = MPI.COMM_WORLD
    rank = W.rank
    subs = [W.Split(c[rank], k[rank]) for c, k in spec['splits']]
    comms = dict(world=W, self=MPI.COMM_SELF, dup=W.Dup(), **{'sub%d' % i: s for i, s in enumerate(subs)})
    ctx.note('groups', {n: [int(x) for x in c.allgather(rank)] for n, c in comms.items()})
    # the user enters the scratch directory, where files are made
    out = []

    def pause(lst):
        k = lst[rank % len(lst)]
        for _ in range(k[0]): ctx.yield_()
        if k[1]: time.sleep(k[1])

    def go(step, path):
        k = step['k']
        arg = () if step['comm'] == 'default' else (comms[step['comm']],)
        comm = comms['world' if step['comm'] == 'default' else step['comm']]
        name = 'world' if step['comm'] == 'default' else step['comm']
        opid = path
        pause(step['before'])
        if k == 'mkdir':
            p = step['path'] if step['str'] else pathlib.Path(step['path'])
            ctx.note('arrive', opid)
            try:
                kw = dict(comm=arg[0]) if arg else {}
                parallel.parallel_mkdir(p, **kw)
                r = ['ok', isdir(ctx, step['path'])]
                if r[1]:
                    ctx.fs(0)
                    with open(os.path.join(step['path'], 'r%d' % rank), 'w') as f: f.write('x')
                    ctx.fs(1)
            except OSError as e: r = ['err', e.errno]
            ctx.note('mk', opid, name, r, step['path'])
            return
        if k == 'sync':
            kw = dict(comm=arg[0]) if arg else {}
            for f in ('enter', 'exit'):
                if step[f] is not None: kw[f] = step[f]
            cm = parallel.Sync(**kw)
        else:
            cm = parallel.RotateProcesses(*arg)
        n = comm.size
        hs = step.get('hs') if k == 'sync' and n > 1 else None
        a, b = (step['hsr'] % n, (step['hsr'] + 1) % n) if hs else (0, 0)
        # a rank already inside (or past) talks to one that has not arrived (or left): only possible without that barrier
        if hs == 'enter' and comm.rank == b: comm.recv(source=a, tag=7)
        mine = EXC[step['exc'][rank % len(step['exc'])]] if step.get('exc') else None
        err = mine('body of %s' % (opid,)) if mine else None
        got = None
        reps = 2 if step.get('again') else 1
        for rep in range(reps):
            o = opid + ('#%d' % rep,)
            ctx.note('arrive', o)
            try:
                with cm as c:
                    ctx.note('in', o)
                    if hs == 'enter' and comm.rank == a and rep == 0: comm.send(1, dest=b, tag=7)
                    pause(step['body'])
                    for j, s in enumerate(step.get('sub', [])): go(s, o + (j,))
                    if hs == 'exit' and comm.rank == b and rep == reps - 1: comm.recv(source=a, tag=8)
                    ctx.note('out', o)
                    if err is not None and rep == reps - 1: raise err
            except BaseException as e:
                got = e
            ctx.note('past', o, k, name, step.get('enter'), step.get('exit'))
        if hs == 'exit' and comm.rank == a: comm.send(1, dest=b, tag=8)
        if err is None: same = got is None
        else: same = got is err
        ctx.note('exc', opid, bool(same), repr(got), repr(err))
        if not same and got is not None and not isinstance(got, Exception): raise got
    for i, s in enumerate(spec['steps']):
        try: go(s, (i,))
        except OSError as e: raise RuntimeError('unexpected %r' % e)
    return True


class C17(Prop):
    id = 'C17'
    rule = ('random programs of nested Sync contexts (each barrier on, off or default), RotateProcesses and parallel_mkdir on the world, duplicated, single-process and random split communicators of 1-8 ranks, with bodies that yield, sleep and raise (ordinary exceptions, KeyboardInterrupt, SystemExit, ...) on random ranks, under seeded schedules, stalls, slow ranks and directory errors; '
            'the recorded global order of arrivals, entries, exits and departures is checked against the documented ordering; directory creation races with other groups and with file-system errors; non-trivial: at least two ranks in some group')
    quick_budget = 25
    quick_cases = 3000

    def gen(self, rng, i, tier):
        size = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 8])
        ns = rng.choice([0, 1, 1, 2])
        splits = []
        for _ in range(ns):
            k = rng.randint(1, min(3, size))
            splits.append([[rng.randrange(k) for _ in range(size)], [rng.choice([r, size - r]) if j else r for j, r in enumerate(range(size))] if rng.random() < 0.5 else list(range(size))])
        names = ['world', 'default', 'dup', 'world', 'default', 'self'] + ['sub%d' % j for j in range(ns)] * 2
        env = gen_env(rng, size, rng.choice(['none', 'stall', 'all']))

        def pauses(): return [[rng.choice([0, 0, 1, 1, 2, 5]), rng.choice([0, 0, 0, 0.001, 0.5])] for _ in range(size)]

        def step(depth, inside=None):
            k = rng.choice(['sync', 'sync', 'rotate', 'rotate', 'mkdir']) if inside is None else rng.choice(['sync', 'sync', 'mkdir', 'rotate'])
            comm = rng.choice(names) if inside is None else inside
            s = dict(k=k, comm=comm, before=pauses())
            if k == 'mkdir':
                s['path'] = rng.choice(['d0', 'd1', 'd2', 'd3', 'd4', 'd0/sub', 'there', 'file', 'gone/x', 'd5/', 'x y', '[z]*']); s['str'] = rng.random() < 0.5
                return s
            s['body'] = pauses()
            if rng.random() < 0.4: s['exc'] = [rng.choice(['nothing'] * 5 + [e for e in EXC]) for _ in range(size)]
            if rng.random() < 0.2: s['again'] = True
            if k == 'sync':
                s['enter'], s['exit'] = rng.choice([None, None, True, False]), rng.choice([None, None, True, False])
                hs = [f for f in ('enter', 'exit') if s[f] is False]
                if hs and rng.random() < 0.5 and not s.get('again'): s['hs'], s['hsr'] = rng.choice(hs), rng.randrange(8)
                if depth and rng.random() < 0.4: s['sub'] = [step(depth - 1, comm) for _ in range(rng.randint(1, 2))]
            return s
        steps = [step(2) for _ in range(rng.randint(1, 8))]
        if rng.random() < 0.4:
            def mk():
                return [rng.choice(['mkdir']), rng.choice(['fail', 'fail', 'failafter']), rng.choice([errno.EACCES, errno.ENOSPC, errno.EIO, errno.EROFS])]
            env['faults'] = [dict(rank=None, ops=[o], path='.', nth=rng.randint(1, 3), act=a, errno=e) for o, a, e in [mk() for _ in range(rng.choice([1, 1, 2]))]]
        return dict(splits=splits, steps=steps, env=env)

    def run(self, sim, case):
        from ..runner import Outcome
        env = case['env']
        o = Outcome(key=self.key(case), probes=dict(syncs=0, rotations=0, mkdirs=0, exceptions=0, mkdir_errors=0), sample=case if len(case['steps']) < 3 else None, nontrivial=env['size'] > 1)
        sc = sim.new_scratch(); write_cfg(sc, {})
        os.mkdir(os.path.join(sc, 'there')); open(os.path.join(sc, 'file'), 'w').close()
        r = sim.run(dict(mod='c17', fn='work', dedalus=False, steps=case['steps'], splits=case['splits']), dict(env, record_fs=True), sc)
        o['violation'] = job_viol(r) or self.oracle(r, env['size'], o['probes'], {f['errno'] for f in env.get('faults', [])})
        return o

    def oracle(self, r, size, P, faulted):
        groups = {}
        spans = {}
        ev = {}
        exc = []
        for n, (step, rank, *o) in enumerate(r.notes):
            if o and isinstance(o[0], tuple): o = o[0]
            if o[0] == 'groups': groups[rank] = o[1]
            elif o[0] == 'exc': exc.append((rank, o))
            elif o[0] in ('arrive', 'in', 'out', 'past', 'mk'): ev.setdefault(o[1], []).append((n, rank, o))
        for rank, o in exc:
            if o[4] != 'None': P['exceptions'] += 1
            if not o[2]: return viol('exception', 'rank %d: body of step %s raised %s but the caller saw %s' % (rank, str(o[1]), o[4], o[3]))
        for opid, evs in ev.items():
            last = [e for e in evs if e[2][0] in ('past', 'mk')]
            name = last[0][2][3] if last[0][2][0] == 'past' else last[0][2][2]
            for G in sorted({tuple(groups[q][name]) for q in range(size)}):
                E = [(n, q, o) for n, q, o in evs if q in G]
                if not E: continue
                pos = {(o[0], q): n for n, q, o in E}
                if last[0][2][0] == 'mk':
                    P['mkdirs'] += 1
                    res = {q: o[3] for n, q, o in E if o[0] == 'mk'}
                    path = last[0][2][4]
                    bad = [q for q, x in res.items() if x == ['ok', False]]
                    if bad: return viol('mkdir', 'parallel_mkdir(%r) in group %s returned on rank %s although the directory does not exist; outcomes %s' % (path, list(G), bad, res))
                    err = {x[1] for x in res.values() if x[0] == 'err'}
                    if err:
                        P['mkdir_errors'] += 1
                        if len({tuple(x) for x in res.values()}) > 1: return viol('mkdir-partial', 'parallel_mkdir(%r) in group %s failed on some ranks only: %s' % (path, list(G), res))
                        ok = {errno.EEXIST} if path == 'file' else {errno.ENOENT} if path.startswith(('gone/', 'd0/')) else set()
                        ok |= faulted
                        if err - ok: return viol('mkdir-error', 'parallel_mkdir(%r) in group %s raised errno %s without a cause' % (path, list(G), err))
                    continue
                k, enter, exit = last[0][2][2], last[0][2][4], last[0][2][5]
                if set(pos) != {(a, q) for a in ('arrive', 'in', 'out', 'past') for q in G}: return viol('events', 'step %s: not every rank of %s went through the context once: %s' % (str(opid), list(G), sorted(pos)))
                if k == 'sync':
                    P['syncs'] += 1
                    if enter in (None, True) and min(pos['in', q] for q in G) < max(pos['arrive', q] for q in G):
                        return viol('sync-enter', 'step %s group %s: rank entered a Sync context before all had arrived: %s' % (str(opid), list(G), sorted((n, q, o[0]) for n, q, o in E)))
                    if exit in (None, True) and min(pos['past', q] for q in G) < max(pos['out', q] for q in G):
                        return viol('sync-exit', 'step %s group %s: rank left a Sync context before all had finished: %s' % (str(opid), list(G), sorted((n, q, o[0]) for n, q, o in E)))
                else:
                    P['rotations'] += 1
                    seq = [(o[0], q) for n, q, o in sorted(E, key=lambda e: e[0]) if o[0] in ('in', 'out')]
                    want = [(a, q) for q in G for a in ('in', 'out')]
                    spans.setdefault(G, []).append((min(pos['in', q] for q in G), max(pos['out', q] for q in G), str(opid)))
                    if seq != want: return viol('rotate', 'step %s group %s: bodies ran as %s' % (str(opid), list(G), seq))
        for G, L in spans.items():
            L.sort()
            for a, b in zip(L, L[1:]):
                if b[0] < a[1]: return viol('rotate', 'group %s: a body of rotation %s started before the bodies of rotation %s had finished' % (list(G), b[2], a[2]))
        return None

    def shrink(self, case):
        yield from self.shrink_list(case, 'steps')
        for i, s in enumerate(case['steps']):
            for k in ('sub', 'exc', 'again', 'hs'):
                if s.get(k): c = copy.deepcopy(case); c['steps'][i].pop(k); yield c
            for k in ('before', 'body'):
                if k in s and s[k] != [[0, 0]]: c = copy.deepcopy(case); c['steps'][i][k] = [[0, 0]]; yield c
        yield from self.shrink_env(case)


PROP = C17()
