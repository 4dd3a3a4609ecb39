"""C11: a crash never damages outputs that were complete; a restarted job continues in append mode."""
import copy, os, shutil
import numpy as np
from ..lib import *
from .. import outs

PATHS = ['out', 'out', 'ck', 'data/snap']


def work(spec, ctx):
    return outs.session(spec, ctx)


def read(spec, ctx):
    return outs.verify(spec, ctx)


def progress(notes, size, nh):
    """per handler: (made note, writes finished on all ranks, writes started on any rank)"""
    made, ends, starts = {}, {}, {}
    for n in notes:
        rank, what = n[1], n[2]
        if what == 'made': made.setdefault(n[3], (n[4], n[5]))
        elif what == 'start': starts[n[3]] = max(starts.get(n[3], 0), n[4] + 1)
        elif what == 'end': ends.setdefault(n[3], [0] * size)[rank] = n[4] + 1
    return made, [min(ends.get(i, [0])) for i in range(nh)], [starts.get(i, 0) for i in range(nh)]


def choose_kill(k, prof):
    """kill description from a fault-free profile of the same run: positions are fractions of the candidates"""
    if k['at'] == 'step': return dict(step=1 + int(k['pos'] * prof.steps))
    if k['at'] == 'idle':
        gaps = []; st, en = {}, {}
        notes = [n for n in prof.notes if n[2] in ('start', 'end')]
        for a, b in zip(notes, notes[1:] + [(prof.steps, 0, 'start')]):
            (st if a[2] == 'start' else en).setdefault(a[3:5], set()).add(a[1])
            if all(len(en.get(w, ())) == len(prof.results) for w in st) and b[0] > a[0] + 1: gaps.append((a[0] + 1, b[0]))
        if gaps:
            a, b = gaps[int(k['pos'] * len(gaps))]
            return dict(step=a + int((k['pos'] * 977 % 1) * (b - a)))
    ops = [x for x in prof.fslog if re_out(x[4]) and (k['at'] == 'any' or x[3] in ('write', 'open_creat', 'mkdir', 'rename', 'trunc', 'close', 'unlink'))]
    if k['at'] == 'close':      # around the last operations of a write
        ops = [x for x in ops if x[3] == 'close'] or ops
    if not ops: return dict(step=1 + int(k['pos'] * prof.steps))
    x = ops[min(len(ops) - 1, int(k['pos'] * len(ops)))]
    d = dict(fsop=x[0] - 1)
    if k.get('torn') is not None and x[3] == 'write': d['torn'] = k['torn']
    return d


def re_out(p):
    return '.h5' in p or '_s' in p


class C11(Prop):
    id = 'C11'
    rule = ('sessions of append-mode handlers (gather/virtual, rollover, 1-6 ranks) killed at a seeded file-system operation (optionally tearing that write) or scheduler step, restarted on another process count, killed again, ...; '
            'after every crash all sets except those being written are read back and compared with the model, every restart must start, continue in new sets and leave existing files byte-identical; non-trivial: a job was killed after its first completed write or while writing')
    quick_budget = 33

    def gen(self, rng, i, tier):
        dim, N, size, mesh = outs.gen_world(rng, tier)
        paths = []
        while len(paths) < rng.choice([1, 1, 2]):
            p = rng.choice(PATHS)
            if p not in paths: paths.append(p)
        c = dict(dim=dim, N=N, sessions=[])
        code = 1000
        ns = rng.choice([2, 2, 3, 4])
        for s in range(ns):
            if s and rng.random() < 0.5:
                _, _, size, mesh = outs.gen_world(rng, tier)
                if dim == 2 and mesh is not None and len(mesh) > 1: mesh = [size]
            hs = [dict(path=p, mode='append', parallel=rng.choice(['gather', 'virtual']), max_writes=rng.choice([None, 1, 2, 2, 3]), tasks=outs.gen_tasks(rng)) for p in paths]
            n = rng.choice([1, 2, 3, 4, 6])
            plan = [[j for j in range(len(hs)) if rng.random() < 0.85] for _ in range(n)]
            S = dict(dim=dim, N=N, mesh=mesh, handlers=hs, plan=plan, code=code, t0=0.0, idle=rng.choice([0, 5, 30]), env=gen_env(rng, size, 'none'), cfg={})
            if rng.random() < 0.2: S['cfg']['analysis/FILEHANDLER_TOUCH_TMPFILE'] = 'True'
            if s < ns - 1 and rng.random() < 0.9:
                S['kill'] = dict(at=rng.choice(['any', 'write', 'write', 'write', 'close', 'step', 'idle', 'idle']), pos=rng.random(), torn=rng.choice([None, None, 0.0, 0.3, 0.9]))
            code += 1000
            c['sessions'].append(S)
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        o = Outcome(key=self.key([{k: v for k, v in s.items() if k != 'env'} for s in case['sessions']]), probes=dict(kills=0, kills_in_write=0, kills_idle=0, restarts=0, sets_checked=0, damaged_sets=0), sample=case)
        P = o['probes']
        sc = sim.new_scratch()
        sets = {}           # path -> {n: set record}  (intact sets)
        damaged = {}        # path -> set numbers that were being written at a crash
        top = {}            # path -> highest write number possibly used
        crashed = False
        for si, s in enumerate(case['sessions']):
            write_cfg(sc, s['cfg'])
            spec = dict({k: v for k, v in s.items() if k not in ('env', 'cfg', 'kill')}, mod='c11', fn='work')
            env = s['env']; size = env.get('size', 1)
            if s.get('kill'):
                pd = os.path.join(sim.tmp, 'prof'); shutil.rmtree(pd, ignore_errors=True); shutil.copytree(sc, pd)
                r = sim.run(spec, dict(env, record_fs=True), pd)
                o['violation'] = job_viol(r, 'session %d%s: ' % (si, ' (restart after a crash)' if crashed else ''))
                if o.violation: return o
                env = dict(env, kill=choose_kill(s['kill'], r))
            before = outs.snapshot(sc)
            r = sim.run(spec, env, sc)
            if crashed: P['restarts'] += 1
            if r.status != 'killed':
                o['violation'] = job_viol(r, 'session %d%s: ' % (si, ' (restart after a crash)' if crashed else ''))
                if o.violation: return o
            what = 'session %d (%s)' % (si, r.detail if r.status == 'killed' else 'completed')
            made, done, started = progress(r.notes, size, len(s['handlers']))
            if r.status == 'killed':
                crashed = True; P['kills'] += 1
                if any(started[i] > done[i] for i in range(len(done))): P['kills_in_write'] += 1; o['nontrivial'] = True
                elif any(done): P['kills_idle'] += 1; o['nontrivial'] = True
            # nothing that existed before is touched
            after = outs.snapshot(sc)
            for p, v in before.items():
                if p != 'dedalus.cfg' and after.get(p) != v: o['violation'] = viol('touched', '%s in append mode: %s was %s' % (what, p, 'deleted' if p not in after else 'modified')); return o
            for i, h in enumerate(s['handlers']):
                p = h['path']
                S = sets.setdefault(p, {}); D = damaged.setdefault(p, set())
                if i not in made: continue
                s0, w0 = made[i]        # number of the first new set, number of the last existing write
                exist = [outs.own(p, q) for q in before if outs.own(p, q) is not None]
                if s0 != (max(exist) + 1 if exist else 1): o['violation'] = viol('setnum', '%s: %s continues with set %d; existing sets %s' % (what, p, s0, sorted(set(exist)))); return o
                last = max([w[1] for n in S for w in S[n]['writes']], default=0)
                if S and max(S) == max(exist) and w0 != last or w0 < last or w0 > max(top.get(p, 0), last):
                    o['violation'] = viol('writenum', '%s: %s continues after write number %d; last write of the intact sets is %d (up to %d were started)' % (what, p, w0, last, max(top.get(p, 0), last))); return o
                ks = [k for k, who in enumerate(s['plan']) if i in who]
                mw = h.get('max_writes') or 10**9
                for j in range(started[i]):
                    n = s0 + j // mw
                    if j < done[i]:
                        if n not in S: S[n] = dict(h=h, world=s, writes=[])
                        S[n]['writes'].append((s['code'] + ks[j], w0 + j + 1, ks[j], 0.0))
                    else:
                        S.pop(n, None); D.add(n); P['damaged_sets'] += 1
                top[p] = max(top.get(p, 0), w0 + started[i])
            q = sim.run(dict(mod='c11', fn='read'), SERIAL, sc)
            o['violation'] = job_viol(q, 'reading: ')
            if o.violation: return o
            files = q.results[0]
            for p, S in sets.items():
                for n, x in S.items():
                    f = outs.setfile(p, n)
                    if f not in files: o['violation'] = viol('missing', '%s: %s is missing; found %s' % (what, f, sorted(files))); return o
                    v = outs.check_set(files[f], x['h'], x['world'], x['writes'], n, '%s: %s' % (what, f))
                    P['sets_checked'] += 1
                    if v: o['violation'] = v; return o
                allowed = set(S) | damaged[p]
                extra = [f for f in files if outs.own(p, f) is not None and outs.own(p, f) not in allowed]
                if r.status != 'killed' and extra: o['violation'] = viol('extra', '%s: unexpected files %s' % (what, extra)); return o
        return o

    def shrink(self, case):
        n = len(case['sessions'])
        for i in range(n):
            if n > 1:
                c = copy.deepcopy(case); del c['sessions'][i]; yield c
        for i, s in enumerate(case['sessions']):
            if len(s['handlers']) > 1:
                for j in range(len(s['handlers'])):
                    c = copy.deepcopy(case)
                    for q in c['sessions']:
                        del q['handlers'][j]; q['plan'] = [[x - (x > j) for x in w if x != j] for w in q['plan']]
                    yield c
                break
        for i, s in enumerate(case['sessions']):
            for j, h in enumerate(s['handlers']):
                if len(h['tasks']) > 1:
                    c = copy.deepcopy(case); c['sessions'][i]['handlers'][j]['tasks'] = h['tasks'][:1]; yield c
            if len(s['plan']) > 1:
                c = copy.deepcopy(case); c['sessions'][i]['plan'] = s['plan'][:-1]; yield c
            if s.get('kill') and s['kill'].get('torn') is not None:
                c = copy.deepcopy(case); c['sessions'][i]['kill']['torn'] = None; yield c
            if s['env'].get('size', 1) > 1:
                c = copy.deepcopy(case); c['sessions'][i]['env'] = dict(SERIAL); c['sessions'][i]['mesh'] = None; yield c
                if s['env'].get('size', 1) > 2:
                    c = copy.deepcopy(case); c['sessions'][i]['env'] = dict(size=2, seed=1, policy='des'); c['sessions'][i]['mesh'] = [2]; yield c


PROP = C11()
