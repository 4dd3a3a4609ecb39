"""C10: output sets roll over, number contiguously and never overwrite earlier data."""
import copy, os
import numpy as np
from ..lib import *
from .. import outs

CLUTTER = ['notes.txt', '{n}_special.h5', '{n}_slices/img.png', '{n}_s1_backup.h5', '{n}_snap2.h5', '{n}_s1.h5.bak', '{n}_sets.txt', '{n}_spectra/{n}_spectra_s1.h5', '{n}2_s1.h5', '{n}_s3.png', '{n}_s2_old/a.h5', 'frames/frame_1.png', 'x{n}_s1.h5', '{n}_summary']
PATHS = ['out', 'out', 'out', 'out_b', 'data/out', 'out/out_sub', 'out/out_slow', 'snap.1', 'a+b', 'r[1]', 'o.ut', 'out_s1', 'my run', '{x}']


def work(spec, ctx):
    return outs.session(spec, ctx)


def read(spec, ctx):
    return outs.verify(spec, ctx)


def merge(spec, ctx):
    from dedalus.tools import post
    post.merge_virtual_analysis(spec['path'], cleanup=spec['cleanup'])


class C10(Prop):
    id = 'C10'
    rule = ('random histories of 1-5 sessions (append/overwrite, gather/virtual, any max_writes and write plan, changing process counts) over 1-3 handlers whose names resemble each other or contain special characters, '
            'with foreign files in their folders and merges in between; after every session all files compared with a model of the sets; non-trivial: at least two sessions write to one path or a set rolls over')
    quick_budget = 30

    def gen(self, rng, i, tier):
        paths = []
        while len(paths) < rng.choice([1, 1, 2, 3]):
            p = rng.choice(PATHS)
            if p not in paths: paths.append(p)
        c = dict(sessions=[], clutter=[])
        code = 1000
        dim, N, size, mesh = outs.gen_world(rng, tier)
        for s in range(rng.randint(1, 5)):
            if rng.random() < 0.5:
                _, _, size, mesh = outs.gen_world(rng, tier)
                if mesh is not None and len(mesh) >= dim: mesh = [size] if dim > 1 else None
                if dim == 2 and mesh is not None and len(mesh) > 1: mesh = [size]
            use = [p for p in paths if rng.random() < 0.8] or [paths[0]]
            hs = []
            for p in use:
                h = dict(path=p, mode=rng.choice(['append', 'append', 'overwrite', None]), parallel=rng.choice(['gather', 'virtual', None]), max_writes=rng.choice([None, 1, 1, 2, 3, 7]), tasks=outs.gen_tasks(rng))
                hs.append(h)
            n = rng.choice([0, 1, 2, 3, 5, 9])
            plan = [[j for j in range(len(hs)) if rng.random() < 0.8] for _ in range(n)]
            sess = dict(dim=dim, N=N, mesh=mesh, handlers=hs, plan=plan, code=code, t0=rng.choice([0.0, 3.5]), touch=rng.random() < 0.3, env=gen_env(rng, size, 'none'))
            code += 1000
            sess['cfg'] = {}
            if rng.random() < 0.3: sess['cfg']['analysis/FILEHANDLER_TOUCH_TMPFILE'] = 'True'
            sess['cfg']['analysis/FILEHANDLER_MODE_DEFAULT'] = rng.choice(['overwrite', 'append'])
            sess['cfg']['analysis/FILEHANDLER_PARALLEL_DEFAULT'] = rng.choice(['gather', 'virtual'])
            if rng.random() < 0.25: sess['merge'] = dict(path=rng.choice(use), cleanup=rng.random() < 0.5, size=rng.choice([1, 2, 3]))
            c['sessions'].append(sess)
            if rng.random() < 0.5: c['clutter'].append([s, rng.choice(use), rng.choice(CLUTTER)])
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        o = Outcome(key=self.key([{k: v for k, v in s.items() if k != 'env'} for s in case['sessions']]), probes=dict(sessions=0, sets=0, writes=0, merges=0, foreign=0), sample=case)
        sc = sim.new_scratch()
        M = outs.Model()
        P = o['probes']
        foreign = set()
        roll = False; used = set()
        for si, s in enumerate(case['sessions']):
            write_cfg(sc, s['cfg'])
            for at, p, n in case['clutter']:
                if at == si:
                    f = os.path.join(sc, p, n.replace('{n}', outs.stem(p)))
                    if os.path.exists(f): continue
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, 'w').write('precious %s' % n)
                    foreign.add(os.path.relpath(f, sc)); P['foreign'] += 1
            before = outs.snapshot(sc)
            spec = {k: v for k, v in s.items() if k not in ('env', 'cfg', 'merge')}
            spec['handlers'] = [dict(h, mode=h['mode']) for h in s['handlers']]
            r = sim.run(dict(spec, mod='c10', fn='work'), s['env'], sc)
            o['violation'] = job_viol(r, 'session %d: ' % si)
            if o.violation: return o
            # resolve default mode for the model
            eff = copy.deepcopy(spec)
            for h in eff['handlers']:
                h['mode'] = h['mode'] or s['cfg']['analysis/FILEHANDLER_MODE_DEFAULT']
                h['virtual'] = (h['parallel'] or ('gather' if s['env']['size'] == 1 else s['cfg']['analysis/FILEHANDLER_PARALLEL_DEFAULT'])) == 'virtual'
                if h['path'] in used: o['nontrivial'] = True
            M.run(eff)
            used |= {h['path'] for h in eff['handlers']}
            after = outs.snapshot(sc)
            # files that this session must not have touched
            over = {h['path'] for h in eff['handlers'] if h['mode'] == 'overwrite'}
            for p, v in before.items():
                if any(outs.own(q, p) is not None for q in over): continue
                if p not in after: o['violation'] = viol('deleted', 'session %d (modes %s) deleted %s' % (si, [(h['path'], h['mode']) for h in eff['handlers']], p)); return o
                if after[p] != v and p != 'dedalus.cfg': o['violation'] = viol('changed', 'session %d (modes %s) modified %s' % (si, [(h['path'], h['mode']) for h in eff['handlers']], p)); return o
            mk = s.get('merge')
            if mk:
                S = M.sets[mk['path']]
                # merging applies to sets of virtual or merged files; any set file is acceptable input
                r = sim.run(dict(mod='c10', fn='merge', path=mk['path'], cleanup=mk['cleanup']), dict(size=mk['size'], seed=si, policy='random'), sc)
                o['violation'] = job_viol(r, 'merge after session %d: ' % si)
                if o.violation: return o
                P['merges'] += 1
            q = sim.run(dict(mod='c10', fn='read'), SERIAL, sc)
            o['violation'] = job_viol(q, 'reading: ')
            if o.violation: return o
            files = {p: d for p, d in q.results[0].items() if p not in foreign}
            o['violation'] = M.check(files)
            if o.violation: o['violation']['msg'] = 'after session %d: ' % si + o['violation']['msg']; return o
            P['sessions'] += 1
        P['sets'] = sum(len(S) for S in M.sets.values()); P['writes'] = sum(len(x['writes']) for S in M.sets.values() for x in S.values())
        if any(len(S) > 1 for S in M.sets.values()): o['nontrivial'] = True
        return o

    def shrink(self, case):
        for k in ('sessions',):
            n = len(case[k])
            for i in range(n):
                if n > 1:
                    c = copy.deepcopy(case); del c[k][i]; c['clutter'] = [[a - (a > i), p, f] for a, p, f in c['clutter']]; yield c
        yield from self.shrink_list(case, 'clutter')
        for i, s in enumerate(case['sessions']):
            for j in range(len(s['handlers'])):
                if len(s['handlers']) > 1:
                    c = copy.deepcopy(case); q = c['sessions'][i]; del q['handlers'][j]
                    q['plan'] = [[x - (x > j) for x in w if x != j] for w in q['plan']]
                    if q.get('merge') and q['merge']['path'] not in [h['path'] for h in q['handlers']]: del q['merge']
                    yield c
                elif False: yield None
            for j, h in enumerate(s['handlers']):
                if len(h['tasks']) > 1:
                    c = copy.deepcopy(case); c['sessions'][i]['handlers'][j]['tasks'] = h['tasks'][:1]; yield c
            if s.get('merge'):
                c = copy.deepcopy(case); del c['sessions'][i]['merge']; yield c
            if len(s['plan']) > 1:
                c = copy.deepcopy(case); c['sessions'][i]['plan'] = s['plan'][:len(s['plan']) // 2]; yield c
                c = copy.deepcopy(case); c['sessions'][i]['plan'] = s['plan'][:-1]; yield c
            if s['env']['size'] > 1:
                c = copy.deepcopy(case); c['sessions'][i]['env'] = dict(SERIAL); c['sessions'][i]['mesh'] = None; yield c
                c = copy.deepcopy(case); c['sessions'][i]['env'] = dict(size=2, seed=1, policy='des'); c['sessions'][i]['mesh'] = [2]
                if s['env']['size'] > 2: yield c


PROP = C10()
