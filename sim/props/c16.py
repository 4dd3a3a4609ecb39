"""C16: merging distributed output preserves data and can be repeated safely."""
import copy, os, re, shutil, errno
import numpy as np
from ..lib import *
from .. import outs
from .c11 import choose_kill
from .c12 import place

PATHS = ['out', 'out', 'out', 'data/snap', 'snap.1', 'r[1]', 'my run', 'out_s1']
CLUTTER = ['{n}_special.h5', '{n}_slices/img.png', '{n}_s1_backup.h5', '{n}_s1.h5.bak', 'notes.txt', '{n}_s2_old/a.h5', 'x{n}_s1.h5']


def work(spec, ctx):
    return outs.session(spec, ctx)


def read(spec, ctx):
    return outs.verify(spec, ctx)


def merge(spec, ctx):
    import faulthandler
    faulthandler.enable(all_threads=False)
    try:
        return merge_(spec, ctx)
    except Exception as e:
        ctx.note('surfaced', type(e).__name__, str(e)[:200])
        raise


def merge_(spec, ctx):
    from dedalus.tools import post
    for m in spec['calls']:
        if m['fn'] == 'file': post.merge_virtual_file(m['path'], cleanup=m['cleanup'])
        elif m['fn'] == 'set': post.merge_distributed_set(m['path'], cleanup=m['cleanup'])
        else: getattr(post, m['fn'])(m['path'], cleanup=m['cleanup'])
        ctx.note('merged', m['path'])
    return True


def visit(spec, ctx):
    from dedalus.tools import post
    import pathlib
    rec = []
    paths = [pathlib.Path(p) if i % 2 else p for i, p in enumerate(spec['sets'])]
    post.visit_writes(paths, lambda p, start, count, tag=None: rec.append((str(p), int(start), int(count), tag)), tag=spec['tag'])
    starts, counts = post.get_assigned_writes(paths)
    return dict(visits=rec, assigned=[[str(p) for p in post.get_assigned_sets(b, distributed=d)] for b in spec['bases'] for d in (False, True)], writes=[int(x) for x in post.get_all_writes(paths)], counts=[int(x) for x in counts])


class C16(Prop):
    id = 'C16'
    rule = ('sets written by 1-2 sessions of virtual/gather handlers (rollover, 1-6 writing processes, odd names, foreign files alongside), then merged by 1-5 processes in 1-4 runs (per path, per set or per file, with or without cleanup) that are killed at seeded file-system operations or scheduler steps or meet seeded I/O errors; after every run all data are read back and compared with the model, sources may only be gone if the merged result is complete, and a final undisturbed merge must succeed; '
            'writes and sets assigned to processes are checked to be a partition; non-trivial: a virtual set with at least one process file was merged')
    quick_budget = 33

    def gen(self, rng, i, tier):
        dim, N, size, mesh = outs.gen_world(rng, tier)
        paths = [rng.choice(PATHS)]
        if rng.random() < 0.3: paths = list(dict.fromkeys(paths + [rng.choice(PATHS)]))
        c = dict(dim=dim, N=N, sessions=[], merges=[], clutter=[])
        for s in range(rng.choice([1, 1, 2])):
            if s:
                _, _, size, mesh = outs.gen_world(rng, tier)
                if mesh is not None and len(mesh) >= dim: mesh = [size]
            hs = [dict(path=p, mode='append', parallel=rng.choice(['virtual', 'virtual', 'virtual', 'gather']), max_writes=rng.choice([None, 1, 2, 2, 3]), tasks=outs.gen_tasks(rng)) for p in paths]
            n = rng.choice([1, 2, 3, 4, 6])
            plan = [[j for j in range(len(hs)) if rng.random() < 0.9] for _ in range(n)]
            c['sessions'].append(dict(dim=dim, N=N, mesh=mesh, handlers=hs, plan=plan, code=1000 * (s + 1), t0=0.0, env=gen_env(rng, size, 'none')))
        if rng.random() < 0.35: c['clutter'] = [[rng.choice(paths), rng.choice(CLUTTER)]]
        for m in range(rng.choice([1, 2, 2, 3])):
            d = dict(fn=rng.choice(['merge_virtual_analysis', 'merge_virtual_analysis', 'merge_analysis', 'file', 'set']), path=rng.choice(paths), cleanup=rng.random() < 0.5, env=gen_env(rng, rng.choice([1, 1, 2, 3, 5]), 'none'), pick=rng.randrange(100))
            if rng.random() < 0.8:
                if rng.random() < 0.5: d['kill'] = dict(at=rng.choice(['any', 'write', 'write', 'write', 'step']), pos=rng.random(), torn=rng.choice([None, None, 0.0, 0.5]))
                else: d['faults'] = [self.gen_fault(rng) for _ in range(rng.choice([2, 3, 4]))]
            c['merges'].append(d)
        c['final'] = dict(fn=rng.choice(['merge_virtual_analysis', 'merge_analysis']), cleanup=rng.random() < 0.5, env=gen_env(rng, rng.choice([1, 2, 3, 4]), 'none'))
        c['visit'] = dict(env=gen_env(rng, rng.choice([1, 2, 3, 4, 5, 7]), 'none'), shuffle=rng.randrange(10**6))
        return c

    def gen_fault(self, rng):
        f = dict(op=rng.choice([None, ['write'], ['open_r'], ['read'], ['open_creat', 'open_w', 'trunc'], ['rename', 'unlink', 'rmdir'], ['opendir', 'stat'], ['opendir'], ['close', 'close_r']]), pos=rng.random(), e=rng.random(), act=rng.choice(['fail', 'fail', 'fail', 'short', 'failafter']), frac=rng.choice([0.01, 0.5, 0.99]), persist=rng.random() < 0.3, tail=rng.random() < 0.15, src=rng.random() < 0.35)
        if f['src']: f.update(op=None, persist=rng.random() < 0.6, tail=False)
        return f

    def calls(self, m, M):
        S = sorted(M.sets.get(m['path'], {}))
        if m['fn'] == 'file': n = S[m['pick'] % len(S)]; return [dict(fn='file', path=outs.setfile(m['path'], n), cleanup=m['cleanup'])], {(m['path'], n)}
        if m['fn'] == 'set':
            v = [n for n in S if M.sets[m['path']][n]['h']['parallel'] == 'virtual']
            if not v: return None, None
            n = v[m['pick'] % len(v)]
            return [dict(fn='set', path=outs.setfile(m['path'], n)[:-3], cleanup=m['cleanup'])], {(m['path'], n)}
        return [dict(fn=m['fn'], path=m['path'], cleanup=m['cleanup'])], {(m['path'], n) for n in S}

    def run(self, sim, case):
        from ..runner import Outcome
        o = Outcome(key=self.key(case['clutter'], [{k: v for k, v in s.items() if k != 'env'} for s in case['sessions']], [{k: v for k, v in m.items() if k != 'env'} for m in case['merges']]), probes=dict(merges=0, kills=0, faulted=0, surfaced=0, tolerated=0, sets_checked=0, visited_writes=0), sample=case)
        P = o['probes']
        sc = sim.new_scratch(); write_cfg(sc, {})
        M = outs.Model(); foreign = set()
        for si, s in enumerate(case['sessions']):
            r = sim.run(dict({k: v for k, v in s.items() if k != 'env'}, mod='c16', fn='work'), s['env'], sc)
            o['violation'] = job_viol(r, 'session %d: ' % si)
            if o.violation: return o
            M.run(s)
        for p, n in case['clutter']:
            f = os.path.join(sc, p, n.replace('{n}', outs.stem(p)))
            if not os.path.exists(f):
                os.makedirs(os.path.dirname(f), exist_ok=True); open(f, 'w').write('precious'); foreign.add(os.path.relpath(f, sc))
        self.pieces0 = sorted(os.path.relpath(os.path.join(dp, f), sc) for dp, dn, fn in os.walk(sc) for f in fn)
        runs = [dict(m) for m in case['merges']] + [dict(case['final'], path=p, final=True) for p in M.sets] + [dict(case['final'], path=p, final=True) for p in list(M.sets)[:1]]
        for mi, m in enumerate(runs):
            if not M.sets.get(m['path']): continue
            calls, which = self.calls(m, M)
            if not calls: continue
            env = dict(m['env'])
            if m['fn'] in ('file', 'set'): env.update(size=1); env['hashseeds'] = env.get('hashseeds', [0])[:1]; env.pop('victim', None); env['policy'] = 'des'; env.pop('slow', None); env.pop('clocks', None)
            spec = dict(mod='c16', fn='merge', calls=calls)
            what = 'merge %d %s (cleanup %s, %d processes)' % (mi, m['fn'], m['cleanup'], env['size'])
            if m.get('kill') or m.get('faults'):
                pd = os.path.join(sim.tmp, 'prof'); shutil.rmtree(pd, ignore_errors=True); shutil.copytree(sc, pd)
                r = sim.run(spec, dict(env, record_fs=True), pd)
                o['violation'] = job_viol(r, what + ' (dry run): ')
                if o.violation: return o
                if m.get('kill'): env['kill'] = choose_kill(m['kill'], r)
                else:
                    base = '/' + m['path'].split('/')[0]
                    env['faults'] = [d for d in (place(None, f, r, lambda p, f=f: p.startswith((base, base[1:])) and (not f.get('src') or re.search(r'_p\d+\.h5', p))) for f in m['faults']) if d]
            alts = env.pop('faults', None)
            for k, al in enumerate(alts or [None]):
                d = sc
                if alts:
                    env['faults'] = [al]
                    if k < len(alts) - 1:
                        d = os.path.join(sim.tmp, 'run'); shutil.rmtree(d, ignore_errors=True); shutil.copytree(sc, d)
                self.attempt(sim, d, spec, env, m, M, o, what, which, foreign)
                if o.violation: return o
        # assignment of writes and sets
        allsets = [outs.setfile(p, n) for p, S in M.sets.items() for n in S]
        order = allsets[:]
        np.random.RandomState(case['visit']['shuffle']).shuffle(order)
        r = sim.run(dict(mod='c16', fn='visit', sets=order, bases=list(M.sets), tag=7), case['visit']['env'], sc)
        o['violation'] = job_viol(r, 'visit_writes: ')
        if o.violation: return o
        exp = {(outs.setfile(p, n), k) for p, S in M.sets.items() for n, x in S.items() for k in range(len(x['writes']))}
        got = [(p, s + k) for R in r.results for p, s, c, t in R['visits'] for k in range(c)]
        if len(got) != len(set(got)) or set(got) != exp: o['violation'] = viol('visit', 'visit_writes on %d processes visits %s; expected every write once: %s' % (len(r.results), sorted(got), sorted(exp))); return o
        if any(t != 7 or c <= 0 for R in r.results for p, s, c, t in R['visits']): o['violation'] = viol('visit', 'visit_writes passed wrong arguments: %s' % [R['visits'] for R in r.results]); return o
        P['visited_writes'] = len(got)
        for j, (b, d) in enumerate([(b, d) for b in M.sets for d in (False, True)]):
            a = [p for R in r.results for p in R['assigned'][j]]
            S = {outs.setfile(b, n)[:None if not d else -3] for n in M.sets[b]}
            if d: S = {x for x in S if os.path.isdir(os.path.join(sc, x))}
            if len(a) != len(set(a)) or set(a) != S: o['violation'] = viol('assign', 'get_assigned_sets(%r, distributed=%s) on %d processes assigns %s, expected %s' % (b, d, len(r.results), sorted(a), sorted(S))); return o
        return o

    def attempt(self, sim, sc, spec, env, m, M, o, what, which, foreign):
        P = o['probes']
        before = outs.snapshot(sc)
        r = sim.run(spec, env, sc)
        P['merges'] += 1
        hit = [n for n in r.notes if n[2] == 'FAULT']
        if hit: P['faulted'] += 1; what += ' with fault %s' % (hit[0][1:],)
        if r.status == 'killed': P['kills'] += 1; what += ' killed (%s)' % r.detail
        elif hit and r.status == 'exception': P['surfaced'] += 1; what += ' -> %s: %s' % (r.detail.get('exc'), str(r.detail.get('msg'))[:80])
        elif hit and r.status == 'deadlock' and self.only_after_raise(r): P['surfaced'] += 1
        elif hit and r.status == 'died' and (any(n[2] == 'surfaced' for n in r.notes) or 'Fatal Python error: Segmentation fault' in str(r.detail)):     # HDF5 crashes on some failed closes: loud, and outside dedalus
            P['hdf5_crash_after_error'] = P.get('hdf5_crash_after_error', 0) + 1
        else:
            o['violation'] = job_viol(r, what + ': ')
            if o.violation: return
            P['tolerated'] += bool(hit)
        virt = {(p, n) for p, n in which if M.sets[p][n]['h']['parallel'] == 'virtual'}
        if virt: o['nontrivial'] = True
        after = outs.snapshot(sc)
        for p, v in before.items():
            if p == 'dedalus.cfg' or os.path.basename(p).startswith('tmp_'): continue
            w = [(q, n) for q, n in which if outs.own(q, p) == n]
            if w and w[0] in virt and (m['cleanup'] or p in after): continue    # the set being merged: judged by its content
            if after.get(p) != v: o['violation'] = viol('touched', what + ': %s was %s' % (p, 'deleted' if p not in after else 'modified')); return
        q = sim.run(dict(mod='c16', fn='read', procs=False), SERIAL, sc)
        o['violation'] = job_viol(q, what + ': reading: ')
        if o.violation: return
        files = {p: d for p, d in q.results[0].items() if p not in foreign}
        v = M.check(files)
        P['sets_checked'] += sum(len(S) for S in M.sets.values())
        if v: v['msg'] = what + ': ' + v['msg']; o['violation'] = v; return
        for p, n in virt:
            f = outs.setfile(p, n); d = f[:-3]
            isv = any(t['virtual'] for t in files[f]['tasks'].values())
            src = [x for x in after if x.startswith(d + '/')]
            if isv:
                miss = [x for x in self.pieces0 if x.startswith(d + '/') and x not in after]
                if miss: o['violation'] = viol('source', what + ': %s is still virtual but its sources %s are gone' % (f, miss)); return
            if r.status == 'ok':
                if isv: o['violation'] = viol('unmerged', what + ' reported success but %s is still virtual' % f); return
                if m['cleanup'] and src: o['violation'] = viol('cleanup', what + ' reported success but left %s' % src); return

    @staticmethod
    def only_after_raise(r):
        return any(n[2] == 'surfaced' for n in r.notes)

    def shrink(self, case):
        yield from self.shrink_list(case, 'clutter')
        yield from self.shrink_list(case, 'merges')
        if len(case['sessions']) > 1:
            for i in range(len(case['sessions'])):
                c = copy.deepcopy(case); del c['sessions'][i]; yield c
        for i, s in enumerate(case['sessions']):
            for j, h in enumerate(s['handlers']):
                if len(h['tasks']) > 1:
                    c = copy.deepcopy(case); c['sessions'][i]['handlers'][j]['tasks'] = h['tasks'][:1]; yield c
            if len(s['plan']) > 1:
                c = copy.deepcopy(case); c['sessions'][i]['plan'] = s['plan'][:-1]; yield c
            if s['env'].get('size', 1) > 2:
                c = copy.deepcopy(case); c['sessions'][i]['env'] = dict(size=2, seed=1, policy='des'); c['sessions'][i]['mesh'] = [2]; yield c
        for i, m in enumerate(case['merges']):
            if len(m.get('faults', [])) > 1:
                for f in m['faults']:
                    c = copy.deepcopy(case); c['merges'][i]['faults'] = [f]; yield c
            if m['env'].get('size', 1) > 1:
                c = copy.deepcopy(case); c['merges'][i]['env'] = dict(SERIAL); yield c
        for k in ('final', 'visit'):
            if case[k]['env'].get('size', 1) > 1:
                c = copy.deepcopy(case); c[k]['env'] = dict(SERIAL); yield c


PROP = C16()
