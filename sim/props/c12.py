"""C12: I/O errors surface and never silently lose or corrupt output."""
import copy, os, shutil, errno, re
import numpy as np
from ..lib import *
from .. import outs
from .c11 import progress

ERR = dict(write=[errno.ENOSPC, errno.ENOSPC, errno.EIO, errno.EDQUOT], open_w=[errno.EIO, errno.EMFILE, errno.EACCES, errno.ENOSPC], open_creat=[errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EMFILE], open_r=[errno.EIO, errno.EMFILE, errno.EACCES],
           mkdir=[errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS], unlink=[errno.EIO, errno.EACCES, errno.EBUSY], rmdir=[errno.EIO, errno.EBUSY], rename=[errno.EIO, errno.ENOSPC], read=[errno.EIO], trunc=[errno.EIO, errno.ENOSPC], close=[errno.EIO, errno.ENOSPC], close_r=[errno.EIO], stat=[errno.EIO, errno.EACCES], opendir=[errno.EIO, errno.EACCES, errno.EMFILE], fsync=[errno.EIO])


def re_out(p):
    return p.startswith(('/out', '/data', 'out', 'data'))


def work(spec, ctx):
    import faulthandler
    faulthandler.enable(all_threads=False)
    try:
        return outs.session(spec, ctx)
    except Exception as e:
        ctx.note('surfaced', type(e).__name__, str(e)[:200])
        raise


def read(spec, ctx):
    return outs.verify(spec, ctx)


def place(rng, f, prof, sel=None):
    """turn a fault position into a fault on the corresponding operation of the fault-free profile"""
    re_out = sel or globals()['re_out']
    ops = [x for x in prof.fslog if re_out(x[4]) and x[3] in ERR and (f['op'] is None or x[3] in f['op'])]
    if f.get('tail'):       # the metadata flush and close at the end of a write
        tail = []
        last = {}
        for x in prof.fslog:
            if not re_out(x[4]): continue
            k = (x[2], x[4])
            if x[3] == 'write': last.setdefault(k, []).append(x)
            elif x[3] == 'close': tail += last.pop(k, [])[-6:] + [x]
            elif x[3] in ('open_r', 'open_w', 'open_creat'): last.pop(k, None)
        ops = tail
    if not ops: ops = [x for x in prof.fslog if re_out(x[4]) and x[3] in ERR]
    if f.get('src'): ops = [x for x in ops if x[3].startswith('open_') == (f['e'] < 0.5)] or ops      # opening and reading source files, equally often
    if not ops: return None
    x = ops[min(len(ops) - 1, int(f['pos'] * len(ops)))]
    same = [y for y in prof.fslog if y[2] == x[2] and y[3] == x[3] and y[4] == x[4] and y[0] <= x[0]]
    d = dict(rank=x[2], ops=[x[3]], path='^' + re.escape(x[4]) + '$', nth=len(same), act=f['act'], errno=ERR[x[3]][int(f['e'] * len(ERR[x[3]]))])
    if f['act'] == 'short' and x[3] in ('read', 'write'): d['frac'] = f['frac']
    elif f['act'] == 'short': d['act'] = 'fail'
    if f['act'] == 'failafter' and x[3] not in ('close', 'mkdir', 'unlink', 'rename', 'rmdir', 'write'): d['act'] = 'fail'
    if f.get('persist'):
        d['persist'] = True
        if x[3] in ('write', 'open_creat', 'mkdir', 'trunc'):      # the disk is full from now on
            d.update(path=r'\.h5|_s', ops=['write', 'open_creat', 'mkdir', 'trunc'], rank=None, nth=1, after_fs=x[0] - 1, errno=errno.ENOSPC)
    return d


class C12(Prop):
    id = 'C12'
    rule = ('a session of 1-2 handlers (gather/virtual, append/overwrite, rollover, 1-6 ranks) after an earlier session, with 1-2 seeded file-system faults (EIO, ENOSPC, EACCES, EMFILE, ... failing before or after the operation, short writes, a full disk from some point on) placed on operations of the write path recorded in a fault-free profile of the same run; '
            'either an exception reaches the caller or every write is on disk and correct, and finished sets stay intact; non-trivial: at least one fault hit')
    quick_budget = 33

    def gen(self, rng, i, tier):
        dim, N, size, mesh = outs.gen_world(rng, tier)
        paths = ['out'] + (['data/snap'] if rng.random() < 0.4 else [])
        c = dict(dim=dim, N=N, sessions=[])
        for s in range(2):
            hs = [dict(path=p, mode='append' if s == 0 else rng.choice(['append', 'append', 'overwrite']), parallel=rng.choice(['gather', 'virtual']), max_writes=rng.choice([None, 1, 2, 2, 3]), tasks=outs.gen_tasks(rng)) for p in paths]
            n = rng.choice([1, 2, 3]) if s == 0 else rng.choice([1, 2, 3, 4])
            plan = [[j for j in range(len(hs)) if rng.random() < 0.85] for _ in range(n)]
            c['sessions'].append(dict(dim=dim, N=N, mesh=mesh, handlers=hs, plan=plan, code=1000 * (s + 1), t0=0.0, env=gen_env(rng, size, 'none'), cfg={'analysis/FILEHANDLER_TOUCH_TMPFILE': 'True'} if rng.random() < 0.2 else {}))
        groups = [None, None, ['write'], ['write'], ['close'], ['open_w', 'open_creat'], ['mkdir', 'open_creat', 'unlink', 'rmdir', 'rename'], ['stat', 'opendir', 'open_r'], ['read', 'trunc']]
        c['faults'] = [[dict(op=rng.choice(groups), pos=rng.random(), e=rng.random(), act=rng.choice(['fail', 'fail', 'fail', 'short', 'failafter']), frac=rng.choice([0.01, 0.5, 0.99]), persist=rng.random() < 0.3, tail=rng.random() < 0.35) for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(4)]
        return c

    def run(self, sim, case):
        from ..runner import Outcome
        o = Outcome(key=self.key(case['dim'], case['faults'], [{k: v for k, v in s.items() if k != 'env'} for s in case['sessions']]), probes=dict(faulted_runs=0, surfaced=0, tolerated=0, sets_checked=0), sample=case)
        P = o['probes']
        s0, s1 = case['sessions']
        sc = sim.new_scratch(); write_cfg(sc, s0['cfg'])
        S = lambda s: dict({k: v for k, v in s.items() if k not in ('env', 'cfg')}, mod='c12', fn='work')
        r = sim.run(S(s0), s0['env'], sc)
        o['violation'] = job_viol(r, 'first session: ')
        if o.violation: return o
        write_cfg(sc, s1['cfg'])
        pd = os.path.join(sim.tmp, 'prof'); shutil.rmtree(pd, ignore_errors=True); shutil.copytree(sc, pd)
        prof = sim.run(S(s1), dict(s1['env'], record_fs=True), pd)
        o['violation'] = job_viol(prof, 'second session without faults: ')
        if o.violation: return o
        before = outs.snapshot(sc)
        for fi, fl in enumerate(case['faults']):
            faults = [d for d in (place(None, f, prof) for f in fl) if d]
            if not faults: continue
            run = os.path.join(sim.tmp, 'run'); shutil.rmtree(run, ignore_errors=True); shutil.copytree(sc, run)
            r = sim.run(S(s1), dict(s1['env'], faults=faults), run)
            hit = [n for n in r.notes if n[2] == 'FAULT']
            what = 'faults %s -> %s: ' % ([(n[1], n[3], n[4], n[5], errno.errorcode.get(f['errno'])) for n, f in zip(hit, faults * 50)][:3], r.status if r.status != 'exception' else '%s: %s' % (r.detail.get('exc'), str(r.detail.get('msg'))[:80]))
            if hit: P['faulted_runs'] += 1; o['nontrivial'] = True
            if r.status == 'exception': P['surfaced'] += 1
            elif r.status == 'died' and hit and (any(n[2] == 'surfaced' for n in r.notes) or re.search(r'Fatal Python error: Segmentation fault\n\n.*\n  File "[^"]*/h5py/', r.detail)):     # HDF5 itself crashes on some failed closes: loud, and outside dedalus
                P['hdf5_crash_after_error'] = P.get('hdf5_crash_after_error', 0) + 1
            elif r.status == 'ok': P['tolerated'] += bool(hit)
            else: o['violation'] = job_viol(r, what); return o
            if r.status == 'exception' and not hit: o['violation'] = job_viol(r, what); return o
            # model
            size = s1['env'].get('size', 1)
            made, done, started = progress(r.notes, size, len(s1['handlers']))
            q = sim.run(dict(mod='c12', fn='read'), SERIAL, run)
            o['violation'] = job_viol(q, what + 'reading: ')
            if o.violation: return o
            M = outs.Model(); M.run(s0)
            skip = set()
            for i, h in enumerate(s1['handlers']):
                old = M.sets.get(h['path'], {})
                cur, nw = (max(old), old[max(old)]['writes'][-1][1]) if old else (0, 0)
                if h['mode'] == 'overwrite':
                    if i in made: old.clear()
                    elif any(n[2] == 'ctor' and n[3] == i for n in r.notes): skip |= {(h['path'], n) for n in range(1, 100)}   # removal of the old sets failed part-way
                    cur, nw = 0, 0
                if i not in made: continue
                if made[i] != (cur + 1, nw):
                    if r.status == 'ok' and made[i][0] != cur + 1: o['violation'] = viol('setnum', what + '%s: handler starts at set %d, write %d; expected %d, %d' % ((h['path'],) + made[i] + (cur + 1, nw))); return o
                    nw = made[i][1]      # numbering could not be read (reported by a warning)
                ks = [k for k, who in enumerate(s1['plan']) if i in who]
                mw = h.get('max_writes') or 10**9
                n_ok = len(ks) if r.status == 'ok' else started[i]
                for j in range(n_ok):
                    n = made[i][0] + j // mw
                    if j >= done[i] and r.status != 'ok': skip.add((h['path'], n))
                    old.setdefault(n, dict(h=h, world=s1, writes=[]))['writes'].append((s1['code'] + ks[j], nw + j + 1, ks[j], 0.0))
                M.sets[h['path']] = old
            files = {p: d for p, d in q.results[0].items() if r.status == 'ok' or not (outs.own('out', p) is not None and ('out', outs.own('out', p)) in skip)}
            if r.status != 'ok':
                for p in list(M.sets):
                    extra = [f for f in files if outs.own(p, f) is not None and outs.own(p, f) not in M.sets[p]]
                    for f in extra: files.pop(f)        # the set being created when the error occurred
            v = M.check(files, skip)
            P['sets_checked'] += sum(len(x) for x in M.sets.values())
            if v: v['msg'] = what + v['msg']; o['violation'] = v; return o
            after = outs.snapshot(run)
            over = [h['path'] for h in s1['handlers'] if h['mode'] == 'overwrite']
            for p, x in before.items():
                if any(outs.own(b, p) is not None for b in over): continue
                if p != 'dedalus.cfg' and after.get(p) != x: o['violation'] = viol('touched', what + '%s of the earlier session was %s' % (p, 'deleted' if p not in after else 'modified')); return o
        return o

    def shrink(self, case):
        if len(case['faults']) > 1:
            for f in case['faults']:
                c = copy.deepcopy(case); c['faults'] = [f]; yield c
        else:
            if len(case['faults'][0]) > 1:
                for f in case['faults'][0]:
                    c = copy.deepcopy(case); c['faults'] = [[f]]; yield c
        for s in (0, 1):
            q = case['sessions'][s]
            if len(q['plan']) > 1:
                c = copy.deepcopy(case); c['sessions'][s]['plan'] = q['plan'][:-1]; yield c
            for j, h in enumerate(q['handlers']):
                if len(h['tasks']) > 1:
                    c = copy.deepcopy(case); c['sessions'][s]['handlers'][j]['tasks'] = h['tasks'][:1]; yield c
        if len(case['sessions'][0]['handlers']) > 1:
            c = copy.deepcopy(case)
            for q in c['sessions']: q['handlers'] = q['handlers'][:1]; q['plan'] = [[x for x in w if x == 0] for w in q['plan']]
            yield c
        if case['sessions'][1]['env'].get('size', 1) > 1:
            c = copy.deepcopy(case)
            for q in c['sessions']: q['env'] = dict(SERIAL); q['mesh'] = None
            yield c


PROP = C12()
