"""Runs a property's check: seeded cases over worker processes, evidence,
minimisation, replay files."""
import ctypes, os, sys, json, time, random, importlib, tempfile, shutil, subprocess, traceback, signal, hashlib, select
from . import controller
from .controller import Sim, Zygote, ZygoteServer, HarnessError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')       # overridden only while developing (scratch copies with planted bugs)
# (PYTHONHASHSEED, MALLOC_PERTURB_) of the fork servers
SERVERS = [(0, 85), (77, 0), (4242, 170)]
NWORK = int(os.environ.get('SIM_WORKERS', '8'))


def build():
    r = subprocess.run(['bash', os.path.join(VERIF, 'sim', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()); raise HarnessError('shim build failed')
    r = subprocess.run([sys.executable, '-c', open('/opt/vp/lib/ext.py').read().replace('/repo', REPO)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()[-3000:]); raise HarnessError('extension build of /repo failed')


QUICK_SCALE = 2.2


def known_findings(pid):
    """signatures of recorded, unrepaired findings of this property"""
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'open':
                    out.append(d)
    return out


def match_known(known, viol):
    for d in known:
        if all(s in viol['msg'] for s in d['match']) and d.get('cls', viol['cls']) == viol['cls']:
            return d
    return None


class Outcome(dict):
    __getattr__ = dict.get


def run_case(prop, sim, case):
    sim.case_jobs = []
    return prop.run(sim, case)


def minimise(prop, sim, case, viol, budget, log):
    """Greedy shrink: keep a smaller case while the same violation class persists."""
    t0 = time.monotonic()
    best, bestv = case, viol
    tried = 0
    improved = True
    while improved and time.monotonic() - t0 < budget:
        improved = False
        for cand in prop.shrink(best):
            if time.monotonic() - t0 > budget:
                break
            tried += 1
            try:
                o = run_case(prop, sim, cand)
            except HarnessError:
                continue
            if o.violation and o.violation['cls'] == bestv['cls']:
                best, bestv = cand, o.violation
                improved = True
                break
    return best, bestv, tried


def worker(wid, zygotes, tmp, pid, tier, seed, ncases, budget, out, known):
    prop = importlib.import_module('sim.props.' + pid.lower()).PROP
    sim = Sim(zygotes, REPO, tmp)
    t0 = time.monotonic()
    sim.deadline = t0 + budget + 400

    def emit(**k):
        os.write(out, (json.dumps(k) + '\n').encode())
    try:
        i = wid
        evals = 0; repeated = False
        sent = set()
        while i < ncases and time.monotonic() - t0 < budget:
            case = prop.gen(random.Random('%s/%s/%d' % (pid, seed, i)), i, tier)
            case['index'] = i
            o = run_case(prop, sim, case)
            evals += 1
            if not repeated and evals >= 2 and not o.violation and prop.repeatable(case):      # sample: the same case again must give the same event logs
                repeated = True
                first = list(sim.case_jobs); o = run_case(prop, sim, case)
                emit(t='repeat', i=i, jobs=len(first), same=first == sim.case_jobs)
            v = o.violation
            rec = dict(t='case', i=i, key=o.key, nontrivial=bool(o.nontrivial), probes=o.probes or {}, sample=o.sample if i < 4 else None, note=o.note)
            if v:
                k = match_known(known, v)
                if k:
                    rec['known'] = k['id']
                else:
                    # must reproduce
                    rep = None
                    for _ in range(3):
                        o2 = run_case(prop, sim, case)
                        if o2.violation:
                            rep = o2; break
                    if rep is None:
                        emit(t='unrepro', i=i, viol=v, case=case)
                    else:
                        emit(t='found', i=i, viol=v)
                        best, bv, tried = minimise(prop, sim, case, rep.violation, 25 if tier == 'quick' else 120, None)
                        emit(t='viol', i=i, viol=bv, case=best, orig=case, tried=tried)
            emit(**rec)
            i += NWORK
            if evals % 5 == 0 or v:
                emit(t='stat', w=wid, jobs=sim.njobs, steps=sim.total_steps, simtime=sim.total_simtime, agg=sim.agg, scheds=sorted(sim.scheds - sent))
                sent |= sim.scheds
        emit(t='stat', w=wid, jobs=sim.njobs, steps=sim.total_steps, simtime=sim.total_simtime, agg=sim.agg, scheds=sorted(sim.scheds - sent))
        emit(t='end', w=wid, complete=i >= ncases)
    except HarnessError as e:
        emit(t='harness', msg=str(e), tb=traceback.format_exc()[-3000:], i=i)
    except BaseException as e:
        emit(t='harness', msg=repr(e), tb=traceback.format_exc()[-3000:], i=i)


def start(pid, nworkers):
    build()
    base = tempfile.mkdtemp(prefix='simv', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    pyc = os.path.join(base, 'pyc'); os.makedirs(pyc)
    lib = os.path.join(VERIF, 'build', 'libsim.so')
    servers = [ZygoteServer(lib, h, p, pyc, nworkers) for h, p in SERVERS]
    # warm the bytecode cache of the code under test once
    w = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', 'import sys; sys.path.insert(0, %r)\nimport compileall; compileall.compile_dir(%r, quiet=2, workers=1, rx=__import__("re").compile("tests|examples"))' % (REPO, REPO + '/dedalus')],
                         env={**{k: v for k, v in os.environ.items() if k != 'PYTHONDONTWRITEBYTECODE'}, 'PYTHONPYCACHEPREFIX': pyc}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for s in servers:
        s.wait_ready()
    w.wait()
    return base, servers


def stop(base, servers):
    for s in servers:
        s.close()
    shutil.rmtree(base, ignore_errors=True)


def check(pid, tier, seed, cases=None, budget=None):
    prop = importlib.import_module('sim.props.' + pid.lower()).PROP
    t0 = time.monotonic()
    known = known_findings(pid)
    base, servers = start(pid, NWORK)
    ncases = cases or (prop.quick_cases if tier == 'quick' else prop.quick_cases * 40)
    budget = budget or (QUICK_SCALE * prop.quick_budget if tier == 'quick' else prop.thorough_budget)
    sys.stdout.flush()
    procs = []
    for w in range(NWORK):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            code = 0
            try:
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                worker(w, [Zygote(s.socks[w]) for s in servers], os.path.join(base, 'w%d' % w), pid, tier, seed, ncases, budget, wr, known)
            except BaseException:
                traceback.print_exc(); code = 3
            finally:
                os._exit(code)
        os.close(wr)
        procs.append([p, r, b''])
    recs = []
    harness = []
    viols = []
    found_at = None
    live = {r: (p, i) for i, (p, r, _) in enumerate(procs)}
    ended = set()
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            i = live[r][1]
            if not d:
                os.close(r); os.waitpid(live[r][0], 0)
                if i not in ended:
                    harness.append({'msg': 'worker %d ended without a report' % i})
                del live[r]
                continue
            procs[i][2] += d
            while b'\n' in procs[i][2]:
                l, procs[i][2] = procs[i][2].split(b'\n', 1)
                m = json.loads(l)
                if m['t'] == 'found' and found_at is None:
                    found_at = time.monotonic()
                if m['t'] == 'viol':
                    viols.append(m)
                elif m['t'] == 'harness':
                    harness.append(m); ended.add(i)
                else:
                    recs.append(m)
                    if m['t'] == 'end':
                        ended.add(i)
        stopnow = (viols and tier == 'quick') or (found_at and time.monotonic() - found_at > 240)
        if stopnow:
            for r, (p, i) in list(live.items()):
                try: os.kill(p, signal.SIGKILL)
                except OSError: pass
                os.waitpid(p, 0); os.close(r); ended.add(i)
            live = {}
    stop(base, servers)
    wall = time.monotonic() - t0
    return finish(pid, prop, tier, seed, recs, harness, viols, wall, known)


def finish(pid, prop, tier, seed, recs, harness, viols, wall, known):
    cs = [r for r in recs if r['t'] == 'case']
    ends = list({r['w']: r for r in recs if r['t'] == 'stat'}.values())
    unrep = [r for r in recs if r['t'] == 'unrepro']
    reps = [r for r in recs if r['t'] == 'repeat']
    agg = {}; probes = {}; scheds = set()
    for e in ends:
        for k, v in e['agg'].items():
            agg[k] = agg.get(k, 0) + v
    for e in recs:
        if e['t'] == 'stat':
            scheds.update(e['scheds'])
    for c in cs:
        for k, v in c['probes'].items():
            probes[k] = probes.get(k, 0) + (v if isinstance(v, (int, float)) else 1)
    jobs = sum(e['jobs'] for e in ends); simt = sum(e['simtime'] for e in ends) / 1e9
    keys = {c['key'] for c in cs if c['nontrivial']}
    faults = {k[6:]: v for k, v in agg.items() if k.startswith('fault.')}
    hits = {}
    for c in cs:
        if c.get('known'):
            hits[c['known']] = hits.get(c['known'], 0) + 1
    replays = []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for m in viols:
        name = 'replays/%s-s%s-i%d.json' % (pid, seed, m['i'])
        with open(os.path.join(VERIF, name), 'w') as f:
            json.dump(dict(property=pid, seed=seed, violation=m['viol'], case=m['case'], original_case=m['orig'], minimisation_runs=m['tried']), f, indent=1)
        replays.append((name, m['viol']))
    ev = dict(property=pid, tier=tier, seed=int(seed), level=prop.level, wall_s=round(wall, 2),
              coverage=dict(evaluations=len(cs), distinct_nontrivial=len(keys), rule=prop.rule,
                            samples=[c['sample'] for c in cs if c.get('sample')][:4],
                            simulated_jobs=jobs, seeds=len(cs), runs_per_hour=round(jobs / max(wall, 1e-9) * 3600), seeds_per_hour=round(len(cs) / max(wall, 1e-9) * 3600),
                            simulated_seconds=round(simt, 3), simulator_steps=sum(e['steps'] for e in ends),
                            distinct_interleavings=len(scheds), interleaving_measure='distinct hashes of the full sequence of scheduled ranks in multi-rank jobs',
                            faults_injected=faults, operations={k: v for k, v in agg.items() if not k.startswith(('fault.', 'status.'))},
                            job_endings={k[7:]: v for k, v in agg.items() if k.startswith('status.')}, probes=probes,
                            determinism=dict(cases_run_twice=len(reps), jobs_run_twice=sum(r['jobs'] for r in reps), identical_event_logs=sum(r['same'] for r in reps), differing_cases=[r['i'] for r in reps if not r['same']]),
                            components_real=prop.real, components_stub=prop.stub, known_findings_seen=hits),
              assumptions=prop.assumptions, violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s tier=%s seed=%s: %d cases (%d distinct non-trivial), %d jobs, %d interleavings, %.1f simulated s, faults %s, %.1fs wall' %
          (pid, tier, seed, len(cs), len(keys), jobs, len(scheds), simt, faults, wall))
    notes = {}
    for c in cs:
        if c.get('note'):
            notes.setdefault(c['note'], []).append(c['i'])
    if os.environ.get('SIM_NOTES'):
        for n, ii in sorted(notes.items()):
            print('  note x%d (cases %s): %s' % (len(ii), ii[:5], n))
    if probes:
        print('  probes:', json.dumps(probes, sort_keys=True))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viols:
        for name, v in replays:
            print('  [%s] %s' % (v['cls'], v['msg'][:1500]))
            print('VIOLATION property=%s replay=%s' % (pid, name))
        return 1
    for h in harness[:2]:
        print('HARNESS ERROR:', h['msg'], h.get('tb', ''))
    for u in unrep:
        print('HARNESS ERROR: violation did not reproduce:', json.dumps(u)[:3000])
    if harness or unrep or not cs:
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    pid = d['property']
    prop = importlib.import_module('sim.props.' + pid.lower()).PROP
    base, servers = start(pid, 1)
    try:
        sim = Sim([Zygote(s.socks[0]) for s in servers], REPO, os.path.join(base, 'w0'))
        o = run_case(prop, sim, d['case'])
    finally:
        stop(base, servers)
    if o.violation:
        print('[%s] %s' % (o.violation['cls'], o.violation['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        same = o.violation == d['violation']
        print('identical to the recorded violation: %s' % same)
        return 1
    print('no violation')
    return 0


def main():
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('pid', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    a.add_argument('--cases', type=int)
    a.add_argument('--budget', type=float)
    a.add_argument('--replay')
    a.add_argument('--one', type=int, help='run one case index verbosely')
    x = a.parse_args()
    try:
        if x.replay:
            sys.exit(replay(x.replay))
        if x.one is not None:
            prop = importlib.import_module('sim.props.' + x.pid.lower()).PROP
            base, servers = start(x.pid, 1)
            try:
                sim = Sim([Zygote(s.socks[0]) for s in servers], REPO, os.path.join(base, 'w0'))
                case = prop.gen(random.Random('%s/%s/%d' % (x.pid, x.seed, x.one)), x.one, x.tier)
                print(json.dumps(case))
                t = time.time()
                o = run_case(prop, sim, case)
                o.pop('sample', None)
                print(json.dumps(o, default=str)[:6000].replace('\\n', '\n'), 'time', round(time.time() - t, 2), 'steps', sim.total_steps, 'jobs', sim.njobs)
                try: print(open(os.path.join(sim.tmp, 'rank.log'), errors='replace').read()[-3000:])
                except OSError: pass
            finally:
                stop(base, servers)
            return
        sys.exit(check(x.pid, x.tier, x.seed, x.cases, x.budget))
    except HarnessError as e:
        print('HARNESS ERROR:', e); sys.exit(2)


if __name__ == '__main__':
    main()
