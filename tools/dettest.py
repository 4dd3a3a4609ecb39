#!/usr/bin/env python3
"""Run one case twice and show where the event logs of the two runs first differ: tools/dettest.py PROP INDEX [SEED]"""
import sys, os, random, importlib, hashlib, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ.setdefault('SIM_RAW', '1')
from sim import runner, controller
from sim.controller import Sim, Zygote


class Raw:
    def __init__(self): self.h = hashlib.sha256(); self.l = []; LOGS[-1].append(self.l)
    def update(self, b): self.h.update(b); self.l.append(bytes(b))
    def hexdigest(self): return self.h.hexdigest()


class Shim:
    def __getattr__(self, k): return getattr(hashlib, k)
    def md5(self, d): return type('M', (), dict(digest=lambda s: d))()
    def sha256(self, *a):
        # the first sha256 of a job is its event log
        return Raw() if not a and sys._getframe(1).f_code.co_name == '__init__' and 'log' not in sys._getframe(1).f_locals['self'].__dict__ else hashlib.sha256(*a)


LOGS = []
controller.hashlib = Shim()


def main():
    pid, idx = sys.argv[1], [int(x) for x in sys.argv[2].split(',')]
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    prop = importlib.import_module('sim.props.' + pid.lower()).PROP
    base, servers = runner.start(pid, 1)
    try:
        sim = Sim([Zygote(s.socks[0]) for s in servers], runner.REPO, os.path.join(base, 'w0'))
        for i in idx:
            case = prop.gen(random.Random('%s/%s/%d' % (pid, seed, i)), i, 'quick'); case['index'] = i
            del LOGS[:]
            for _ in range(2):
                LOGS.append([]); runner.run_case(prop, sim, case)
            print('case', i, 'jobs', len(LOGS[0]), len(LOGS[1]))
            for j, (a, b) in enumerate(zip(*LOGS)):
                if a == b: continue
                k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                print(' job %d differs at event %d of %d/%d' % (j, k, len(a), len(b)))
                for x in (a, b):
                    for e in x[max(0, k - 2):k + 1]:
                        d = next((m for m, (p, q) in enumerate(zip(a[k], b[k])) if p != q), 0) if k < min(len(a), len(b)) else 0
                        print('    ', e[:120] if e is not x[min(k, len(x) - 1)] else (e[:60], '...', e[max(0, d - 150):d + 150]))
                break
    finally:
        runner.stop(base, servers)


main()
