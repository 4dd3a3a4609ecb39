#!/usr/bin/env python3
"""validate_bug.py ID [ID...] [--tests] [--check [PROP]] [--seed N]: try a planted bug in a scratch copy of /repo."""
import sys, os, json, subprocess, shutil, argparse
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser(); a.add_argument('ids', nargs='+'); a.add_argument('--tests', action='store_true'); a.add_argument('--check', nargs='?', const=''); a.add_argument('--seed', default='1')
x = a.parse_args()
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
for i in x.ids:
    d = os.path.join(V, 'seeded', i); wt = '/tmp/vb/%s' % i; out = {'id': i}
    shutil.rmtree(wt, ignore_errors=True); os.makedirs('/tmp/vb', exist_ok=True)
    sh('cp -a /repo %s' % wt)
    try:
        demo = '/tmp/vb/demo.%s' % i; shutil.rmtree(demo, ignore_errors=True)
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        run = lambda: sh('timeout 300 bash %s/demo.sh' % demo, cwd=wt)
        r = run(); out['demo_clean'] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        r = sh('git apply %s/patch.diff' % d, cwd=wt); out['apply'] = r.returncode
        if r.returncode: print(r.stdout)
        r = subprocess.run([sys.executable if 'venv' in sys.executable else '/opt/venv/bin/python', '-c', open('/opt/vp/lib/ext.py').read().replace('/repo', wt)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env={**os.environ, **dict(l.split('=', 1) for l in sh('. /opt/vp/lib/env.sh; env').stdout.splitlines() if '=' in l)})
        out['build'] = r.returncode
        r = run(); out['demo_patched'] = r.returncode; out['demo_out'] = r.stdout[-200:]
        if x.tests:
            t = open('/opt/vp/test.sh').read().replace('/repo', wt).replace('/opt/vp/lib/ext.py', '/dev/null')
            sh('bash -c %s _ /tmp/vb/%s.tests.json' % (__import__('shlex').quote(t), i), env={**os.environ, 'PYTHONPATH': wt})
            p = set(json.load(open('/tmp/vb/%s.tests.json' % i))['passed'])
            miss = [b for b in base if b not in p]
            out['tests_broken'] = len(miss); out['broken'] = miss[:3]
        if x.check is not None:
            prop = x.check or json.load(open(d + '/meta.json'))['property']
            for pr in prop.split(','):
                r = sh('./check.sh %s --seed %s' % (pr, x.seed), cwd=V, env={**os.environ, 'SIM_REPO': wt})
                out['check_' + pr] = r.returncode; out['say_' + pr] = [l[:300] for l in r.stdout.splitlines() if l.startswith('  [') or 'HARNESS' in l or l.startswith(pr)][:3]
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree('/tmp/vb/demo.%s' % i, ignore_errors=True)
    print(json.dumps(out, indent=1))
