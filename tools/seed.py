"""Make a planted bug: seed.py NAME PROP < spec, where spec is a python dict literal
{edits: [(file, old, new)...], demo: text of demo.py, needs:, what:}; confirms it in a scratch copy."""
import ast, json, os, shutil, subprocess, sys, tempfile
name = sys.argv[1]
d = eval(sys.stdin.read())
w = tempfile.mkdtemp(prefix='seedw')
env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1')
py = '/opt/venv/bin/python'
out = '/verif/seeded/' + name
try:
    subprocess.check_call(['cp', '-a', '/repo/.', w])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=w)
    os.makedirs(out, exist_ok=True)
    open(out + '/demo.py', 'w').write(d['demo'])
    open(out + '/demo.sh', 'w').write('#!/bin/sh\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
                                      'exec timeout 250 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    r0 = subprocess.run(['sh', out + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True)
    base = subprocess.check_output(['git', 'blame', '-l', 'd3deb45', '--', d['edits'][0][0]], cwd=w, text=True)
    orig = {f: subprocess.check_output(['git', 'show', 'd3deb45:' + f], cwd=w, text=True) for f, _, _ in d['edits']}
    for f, old, new in d['edits']:
        s = open(os.path.join(w, f)).read()
        assert s.count(old) >= 1, (f, old)
        open(os.path.join(w, f), 'w').write(s.replace(old, new, 1))
    p = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
    for l in p.splitlines():
        if l.startswith('-') and not l.startswith('---') and not any(l[1:] in o.splitlines() for o in orig.values()):
            print('NOT ORIGINAL:', l)
    r1 = subprocess.run(['sh', out + '/demo.sh'], cwd=w, env=env, capture_output=True, text=True)
    print('demo', r0.returncode, r1.returncode, (r0.stderr or '')[-300:], (r1.stdout + r1.stderr)[-200:])
    open(out + '/patch.diff', 'w').write(p)
    json.dump({'property': sys.argv[2], 'needs': d['needs'], 'what_it_breaks': d['what']}, open(out + '/meta.json', 'w'), indent=1)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    rep = tempfile.mkdtemp(prefix='seedr')
    for pk in ('mdp', 'bimdp'):
        subprocess.run([py, '-m', 'pytest', '-q', '-W', 'ignore', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--seed=725021957',
                        '--timeout=120', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=%s/%s.xml' % (rep, pk), pk], cwd=w, env=env,
                       capture_output=True)
    import xml.etree.ElementTree as ET
    ok = set()
    for pk in ('mdp', 'bimdp'):
        for t in ET.parse('%s/%s.xml' % (rep, pk)).iter('testcase'):
            if not any(c.tag in ('failure', 'error', 'skipped') for c in t):
                ok.add(t.get('classname') + '::' + t.get('name'))
    shutil.rmtree(rep)
    bad = sorted(base - ok)
    print(name, 'tests', len(base & ok), 'broken', bad[:5], len(bad))
    e = dict(env, MDP_REPO=w)
    r = subprocess.run(['bin/check', sys.argv[2]], cwd='/verif', env=e, capture_output=True, text=True)
    print(name, sys.argv[2], 'CHECK', r.returncode, r.stdout.strip()[:200])
    good = r0.returncode == 0 and r1.returncode != 0 and not bad
    print(name, 'GOOD' if good else 'BAD', 'CAUGHT' if r.returncode == 1 else 'MISSED')
finally:
    shutil.rmtree(w, ignore_errors=True)
