"""Try changed copies of the code: mut.py ID file <<< 'old ==> new' lines (\\n for newlines)."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
pid, rel = sys.argv[1:3]
muts = [l.rstrip('\n') for l in sys.stdin if '==>' in l]


def one(m):
    old, new = [x.strip('\n').encode().decode('unicode_escape') for x in m.split(' ==> ')] if ' ==> ' in m else (m.split(' ==>')[0].encode().decode('unicode_escape'), '')
    ind = old[:len(old) - len(old.lstrip(' '))]
    if ind and new and not new.startswith(' '):
        new = ind + new
    d = tempfile.mkdtemp(prefix='mut')
    try:
        for x in ('mdp', 'bimdp'):
            shutil.copytree('/repo/' + x, os.path.join(d, x))
        v = os.path.join(d, 'verif'); os.makedirs(v)
        for x in ('bin', 'harness', 'spec', 'known_findings.json'):
            s = '/verif/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(v, x))
        p = os.path.join(d, rel)
        s = open(p).read()
        if old not in s:
            return m, 'NOT FOUND'
        open(p, 'w').write(s.replace(old, new, 1))
        e = dict(os.environ, MDP_REPO=d)
        try:
            r = subprocess.run(['bin/check', pid], cwd=v, env=e, capture_output=True, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return m, 'TIMEOUT'
        out = r.stdout.strip().splitlines()
        return m, '%d %s' % (r.returncode, (out[0][:230] if r.returncode else 'MISSED') if out else r.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for m, r in ex.map(one, muts):
        print('*', m[:110], '\n     ->', r, flush=True)
