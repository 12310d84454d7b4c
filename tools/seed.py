#!/usr/bin/env python3
"""seed.py validate ID.. | check ID.. | new ID   (validate: in /repo; check: in a scratch copy)"""
import sys, os, subprocess, json, shutil, tempfile
V='/verif'; S=V+'/seeded'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
cmd, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(S))
for i in ids:
    d = S + '/' + i
    if cmd == 'new':
        # ID is made from the current uncommitted change in /tmp/w (a copy of /repo)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(V + '/tools/seedtmpl'): shutil.copy(V + '/tools/seedtmpl/' + f, d)
        open(d + '/patch.diff', 'w').write(subprocess.run('git -C /tmp/w diff', shell=True, stdout=subprocess.PIPE, text=True).stdout)
        continue
    m = json.load(open(d + '/meta.json'))
    if cmd == 'validate':
        assert not sh('git -C /repo status --porcelain').stdout, 'repo dirty'
        b = sh('bash /opt/vp/build.sh && bash %s/demo.sh' % d, cwd='/repo')
        if b.returncode: print(i, 'demo fails on the clean tree', b.stdout[-500:]); continue
        try:
            a = sh('git -C /repo apply %s/patch.diff' % d)
            if a.returncode: print(i, 'does not apply', a.stdout); continue
            t = sh('bash /opt/vp/test.sh /tmp/o.json', cwd='/repo'); o = json.load(open('/tmp/o.json'))
            x = sh('bash %s/demo.sh' % d, cwd='/repo')
        finally: sh('git -C /repo checkout -- .')
        ok = len(o['passed']) >= 8 and not o['failed'] and x.returncode != 0
        print(i, 'VALID' if ok else 'INVALID', 'passed', len(o['passed']), 'failed', o['failed'], 'demo rc', x.returncode, '|', x.stdout[-200:].replace('\n', ' / ') if x.returncode != 3 else x.stdout[-1500:])
    if cmd == 'check':
        w = tempfile.mkdtemp(prefix='seedchk'); sh('git -C /repo archive HEAD | tar x -C %s' % w)
        a = sh('git apply --unsafe-paths --directory=%s %s/patch.diff' % (w, d), cwd='/')
        if a.returncode: a = sh('patch -p1 < %s/patch.diff' % d, cwd=w)
        r = sh('timeout 900 python3 run.py %s' % m['property'], cwd=V, env=dict(os.environ, SYMX_REPO=w))
        print(i, m['property'], 'rc', r.returncode, 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + m['property'] in r.stdout else 'MISSED')
        for l in r.stdout.splitlines():
            if any(k in l for k in ('VIOL', ' at ', 'INCOM', 'UNCONF', 'ERROR', 'WITN', 'compile')): print('    ', l[:260])
        shutil.rmtree(w)
    sys.stdout.flush()
