#!/usr/bin/env python3
"""try_seeds.py [-c C01,C02] [ID...]: run checks against planted changes, in scratch copies of /repo and /verif/mc.
(Development aid; the registered checks never read /verif/seeded.)"""
import json, os, shutil, subprocess, sys, tempfile, time
V = '/verif'
def binof(c): return 'unitcheck' if c in ('C16','C23','C27') else 'clicheck' if c in ('C18','C19','C20','C21','C22','C28') else 'causecheck' if c == 'C29' else 'parsecheck'
args = sys.argv[1:]; extra = None
if args[:1] == ['-c']: extra = args[1].split(','); args = args[2:]
ids = args or sorted(os.listdir(V + '/seeded'))
t = tempfile.mkdtemp(prefix='seeds')
try:
    repo, mc, root = t + '/repo', t + '/mc', t + '/root'
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    shutil.copytree(V + '/mc', mc)
    for x in ('build', 'evidence', 'replay'): os.makedirs(root + '/' + x)
    for x in ('known_findings.txt', 'properties.jsonl', 'MANIFEST.json'): shutil.copy(V + '/' + x, root)
    gm = open(mc + '/go.mod').read(); open(mc + '/go.mod', 'w').write(gm.replace('=> /repo', '=> ' + repo))
    sh = lambda c, cwd=t: subprocess.run(['bash', '-c', '. /opt/vp/env.sh; export CGO_ENABLED=1; ' + c], cwd=cwd, capture_output=True, text=True)
    for i in ids:
        p = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        r = sh(f'git checkout -q -- . && git apply {V}/seeded/{i}/patch.diff', repo)
        if r.returncode: print(i, 'patch does not apply', r.stderr); continue
        for c in extra or [p]:
            b = binof(c); t0 = time.time()
            cmd = (f'cd {repo} && go build -o {root}/build/gpgpdump . && ' if b == 'clicheck' else '') + f'cd {mc} && go build ' + ('-tags causes ' if b == 'causecheck' else '') + f'-o {root}/build/{b} ./cmd/{b.replace("cause", "parse")}'
            if c == 'C24': cmd += f' && go build -race -o {root}/build/racecheck ./cmd/parsecheck'
            r = sh(cmd)
            if r.returncode: print(i, c, 'build', r.stderr[-400:]); continue
            r = sh(f'exec build/{b} -root {root} -prop {c} -tier quick', root)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print(i, c, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d %s' % (r.returncode, r.stderr[-300:]), '%.0fs' % (time.time() - t0), flush=True)
finally:
    shutil.rmtree(t)
