#!/usr/bin/env python3
"""seed.py ID: confirm the planted bug /verif/seeded/ID in a scratch copy."""
import subprocess, sys, os, json, tempfile, shutil
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
base = json.load(open('/opt/vp/BASELINE.json'))['stable']
for ID in sys.argv[1:]:
    d = '/verif/seeded/' + ID
    s = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['cp', '-a', '/repo', s + '/repo'], check=True)
        r = s + '/repo'
        sh('git checkout -q -- . && git clean -qfd', r)
        ok = sh('bash %s/demo.sh' % d, r)
        a = sh('git apply %s/patch.diff' % d, r)
        gp = s + '/gopath/src/github.com/johnnadratowski'
        os.makedirs(gp); os.symlink(r, gp + '/golang-neo4j-bolt-driver')
        env = dict(os.environ, HOME='/root', GOPATH=s + '/gopath', GO111MODULE='off', GOENV='off', GOFLAGS='', GOCACHE=s+'/gocache', PWD=gp + '/golang-neo4j-bolt-driver')
        b = sh('cd %s/golang-neo4j-bolt-driver && go build ./...' % gp, r, env)
        t = sh('cd %s/golang-neo4j-bolt-driver && go test -json -vet=off -count=1 ./...' % gp, r, env)
        passed = set()
        for l in t.stdout.split('\n'):
            try: e = json.loads(l)
            except Exception: continue
            if e.get('Action') == 'pass' and 'Test' in e: passed.add(e['Package'] + '/' + e['Test'])
        miss = [x for x in base if x not in passed]
        bad = sh('bash %s/demo.sh' % d, r)
        good = ok.returncode == 0 and a.returncode == 0 and b.returncode == 0 and not miss and bad.returncode != 0
        print(ID, 'OK' if good else 'BAD', 'demo clean rc=%d, apply rc=%d, build rc=%d, missing=%s, demo patched rc=%d' % (ok.returncode, a.returncode, b.returncode, miss[:4], bad.returncode))
        if not good:
            print((ok.stdout + ok.stderr)[-800:], a.stderr[-300:], b.stderr[-500:], bad.stdout[-500:])
        elif '-v' in os.environ.get('V',''): print(bad.stdout[-600:])
    finally:
        subprocess.run(['find', s, '-delete'])
