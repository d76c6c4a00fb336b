#!/usr/bin/env python3
"""plant.py DEFS [ID...]: makes and confirms planted bugs.

DEFS is a Python file that calls seed(id, prop, edits, demo, needs, breaks, env='', flags='').
Every one is confirmed in a scratch copy of /repo: the demonstration passes without
the change, the change builds and passes the stable tests, and the demonstration
fails with it. Confirmed ones are written to /verif/seeded/ID."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local',
           GOFLAGS='-mod=mod', GOPROXY='off', GOWORK='off')
SEEDS = {}
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

DEMO_SH = '''#!/bin/bash
# run with cwd /repo; exit 0 iff the demonstration passes
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
dir=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r -- "$tmp"' EXIT
cp "$dir/demo.go.txt" "$tmp/demo_test.go"
echo "{\\"Replace\\": {\\"$PWD/zz_seed_demo_test.go\\": \\"$tmp/demo_test.go\\"}}" > "$tmp/overlay.json"
%stimeout 250 go test -overlay "$tmp/overlay.json"%s -vet=off -count=1 -timeout 200s -run TestSeedDemo .
'''

HEAD = '''package frozen_test

%s
// demoE is an element whose hash is chosen.
type demoE struct {
	ID int
	H  uint64
}

func (e demoE) Hash(uintptr) uintptr { return uintptr(e.H) }
func (e demoE) Equal(f demoE) bool   { return e.ID == f.ID }
func (e demoE) Same(a any) bool      { f, is := a.(demoE); return is && e.ID == f.ID }

'''

def seed(id, prop, edits, demo, needs, breaks, env='', flags='', imports=('testing', 'github.com/arr-ai/frozen')):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, env=env, flags=flags, imports=imports)

def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout)

def confirm(id):
    s = SEEDS[id]
    scratch = tempfile.mkdtemp(prefix='seed-')
    repo = os.path.join(scratch, 'repo')
    try:
        sh(['cp', '-a', '/repo', repo], '/')
        d = os.path.join(scratch, 'out')
        os.mkdir(d)
        imports = 'import (\n' + ''.join('\t%s\n' % (i if i.endswith('"') else '"%s"' % i) for i in s['imports']) + ')\n'
        open(os.path.join(d, 'demo.go.txt'), 'w').write(HEAD % imports + s['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH % (s['env'] + ' ' if s['env'] else '', ' ' + s['flags'] if s['flags'] else ''))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh([os.path.join(d, 'demo.sh')], repo)
        if r.returncode:
            return id, 'BAD: the demonstration fails without the change:\n' + r.stdout[-1500:]
        for f, old, new in s['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return id, 'BAD: %d occurrences in %s of %r' % (t.count(old), f, old)
            open(p, 'w').write(t.replace(old, new))
        r = sh('gofmt -l . ; go build ./...', repo)
        if r.returncode or r.stdout.strip():
            return id, 'BAD: build\n' + r.stdout
        patch = sh('git diff', repo).stdout
        r = sh([os.path.join(d, 'demo.sh')], repo)
        if r.returncode == 0:
            return id, 'BAD: the demonstration passes with the change'
        if 'build failed' in r.stdout:
            return id, 'BAD: demonstration does not build\n' + r.stdout[-1500:]
        why = r.stdout[:300]
        r = sh('go test -json -vet=off -count=1 -timeout 10m ./... > %s/test.json' % scratch, repo, 900)
        sh(['python3', '/opt/vp/results.py', scratch + '/res.json', 'gojson:%s/test.json' % scratch], scratch)
        res = json.load(open(scratch + '/res.json'))
        lost = STABLE - set(res['passed'])
        if lost:
            return id, 'BAD: tests fail: ' + ', '.join(sorted(lost)[:6])
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        dest = os.path.join(OUT, id)
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(d, dest)
        return id, 'ok: ' + why.replace('\n', ' | ')
    finally:
        shutil.rmtree(scratch)

if __name__ == '__main__':
    exec(open(sys.argv[1]).read())
    ids = sys.argv[2:] or [i for i in SEEDS if not os.path.isdir(os.path.join(OUT, i))]
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
        for id, what in ex.map(confirm, ids):
            print(id, what, flush=True)
