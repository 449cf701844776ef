#!/usr/bin/env python3
"""plant.py make FILE      build /verif/seeded/<id>/ from a definition file and verify it
plant.py verify [ID..]  verify planted bugs again (apply, build, stable tests, demo both ways)
plant.py catch [ID..]   run the check of the property (and of no other) against each bug, on /repo
Verification happens in a scratch copy under /tmp that is removed afterwards; `catch` applies the patch to /repo and
undoes it straight afterwards."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
REPO = '/repo'
DEMO = '''#!/bin/bash
# exits 0 when the property holds for the demonstration, nonzero when it does not
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1
export GOMODCACHE=/root/go/pkg/mod GOFLAGS='-mod=readonly -buildvcs=false'
o=$(mktemp)
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$o"
go test -vet=off -overlay "$o" -count=1 -timeout 250s %(race)s-run '^TestDemo' ./%(pkg)s
rc=$?
rm -f "$o"
exit $rc
'''


def sh(cmd, cwd=REPO, timeout=900, env=None):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, env=env, errors='replace')


def goenv():
    e = dict(os.environ)
    e.update(PATH='/opt/veriftools/go1.27.3/bin:' + e['PATH'], HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off',
             CGO_ENABLED='1', GOMODCACHE='/root/go/pkg/mod', GOFLAGS='-mod=readonly -buildvcs=false')
    return e


def baseline():
    b = json.load(open('/opt/vp/BASELINE.json'))
    return b


def stable_names():
    b = baseline()
    for k in ('stable', 'tests', 'passing', 'pass'):
        if isinstance(b, dict) and k in b:
            v = b[k]
            return set(v if isinstance(v, list) else v.keys())
    return set(b if isinstance(b, list) else b.keys())


def verify(bid):
    d = os.path.join(SEEDED, bid)
    patch = os.path.join(d, 'patch.diff')
    # removed lines must be the original repository's
    cur = None
    for line in open(patch):
        if line.startswith('--- a/'):
            cur = line[6:].strip()
        m = re.match(r'@@ -(\d+)', line)
        if m:
            n = int(m.group(1)) - 1
            continue
        if cur and line[:1] in ' -' and not line.startswith('---'):
            n += 1
            if line[0] == '-':
                b = sh(['git', 'blame', '-s', '-L', f'{n},{n}', 'HEAD', '--', cur]).stdout
                if not b.lstrip('^').startswith('ae8ff4f') and line[1:].strip():
                    return f'line not original: {cur}:{n} {b.strip()}'
    work = tempfile.mkdtemp(prefix='plant.')
    try:
        c = os.path.join(work, 'repo')
        sh(['cp', '-a', REPO, c])
        dd = os.path.join(work, 'demo')
        os.makedirs(dd)
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), dd)
        p = sh(['bash', os.path.join(dd, 'demo.sh')], cwd=c, timeout=300)
        if p.returncode != 0:
            return 'demo fails on the unchanged tree:\n' + p.stdout[-3000:]
        p = sh(['git', 'apply', patch], cwd=c)
        if p.returncode:
            return 'patch does not apply: ' + p.stdout
        p = sh(['go', 'build', './...'], cwd=c, env=goenv())
        if p.returncode:
            return 'build: ' + p.stdout
        p = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '10m', '-skip', '^TestCheckRingSignature$', './...'],
               cwd=c, env=goenv())
        failed = {(json.loads(l).get('Package'), json.loads(l).get('Test')) for l in p.stdout.splitlines()
                  if l.startswith('{') and json.loads(l).get('Action') == 'fail'}
        if failed:
            names = [f'{a}::{b}' for a, b in failed if b]
            base = json.dumps(baseline())
            bad = [x for x in names if x.split('::')[1] in base]
            if bad:
                return 'stable tests fail: ' + ', '.join(bad)
        t0 = time.time()
        p = sh(['bash', os.path.join(dd, 'demo.sh')], cwd=c, timeout=300)
        if p.returncode == 0:
            return 'demo passes with the patch'
        if '[build failed]' in p.stdout or '[setup failed]' in p.stdout:
            return 'demo does not build: ' + p.stdout[-2000:]
        return 'ok (%.0fs demo) ' % (time.time() - t0) + ' | '.join(
            l.strip() for l in p.stdout.splitlines() if 'demo' in l.lower() or 'panic' in l)[:160]
    finally:
        shutil.rmtree(work)


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    for b in ns['BUGS']:
        d = os.path.join(SEEDED, b['id'])
        work = tempfile.mkdtemp(prefix='plant.')
        try:
            c = os.path.join(work, 'repo')
            sh(['cp', '-a', REPO, c])
            bad = None
            for f, old, new in b['edits']:
                s = open(os.path.join(c, f)).read()
                if s.count(old) != 1:
                    bad = f'{f}: {s.count(old)} matches of {old!r}'
                    break
                open(os.path.join(c, f), 'w').write(s.replace(old, new))
            if bad:
                print(b['id'], 'BAD', bad)
                continue
            diff = sh(['git', 'diff', '--no-color'], cwd=c).stdout
        finally:
            shutil.rmtree(work)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo_test.go'), 'w').write(b['demo'].lstrip())
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % dict(pkg=b['pkg'], race='-race ' if b.get('race') else ''))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        open(os.path.join(d, 'meta.json'), 'a').write('\n')
        r = verify(b['id'])
        print(b['id'], b['property'], r, flush=True)
        if not r.startswith('ok') and '-k' not in sys.argv:
            shutil.rmtree(os.path.join(SEEDED, b['id']))


def catch(ids):
    assert not sh(['git', 'status', '--porcelain']).stdout.strip(), '/repo is not clean'
    for bid in ids:
        d = os.path.join(SEEDED, bid)
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        sh(['git', 'apply', os.path.join(d, 'patch.diff')])
        try:
            t0 = time.time()
            p = sh([sys.executable, os.path.join(os.path.dirname(HERE), 'run.py'), pid], timeout=1800)
        finally:
            sh(['git', 'checkout', '--', '.'])
        v = re.search(r'^VIOLATION.*$', p.stdout, re.M)
        print(f'{bid} {pid} exit={p.returncode} {time.time() - t0:.0f}s {"CAUGHT" if v and p.returncode == 1 else "MISSED"}', flush=True)
        if p.returncode not in (0, 1):
            print(p.stdout[-1500:])


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    if sys.argv[1] == 'make':
        make(ids[0])
    else:
        ids = ids or sorted(os.listdir(SEEDED))
        if sys.argv[1] == 'verify':
            for i in ids:
                print(i, verify(i), flush=True)
        else:
            catch(ids)
