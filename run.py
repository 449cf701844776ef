#!/usr/bin/env python3
"""run.py <ID>            run the check of a property (VERIF_TIER, VERIF_SEED)
run.py --replay <path>  run a replay file of a violation again
run.py --setup          check the tools and build every test binary once"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
MOD = 'github.com/r3volut1oner/go-karbo'
H = os.path.join(HERE, 'harness')
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

TIER = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class Infra(Exception):
    pass


def go_env():
    """The environment of /opt/vp/env.sh."""
    env = dict(os.environ)
    env.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', CGO_ENABLED='1',
               GOMODCACHE='/root/go/pkg/mod', GOFLAGS='-mod=readonly -buildvcs=false')
    env.setdefault('GOCACHE', '/root/.cache/go-build')
    env['PATH'] = '/opt/veriftools/go1.27.3/bin:' + env.get('PATH', '')
    for k in ('GOFLAGS_EXTRA', 'GODEBUG', 'GOEXPERIMENT'):
        env.pop(k, None)
    return env


def overlay(work, pkg, without=()):
    rep = {}
    for d in ('rapid', 'kit', 'ref'):
        for f in glob.glob(os.path.join(H, d, '*.go')):
            if not f.endswith('_test.go'):
                rep[f'{REPO}/zzverif/{d}/{os.path.basename(f)}'] = f
    for f in glob.glob(os.path.join(H, 'pkg', pkg, '*_test.go')):
        if os.path.basename(f) in without:
            continue
        rep[f'{REPO}/{pkg}/{os.path.basename(f)}'] = f
    # harness helpers shared by packages, as packages of their own that may import the code under test
    for d in glob.glob(os.path.join(H, 'lib', '*')):
        for f in glob.glob(os.path.join(d, '*.go')):
            rep[f'{REPO}/zzverif/{os.path.basename(d)}/{os.path.basename(f)}'] = f
    path = os.path.join(work, 'overlay.json')
    with open(path, 'w') as o:
        json.dump({'Replace': rep}, o)
    return path


def build(work, pkg, race, tests=()):
    """Build the tests of a package. Test files that do not compile (the unexported names they use may have changed) are
    left out as long as the wanted tests do not need them."""
    out = os.path.join(work, pkg.replace('/', '_') + ('_race' if race else '') + '.test')
    without = set()
    while True:
        cmd = ['go', 'test', '-vet=off', '-gcflags=-e', '-overlay', overlay(work, pkg, without), '-c', '-o', out]
        if race:
            cmd.append('-race')
        cmd.append('./' + pkg)
        p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return out
        broken = set(re.findall(r'(\w+_verif_test\.go):\d+', p.stdout)) - without
        wanted = {os.path.basename(f) for f in glob.glob(os.path.join(H, 'pkg', pkg, '*_test.go'))
                  if any(f'func {t}(' in open(f).read() for t in tests)}
        if not tests or not broken or broken & wanted:
            raise Infra('build failed:\n' + p.stdout[-6000:])
        print('left out:', sorted(broken), file=sys.stderr)
        without |= broken


def limits():
    # a background job of a shell ignores interrupts, and so would the daemons that a test starts
    for s in (signal.SIGINT, signal.SIGQUIT, signal.SIGHUP, signal.SIGTERM):
        signal.signal(s, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_mem():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_one(binary, test, seed, work, n, race, timeout, extra=()):
    """Run one test in a scratch directory of its own. Returns a result dict."""
    cwd = os.path.join(work, f'run{n}')
    out = os.path.join(work, f'out{n}')
    os.makedirs(cwd)
    os.makedirs(out)
    env = go_env()
    env.update(VERIF_OUT=out, VERIF_REPO=REPO, VERIF_TIER=TIER, VERIF_SEED=str(seed), GOTRACEBACK='all', TMPDIR=cwd,
               GORACE='halt_on_error=1 exitcode=66')
    cmd = [binary, '-test.run', f'^{test}$', f'-test.timeout={timeout}s', f'-rapid.seed={seed or 0x5eed}',
           '-rapid.shrinktime=' + ('60s' if TIER == 'thorough' else '12s'), '-test.count=1', '-test.v', *extra]
    log = os.path.join(work, f'log{n}')
    t0 = time.time()
    with open(log, 'w') as lf:
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env, stdout=lf, stderr=subprocess.STDOUT,
                               preexec_fn=limits if race else limits_mem, timeout=timeout + 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    with open(log, errors='replace') as lf:
        text = lf.read()
    return dict(test=test, rc=rc, text=text, cwd=cwd, out=out, log=log, seed=seed, wall=time.time() - t0, race=race)


def classify(r):
    """ok, violation or infra, with a reason."""
    rc, text = r['rc'], r['text']
    if rc == 0:
        if f'--- PASS: {r["test"]}' in text:
            return 'ok', ''
        return 'infra', 'test not found or skipped'
    if 'VERIF-INFRA' in text:
        return 'infra', 'harness problem'
    if rc == 'timeout' or 'panic: test timed out' in text:
        if 'VERIF-FAILED' in text:
            return 'violation', 'property failed (the time ran out before the case was shrunk)'
        return 'infra', 'time budget of the run exceeded'
    if 'VERIF-HANG' in text:
        return 'violation', 'a call that must return did not'
    if 'WARNING: DATA RACE' in text:
        return 'violation', 'data race'
    if '[rapid] only generated' in text or 'group did not use any data from bitstream' in text:
        return 'infra', 'not enough valid cases'
    if f'--- FAIL: {r["test"]}' in text:
        return 'violation', 'property failed'
    # deaths that no harness can recover: believed only when the dying goroutine was in the code under test
    m = re.search(r'^(fatal error|panic|runtime): .*$', text, re.M)
    if m:
        stack = re.split(r'\n\n(?=goroutine )', text[m.start():])
        top = '\n'.join(stack[:2])
        files = re.findall(r'^\t(' + re.escape(REPO) + r'/\S+\.go):\d+', top, re.M)
        if any('/zzverif/' not in f and not f.endswith('_test.go') for f in files):
            return 'violation', m.group(0)
    return 'infra', f'exit {rc}'


def known_findings(pid):
    res = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) test=(\S+) match=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res.append(m.groups()[1:])
    return res


def save_replay(pid, r, reason):
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    base = os.path.join(HERE, 'replays', f'{pid}-{r["test"]}-{r["seed"]}')
    fail = glob.glob(os.path.join(r['cwd'], 'testdata', 'rapid', '*', '*.fail'))
    rec = dict(property=pid, test=r['test'], seed=r['seed'], tier=TIER, reason=reason)
    if fail:
        shutil.copy(fail[0], base + '.fail')
        rec['failfile'] = os.path.basename(base) + '.fail'
    infl = glob.glob(os.path.join(r['out'], 'inflight.*'))
    if infl:
        rec['inflight'] = open(infl[0], errors='replace').read()[:100000]
    rec['output'] = r['text'][-20000:]
    with open(base + '.json', 'w') as f:
        json.dump(rec, f, indent=1)
    return base + '.json'


def tests_of(c):
    return c['tests']


def check(pid):
    c = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    try:
        jobs = []
        for pkg, race, tests in c['tests']:
            for t in tests:
                jobs.append((pkg, race, t))
        bins = {}
        for pkg, race, _ in jobs:
            if (pkg, race) not in bins:
                bins[pkg, race] = build(work, pkg, race, [t for q, _, t in jobs if q == pkg])
        timeout = c.get('timeout', 240) if TIER == 'quick' else c.get('thorough_timeout', 1800)
        shards = c.get('quick_shards', 1) if TIER == 'quick' else c.get('shards', 4)
        runs = []
        for s in range(shards):
            for pkg, race, t in jobs:
                seed = ((SEED * 1000003 + s * 7919) & 0x7fffffff) or 0x5eed
                runs.append((bins[pkg, race], t, seed, race))
        workers = c.get('workers', 8)
        with ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(run_one, b, t, seed, work, i, race, timeout) for i, (b, t, seed, race) in enumerate(runs)]
            results = [f.result() for f in futs]
        ev = dict(property=pid, tier=TIER, seed=SEED, level='exploration',
                  coverage=dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], labels={}, tests={}),
                  assumptions=c.get('assumptions', []), wall_s=0, violations=0)
        cov = ev['coverage']
        rules = []
        for r in results:
            for f in glob.glob(os.path.join(r['out'], '*.json')):
                d = json.load(open(f))
                cov['evaluations'] += d['evaluations']
                cov['distinct_nontrivial'] += d['distinct_nontrivial']
                if d['rule'] not in rules:
                    rules.append(d['rule'])
                cov['samples'] += [f"{d['test']}: {s}" for s in (d['samples'] or [])][:4]
                for k, v in (d['labels'] or {}).items():
                    k = f"{d['test']}/{k}"
                    cov['labels'][k] = cov['labels'].get(k, 0) + v
                tt = cov['tests'].setdefault(d['test'], dict(evaluations=0, distinct_nontrivial=0))
                tt['evaluations'] += d['evaluations']
                tt['distinct_nontrivial'] += d['distinct_nontrivial']
        cov['rule'] = ' || '.join(rules)
        cov['samples'] = cov['samples'][:40]
        viol, infra = [], []
        kf = known_findings(pid)
        for r in results:
            kind, why = classify(r)
            if kind == 'violation':
                hit = [k for k in kf if k[0] == r['test'] and re.search(k[1], r['text'])]
                if hit:
                    print(f'KNOWN-FINDING: property={pid} {hit[0][2]}')
                    continue
                viol.append((r, why))
            elif kind == 'infra':
                infra.append((r, why))
        ev['violations'] = len(viol)
        ev['wall_s'] = round(time.time() - t0, 2)
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for r, why in viol:
            path = save_replay(pid, r, why)
            lines = [x for x in r['text'].splitlines() if '[rapid]' in x or 'Error' in x or 'panic' in x or 'VERIF-FAILED' in x][:6]
            print(f'{r["test"]}: {why}')
            print('\n'.join(lines)[:1500])
            print(f'VIOLATION property={pid} replay={path}', flush=True)
        for r, why in infra:
            print(f'ERROR {r["test"]}: {why}\n{r["text"][-3000:]}', file=sys.stderr)
        if viol:
            return 1
        if infra:
            return 2
        print(f'{pid} ok: {cov["evaluations"]} cases, {cov["distinct_nontrivial"]} distinct non-trivial, {ev["wall_s"]} s')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    rec = json.load(open(path))
    c = CHECKS[rec['property']]
    global TIER
    TIER = rec.get('tier', 'quick')
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        for pkg, race, tests in c['tests']:
            if rec['test'] in tests:
                b = build(work, pkg, race, [rec['test']])
                extra = []
                if rec.get('failfile'):
                    extra = ['-rapid.failfile=' + os.path.join(os.path.dirname(os.path.abspath(path)), rec['failfile'])]
                r = run_one(b, rec['test'], rec['seed'], work, 0, race, 600, extra)
                print(r['text'][-8000:])
                kind, why = classify(r)
                if kind == 'violation':
                    print(f'VIOLATION property={rec["property"]} replay={path}')
                    return 1
                return 0 if kind == 'ok' else 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 2


def setup():
    work = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        done = set()
        for c in CHECKS.values():
            for pkg, race, _ in c['tests']:
                if (pkg, race) not in done:
                    done.add((pkg, race))
                    build(work, pkg, race)
        print('built', sorted(done))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ['--setup']:
            return setup()
        if a[:1] == ['--replay']:
            return replay(a[1])
        if len(a) == 1 and a[0] in CHECKS:
            return check(a[0])
        print(__doc__)
        return 2
    except Infra as e:
        print('ERROR', e, file=sys.stderr)
        return 2


if __name__ == '__main__':
    sys.exit(main())
