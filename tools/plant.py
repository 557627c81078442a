#!/usr/bin/env python3
"""plant.py verify ID...   : confirm planted bugs in scratch copies of /repo (build, stable tests, demo both ways)
plant.py run ID [PROP...] : run checks (default: the bug's property) against a scratch copy with the bug"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='1', GOWORK='off',
           GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def copy(bid):
    d = tempfile.mkdtemp(prefix='pl-%s-' % bid)
    r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    return d, r


def demo(sd, r, d):
    x = os.path.join(d, 'demo')
    shutil.rmtree(x, ignore_errors=True)
    shutil.copytree(sd, x, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    p = subprocess.run(['bash', os.path.join(x, 'demo.sh')], cwd=r, capture_output=True, text=True, timeout=300, env=ENV)
    return p.returncode, (p.stdout + p.stderr)[-500:]


def verify(bid):
    sd = os.path.join(V, 'seeded', bid)
    d, r = copy(bid)
    try:
        rc, o = demo(sd, r, d)
        if rc != 0:
            return bid, 'DEMO FAILS ON CLEAN: ' + o
        p = subprocess.run(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=r, capture_output=True, text=True)
        if p.returncode:
            return bid, 'PATCH: ' + p.stderr
        p = subprocess.run(['go', 'build', './...'], cwd=r, env=ENV, capture_output=True, text=True)
        if p.returncode:
            return bid, 'BUILD: ' + p.stderr[-800:]
        rc, o = demo(sd, r, d)
        if rc == 0:
            return bid, 'DEMO PASSES WITH BUG: ' + o
        w = os.path.join(d, 'work')
        subprocess.run(['python3', '/opt/vp/run_tests.py', w], cwd=r, env=ENV, capture_output=True)
        out = os.path.join(d, 'out.json')
        subprocess.run(['python3', '/opt/vp/results.py', out, 'gojson:' + os.path.join(w, 'log.json')], cwd=r, env=ENV, capture_output=True)
        miss = sorted(STABLE - set(json.load(open(out))['passed']))
        if miss:
            return bid, 'TESTS FAIL: %s' % miss[:5]
        return bid, 'ok (demo: %s)' % o.strip().splitlines()[-1][:150] if o.strip() else 'ok'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(bid, props):
    sd = os.path.join(V, 'seeded', bid)
    props = props or [json.load(open(os.path.join(sd, 'meta.json')))['property']]
    d, r = copy(bid)
    try:
        subprocess.run(['git', 'apply', os.path.join(sd, 'patch.diff')], cwd=r, check=True)
        for pr in props:
            p = subprocess.run(['python3', os.path.join(V, 'run.py'), 'check', pr], env=dict(os.environ, VERIF_REPO=r),
                               capture_output=True, text=True)
            print(bid, pr, 'rc=%d' % p.returncode, 'CAUGHT' if p.returncode == 1 and 'VIOLATION property=' + pr in p.stdout else 'MISSED',
                  (p.stdout.strip().splitlines() or [''])[-1][:200], flush=True)
            if '-v' in sys.argv:
                print(p.stdout[:3000])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    ids = [a for a in sys.argv[2:] if not a.startswith('-')]
    if sys.argv[1] == 'verify':
        for i in ids or sorted(os.listdir(os.path.join(V, 'seeded'))):
            print(*verify(i), flush=True)
    elif sys.argv[1] == 'all':
        for i in ids or sorted(os.listdir(os.path.join(V, 'seeded'))):
            run(i, [])
    else:
        run(ids[0], ids[1:])
