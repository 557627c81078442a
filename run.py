#!/usr/bin/env python3
"""Orchestrates the model-based checks: builds the harness against /repo's
working tree, lets TLC generate behaviours, replays them and random episodes on
the real code, and lets TLC check the recorded traces against the TLA+ specs."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(V, 'spec')
EVID = os.path.join(V, 'evidence') if REPO == '/repo' else REPO + '.evidence'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SHARDS = int(os.environ.get('VERIF_SHARDS', '8'))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402


class CheckError(Exception):
    pass


class OutOfTime(Exception):
    pass


def goenv():
    env = dict(os.environ)
    env.update(PATH='/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
               HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='0',
               GOWORK='off', GOMODCACHE='/root/go/pkg/mod',
               GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'))
    return env


def build(work):
    """build the harness; with the white-box overlay if it still fits the code"""
    hd = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(V, 'harness'), hd, ignore=shutil.ignore_patterns('overlay'))
    if REPO != '/repo':  # development only: run against a scratch copy
        gm = os.path.join(hd, 'go.mod')
        txt = open(gm).read().replace('=> /repo', '=> ' + REPO)
        open(gm, 'w').write(txt)
    out = os.path.join(work, 'h')
    ov = os.path.join(work, 'overlay.json')
    rep = {}
    od = os.path.join(V, 'harness', 'overlay')
    if os.path.isdir(od):
        for root, _, files in os.walk(od):
            for fn in files:
                rel = os.path.relpath(os.path.join(root, fn), od)
                if fn.endswith('.go'):
                    rep[os.path.join(REPO, rel)] = os.path.join(root, fn)
    json.dump({'Replace': rep}, open(ov, 'w'))
    env = goenv()
    whitebox = False
    if rep:
        p = subprocess.run(['go', 'build', '-tags', 'whitebox', '-overlay', ov, '-o', out, '.'], cwd=hd, env=env,
                           capture_output=True, text=True)
        whitebox = p.returncode == 0
        if not whitebox:
            print('note: in-package accessors do not fit this tree, continuing without them', flush=True)
    if not whitebox:
        p = subprocess.run(['go', 'build', '-o', out, '.'], cwd=hd, env=env, capture_output=True, text=True)
        if p.returncode != 0:
            raise CheckError('harness does not build:\n' + p.stderr[-3000:])
    return out, whitebox


def tlc(module, work, env=None, extra=(), timeout=None, heap='2500m', cfg=None):
    md = tempfile.mkdtemp(prefix='md', dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + heap, '-Djava.io.tmpdir=' + md, '-cp', JARS, 'tlc2.TLC',
           '-metadir', md, '-noGenerateSpecTE', '-config', cfg or module + '.cfg', *extra, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired:
        raise OutOfTime('TLC timeout on ' + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', ',')) or \
        re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist


def read_lines(path):
    with open(path) as fh:
        return fh.read().splitlines()


def episodes(lines):
    """split a trace into episodes; each starts with a begin event"""
    eps, cur = [], []
    for ln in lines:
        if ln.startswith('{') and '"op":"begin"' in ln and cur:
            eps.append(cur)
            cur = []
        cur.append(ln)
    if cur:
        eps.append(cur)
    return eps


def validate(module, lines, work, tag, stats, t_end):
    """returns list of (episode_lines, event_index_in_episode, message) rejected"""
    rejected = []
    eps = episodes(lines)
    while eps:
        flat = [x for ep in eps for x in ep]
        path = os.path.join(work, tag + '.ndjson')
        with open(path, 'w') as fh:
            fh.write('\n'.join(flat) + '\n')
        try:
            rc, out, gen, dist = tlc(module, work, {'TRACE': path}, timeout=max(20, t_end - time.time()))
        except OutOfTime:
            # nothing is claimed about these episodes
            stats['unvalidated'] = stats.get('unvalidated', 0) + len(eps)
            break
        stats['states'] += dist
        stats['transitions'] += max(0, dist - 1)
        m = re.search(r'<<"REACHED", (\d+), (\d+)>>', out)
        err = None
        if m:
            reached, total = int(m.group(1)), int(m.group(2))
            if reached >= total:
                stats['traces'] += len(eps)
                break
            pos = reached
        else:
            # evaluation error: the event is outside the vocabulary of the spec
            ms = re.findall(r'^/\\ l = (\d+)|^l = (\d+)', out, re.M)
            if 'Error:' in out and ms and 'OutOfMemory' not in out:
                pos = max(int(a or b) for a, b in ms) - 1
                err = out[out.find('Error:'):][:600]
            else:
                keep = '/tmp/tlc_error_%s.txt' % tag
                open(keep, 'w').write(out)
                raise CheckError('TLC failed on %s (%s):\n%s' % (module, keep, out[-2500:]))
        k = 0
        for i, ep in enumerate(eps):
            if pos < k + len(ep):
                rejected.append((ep, pos - k, err))
                stats['traces'] += i
                eps = eps[i + 1:]
                break
            k += len(ep)
        if len(rejected) >= 4:
            break
    return rejected


def run_shard(job, shard, ctx):
    """harness + TLC for one shard"""
    st = dict(states=0, transitions=0, traces=0, events=0, hashes=set(), samples=[])
    viol = []
    work = ctx['work']
    tag = '%s-%d' % (job['driver'], shard)
    n = job[ctx['tier']]
    out = os.path.join(work, tag + '.raw')
    start = shard
    lines = []
    specs = ctx['gen'].get(job.get('gen'))
    if specs:
        n = min(n, sum(1 for _ in open(specs))) if job.get('exhaust', True) else n
    crashes = 0
    quick = ctx['tier'] == 'quick'
    while start < n:
        if ctx['stop'].is_set() or time.time() > ctx['t_run']:
            st['cut'] = 1
            break
        cmd = [ctx['bin'], '-driver', job['driver'], '-seed', str(ctx['seed']), '-from', str(start), '-to', str(n),
               '-step', str(SHARDS), '-out', out, '-tier', ctx['tier'], '-eptimeout', str(job.get('eptimeout', 100))]
        if specs:
            cmd += ['-specs', specs]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, GOMEMLIMIT='2500MiB', GOGC='200'),
                               timeout=max(5, ctx['t_run'] - time.time()))
        except subprocess.TimeoutExpired:
            # out of time: keep the complete episodes
            st['cut'] = 1
            got = read_lines(out) if os.path.exists(out) else []
            lines += [x for ep in episodes(got)[:-1] for x in ep]
            break
        if p.returncode == 3:
            raise CheckError('harness: ' + p.stderr)
        lines += read_lines(out) if os.path.exists(out) else []
        if p.returncode == 0:
            break
        bad = int(open(out + '.cur').read())
        if job.get('soft') and p.returncode == 4:
            # a search that is hard by design: no answer within the limit says nothing
            st['skipped'] = st.get('skipped', 0) + 1
            start = bad + SHARDS
            if quick and st['skipped'] >= 3:
                st['cut'] = 1
                break
            continue
        # retry the episode alone before believing it
        cmd[cmd.index('-from') + 1] = str(bad)
        cmd[cmd.index('-to') + 1] = str(bad + 1)
        q = subprocess.run(cmd, capture_output=True, text=True, env=dict(os.environ, GOMEMLIMIT='6000MiB'))
        if q.returncode != 0:
            kind = 'hang' if q.returncode == 4 else 'crash'
            ep = [json.dumps({'op': 'begin', 'ep': bad}),
                  json.dumps({'op': kind, 'driver': job['driver'], 'detail': q.stderr[:1500]})]
            viol.append((ep, 1, kind))
            crashes += 1
        else:
            lines += read_lines(out)
        start = bad + SHARDS
        if crashes >= (1 if quick else 2):
            break
    if os.path.exists(out):
        os.remove(out)
    for ep in episodes(lines):
        body = '\n'.join(re.sub(r'"ep":\d+,?', '', x) for x in ep)
        st['hashes'].add(hashlib.md5(body.encode()).digest()[:8])
    st['events'] = len(lines)
    if lines and shard == 0:
        st['samples'] = [json.loads(x) for x in episodes(lines)[0][:3]]
    if lines:
        viol += validate(job['module'], lines, work, tag, st, ctx['t_end'])
    if quick and any(known_as(ctx['known'], job, ep, idx) is None for ep, idx, _ in viol):
        ctx['stop'].set()  # one violation decides the check; shards under way are still finished
    return job, st, viol


def known_as(known, job, ep, idx):
    return next((d for d in known if d.get('driver', job['driver']) == job['driver'] and matches(d['match'], ep, idx)), None)


def load_known(prop):
    path = os.path.join(V, 'known_findings.jsonl')
    r = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln and not ln.startswith('#'):
                d = json.loads(ln)
                if d.get('property') == prop and 'match' in d:
                    r.append(d)
    return r


def matches(pat, ep, idx):
    """all regexes of a known finding must match the episode's lines"""
    body = '\n'.join(ep[:idx + 1])
    return all(re.search(p, ep[idx]) for p in pat.get('event', [])) and \
        all(re.search(p, body) for p in pat.get('history', []))


def check(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[prop]
    work = tempfile.mkdtemp(prefix='vf-' + prop + '-')
    try:
        binp, whitebox = build(work)
        known = load_known(prop)
        ctx = dict(work=work, tier=tier, seed=seed, bin=binp, gen={}, whitebox=whitebox, known=known,
                   stop=threading.Event(), t_run=t0 + (480 if tier == 'quick' else 6 * 3600),
                   t_end=t0 + (780 if tier == 'quick' else 12 * 3600))
        tot = dict(states=0, transitions=0, traces=0, events=0)
        hashes, samples, modelinfo = set(), [], []
        viol = []
        jobs = [j for j in cfg['jobs'] if whitebox or not j.get('whitebox')]

        def model(mj):
            ex = list(mj.get('args', []))
            if 'simulate' in mj:
                ex += ['-simulate', 'num=%d' % (mj['simulate'] * (20 if tier == 'thorough' else 1)), '-depth', str(mj['depth'] + 3),
                       '-seed', str(seed)]
            if 'workers' in mj:
                ex += ['-workers', str(mj['workers'])]
            outp = os.path.join(work, mj['name'] + '.gen.ndjson')
            ex = [x.replace('$SEED', str(seed)) for x in ex]
            try:
                rc, out, gen, dist = tlc(mj['module'], work, {'OUT': outp, 'SEED': str(seed), 'TIER': tier}, ex,
                                         heap=mj.get('heap', '4g'), cfg=mj.get(tier + '_cfg') or mj.get('cfg'),
                                         timeout=max(20, ctx['t_end'] - time.time()))
            except OutOfTime as exc:
                raise CheckError(str(exc))
            ok = 'No error has been found' in out or 'Finished' in out and rc == 0
            if mj.get('expect_error'):
                ok = mj['expect_error'] in out
            if not ok or rc not in (0,) and not mj.get('expect_error'):
                open('/tmp/tlc_error_model.txt', 'w').write(out)
                raise CheckError('model %s: TLC exit %d\n%s' % (mj['module'], rc, out[-3000:]))
            return mj, outp, gen, dist

        with ThreadPoolExecutor(SHARDS) as ex:
            mjs = [m for m in cfg.get('models', []) if tier in m.get('tiers', ('quick', 'thorough'))]
            gens = [ex.submit(model, m) for m in mjs if m.get('gen')]
            others = [ex.submit(model, m) for m in mjs if not m.get('gen')]
            for fu in gens:
                mj, outp, gen, dist = fu.result()
                ctx['gen'][mj['name']] = outp
                tot['states'] += dist
                tot['transitions'] += gen
                modelinfo.append({'model': mj['name'], 'states': dist, 'transitions': gen,
                                  'behaviours': sum(1 for _ in open(outp))})
            futs = [ex.submit(run_shard, j, s, ctx) for j in jobs for s in range(SHARDS)]
            perjob = {}
            less = dict(skipped=0, cut=0, unvalidated=0)
            for fu in futs:
                j, st, vs = fu.result()
                for k in ('skipped', 'cut', 'unvalidated'):
                    less[k] += st.get(k, 0)
                for k in tot:
                    tot[k] += st[k]
                hashes |= st['hashes']
                samples += st['samples'][:2]
                pj = perjob.setdefault(j['driver'], dict(module=j['module'], episodes=0, events=0))
                pj['episodes'] += st['traces']
                pj['events'] += st['events']
                viol += [(j, *v) for v in vs]
            for fu in others:
                mj, outp, gen, dist = fu.result()
                tot['states'] += dist
                tot['transitions'] += gen
                modelinfo.append({'model': mj['name'], 'states': dist, 'transitions': gen})
        real, seen = [], {}
        for j, ep, idx, err in viol:
            k = known_as(known, j, ep, idx)
            if k:
                seen[k['id']] = k
            else:
                real.append((j, ep, idx, err))
        for k in known:
            # a listed finding stays listed even if this run did not hit it
            print('KNOWN-FINDING: property=%s %s%s' % (prop, k['what'], '' if k['id'] in seen else ' (not hit in this run)'))
        for j, ep, idx, err in real:
            rd = os.path.join(EVID, 'replay')
            os.makedirs(rd, exist_ok=True)
            try:
                eid = json.loads(ep[0]).get('ep')
            except Exception:
                eid = 'x'
            rp = os.path.join(rd, '%s-%s-%s-%s.ndjson' % (prop, j['driver'], seed, eid))
            with open(rp, 'w') as fh:
                fh.write('\n'.join(ep[:idx + 1]) + '\n')
                fh.write(json.dumps({'rejected_event': idx + 1, 'spec': j['module'], 'note': err,
                                     'reproduce': 'harness -driver %s -seed %d -from %s -to %s+1' % (j['driver'], seed, eid, eid)}) + '\n')
            print('VIOLATION property=%s replay=%s' % (prop, rp), flush=True)
            print('  rejected by spec/%s.tla: %s' % (j['module'], ep[idx][:1500]))
            if err:
                print('  ' + err.replace('\n', '\n  ')[:700])
        cov = dict(states=tot['states'], transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'], evaluations=tot['events'],
                   distinct_nontrivial=len(hashes),
                   rule='episodes made by the drivers below from seed %d and from TLC behaviours; two episodes are '
                        'distinct if their recorded events differ; every episode contains at least one result of '
                        'the real code' % seed,
                   per_driver=perjob, models=modelinfo, whitebox=whitebox, skipped_episodes=less['skipped'],
                   shards_cut_short=less['cut'], episodes_not_validated=less['unvalidated'], samples=samples[:4] or ['none'])
        ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'model_checking'), coverage=cov,
                  assumptions=cfg.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=len(real))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s: %d episodes, %d events, %d states, %.1fs, %d violations' %
              (prop, tot['traces'], tot['events'], tot['states'], time.time() - t0, len(real)))
        return 1 if real else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        try:
            sys.exit(check(sys.argv[2]))
        except CheckError as ex:
            print('ERROR', ex)
            sys.exit(2)
    if len(sys.argv) == 2 and sys.argv[1] == 'setup':
        work = tempfile.mkdtemp(prefix='vf-setup-')
        try:
            _, wb = build(work)
            print('harness builds, whitebox=%s' % wb)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(0)
    print('usage: run.py setup | check <ID>')
    sys.exit(3)


if __name__ == '__main__':
    main()
