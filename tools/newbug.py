#!/usr/bin/env python3
"""newbug.py SPEC.py : SPEC.py defines BUGS = [dict(id, property, file, old, new | edits=[(file, old, new)], needs, breaks, demo)].
Writes seeded/<id>/{patch.diff,demo.sh,main.go,meta.json}."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 if the library behaves as the property says, 1 otherwise (cwd: the repository)
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=0
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
printf '{"Replace":{"%s/zzdemo/main.go":"%s/main.go"}}' "$repo" "$here" > "$t/ov.json"
go build -overlay "$t/ov.json" -o "$t/demo" ./zzdemo || exit 2
cd "$t" && timeout 120 ./demo
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    d = tempfile.mkdtemp(prefix='nb-')
    r = os.path.join(d, 'repo')
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    for fn, old, new in b.get('edits') or [(b['file'], b['old'], b['new'])]:
        p = os.path.join(r, fn)
        s = open(p).read()
        if s.count(old) != 1:
            print(b['id'], 'old text occurs', s.count(old), 'times in', fn); sys.exit(1)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', 'diff', '--'] + [e[0] for e in (b.get('edits') or [(b['file'],)])], cwd=r, capture_output=True, text=True).stdout
    sd = os.path.join(V, 'seeded', b['id'])
    os.makedirs(sd, exist_ok=True)
    open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
    open(os.path.join(sd, 'demo.sh'), 'w').write(SH)
    open(os.path.join(sd, 'main.go'), 'w').write(b['demo'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
    shutil.rmtree(d)
    print(b['id'], 'written')
