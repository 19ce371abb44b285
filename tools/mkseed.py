#!/usr/bin/env python3
"""Writes and confirms planted bugs:  mkseed.py [id ...]
Each entry of seeds.py becomes seeded/<id>/ when, in a scratch copy of /repo,
the patch builds, the stable tests pass with it, and the demonstration fails
with it and passes without it."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), 'seeded')
sys.path.insert(0, HERE)
import seeds

ENV = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local')
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; non-zero: the property is broken
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestDemo$' %s ./%s
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def stable(cwd):
    base = json.load(open('/opt/vp/BASELINE.json'))
    for tags in ('', 'forcegeneric'):
        r = sh(['go', 'test', '-vet=off', '-count=1', '-tags', tags, './...'], cwd)
        if r.returncode != 0:
            return r.stdout.decode()[-1500:]
    return None


def main():
    ids = sys.argv[1:] or [s['id'] for s in seeds.SEEDS]
    for s in seeds.SEEDS:
        if s['id'] not in ids:
            continue
        w = tempfile.mkdtemp(prefix='seed-')
        try:
            c = os.path.join(w, 'repo')
            sh(['git', 'clone', '-q', '/repo', c], w)
            d = os.path.join(w, 'demo')
            os.makedirs(d)
            pkg = s['pkg']
            with open(os.path.join(d, 'demo.sh'), 'w') as fh:
                fh.write(s.get('script') or DEMO % (pkg, '-tags forcegeneric' if s.get('generic') else '', pkg))
            with open(os.path.join(d, 'demo_test.go'), 'w') as fh:
                fh.write(s['demo'])
            r = sh(['bash', os.path.join(d, 'demo.sh')], c)
            if r.returncode != 0:
                print(s['id'], 'demo fails on the unchanged tree', r.stdout.decode()[-1500:])
                continue
            for f, old, new in s['edits']:
                p = os.path.join(c, f)
                t = open(p).read()
                assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                open(p, 'w').write(t.replace(old, new))
            e = stable(c)
            if e:
                print(s['id'], 'tests fail:', e)
                continue
            r = sh(['bash', os.path.join(d, 'demo.sh')], c)
            if r.returncode == 0:
                print(s['id'], 'demo passes with the patch')
                continue
            if not s.get('script') and b'FAIL' not in r.stdout or b'build failed' in r.stdout:
                print(s['id'], 'demo does not fail properly', r.stdout.decode()[-800:])
                continue
            with open(os.path.join(d, 'patch.diff'), 'wb') as fh:
                fh.write(sh(['git', 'diff'], c).stdout)
            with open(os.path.join(d, 'meta.json'), 'w') as fh:
                json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), fh, indent=1)
                fh.write('\n')
            o = os.path.join(OUT, s['id'])
            if os.path.exists(o):
                shutil.rmtree(o)
            shutil.copytree(d, o)
            print(s['id'], 'ok')
        finally:
            shutil.rmtree(w, ignore_errors=True)


main()
