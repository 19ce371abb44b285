"""runrefs.py [-c C01,C02] [-j] names...: apply refactorings to /repo one by
one (with '-g' all given at once), run the tests and the checks, undo.
Every check has to stay quiet."""
import subprocess, sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as R
ENV = dict(os.environ, GOFLAGS='-mod=mod')
args = sys.argv[1:]
checks = ['C%02d' % i for i in range(1, 21)]
group = False
names = []
while args:
    a = args.pop(0)
    if a == '-c':
        checks = args.pop(0).split(',')
    elif a == '-g':
        group = True
    else:
        names.append(a)
refs = [r for r in R.REFS if not names or any(n in r[0] for n in names)]
jobs = [('+'.join(r[0] for r in refs), [e for r in refs for e in r[1]])] if group else [(r[0], r[1]) for r in refs]
for name, edits in jobs:
    try:
        R.apply('/repo', edits)
        o = subprocess.run('cd /repo && gofmt -l . ; go test ./... 2>&1 | grep -v "no test files"; go test -tags forcegeneric ./... 2>&1 | grep -v "no test files"', shell=True, env=ENV, stdout=subprocess.PIPE).stdout.decode()
        bad = [l for l in o.splitlines() if not l.startswith('ok')]
        print('==', name, 'TESTS FAIL ' + str(bad[:8])[:600] if bad else 'tests ok', flush=True)
        if bad:
            continue
        for c in checks:
            t = time.time()
            p = subprocess.run(['python3-vt', '/verif/check.py', c], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out = p.stdout.decode(errors='replace').splitlines()
            if p.returncode != 0 or any(l.startswith('note') for l in out) or time.time() - t > 200:
                print('  ', c, 'exit', p.returncode, '%.0fs' % (time.time() - t), flush=True)
                for l in out[:4] + out[-1:]:
                    print('       ', l[:330], flush=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
