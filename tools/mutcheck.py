"""mutcheck.py DIR: verifies every patch in DIR with fastrefs (all contracts, no
input search); prints for each whether an obligation failed."""
import glob, os, subprocess, sys
import concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
CODE = '''
import sys; sys.path.insert(0, %r); sys.path.insert(0, %r); sys.path.insert(0, %r)
import fastrefs, refactorings, subprocess
refactorings.apply = lambda repo, edits: subprocess.run(["git", "apply", edits], cwd=repo, check=True)
refactorings.REFS = [("m", sys.argv[1])]
r = fastrefs.one("m")
print("%%.0fs" %% r[1]); print("\\n".join(r[2]))
''' % (HERE, os.path.dirname(HERE), os.path.join(os.path.dirname(HERE), 'engine'))


def go(p):
    r = p[:-5] + '.out'
    if not os.path.exists(r):
        o = subprocess.run([sys.executable, '-c', CODE, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout
        open(r, 'wb').write(o)
    o = open(r).read()
    bad = [l for l in o.splitlines()[1:] if l.strip() and not l.startswith(('   withdrawn', '   -', '   slow'))]
    return p, bad


with cf.ThreadPoolExecutor(8) as ex:
    for p, bad in ex.map(go, sorted(glob.glob(os.path.abspath(sys.argv[1]) + '/*.diff'))):
        props = sorted({x for l in bad for x in l.split()[0].split(',')})
        print('%-8s %s %s' % ('EXC' if any('EXC' in l for l in bad) else 'caught' if bad else 'MISSED', os.path.basename(p), ' '.join(props)), flush=True)
        if not bad:
            print('\n'.join(l for l in open(p).read().splitlines() if l[:1] in '+-' and l[:3] not in ('+++', '---')), flush=True)
