"""fastrefs.py names...: verify all contracts on copies of /repo with one
refactoring applied each (no input search), eight at a time.  Prints every
obligation of a claimed contract that is not discharged."""
import os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))


def one(edits_or_name):
    import refactorings as R
    import check
    import registry, ssa, vc, flow
    name = edits_or_name
    work = tempfile.mkdtemp(prefix='fastref-')
    t0 = time.time()
    out = []
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', work + '/repo'], check=True)
        if name != 'none':
            for n in name.split('+'):
                R.apply(work + '/repo', [r for r in R.REFS if r[0] == n][0][1])
        check.REPO = work + '/repo'
        check.extract(work)
        check.REG.update(registry.build())
        for cfg in check.CFGS:
            check.VS[cfg] = vc.Verifier(ssa.Prog(os.path.join(work, 'ssa_%s.json' % cfg)), cfg, check.REG)
            check.VS[cfg].global_values()
        shutil.rmtree(work + '/repo')
        targets = [(cfg, fn) for fn, c in check.REG.items() if c.verify and (not c.internal or re.sub(r'.*\.', '', fn)[:1].isupper()) for cfg in c.cfgs]

        class P:
            def run(self, ts):
                for t in ts:
                    yield check.task(t)
        check.signal.signal(check.signal.SIGALRM, check.on_alarm)
        slow = []
        def log(r):
            if r['time'] > 60:
                slow.append((round(r['time']), check.short(r['fn'])))
        res, disabled = check.closure(P(), targets, 400, log)
        for k, r in sorted(res.items()):
            if r['ok'] or (k[1] in disabled[k[0]] and k not in targets):
                continue
            for o in [o for o in r['obs'] if not o[2]][:3]:
                out.append('   %s %s %s %s %s: %s' % (','.join(check.REG[k[1]].props), check.CFGNAME[k[0]], check.short(k[1]), o[0], o[1], str(o[3])[:250]))
        for cfg in check.CFGS:
            obs, rts, fns = flow.check(check.VS[cfg].prog, check.REG)
            for fn, pos, kind, ok, msg in obs:
                if not ok:
                    out.append('   C20 %s %s %s %s: %s' % (cfg, check.short(fn), pos, kind, msg[:200]))
        out.append('   withdrawn: %s' % {c: [check.short(f) for f in sorted(d)] for c, d in disabled.items() if d} if any(disabled.values()) else '   -')
        if slow:
            out.append('   slow: %s' % slow)
    except BaseException as e:
        import traceback
        out.append('   EXC ' + traceback.format_exc()[-1500:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return name, time.time() - t0, out


if __name__ == '__main__':
    import refactorings as R
    names = sys.argv[1:]
    names = [n for n in names if n == 'none' or '+' in n] + [r[0] for r in R.REFS if not names or any(n in r[0] for n in names if n != 'none' and '+' not in n)]
    procs = []
    import concurrent.futures as cf
    # a fresh process for each one
    def go(n):
        p = subprocess.run([sys.executable, '-c', 'import sys; sys.path.insert(0,%r); import fastrefs; r=fastrefs.one(sys.argv[1]); print("==",r[0],"%%.0fs"%%r[1]); print("\\n".join(r[2]))' % HERE, n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return p.stdout.decode(errors='replace')
    with cf.ThreadPoolExecutor(8) as ex:
        for o in ex.map(go, names):
            print(o, end='', flush=True)
