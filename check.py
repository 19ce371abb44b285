#!/usr/bin/env python3-vt
"""Decides one property:  check.py C01

Extracts the SSA form of /repo's current working tree (both build
configurations), generates and discharges the proof obligations of every
contract the property depends on, and writes evidence/<id>.json.
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
REPO = '/repo'
BUILD = os.path.join(HERE, 'build')
RT = 'github.com/bwesterb/go-ristretto'
CFGS = ('', 'forcegeneric')
CFGNAME = {'': 'default', 'forcegeneric': 'forcegeneric'}

GOENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOENV='off', GOWORK='off',
             GO111MODULE='on', GOCACHE='/root/.cache/go-build', GOMODCACHE='/root/go/pkg/mod', GOPATH='/root/go',
             GOFLAGS='-mod=mod')
GOENV['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + os.environ.get('PATH', '')


# VERIF_INT=32 (set by thorough runs for a second pass): the 386 build, with 32-bit int
W32 = os.environ.get('VERIF_INT') == '32'
GOENV.pop('GOARCH', None)
SRCENV = dict(GOENV, GOARCH='386') if W32 else GOENV
OUT = os.environ.get('VERIF_OUT') or HERE


def build_ssadump():
    out = os.path.join(BUILD, 'ssadump')
    src = os.path.join(HERE, 'ssadump', 'main.go')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = '%s.%d' % (out, os.getpid())
    subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(HERE, 'ssadump'), check=True,
                   env=dict(GOENV, GOFLAGS='-mod=vendor'))
    os.rename(tmp, out)
    return out


def extract(work):
    tool = build_ssadump()
    ps = []
    for cfg in CFGS:
        ps.append((cfg, subprocess.Popen([tool, '-dir', REPO, '-tags', cfg, '-o', os.path.join(work, 'ssa_%s.json' % cfg),
                                          '.', './edwards25519', 'encoding/binary'], cwd=REPO, env=SRCENV,
                                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    import c_lib
    lib = subprocess.Popen([tool, '-dir', REPO, '-tags', '', '-o', os.path.join(work, 'ssa_lib.json')] + c_lib.PKGS, cwd=REPO, env=SRCENV,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for cfg, p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            lib.kill()
            print('cannot extract %s build of /repo:\n%s' % (CFGNAME[cfg], o.decode(errors='replace')))
            sys.exit(2)
    lib.wait()


def library(work, prop):
    """the contracts of library functions, against the bodies in the Go
    distribution; they do not depend on /repo: what is not shown is an assumption"""
    import c_lib
    try:
        if prop == 'C20':
            import flow
            import ssa
            return flow.check_lib(ssa.Prog(os.path.join(work, 'ssa_lib.json')))
        return c_lib.check(os.path.join(work, 'ssa_lib.json'))
    except Exception as e:
        return [('library contracts', False, '%s: %s' % (type(e).__name__, str(e)[:200]))]


# ------------------------------------------------------------------ workers
VS = {}
REG = {}


class Timeout(BaseException):
    pass


def on_alarm(*a):
    raise Timeout()


def worker_init():
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    signal.signal(signal.SIGALRM, on_alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def task(a):
    cfg, fn, disabled, mode, tmo, end = a
    import smt
    import vc
    V = VS[cfg]
    V.results.clear()
    V.disabled = set(disabled)
    V.perturb = mode == 'canary'
    s0 = dict(smt.STATS)
    t0 = time.time()
    tmo = min(tmo, max(1, end - t0))
    signal.setitimer(signal.ITIMER_REAL, tmo)
    try:
        r = V.verify(fn)
    except Timeout:
        r = V.results.get(fn) or vc.Result(fn, cfg)
        r.add('', 'engine:timeout', False, 'no answer within %d s' % tmo)
    except MemoryError:
        r = vc.Result(fn, cfg)
        r.add('', 'engine:memory', False, 'out of memory')
    except Exception as e:
        r = vc.Result(fn, cfg)
        r.add('', 'engine:internal', False, '%s: %s' % (type(e).__name__, str(e)[:300]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(cfg=cfg, fn=fn, mode=mode, ok=r.ok, obs=r.obs, deps=sorted(d for d in r.deps if d in REG),
                ext=sorted(d for d in r.deps if d not in REG), inlined=sorted(r.inlined), time=time.time() - t0,
                steps=r.steps, smt={k: smt.STATS[k] - s0[k] for k in s0}, key=(cfg, fn))


class Pool:
    def __init__(self, n=8):
        import multiprocessing as mp
        self.pool = mp.get_context('fork').Pool(n, worker_init, maxtasksperchild=40)

    def run(self, tasks):
        """verify; yields results as they come"""
        return self.pool.imap_unordered(task, tasks, 1)

    def close(self):
        self.pool.terminate()


UNDECIDED = ('engine:timeout', 'engine:memory', 'engine:unsupported', 'engine:internal')


def short(fn):
    return fn.replace(RT + '/edwards25519', 'edwards25519').replace(RT, 'ristretto')


def closure(pool, targets, tmo, log, end=float('inf'), early=None):
    """verify the targets and everything they rely on; contracts of internal
    helpers that fail are withdrawn and the helper is inlined instead"""
    res = {}
    disabled = {c: set() for c in CFGS}
    todo = [(c, f) for c, f in targets]
    while True:
        while todo:
            batch = [(c, f, tuple(sorted(disabled[c])), 'verify', tmo, end) for c, f in todo]
            seen = set(todo)
            todo = []
            for r in pool.run(batch):
                res[r['key']] = r
                log(r)
            want = set()
            for (c, f), r in res.items():
                for d in r['deps']:
                    if (c, d) not in res and (c, d) not in seen and c in REG[d].cfgs:
                        want.add((c, d))
            todo = sorted(want)
        # withdraw failing helper contracts that are used by others
        new = {}
        for (c, f), r in list(res.items()):
            if r['ok'] or f in disabled[c] or (c, f) in targets:
                continue
            if any(f in q['deps'] for (c2, g), q in res.items() if c2 == c and g != f):
                new.setdefault(c, set()).add(f)
        if not new:
            break
        if early is not None and early(sorted(new)):
            break
        for c, fs in new.items():
            disabled[c] |= fs
            for (c2, g), q in list(res.items()):
                if c2 == c and g not in disabled[c] and set(q['deps']) & fs:
                    todo.append((c, g))
        if not todo:
            break
    return res, disabled


def falsify(work, prop, cfgs, budget, seed, procs=4):
    """search for a concrete failing input on the real code"""
    found = None
    runs = []
    for cfg in cfgs:
        exe = os.path.join(work, 'falsify_' + cfg)
        if prop == 'C20':
            exe = os.path.join(work, 'falsify_ct_' + cfg)
            if not os.path.exists(exe):
                try:
                    p = build_ct(work, cfg)
                    err = p.stdout.decode(errors='replace')[-2000:] if p.returncode else None
                except Exception as e:
                    err = str(e)
                if err is not None:
                    runs.append(dict(cfg=CFGNAME[cfg], error='harness does not build: ' + err))
                    continue
        elif not os.path.exists(exe):
            src = os.path.join(work, 'falsify_src')
            if not os.path.exists(src):
                shutil.copytree(os.path.join(HERE, 'falsify'), src)
            p = subprocess.run(['go', 'build', '-o', exe, '-tags', cfg, '.'], cwd=src, env=SRCENV, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode != 0:
                runs.append(dict(cfg=CFGNAME[cfg], error='harness does not build: ' + p.stdout.decode(errors='replace')[-2000:]))
                continue
        for i in range(procs):
            cmd = [exe, '-prop', prop, '-seed', str(seed * 1000 + i), '-budget', str(budget)]
            runs.append((cfg, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    info = []
    end = time.time() + budget + 60
    for r in runs:
        if isinstance(r, dict):
            info.append(r)
            continue
        cfg, cmd, p = r
        try:
            o = p.communicate(timeout=max(1, end - time.time()))[0].decode(errors='replace')
        except subprocess.TimeoutExpired:
            p.kill()
            info.append(dict(cfg=CFGNAME[cfg], result='search timed out'))
            o = p.communicate()[0].decode(errors='replace')
        m = re.search(r'^VERIF-FAIL (.*)$', o, re.M)
        e = re.search(r'evaluations=(\d+)', o)
        if m and found is None:
            found = dict(config=CFGNAME[cfg], property=prop, failing_input=json.loads(m.group(1)),
                         how='cd /verif/%s && go run -tags "%s" . %s' % ('falsify_ct (over a copy of /repo instrumented by go tool cover)' if prop == 'C20' else 'falsify', cfg, ' '.join(cmd[1:])))
        elif not m and p.returncode not in (0, -9):
            f = re.search(r'^(fatal error|runtime|SIG).*', o, re.M)
            info.append(dict(cfg=CFGNAME[cfg], result='harness exit %s: %s' % (p.returncode, o[-500:])))
        elif e:
            info.append(dict(cfg=CFGNAME[cfg], evaluations=int(e.group(1))))
    return found, info


COV = """package %s

func VerifCov() [][]uint32 {
	return [][]uint32{%s}
}

func VerifPos(k, i int) string {
	return [...]func(int) string{%s}[k](i)
}

func verifDec(n uint32) string {
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%%10)) + s
	}
	return s
}
"""


def build_ct(work, cfg):
    """the constant-time harness over a copy of /repo whose blocks count their executions"""
    src = os.path.join(work, 'ct_' + cfg)
    shutil.copytree(os.path.join(HERE, 'falsify_ct'), src)
    mod = os.path.join(src, 'copy')
    for d, pkg in (('.', 'ristretto'), ('edwards25519', 'edwards25519')):
        os.makedirs(os.path.join(mod, d), exist_ok=True)
        o = subprocess.run(['go', 'list', '-tags', cfg, '-f', '{{join .GoFiles "\\n"}}', './' + d], cwd=REPO, env=SRCENV,
                           stdout=subprocess.PIPE, check=True).stdout.decode().split()
        for i, f in enumerate(o):
            subprocess.run(['go', 'tool', 'cover', '-mode=count', '-var=verifCov%d' % i, '-o', os.path.join(mod, d, f),
                            os.path.join(REPO, d, f)], env=GOENV, check=True)
        with open(os.path.join(mod, d, 'verif_cov.go'), 'w') as fh:
            fh.write(COV % (pkg, ', '.join('verifCov%d.Count[:]' % i for i in range(len(o))),
                            ', '.join('func(i int) string { return "%s:" + verifDec(verifCov%d.Pos[3*i]) }' % (os.path.join(d, f), i)
                                      for i, f in enumerate(o))))
    shutil.copy(os.path.join(REPO, 'go.mod'), mod)
    if os.path.exists(os.path.join(REPO, 'go.sum')):
        shutil.copy(os.path.join(REPO, 'go.sum'), mod)
    exe = os.path.join(work, 'falsify_ct_' + cfg)
    subprocess.run(['go', 'mod', 'edit', '-replace', RT + '=./copy'], cwd=src, env=GOENV, check=True)
    return subprocess.run(['go', 'build', '-o', exe, '-tags', cfg, '.'], cwd=src, env=SRCENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT)


def read_known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) obligation=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


TRUSTED = [
    'go/ssa (golang.org/x/tools) as the semantics of the Go source that is compiled',
    'the VC generator and the polynomial/interval normaliser in /verif/engine',
    'z3 for the residual linear and bit-vector queries',
    'the kernel of Lean and its Mathlib for the number theory behind the lemmas (lean/NumberTheory.lean)',
]


# theorems of lean/NumberTheory.lean that the lemmas of a property rest on
LEAN = {'C02': ['l_inverse'], 'C07': ['p_inverse', 'p_square', 'p_legendre', 'minus_one_square'],
        'C09': ['minus_one_square', 'd_nonsquare'], 'C13': ['p_square', 'minus_one_square', 'd_nonsquare'],
        'C14': ['p_square', 'minus_one_square', 'd_nonsquare'], 'C15': ['p_square', 'minus_one_square', 'd_nonsquare'],
        'C17': ['p_square', 'minus_one_square', 'd_nonsquare']}
LEANFACTS = "Fermat's little theorem, Euler's criterion and Pocklington's criterion (textbook)"


def lean_start(prop):
    if prop not in LEAN or W32:
        return None
    try:
        return subprocess.Popen(['lean', os.path.join(HERE, 'lean', 'NumberTheory.lean')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                stdin=subprocess.DEVNULL, cwd='/', env=dict(os.environ, PATH=GOENV['PATH']))
    except OSError:
        return None


def lean_result(prop, p, tmo):
    """[(theorem, accepted by the kernel from the standard axioms only)]"""
    if p is None:
        return [(n, False) for n in LEAN.get(prop, ())]
    try:
        o, _ = p.communicate(timeout=tmo)
        o = o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        o = ''
    std = '[propext, Classical.choice, Quot.sound]'
    return [(n, p.returncode == 0 and 'error' not in o and "'Ristretto.%s' depends on axioms: %s" % (n, std) in o) for n in LEAN[prop]]


def word32(prop, seed, work):
    """the same obligations for the 386 build, where int has 32 bits"""
    out = os.path.join(work, 'w32')
    os.makedirs(out)
    try:
        p = subprocess.run([sys.executable, os.path.abspath(__file__), prop, 'quick'], env=dict(os.environ, VERIF_INT='32', VERIF_OUT=out, VERIF_TIER='quick'),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1800)
        if p.returncode not in (0, 1):
            raise RuntimeError(p.stdout.decode(errors='replace')[-300:])
        c = json.load(open(os.path.join(out, 'evidence', prop + '.json')))
        r = dict(obligations=c['coverage']['obligations'], discharged=c['coverage']['discharged'], seconds=c['wall_s'])
        if p.returncode == 1:
            r.update(violated=True, output=p.stdout.decode(errors='replace')[-1500:])
        return r
    except Exception as e:
        return dict(error='%s: %s' % (type(e).__name__, str(e)[:300]))


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or '1')
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        code = run(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def run(prop, tier, seed, work, t0):
    quiet = os.environ.get('VERIF_VERBOSE') is None
    extract(work)
    import registry
    import ssa
    import vc
    REG.update(registry.build())
    for cfg in CFGS:
        VS[cfg] = vc.Verifier(ssa.Prog(os.path.join(work, 'ssa_%s.json' % cfg)), cfg, REG)
    extra = registry.EXTRA.get(prop)
    targets = []
    for fn, c in REG.items():
        if prop == 'C19':
            # all exported operations, also of the internal coordinate systems
            if not c.verify or not re.sub(r'.*\.', '', fn)[:1].isupper():
                continue
        elif prop not in c.props or c.internal or not c.verify:
            continue
        for cfg in c.cfgs:
            targets.append((cfg, fn))
    if prop == 'C20':
        targets = []
    failures = []      # (cfg, fn, pattern, kind, msg, own)
    init_err = None
    for cfg in CFGS:
        if any(c == cfg for c, f in targets) or extra:
            try:
                VS[cfg].global_values()
            except Exception as e:
                init_err = '%s: %s' % (type(e).__name__, e)
                failures.append((cfg, 'package initialisation', '', 'engine:unsupported', init_err, True))
    # longest first
    targets.sort(key=lambda x: -getattr(REG[x[1]], 'cost', 0))
    tmo = 240 if tier == 'quick' else 1200
    end = t0 + (500 if tier == 'quick' else 7200)
    ext_obs, lib_obs = [], []
    res, disabled = {}, {c: set() for c in CFGS}
    canaries = dict(run=0, refuted=0)
    hit = []

    def early(cfgs):
        """a helper does not meet its contract: before its callers are verified
        with its body, see whether an input shows the difference"""
        if early.tried:
            return False
        early.tried = True
        found, info = falsify(work, prop, cfgs, 15, seed, 4 if len(cfgs) > 1 else 8)
        if found:
            hit.append((found, info))
        return bool(found)
    early.tried = False
    lean = lean_start(prop)
    pool = Pool(8)
    try:
        def log(r):
            if not quiet:
                print('%-12s %-60s %-4s %3d obligations %6.2fs' % (CFGNAME[r['cfg']], short(r['fn']), 'ok' if r['ok'] else 'FAIL', len(r['obs']), r['time']))
                if not r['ok']:
                    for o in [o for o in r['obs'] if not o[2]][:5]:
                        print('      ', o)
                sys.stdout.flush()
        if targets and init_err is None:
            res, disabled = closure(pool, targets, tmo, log, end, early)
        if extra and init_err is None:
            try:
                ext_obs = extra(VS, tier)
            except Exception as e:
                failures.append(('', 'lemmas', '', 'engine:internal', '%s: %s' % (type(e).__name__, str(e)[:300]), True))
        lib_obs = library(work, prop) if init_err is None else []
        # vacuity guard: a wrong specification must be refuted
        if init_err is None:
            ck = [t for t in targets if res[t]['ok']]
            if tier == 'quick' and len(ck) > 12:
                ck = ck[seed % 3::3]
            for r in pool.run([(c, f, tuple(sorted(disabled[c])), 'canary', 120, end + 60) for c, f in ck]):
                if r['obs']:
                    canaries['run'] += 1
                    if any(not o[2] and o[1] not in UNDECIDED for o in r['obs']):
                        canaries['refuted'] += 1
                    elif r['ok']:
                        failures.append((r['cfg'], r['fn'], '', 'vacuity', 'a deliberately wrong specification was accepted', True))
    finally:
        pool.close()
        lean_obs = lean_result(prop, lean, 60 if tier == 'quick' else 600)
    tset = set(targets)
    for key, r in res.items():
        cfg, fn = key
        if fn in disabled[cfg] and key not in tset:
            # a withdrawn helper contract: judged through its callers
            c = REG[fn]
            if c.internal:
                continue
        bad = [o for o in r['obs'] if not o[2]]
        if not r['obs']:
            bad = [('', 'vacuity', False, 'no obligations were generated', '')]
        alias = lambda o: o[0].split('{')[0]
        plain_bad = any(alias(o) == '' and o[1] != 'frame' and not (o[1] == 'ret' and 'receiver' in o[3]) for o in bad)
        for o in bad:
            own = key in tset
            if prop == 'C19':
                # frames, the returned receiver, and what fails only for operands that are the same variable
                if not (o[1] == 'frame' or o[1] == 'ret' and 'receiver' in o[3] or (alias(o) != '' and not plain_bad and o[1] not in UNDECIDED)):
                    own = False
            failures.append((cfg, fn, o[0], o[1], o[3], own))
    for name, cfg, ok, msg, backend in ext_obs:
        if not ok:
            failures.append((cfg, name, '', 'extra', msg, True))
    known = read_known(prop)
    kept = []
    for f in failures:
        name = '%s/%s/%s' % (CFGNAME.get(f[0], f[0]), short(f[1]), f[3])
        hit = [k for k in known if k[0] == name]
        if hit:
            print('KNOWN-FINDING: property=%s %s %s' % (prop, name, hit[0][1]))
        else:
            kept.append(f)
    failures = kept
    own = [f for f in failures if f[5]]
    dep = [f for f in failures if not f[5]]
    violated, replay, nfi = False, None, True
    search = None
    if own or dep:
        cfgs = sorted({f[0] for f in failures if f[0] in CFGS}) or list(CFGS)
        left = 780 - (time.time() - t0) if tier == 'quick' else 3600
        budget = max(10, min(100 if own else 60, left / 3))
        if hit:
            found, info = hit[0]
        else:
            found, info = falsify(work, prop, cfgs, budget, seed, 4 if len(cfgs) > 1 else 8)
        search = dict(found=found, runs=info)
        if found:
            violated, nfi = True, False
        elif own:
            violated = True
        if not found and dep and prop != 'C19':
            dprops = sorted({p for f in dep if f[1] in REG for p in REG[f[1]].props if p != prop})
            for p in dprops[:4]:
                left = 820 - (time.time() - t0) if tier == 'quick' else 600
                if left < 40:
                    break
                found, info = falsify(work, p, cfgs, min(30, left / 4), seed, 4)
                search['runs'] += info
                if found:
                    search['found'] = found
                    violated, nfi = True, False
                    break
            if not violated and any(f[3] not in UNDECIDED for f in dep):
                violated = True
    nobs = sum(len(r['obs']) for r in res.values()) + len(ext_obs)
    ndis = sum(sum(1 for o in r['obs'] if o[2]) for r in res.values()) + sum(1 for e in ext_obs if e[2])
    if nobs == 0 and not violated:
        print('no obligations were generated')
        return 2
    if tier == 'thorough' and not violated:
        found, info = falsify(work, prop, list(CFGS), 240, seed, 4)
        search = dict(found=found, runs=info)
        if found:
            violated, nfi = True, False
            own.append(('', prop, '', 'input', 'failing input found although every obligation was discharged', True))
    w32 = None
    if tier == 'thorough' and not violated and not W32:
        w32 = word32(prop, seed, work)
        if w32.get('violated'):
            violated, nfi = True, True
            own.append(('386', prop, '', 'value', 'the property fails in the 32-bit build (GOARCH=386): ' + w32['output'], True))
    backends = {}
    for r in res.values():
        for o in r['obs']:
            if o[2]:
                backends[o[4]] = backends.get(o[4], 0) + 1
    for e in ext_obs:
        if e[2]:
            backends[e[4]] = backends.get(e[4], 0) + 1
    fns = sorted({short(f) for c, f in res})
    if prop == 'C20':
        fns = sorted({short(f) for c in CFGS for f in getattr(VS[c], 'flow_functions', ())})
    ext = sorted({x for r in res.values() for x in r['ext']})
    inl = sorted({short(x) for r in res.values() for x in r['inlined'] if x.startswith(RT) or '(*' + RT in x})
    asm = list(registry.ASSUMPTIONS.get('*', []))
    if W32 or w32 and not w32.get('error'):
        asm = [a for a in asm if not a.startswith('int is 64')]
    asm = asm + list(registry.ASSUMPTIONS.get(prop, []))
    libok = {n for n, ok, m in lib_obs if ok} - {n for n, ok, m in lib_obs if not ok}
    if set(ext) - libok:
        asm.append('assumed contracts of functions outside the repository: ' + ', '.join(sorted(set(ext) - libok)))
    if any(x.startswith('crypto/subtle') for x in ext if x in libok):
        asm.append('crypto/internal/constanttime.boolToUint8 (compiler intrinsic); contracts of crypto/subtle on slices are verified for the lengths 16 and 32 only')
    if not all(ok for n, ok in lean_obs):
        asm.append(LEANFACTS)
    libused = [dict(function=n, shown=m) for n, ok, m in lib_obs if ok and (n in ext or prop == 'C20')]
    if prop == 'C20' and not all(ok for n, ok, m in lib_obs):
        asm.append('constant-time library functions, not verified: ' + ', '.join(n for n, ok, m in lib_obs if not ok))
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=dict(
        obligations=nobs, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s' % prop, trusted_base=TRUSTED,
        functions_under_contract=fns, functions_inlined=[f for f in inl if f not in fns],
        contract_verifications=[dict(function=short(r['fn']), config=CFGNAME[r['cfg']], obligations=len(r['obs']),
                                     discharged=sum(1 for o in r['obs'] if o[2]), alias_patterns=len({o[0] for o in r['obs']}),
                                     ssa_steps=r['steps'], seconds=round(r['time'], 3)) for k, r in sorted(res.items())],
        backends=backends, z3_queries=sum(r['smt']['queries'] for r in res.values()),
        solver_seconds=round(sum(r['smt']['time'] for r in res.values()), 3),
        prover_seconds=round(sum(r['time'] for r in res.values()), 3),
        wrong_specifications_tried=canaries['run'], wrong_specifications_refuted=canaries['refuted'],
        extra_obligations=len(ext_obs), library_contracts_verified_against_go_source=libused, withdrawn_helper_contracts=sorted(short(f) for c in CFGS for f in disabled[c]),
        lean_theorems=[n for n, ok in lean_obs if ok], second_pass_386=w32, input_search=search), assumptions=asm, wall_s=round(time.time() - t0, 2), violations=len(own) if violated else 0)
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
        fh.write('\n')
    if violated:
        os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
        path = os.path.join(OUT, 'replay', prop + '.json')
        lines = [dict(config=CFGNAME.get(f[0], f[0]), function=short(f[1]), alias_pattern=f[2], obligation=f[3], detail=f[4], dependency=not f[5])
                 for f in (own + dep)]
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, failed_obligations=lines, search=search), fh, indent=1)
            fh.write('\n')
        for f in (own + dep)[:12]:
            print('failed obligation: %s %s [%s] %s: %s' % (CFGNAME.get(f[0], f[0]), short(f[1]), f[2], f[3], str(f[4])[:300]))
        if search and search.get('found'):
            print('failing input: ' + json.dumps(search['found'])[:2000])
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if nfi else ''))
        return 1
    if failures:
        for f in failures[:8]:
            print('note: undecided obligation of a dependency: %s %s %s: %s' % (CFGNAME.get(f[0], f[0]), short(f[1]), f[3], str(f[4])[:200]))
    print('property %s: %d obligations, %d discharged, %d functions under contract, %.1f s' % (prop, nobs, ndis, len(fns), time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
