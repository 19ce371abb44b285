"""conform.py [first seed] [count]: is the engine's reading of Go arithmetic what Go
does?  Random Go functions (all integer types, wrap-around, shifts, conversions,
comparisons, branches, arrays, constant loops, calls) are compiled and run on
random and extreme inputs, and executed symbolically; each symbolic result is
evaluated on the same inputs.  Checked: exactly one symbolic path is taken, the
results agree, and every interval and every derived fact holds."""
import json, os, random, re, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..'))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
TY = {'uint8': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'uint64': (64, False),
      'int8': (8, True), 'int16': (16, True), 'int32': (32, True), 'int64': (64, True), 'int': (64, True), 'uint': (64, False)}
NAMES = list(TY)


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.helpers = []

    def const(self, t):
        r = self.r
        w, s = TY[t]
        hi = (1 << (w - 1)) - 1 if s else (1 << w) - 1
        c = r.choice([r.randrange(0, min(hi, 300)), (1 << r.randrange(0, hi.bit_length())) - r.randrange(2), r.randrange(0, hi + 1)])
        return '%s(%d)' % (t, c)

    def expr(self, t, vs, d):
        r = self.r
        c = [n for n, u in vs if u == t]
        k = r.random()
        if d <= 0 or k < 0.12:
            return r.choice(c) if c and r.random() < 0.8 else '%s(%s)' % (t, r.choice(vs)[0])
        if k < 0.50:
            return '(%s %s %s)' % (self.expr(t, vs, d - 1), r.choice(['+', '-', '*', '+', '-', '&', '|', '^', '&^']),
                                   self.const(t) if r.random() < 0.25 else self.expr(t, vs, d - 1))
        if k < 0.66:
            w = TY[t][0]
            return '(%s %s %d)' % (self.expr(t, vs, d - 1), r.choice(['<<', '>>', '>>']), r.randrange(0, w + 2 if r.random() < 0.1 else w))
        if k < 0.665:
            return '(%s %s (%s & %d))' % (self.expr(t, vs, d - 1), r.choice(['<<', '>>']), self.expr('uint', vs, 0), r.choice([1, 3, 7]))
        if k < 0.78:
            return '(%s%s)' % (r.choice(['-', '^']), self.expr(t, vs, d - 1))
        if k < 0.85 and self.helpers:
            h = r.choice(self.helpers)
            return '%s(%s(%s))' % (t, h[0], ', '.join(self.expr(u, vs, d - 2 if d > 1 else 0) for u in h[1]))
        u = r.choice(NAMES)
        return '%s(%s)' % (t, self.expr(u, vs, d - 1))

    def cond(self, vs):
        t = self.r.choice(vs)[1]
        return '%s %s %s' % (self.expr(t, vs, 1), self.r.choice(['<', '<=', '==', '!=', '>', '>=']), self.const(t) if self.r.random() < 0.3 else self.expr(t, vs, 1))

    def new(self):
        self.n += 1
        return 'v%d' % self.n

    def stmts(self, vs, n, depth, out, ind):
        r = self.r
        for _ in range(n):
            k = r.random()
            t = r.choice(NAMES)
            if k < 0.55:
                v = self.new()
                out.append('%svar %s %s = %s' % (ind, v, t, self.expr(t, vs, 3)))
                out.append('%s_ = %s' % (ind, v))
                vs.append((v, t))
            elif k < 0.75:
                v, t = r.choice(vs)
                out.append('%s%s %s= %s' % (ind, v, r.choice(['', '+', '-', '*', '^', '|', '&']), self.expr(t, vs, 2)))
            elif k < 0.88 and depth:
                out.append('%sif %s {' % (ind, self.cond(vs)))
                self.stmts(list(vs), r.randrange(1, 3), depth - 1, out, ind + '\t')
                if r.random() < 0.5:
                    out.append(ind + '} else {')
                    self.stmts(list(vs), r.randrange(1, 3), depth - 1, out, ind + '\t')
                out.append(ind + '}')
            elif depth and k < 0.94:
                i, a, m = self.new(), self.new(), r.randrange(2, 5)
                u = r.choice(NAMES)
                out.append('%svar %s [%d]%s' % (ind, a, m, u))
                out.append('%sfor %s := 0; %s < %d; %s++ {' % (ind, i, i, m, i))
                out.append('%s\t%s[%s] = %s' % (ind, a, i, self.expr(u, vs + [(i, 'int')], 2)))
                v, t = r.choice(vs)
                out.append('%s\t%s += %s(%s[%s])' % (ind, v, t, a, i))
                out.append(ind + '}')
            elif depth:
                self.memory(vs, out, ind)

    def memory(self, vs, out, ind):
        """arrays, slices, structs, pointers, aliasing, copy, append"""
        r = self.r
        u = r.choice(NAMES)
        a, m = self.new(), r.randrange(3, 6)
        o = lambda x: out.append(ind + x)
        if r.random() < 0.5:
            o('%s := [%d]%s{%s}' % (a, m, u, ', '.join(self.expr(u, vs, 1) for _ in range(m))))
        else:
            o('var %s [%d]%s' % (a, m, u))
            o('for i := range %s { %s[i] = %s }' % (a, a, self.expr(u, vs + [('i', 'int')], 2)))
        arrs, pts, sls = [a], [], []
        for _ in range(r.randrange(2, 6)):
            k = r.randrange(11)
            el = lambda: r.choice(['%s[%d]' % (r.choice(arrs), r.randrange(m))] + ['%s[%d]' % (q, r.randrange(m)) for q in pts] +
                                  ['%s[%d]' % (q, r.randrange(n)) for q, n in sls if n])
            if k == 0:
                b = self.new()
                o('%s := %s' % (b, r.choice(arrs)))
                arrs.append(b)
            elif k == 1:
                b = self.new()
                o('%s := &%s' % (b, r.choice(arrs)))
                pts.append(b)
            elif k == 2:
                b, lo = self.new(), r.randrange(m)
                hi = r.randrange(lo, m + 1)
                o('%s := %s[%d:%d]' % (b, r.choice(arrs + pts), lo, hi))
                o('_ = %s' % b)
                sls.append((b, hi - lo))
            elif k == 3 and sls:
                (x, n), (y, n2) = r.choice(sls), r.choice(sls)
                o('%s = append(%s[:%d:%d], %s...)' % (x, x, min(n, 1), min(n, 1), y))
                sls = [(q, c) for q, c in sls if q != x] + [(x, min(n, 1) + n2)]
            elif k == 4:
                x, y = r.choice(arrs + pts), r.choice(arrs + pts)
                d = r.randrange(m)
                o(r.choice(['copy(%s[%d:], %s[:])', 'copy(%s[%d:], %s[1:])']) % (x, d, y))
            elif k == 5:
                o('%s[%s & 1] %s= %s' % (r.choice(arrs + pts), self.expr('uint', vs, 1), r.choice(['', '+', '^']), self.expr(u, vs, 1)))
            elif k == 6:
                o('%s, %s = %s, %s' % (el(), el(), el(), el()))
            elif k == 7:
                v, t = r.choice(vs)
                o('for _, x := range %s { %s = %s*3 + %s(x) }' % (r.choice(arrs), v, v, t))
            elif k == 8:
                f = self.new()
                v, t = r.choice(vs)
                o('%s := func(x %s) { %s += x; %s ^= %s(x) }' % (f, u, el(), v, t))
                o('%s(%s)' % (f, el()))
                o('%s(%s)' % (f, self.expr(u, vs, 1)))
            elif k == 9:
                q, v = self.new(), self.new()
                o('%s := struct{ x, y %s; z [2]uint16 }{y: %s}' % (q, u, el()))
                o('%s := %s' % (v, q))
                o('%s.x -= %s; %s.z[1] = uint16(%s.y) + 1' % (q, el(), v, q))
                o('%s = %s.x + %s.y + %s(%s.z[1])' % (el(), q, v, u, v))
            elif pts and len(arrs) > 1:
                o('if %s { %s = &%s }' % (self.cond(vs), r.choice(pts), r.choice(arrs)))
            else:
                o('%s %s= %s' % (el(), r.choice(['', '+', '*', '^']), self.expr(u, vs, 1)))
        v = self.new()
        o('var %s %s' % (v, u))
        for q in arrs + ['*' + x for x in pts]:
            o('for i, x := range %s { %s = %s*5 + x + %s(i) }' % (q, v, v, u))
        for q, n in sls:
            o('for _, x := range %s { %s = %s*7 - x }' % (q, v, v))
        vs.append((v, u))

    def func(self, name, helper=False):
        r = self.r
        ps = [('a%d' % i, r.choice(NAMES)) for i in range(2 if helper else r.randrange(2, 5))]
        vs = list(ps)
        out = []
        self.stmts(vs, 2 if helper else r.randrange(3, 7), 0 if helper else 2, out, '\t')
        rt = r.choice(NAMES) if helper else None
        if helper:
            out.append('\treturn ' + self.expr(rt, vs, 2))
            self.src.append('func %s(%s) %s {\n%s\n}\n' % (name, ', '.join('%s %s' % p for p in ps), rt, '\n'.join(out)))
            self.helpers.append((name, [t for _, t in ps]))
            return
        rs = [r.choice(vs) for _ in range(3)]
        rs = [(n, t) for n, t in rs] + [vs[-1]]
        for _ in range(3):
            # two expressions that differ in one place, perhaps not in value
            t = r.choice(NAMES)
            e = self.expr(t, vs, 3)
            f = e
            for _ in range(20):
                i = r.choice([m.start() for m in re.finditer(r' (\+|-|\||\^|\*|&|&\^) ', e)] or [0])
                m = re.match(r' (\+|-|\||\^|\*|&|&\^) ', e[i:])
                if not m:
                    break
                f = e[:i] + ' %s ' % r.choice(['+', '-', '|', '^', '&']) + e[i + m.end():]
                if f != e:
                    break
            x, y = self.new(), self.new()
            out.append('\tvar %s, %s %s = %s, %s' % (x, y, t, e, f))
            rs += [(x, t), (y, t)]
        out.append('\treturn ' + ', '.join(n for n, t in rs))
        self.src.append('func %s(%s) (%s) {\n%s\n}\n' % (name, ', '.join('%s %s' % p for p in ps), ', '.join(t for n, t in rs), '\n'.join(out)))
        return [t for _, t in ps], [t for _, t in rs]

    def inputs(self, ts, n):
        r = self.r
        out = []
        for _ in range(n):
            row = []
            for t in ts:
                w, s = TY[t]
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
                x = r.choice([lo, hi, 0, 1, hi - 1, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1), r.randrange(-3, 4) if s else r.randrange(8), 1 << r.randrange(w - 1)])
                row.append(max(lo, min(hi, x)))
            out.append(row)
        return out


def program(seed, nfun=12, nin=24):
    g = Gen(seed)
    g.src = ['package main\n\nimport "fmt"\n\nvar _ = fmt.Sprint\n']
    g.func('h0', True)
    g.func('h1', True)
    fs, main = [], ['func main() {']
    for i in range(nfun):
        ts, rs = g.func('f%d' % i)
        ins = g.inputs(ts, nin)
        fs.append(('f%d' % i, ts, rs, ins))
        for row in ins:
            lits = []
            for t, x in zip(ts, row):
                lits.append('%s(%d)' % (t, x))
            main.append('\tfmt.Println(f%d(%s))' % (i, ', '.join(lits)))
    main.append('}\n')
    return ''.join(g.src) + '\n'.join(main), fs


class Env:
    """values of the engine's variables on one input"""
    def __init__(self, leaf):
        self.m = dict(leaf)

    def var(self, v):
        import poly
        if v in self.m:
            return self.m[v]
        C = poly.C
        D = C.defn[v]
        if C.grp[v] is not None:
            g = C.grp[v]
            for p, (gg, lo, hi) in C.extra.get('fdof', {}).items():
                if gg == g:
                    x = self.ev(p)
                    for u, val in C.groups[g]:
                        self.m[u] = int(x == val)
                    return self.m[v]
            raise KeyError('group %s' % C.name[v])
        if D is None:
            raise KeyError(C.name[v])
        if D[0] == 'floor':
            r = (self.ev(D[1]) >> D[2]) - D[3]
        elif D[0] == 'negfloor':
            r = -(self.ev(D[1]) >> D[2])
        elif D[0] == 'xor':
            r = 0
            for p in D[1]:
                r ^= self.ev(p)
            r = wrap(r, D[2])
        elif D[0] == 'iszero':
            r = int(self.ev(D[1]) == 0)
        elif D[0] == 'op':
            x, y = self.ev(D[2].p), self.ev(D[3].p)
            r = {'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '&^': lambda: x & ~y}[D[1]]()
            r = wrap(r, D[4])
        else:
            raise KeyError(D[0])
        self.m[v] = r
        return r

    def ev(self, p):
        if isinstance(p, int):
            return p
        s = 0
        for m, c in p.d.items():
            t = c
            for v in m:
                t *= self.var(v)
                if t == 0:
                    break
            s += t
        return s


def wrap(x, ty):
    w, s = ty
    x &= (1 << w) - 1
    return x - (1 << w) if s and x >> (w - 1) else x


def holds(E, F):
    for q, (lo, hi) in F.items():
        x = E.ev(q)
        if lo is not None and x < lo or hi is not None and x > hi:
            return q, lo, hi, x
    return None


def one(seed):
    import ssa, val, vc, deps, poly
    from symexec import Exec, State, Tup, VerifFail, Panic
    work = tempfile.mkdtemp(prefix='conform-')
    bad, done, skip = [], 0, {}
    try:
        src, fs = program(seed)
        open(work + '/main.go', 'w').write(src)
        open(work + '/go.mod', 'w').write('module conform\n\ngo 1.23\n')
        import check
        e = dict(check.GOENV)
        p = subprocess.run(['go', 'run', '.'], cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode:
            return ['seed %d: does not compile: %s' % (seed, p.stderr.decode()[:300])], 0, {}
        want = iter(p.stdout.decode().splitlines())
        subprocess.run([check.build_ssadump(), '-dir', work, '-tags', '', '-o', work + '/s.json', '.'], cwd=work, env=e, check=True,
                       stdout=subprocess.DEVNULL)
        V = vc.Verifier(ssa.Prog(work + '/s.json'), '', {})
        V.globals_mem = {}
        for name, ts, rs, ins in fs:
            exp = [[int(x) for x in next(want).split()] for _ in ins]
            poly.reset()
            poly.OVER[:] = []
            ex = Exec(V.prog, deps.hooks())
            ex.backend = vc.Backend(V.backend_name)
            ex.verifier = V
            ex.cuts, ex.cut_obs = {}, []
            ex.global_init = {}
            args = [val.sym(TY[t], 'a%d' % i, *((-(1 << (TY[t][0] - 1)), (1 << (TY[t][0] - 1)) - 1) if TY[t][1] else (0, (1 << TY[t][0]) - 1)))
                    for i, t in enumerate(ts)]
            check.signal.alarm(60)
            try:
                outs = ex.run(State(), next(k for k in V.prog.funcs if k.endswith('.' + name)), args)
            except (VerifFail, val.Unsupported, check.Timeout) as x:
                k = re.sub(r" \S*main.go.*", "", "%s %s" % (type(x).__name__, x))[:60]
                if 'nil' in k:
                    k += ' seed %d %s' % (seed, name)
                skip[k] = skip.get(k, 0) + 1
                continue
            finally:
                check.signal.alarm(0)
                poly.OVER[:] = []
            done += 1
            claims = []
            for k, (st, r) in enumerate(outs):
                if isinstance(r, Panic) or len(outs) > 12:
                    continue
                ex.push_facts(st)
                poly.C.extra['curenv'] = st.env
                for i in range(4, 10, 2):
                    check.signal.alarm(60)
                    try:
                        if vc.prove_eq(r[i].p, r[i + 1].p):
                            claims.append((k, i))
                    except (VerifFail, val.Unsupported, check.Timeout):
                        pass
                    finally:
                        check.signal.alarm(0)
            poly.OVER[:] = []
            skip['proved equal'] = skip.get('proved equal', 0) + len(claims)
            for row, res in zip(ins, exp):
                E = Env({next(iter(a.p.d))[0]: x for a, x in zip(args, row)})
                try:
                    f = holds(E, poly.C.facts)
                    if f:
                        bad.append('seed %d %s%r: fact %r in [%s, %s] is %d' % ((seed, name, row) + f))
                        break
                    took = 0
                    for k, (st, r) in enumerate(outs):
                        if any(holds(E, F) for F in st.facts) or any(E.var(v) != E.ev(x) for v, x in st.env.items()):
                            continue
                        took += 1
                        if isinstance(r, Panic):
                            bad.append('seed %d %s%r: panics symbolically' % (seed, name, row))
                            continue
                        for i in range(4, 10, 2):
                            if (k, i) in claims and res[i] != res[i + 1]:
                                bad.append('seed %d %s%r: proved result %d = result %d, but %d, %d' % (seed, name, row, i, i + 1, res[i], res[i + 1]))
                        for x, y in zip(r, res):
                            if E.ev(x.p) != y or not x.lo <= y <= x.hi:
                                bad.append('seed %d %s%r: %d, not %d (interval %d..%d)' % (seed, name, row, y, E.ev(x.p), x.lo, x.hi))
                                break
                    if took != 1:
                        bad.append('seed %d %s%r: %d of %d paths taken' % (seed, name, row, took, len(outs)))
                except KeyError as x:
                    bad.append('seed %d %s: no value for %s' % (seed, name, x))
                if bad:
                    break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return bad, done, skip


def main():
    import multiprocessing, check
    a = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 40
    check.signal.signal(check.signal.SIGALRM, check.on_alarm)
    tot, skips, nbad = 0, {}, 0
    with multiprocessing.Pool(8) as P:
        for bad, done, skip in P.imap_unordered(one, range(a, a + n)):
            tot += done
            for k, v in skip.items():
                skips[k] = skips.get(k, 0) + v
            for b in bad[:2]:
                nbad += 1
                print(b[:400])
                sys.stdout.flush()
    print('%d functions agree or are reported above, %d reports; not executable, or claims: %s' % (tot, nbad, skips))


if __name__ == '__main__':
    main()
