"""Information-flow contracts (C20).

Contract of every function: everything reachable through its pointer and value
arguments (limbs, bytes, selector bits) is secret, lengths are public; no branch
condition, no index or slice bound, no divisor, no allocation size and no
argument of a variable-time library function may depend on a secret.  A branch
may depend on the outcome the function reports: then its two sides end in
different results (and so the branch reveals nothing but the result).

The contracts are checked function by function on the SSA form: a caller uses
the summary of the callee (which results and which memory become secret), and
each guard, index, divisor, size and library argument is an obligation.
Memory is abstracted to one label per object, registers are in SSA form.
"""
import re
from vc import RT, ED

LOW, HIGH = 0, 1


class AV:
    """abstract value: label of the value itself (for pointers and slices: of
    the address and length), objects it may point to, functions it may be"""
    __slots__ = ('lab', 'pts', 'fns')

    def __init__(self, lab=LOW, pts=frozenset(), fns=frozenset()):
        self.lab, self.pts, self.fns = lab, pts, fns

    def join(self, o):
        return AV(self.lab | o.lab, self.pts | o.pts, self.fns | o.fns)

    def key(self):
        return (self.lab, self.pts, self.fns)

    def __eq__(self, o):
        return isinstance(o, AV) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


BOT = AV()


class Unsupported(Exception):
    pass


def isglobal(o):
    return isinstance(o, tuple) and o[0] == 'global'

# library functions whose running time depends only on lengths
CT_LIB = ('crypto/subtle.', 'crypto/sha512.Sum', 'crypto/sha256.Sum', 'math/bits.', 'crypto/rand.Read', 'io.ReadFull',
          '(encoding/binary.littleEndian).', '(encoding/binary.bigEndian).')
NOT_CT = ('math/bits.Div', 'math/bits.Rem')
# reports whether some input is acceptable: may compare it as a whole
DECODERS = ('.SetBytesStrict', '.SetBytes', '.SetRistretto', '.UnmarshalBinary', '.LizardInto', '.Lizard')


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.active = []
        self.obs = {}      # (fn, pos, kind) -> (ok, msg)
        self.fresh = 0
        self.rel = {}
        self.outc = {}

    # -------------------------------------------------------------- calls
    def call(self, fn, args, mem, decoder, site=None, top=True):
        """args: AVs over caller objects; mem: {obj: AV content}.
        Returns the AVs of the results and updates mem.  The objects of the
        caller are renamed to 0, 1, ... for the callee; the objects that the
        callee makes and that survive it are named after the call site."""
        order, ren = [], {}

        def visit(o):
            if o in ren or isglobal(o):
                return
            ren[o] = len(order)
            order.append(o)
            for q in sorted(mem.get(o, BOT).pts, key=str):
                visit(q)
        for a in args:
            for o in sorted(a.pts, key=str):
                visit(o)
        names = {i: o for i, o in enumerate(order)}
        D = lambda av: AV(av.lab, frozenset(ren.get(o, o) for o in av.pts), av.fns)
        dec = top and (decoder or fn.endswith(DECODERS))
        a = [D(x) for x in args]
        m = {ren[o]: D(mem.get(o, BOT)) for o in order}
        key = (fn, tuple(x.key() for x in a), tuple(m[i].key() for i in range(len(order))), dec, top)
        if key in self.active:
            raise Unsupported('recursion in %s' % fn)
        if key not in self.memo:
            self.active.append(key)
            try:
                self.memo[key] = self.analyse(fn, a, m, dec, top)
            finally:
                self.active.pop()
        res, out = self.memo[key]
        todo = list(names) + [o for r in res for o in r.pts]
        live = set()
        while todo:
            o = todo.pop()
            if o not in live and not isglobal(o):
                live.add(o)
                todo.extend(out.get(o, BOT).pts)
        U = lambda o: o if isglobal(o) else names[o] if o in names else ('heap', site, o)
        B = lambda av: AV(av.lab, frozenset(U(o) for o in av.pts), av.fns)
        for o in live:
            n = U(o)
            mem[n] = mem.get(n, BOT).join(B(out.get(o, BOT)))
        return [B(r) for r in res]

    def ob(self, fn, x, kind, ok, msg):
        k = (fn, x.get('pos', ''), kind, x.get('id', ''))
        o = self.obs.get(k)
        self.obs[k] = (bool(ok) and (o is None or o[0]), msg)

    # -------------------------------------------------------------- one function
    def analyse(self, fn, args, mem, dec, top):
        f = self.prog.funcs[fn]
        regs = {}
        for (n, t), a in zip(f['params'], args):
            regs[n] = a
        for (n, t), a in zip(f.get('free') or [], args[len(f['params']):]):
            regs['free:' + n] = a
        results = [None]
        changed = [True]
        saved = None

        def setr(x, av):
            old = regs.get(x['id'])
            new = av if old is None else (old.join(av) if not isinstance(av, list) else [p.join(q) for p, q in zip(old, av)])
            if new != old:
                regs[x['id']] = new
                changed[0] = True

        def content(av):
            """the join of everything stored in the objects av points to"""
            r = BOT
            for o in av.pts:
                r = r.join(self.cell(mem, o))
            return AV(r.lab | av.lab, r.pts, r.fns)

        def write(ptr, av):
            for o in ptr.pts:
                old = self.cell(mem, o)
                if isglobal(o):
                    if av.lab:
                        raise Unsupported('%s stores a secret in %s' % (fn, o[1]))
                    continue
                new = old.join(av)
                if new != old:
                    mem[o] = new
                    changed[0] = True

        def opnd(o):
            if o is None:
                return BOT
            k = o['k']
            if k == 'reg':
                return regs.get(o['n'], BOT)
            if k == 'free':
                return regs.get('free:' + o['n'], BOT)
            if k == 'global':
                return AV(LOW, frozenset([('global', o['n'])]))
            if k == 'func':
                return AV(LOW, frozenset(), frozenset([o['n']]))
            return BOT
        n = 0
        while changed[0]:
            changed[0] = False
            n += 1
            if n > 60:
                raise Unsupported('no fixpoint in ' + fn)
            for bi, b in enumerate(f['blocks']):
                for x in b['instrs']:
                    self.instr(fn, f, x, bi, regs, mem, opnd, setr, content, write, results, changed, dec, top)
        res = results[0] or []
        return res, dict(mem)

    def pointers(self, t, seen=()):
        """may a value of this type hold an address?"""
        d = self.prog.types[t]
        if d['k'] == 'basic':
            return False
        if d['k'] == 'array':
            return self.pointers(d['elem'], seen)
        if d['k'] == 'struct':
            return any(self.pointers(f[1]) for f in d['fields'])
        return True

    def cell(self, mem, o):
        if isglobal(o):     # constants; what they point to is public as well
            return AV(LOW, frozenset([o]))
        return mem.get(o, BOT)

    def instr(self, fn, f, x, bi, regs, mem, opnd, setr, content, write, results, changed, dec, top):
        P = self.prog
        op = x['op']
        o = lambda k: opnd(x.get(k))
        if op == 'alloc':
            setr(x, AV(LOW, frozenset([('alloc', x['id'])])))
        elif op == 'bin':
            a, c = o('x'), o('y')
            lab = a.lab | c.lab
            tok = x['tok']
            t = P.types[x['xt']]
            if tok in ('/', '%') and P.int_ty(x['xt']) is not None:
                const = x['y'].get('k') == 'const'
                self.ob(fn, x, 'division', not (c.lab or (a.lab and not const)), 'no division with a secret divisor')
            if tok in ('==', '!=') and (t['k'] in ('array', 'struct') or t['k'] == 'basic' and t['name'] == 'string'):
                self.ob(fn, x, 'comparison', not lab or (dec and self.released(f, x)), 'no early-exit comparison of secret arrays')
            if tok in ('==', '!=') and (a.pts or c.pts):
                lab = a.lab | c.lab
            if tok == '+' and t['k'] == 'basic' and t['name'] == 'string':
                pass
            setr(x, AV(lab))
        elif op == 'un':
            if x['tok'] == '*':
                a = content(o('x'))
                setr(x, a if self.pointers(x['t']) else AV(a.lab))
            else:
                setr(x, AV(o('x').lab))
        elif op in ('fieldaddr',):
            setr(x, o('x'))
        elif op == 'indexaddr':
            a, i = o('x'), o('i')
            self.ob(fn, x, 'index', not i.lab, 'no memory access at a secret index')
            setr(x, AV(a.lab | i.lab, a.pts, a.fns))
        elif op in ('index', 'lookup'):
            a, i = o('x'), o('i')
            self.ob(fn, x, 'index', not i.lab, 'no memory access at a secret index')
            setr(x, AV(a.lab | i.lab, a.pts, a.fns))
        elif op == 'field':
            setr(x, o('x'))
        elif op == 'store':
            write(o('addr'), o('val'))
        elif op in ('convert', 'changetype', 'changeiface', 'makeiface', 'slicetoarrayptr'):
            a = o('x')
            t = P.types[x['t']]
            if op == 'convert' and a.pts and t['k'] == 'basic':
                # bytes to string: the label of the string is that of its bytes
                a = AV(content(a).lab)
            elif op == 'convert' and t['k'] == 'slice' and not a.pts:
                ob = ('conv', x['id'])
                if self.cell(mem, ob).lab < a.lab:
                    mem[ob] = AV(a.lab)
                    changed[0] = True
                a = AV(LOW, frozenset([ob]))
            setr(x, a)
        elif op == 'extract':
            a = regs.get(x['x']['n'], BOT)
            if isinstance(a, list):
                a = a[x['i']] if x['i'] < len(a) else BOT
            setr(x, a)
        elif op == 'slice':
            a = o('x')
            lab = o('low').lab | o('high').lab | o('max').lab
            self.ob(fn, x, 'slice', not lab, 'no slice bounds that depend on a secret')
            setr(x, AV(a.lab | lab, a.pts, a.fns))
        elif op == 'makeslice':
            lab = o('len').lab | o('cap').lab
            self.ob(fn, x, 'size', not lab, 'no allocation of a secret size')
            setr(x, AV(lab, frozenset([('alloc', x['id'])])))
        elif op == 'makeclosure':
            fnv = o('fn')
            name = next(iter(fnv.fns), None)
            binds = [opnd(b) for b in x['bind']]
            # the closure object holds its bindings
            ob = ('closure', x['id'])
            for i, b in enumerate(binds):
                k = ('bind', x['id'], i)
                if self.cell(mem, k).join(b) != self.cell(mem, k):
                    mem[k] = self.cell(mem, k).join(b)
                    changed[0] = True
            setr(x, AV(LOW, frozenset(('bind', x['id'], i) for i in range(len(binds))), frozenset([('clo', name, x['id'], len(binds))])))
        elif op == 'phi':
            r = BOT
            for e in x['edges']:
                r = r.join(opnd(e))
            setr(x, r)
        elif op == 'if':
            c = o('x')
            ok = not c.lab or (top and self.outcome_branch(f, bi))
            last = dict(x)
            last['pos'] = x.get('pos') or self.guard_pos(f, bi, x)
            last['id'] = 'block%d' % bi
            self.ob(fn, last, 'branch', ok, 'no branch on a secret' + (' (on the reported outcome only)' if c.lab and ok else ''))
        elif op == 'return':
            rs = [opnd(r) for r in x['xs']]
            rs = [AV(r.lab, r.pts, r.fns) for r in rs]
            if results[0] is None:
                results[0] = rs
                changed[0] = True
            else:
                new = [a.join(b) for a, b in zip(results[0], rs)]
                if new != results[0]:
                    results[0] = new
                    changed[0] = True
        elif op in ('call', 'defer', 'go'):
            r = self.do_call(fn, x, opnd, mem, content, write, changed, dec, top and self.released(f, x))
            if 'id' in x:
                if len(r) == 1:
                    setr(x, r[0])
                elif r:
                    setr(x, list(r))
        elif op in ('jump', 'panic', 'rundefers', 'debugref'):
            pass
        else:
            self.ob(fn, x, 'unsupported', False, 'instruction %s' % op)

    def guard_pos(self, f, bi, x):
        for y in reversed(f['blocks'][bi]['instrs']):
            if y.get('pos'):
                return y['pos']
        return ''

    def do_call(self, fn, x, opnd, mem, content, write, changed, dec, top):
        args = [opnd(a) for a in x.get('args', [])]
        if 'invoke' in x:
            recv = opnd(x['recv'])
            lab = recv.lab | content(recv).lab
            if recv.pts and not recv.lab and all(type(o) is tuple and o[0] == 'hash' for o in recv.pts) and x['invoke'] in ('Write', 'Sum', 'Reset', 'Size'):
                # a running hash of crypto/sha256 or crypto/sha512
                if x['invoke'] == 'Write':
                    write(recv, AV(args[0].lab | content(args[0]).lab))
                    return [AV(LOW), AV(LOW)]
                if x['invoke'] == 'Sum':
                    o = ('lib', x.get('id'))
                    new = self.cell(mem, o).join(AV(lab | content(args[0]).lab))
                    if new != self.cell(mem, o):
                        mem[o] = new
                        changed[0] = True
                    if args[0].pts:
                        write(args[0], AV(lab))
                    return [AV(args[0].lab, args[0].pts | frozenset([o]))]
                return [AV(LOW)]
            self.ob(fn, x, 'call', not (lab or any(a.lab or content(a).lab for a in args)) or x['invoke'] == 'Error',
                    'no interface call on a secret')
            return [AV(lab)]
        fo = x['fn']
        if fo['k'] == 'builtin':
            return self.builtin(fn, x, fo['n'], args, mem, content, write, changed)
        fv = opnd(fo)
        outs = None
        if not fv.fns:
            self.ob(fn, x, 'unsupported', False, 'call of an unknown function')
            return [BOT]
        before = dict(mem)
        for g in fv.fns:
            a2 = args
            name = g
            if isinstance(g, tuple):
                _, name, cid, n = g
                a2 = args + [mem.get(('bind', cid, i), BOT) for i in range(n)]
            if name in self.prog.funcs and not name.startswith('encoding/binary'):
                r = self.call(name, a2, mem, dec, x.get('id') or x.get('pos'), top)
            else:
                r = self.library(fn, x, name, a2, mem, content, write, changed, dec, top)
            outs = r if outs is None else [p.join(q) for p, q in zip(outs, r)]
        if mem != before:
            changed[0] = True
        return outs or []

    def library(self, fn, x, name, args, mem, content, write, changed, dec, top):
        lab = 0
        for a in args:
            lab |= a.lab | content(a).lab
            for ob in content(a).pts:
                lab |= self.cell(mem, ob).lab
        ct = name.startswith(CT_LIB) and not name.startswith(NOT_CT) or (dec and top and name in ('bytes.Equal',))
        if not ct:
            self.ob(fn, x, 'library', not lab, 'no secret argument of %s, which is not constant-time' % name)
        nres = 2
        if name.startswith('crypto/rand.Read'):
            for a in args:
                write(a, AV(HIGH))
            return [AV(LOW), AV(LOW)]
        for a in args:
            # may write through its pointer arguments
            if a.pts and not name.startswith(('crypto/sha', 'fmt.', 'errors.')):
                write(a, AV(lab))
        if name.startswith(('errors.New', 'fmt.Errorf')):
            return [AV(lab)]
        o = ('hash' if name in ('crypto/sha256.New', 'crypto/sha512.New') else 'lib', x.get('id', name))
        if self.cell(mem, o).lab < lab:
            mem[o] = AV(lab)
            changed[0] = True
        t = self.prog.types[x['t']] if 't' in x else None
        n = len(t['elems']) if t is not None and t.get('k') == 'tuple' and 'elems' in t else 1
        return [AV(lab, frozenset([o])) for _ in range(max(n, 1))] if n > 1 else [AV(lab, frozenset([o]) if lab == 0 else frozenset([o]))]

    def builtin(self, fn, x, name, args, mem, content, write, changed):
        if name in ('len', 'cap'):
            return [AV(args[0].lab)]
        if name == 'copy':
            c = content(args[1])
            write(args[0], AV(c.lab, c.pts, c.fns))
            return [AV(args[0].lab | args[1].lab)]
        if name == 'append':
            r = args[0]
            o = ('alloc', x['id'])
            c = content(args[0]).join(content(args[1]) if len(args) > 1 else BOT)
            new = self.cell(mem, o).join(AV(c.lab, c.pts, c.fns))
            if new != self.cell(mem, o):
                mem[o] = new
                changed[0] = True
            return [AV(args[0].lab | (args[1].lab if len(args) > 1 else 0), args[0].pts | frozenset([o]))]
        if name in ('min', 'max'):
            # compiled to conditional moves or comparisons of integers
            r = BOT
            for a in args:
                r = r.join(a)
            return [AV(r.lab)]
        if name in ('clear', 'print', 'println', 'panic') or name.startswith('ssa:'):
            return [BOT]
        self.ob(fn, x, 'unsupported', False, 'builtin %s' % name)
        return [BOT]

    # -------------------------------------------------------------- outcomes
    def released(self, f, x):
        """is the value of x used, and only returned or branched on, by the function?"""
        k = id(x)
        if k not in self.rel:
            self.rel[k] = self.released1(f, x)
        return self.rel[k]

    def released1(self, f, x):
        used = False
        work, seen = [x.get('id')], set()
        while work:
            r = work.pop()
            if r in seen or r is None:
                continue
            seen.add(r)
            for b in f['blocks']:
                for y in b['instrs']:
                    if not self.uses(y, r):
                        continue
                    used = True
                    op = y['op']
                    if op in ('return', 'if', 'debugref'):
                        continue
                    if op in ('phi', 'extract', 'changetype') or op == 'un' and y['tok'] == '!' \
                            or op == 'bin' and y['tok'] in ('==', '!=') and 'const' in (y['x']['k'], y['y']['k']):
                        work.append(y['id'])
                    else:
                        return False
        return used

    def uses(self, y, r):
        def has(v):
            if isinstance(v, dict):
                return v.get('k') == 'reg' and v.get('n') == r
            return isinstance(v, list) and any(has(w) for w in v)
        return any(has(v) for v in y.values())

    def outcome_branch(self, f, bi):
        """do the two sides of the branch always end in different results?"""
        k = (id(f), bi)
        if k not in self.outc:
            self.outc[k] = self.outcome_branch1(f, bi)
        return self.outc[k]

    def outcome_branch1(self, f, bi):
        succs = f['blocks'][bi]['succs']
        sets = [self.outcomes(f, s, bi, i == 0) for i, s in enumerate(succs)]
        if None in sets:
            return False
        return all(any(differ(u, v) for u, v in zip(p, q)) for p in sets[0] for q in sets[1])

    def learn(self, c, side, defs, e):
        """what the outcome of a branch says about registers"""
        while c is not None and c['k'] == 'reg':
            e[c['n']] = ('const', 'true' if side else 'false', None)
            d = defs.get(c['n'], {})
            if d.get('op') == 'un' and d['tok'] == '!':
                c, side = d['x'], not side
            elif d.get('op') == 'bin' and d['tok'] in ('==', '!='):
                x, y = d['x'], d['y']
                if x['k'] == 'const':
                    x, y = y, x
                if y['k'] == 'const' and x['k'] == 'reg' and y.get('str') is None:
                    e[x['n']] = ('const' if side == (d['tok'] == '==') else 'not', cstr(y), None)
                return
            else:
                return

    def outcomes(self, f, b, prev, side):
        """the tuples of results after this edge; None: unknown result"""
        defs = {y['id']: y for blk in f['blocks'] for y in blk['instrs'] if 'id' in y}
        e = {}
        self.learn(f['blocks'][prev]['instrs'][-1].get('x'), side, defs, e)
        seen, out, todo = set(), set(), [(b, prev, tuple(sorted(e.items(), key=str)))]
        while todo:
            b, prev, env = todo.pop()
            if (b, prev, env) in seen:
                continue
            if len(seen) > 4000:
                return None
            seen.add((b, prev, env))
            blk = f['blocks'][b]
            e = dict(env)
            new = {}
            for x in blk['instrs']:
                if x['op'] == 'phi':
                    new[x['id']] = self.res_val(x['edges'][blk['preds'].index(prev)], e, defs)
            for x in blk['instrs']:
                e.pop(x.get('id'), None)
            e.update(new)
            last = blk['instrs'][-1]
            if last['op'] == 'return':
                out.add(tuple(self.res_val(r, e, defs) for r in last['xs']))
            elif last['op'] == 'panic':
                return None
            else:
                env2 = tuple(sorted(e.items(), key=str))
                for s in blk['succs']:
                    todo.append((s, b, env2))
        return out or None

    def res_val(self, o, env, defs):
        if o is None:
            return None
        if o['k'] == 'const':
            return ('const', cstr(o), o.get('str'))
        if o['k'] == 'reg':
            if o['n'] in env:
                return env[o['n']]
            d = defs.get(o['n'])
            if d and d['op'] == 'call' and d.get('fn', {}).get('n') in ('errors.New', 'fmt.Errorf'):
                return ('error', str(d['args'][0].get('str')))
            if d and d['op'] == 'un' and d['tok'] == '*' and d['x']['k'] == 'global':
                return ('error', d['x']['n'])     # a sentinel error
            if d and d['op'] == 'un' and d['tok'] == '!':
                return negate(self.res_val(d['x'], env, defs))
            if d and d['op'] == 'bin' and d['tok'] in ('==', '!='):
                u, v = self.res_val(d['x'], env, defs), self.res_val(d['y'], env, defs)
                if u and v and u[0] == v[0] == 'const':
                    return ('const', 'true' if (u == v) == (d['tok'] == '==') else 'false', None)
                if differ(u, v):
                    return ('const', 'false' if d['tok'] == '==' else 'true', None)
            if d and d['op'] in ('changetype',):
                return self.res_val(d['x'], env, defs)
        return None


def cstr(o):
    return str(o.get('v')).lower() if str(o.get('v')) in ('True', 'False') else str(o.get('v'))


def negate(v):
    if v and v[0] == 'const' and v[1] in ('true', 'false'):
        return ('const', 'false' if v[1] == 'true' else 'true', None)
    return None


def differ(u, v):
    if u is None or v is None:
        return False
    if 'not' in (u[0], v[0]):
        return u[0] != v[0] and 'const' in (u[0], v[0]) and u[1:] == v[1:]
    return u != v


VARTIME = re.compile(r'\.(Public\w*|VarTime\w*|varTime\w*|BigInt|SetBigInt|String|MarshalText|UnmarshalText|textToBuf|computeScalar5NAF)$')


def roots(reg, prog):
    out = []
    for fn, c in reg.items():
        if fn not in prog.funcs or VARTIME.search(fn):
            continue
        if re.sub(r'.*\.', '', fn)[:1].isupper():
            out.append(fn)
    return sorted(out)


def check(prog, reg):
    """[(function, position, kind, ok, message)]"""
    F = Flow(prog)
    out = []
    for fn in roots(reg, prog):
        f = prog.funcs[fn]
        args, mem = [], {}
        for i, (n, t) in enumerate(f['params']):
            k = prog.types[t]['k']
            if k in ('ptr', 'slice'):
                mem[('arg', i)] = AV(HIGH)
                args.append(AV(LOW, frozenset([('arg', i)])))
            else:
                args.append(AV(HIGH))
        try:
            F.call(fn, args, mem, False)
        except Unsupported as e:
            F.obs[(fn, '', 'unsupported', '')] = (False, str(e))
    for (fn, pos, kind, i), (ok, msg) in sorted(F.obs.items()):
        out.append((fn, pos, kind, ok, msg))
    return out, roots(reg, prog), sorted({k[0] for k in F.memo})


LIB = ('math/bits.Add', 'math/bits.Sub', 'math/bits.Mul', 'crypto/subtle.ConstantTime')


def check_lib(prog):
    """the library functions taken to be constant-time whose bodies are at hand:
    [(function, ok, message)]"""
    out = []
    for fn in sorted(prog.funcs):
        if not fn.startswith(LIB):
            continue
        F = Flow(prog)
        args, mem = [], {}
        for i, (n, t) in enumerate(prog.funcs[fn]['params']):
            if prog.types[t]['k'] in ('ptr', 'slice'):
                mem[('arg', i)] = AV(HIGH)
                args.append(AV(LOW, frozenset([('arg', i)])))
            else:
                args.append(AV(HIGH))
        try:
            F.call(fn, args, mem, False, top=False)
            bad = [m for ok, m in F.obs.values() if not ok]
        except Unsupported as e:
            bad = [str(e)]
        out.append((fn, not bad, '; '.join(bad) or 'no branch, index or length depends on secret arguments'))
    return out
