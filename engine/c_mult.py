"""Contracts of the scalar multiplications (properties C10-C12)."""
from vc import *
import point
from point import G, PV, PtCell, TableCell, boxes, abstract, geq, inside, hull
from c_point import E, CP, PJ, NP, R, PtS


class ByLt(By):
    """32 bytes encoding an integer below 2^bits"""

    def __init__(self, n, bits):
        By.__init__(self, n)
        self.bits = bits

    def make(self, ex, st, obj, name):
        v = IP.var(poly.C.new(name, 0, (1 << self.bits) - 1))
        st.mem[obj] = BYCell(v, self.n)
        return v

    def get(self, ex, st, ptr):
        p = By.get(self, ex, st, ptr)
        return p if prove_range(p, 0, (1 << self.bits) - 1) else None


class Digits(Shape):
    """signed digits with sum w_i base^i = s"""

    def __init__(self, n, base, lo, hi):
        self.n, self.base, self.lo, self.hi = n, base, lo, hi

    def put(self, ex, st, ptr, s):
        ws = [val.sym((8, True), 'w%d_%d' % (len(poly.C.name), i), self.lo, self.hi) for i in range(self.n)]
        rest = s
        for i in range(1, self.n):
            rest = rest - ws[i].p * self.base ** i
        v, = ws[0].p.vars()
        poly.C.extra.setdefault('solved', {})[v] = rest
        ex.store(st, ptr, ws)

    def check(self, ex, st, ptr, s):
        ws = ex.load(st, ptr)
        t = IP({})
        for i, w in enumerate(ws):
            t = t + w.p * self.base ** i
        out = [('value', prove_eq(t, s), 'sum of digit_i * %d^i is the scalar' % self.base)]
        bad = [i for i, w in enumerate(ws) if not prove_range(w.p, self.lo, self.hi)]
        out.append(('range', not bad, 'digits in [%d, %d]%s' % (self.lo, self.hi, ' violated by digit %s' % bad[0] if bad else '')))
        return out


class TableS(Shape):
    """precomputed table for a point: entry [i][v] is (v+1) 256^i g"""

    def make(self, ex, st, obj, name):
        g = G.sym(('P', name))
        st.mem[obj] = TableCell(g, self.box(ex))
        return PV(g)

    def box(self, ex):
        return boxes(ex).classes('niels', 'niels')[0][1]

    def entries(self, ex, st, node):
        """[[group value]] or (None, what is wrong)"""
        box = self.box(ex)
        out = []
        for i, row in enumerate(node):
            r = []
            for v, e in enumerate(row):
                a = abstract(ex, st, 'niels', e)
                if a is None:
                    return None, 'entry [%d][%d] is not a curve point' % (i, v)
                if not inside(a[1], box):
                    return None, 'the limbs of entry [%d][%d] are out of bounds' % (i, v)
                r.append(a[0])
            out.append(r)
        return out, ''

    def match(self, ex, st, node, g=None):
        """-> (group value or None, message)"""
        if isinstance(node, TableCell):
            return node.g, ''
        if type(node) is not list or len(node) != 32 or any(type(r) is not list or len(r) != 8 for r in node):
            return None, 'not a table'
        es, why = self.entries(ex, st, node)
        if es is None:
            return None, why
        g0 = es[0][0]
        c0 = point.concrete(g0)
        for i in range(32):
            if c0 is not None and i:
                ci = point.cmul(1 << (8 * i), c0)
            elif c0 is not None:
                ci = c0
            q = (0, 1)
            for v in range(8):
                e = es[i][v]
                if c0 is not None:
                    q = point.cadd(q, ci)
                    ok = point.concrete(e) == q
                else:
                    ok = geq(e, g0.times((v + 1) << (8 * i)))
                if not ok:
                    return None, 'entry [%d][%d] is not %d*256^%d times entry [0][0]' % (i, v, v + 1, i)
        return g0, ''

    def get(self, ex, st, ptr):
        node = ex.load_raw(st, ptr)
        if isinstance(node, TableCell):
            return PV(node.g)
        g, why = self.match(ex, st, node)
        if g is None:
            ex.why = why
            return None
        return PV(g)

    def put(self, ex, st, ptr, pv):
        ex.store(st, ptr, TableCell(pv.g, self.box(ex)))

    def check(self, ex, st, ptr, pv):
        g, why = self.match(ex, st, ex.load_raw(st, ptr))
        if g is None:
            return [('value', False, why)]
        return [('value', geq(g, pv.g), 'entry [i][v] is (v+1)*256^i times the specified point')]


class NafDigits(Shape):
    """256 digits, each zero or odd in [-15, 15], with sum d_i 2^i = s; the
    array is all zero before"""
    DOM = [0] + list(range(-15, 16, 2))

    def make(self, ex, st, obj, name):
        st.mem[obj] = ex.zero(ex.obj_t[obj])
        return ()

    def get(self, ex, st, ptr):
        ws = ex.load(st, ptr)
        return () if type(ws) is list and all(isinstance(w, V) and w.const() == 0 for w in ws) else None

    def put(self, ex, st, ptr, s):
        ws, rest = [], s
        F = poly.C.extra.setdefault('fdp', {})
        for i in range(256):
            v = poly.C.new('naf%d' % i, -15, 15)
            g = val.new_group('naf%d' % i, self.DOM)
            F[g] = IP.var(v)
            ws.append(V((8, True), val.group_value(g), -15, 15, None))
            rest = rest - IP.var(v) * (1 << i)
            if not i:
                pivot = v
        vs = s.vars()
        if len(vs) == 1 and s == IP.var(next(iter(vs))):
            pivot = next(iter(vs))
            rest = s - rest
        else:
            rest = rest + IP.var(pivot)
        poly.C.extra.setdefault('solved', {})[pivot] = rest
        ex.store(st, ptr, ws)

    def digit_ok(self, ex, st, w):
        if w.const() is not None:
            return w.const() in self.DOM
        t = poly.C.extra.get('nafdigit', ())
        if w.p in t:
            return True
        b = val.and_const(w, 1, (8, True))
        return prove_eq(b.p, IP.const(1)) and prove_range(w.p, -16, 16)

    def check(self, ex, st, ptr, s):
        ws = ex.load(st, ptr)
        t = IP({})
        for i, w in enumerate(ws):
            t = t + w.p * (1 << i)
        out = [('value', prove_eq(t, s), 'sum of digit_i * 2^i is the scalar')]
        bad = [i for i, w in enumerate(ws) if not self.digit_ok(ex, st, w)]
        out.append(('range', not bad, 'digits are zero or odd in [-15, 15]%s' % (' violated by digit %s' % bad[0] if bad else '')))
        return out


class NafCut:
    """Loop invariant of the NAF recoding, at the loop head with position pos
    and carry c:
        sum_{k<pos} naf[k] 2^k + 2^pos (c + floor(s/2^pos)) = s,
        naf[k] is zero or odd in [-15, 15],  naf[k] = 0 for k >= pos,
        nothing else has changed since the loop was entered.
    The carry's interval is that of all arrivals at this position."""

    def __init__(self, ex, f, A, args, st):
        import merge
        fl = merge.flow(f)
        heads = sorted(fl.loops, key=lambda h: fl.rpo[h])
        self.s = A['s']
        self.naf = args[1]
        self.head = None
        for h in heads:
            # the outermost loop that stores int8 digits
            if any(x['op'] == 'store' and self.digit(ex, f, x) for b in fl.loops[h] for x in f['blocks'][b]['instrs']):
                self.head = h
                break
        if self.head is None:
            # they are stored by a helper
            outer = [h for h in heads if fl.depth[h] == 1]
            self.head = outer[-1] if outer else None
        self.body = fl.loops.get(self.head, ())
        self.shape = NafDigits()
        self.phis = []
        self.mems = []
        self.pos = []
        if self.head is not None:
            for x in f['blocks'][self.head]['instrs']:
                if x['op'] == 'phi':
                    self.phis.append(x['id'])
            # variables in memory (captured by a closure or passed on by address)
            self.mems = [m for m, live in fl.mem.items() if self.head in live]
            self.pos = [p for p in self.phis if fl.web.get(p) in fl.dir] + [m for m in self.mems if m in fl.memdir]
        self.entry = None
        self.carry = None
        self.current = -1
        self.arrived = {}

    def digit(self, ex, f, x):
        v = x['val']
        if v.get('k') == 'reg':
            for b in f['blocks']:
                for y in b['instrs']:
                    if y.get('id') == v['n']:
                        return ex.prog.int_ty(y['t']) == (8, True)
        return 't' in v and ex.prog.int_ty(v['t']) == (8, True)

    def fl(self, k):
        return poly.floordiv2k(self.s, k)

    def arrive(self, ex, st, regs, i, parked, b):
        vs = {p: regs[p] for p in self.phis}
        for m in self.mems:
            q = regs.get(m)
            if isinstance(q, symexec.Ptr) and not q.path and isinstance(st.mem.get(q.obj), V):
                vs[m] = st.mem[q.obj]
        pos = [p for p in self.pos if p in vs and isinstance(vs[p], V) and vs[p].const() is not None]
        if len(pos) != 1:
            raise VerifFail('unsupported', 'no loop position found')
        n = vs[pos[0]].const()
        if self.entry is not None and n <= self.current:
            raise VerifFail('invariant', 'the loop position does not increase (%d after %d)' % (n, self.current))
        if self.entry is not None:
            for p, v in vs.items():
                if p != pos[0] and not node_eq(v, self.entry[2].get(p)):
                    if not isinstance(v, V) or self.carry not in (None, p):
                        raise VerifFail('unsupported', 'more than one loop-carried value')
                    self.carry = p
        c = vs[self.carry] if self.carry is not None else val.con((64, False), 0)
        ex.push_facts(st)
        poly.C.extra['curenv'] = st.env
        ws = ex.load(st, self.naf)
        t = (c.p + self.fl(n)) * (1 << n)
        bad = []
        for k, w in enumerate(ws):
            if w.p.d:
                t = t + w.p * (1 << k)
            if k >= n and w.const() != 0:
                bad.append('naf[%d] is written early' % k)
            if k < n and not self.shape.digit_ok(ex, st, w):
                bad.append('naf[%d] is not a valid digit' % k)
        if not prove_eq(t, self.s):
            bad.append('value')
        cl, ch = c.lo, c.hi
        if not 0 <= cl <= ch <= 1:
            if prove_range(c.p, 0, 1):
                cl, ch = max(cl, 0), min(ch, 1)
            else:
                bad.append('carry')
        if self.entry is None:
            self.entry = (st.fork(), dict(regs), vs)
        else:
            e = self.entry[0]
            own = {self.naf.obj} | {regs[m].obj for m in (pos[0], self.carry) if m in self.mems}
            for o in e.mem:
                if o not in own and not node_eq(st.mem.get(o), e.mem[o]):
                    bad.append('%s changed' % ex.obj_name.get(o))
        ex.cut_obs.append((not bad, 'loop invariant at position %d%s' % (n, ': ' + bad[0] if bad else '')))
        if bad:
            raise VerifFail('invariant', 'loop invariant at position %d: %s' % (n, bad[0]))
        h = self.arrived.get(n)
        if h is None:
            self.arrived[n] = [cl, ch]
            parked[(b, n)] = ((n,), [(st, (regs, pos[0], vs), i)])
        else:
            h[0], h[1] = min(h[0], cl), max(h[1], ch)
        return False

    def resume(self, ex, key, items):
        n = key[1]
        (st, (regs, pos, vs)), = items
        lo, hi = self.arrived[n]
        self.current = n
        e, er, _ = self.entry
        s2 = e.fork()
        r2 = dict(er)

        def put(k, v):
            if k in self.mems:
                s2.mem[er[k].obj] = v
            else:
                r2[k] = v
        put(pos, vs[pos])
        cp = IP.const(lo)
        if self.carry is not None and n:
            ty = vs[self.carry].ty
            c = val.con(ty, lo) if lo == hi else val.sym(ty, 'c%d' % n, lo, hi)
            put(self.carry, c)
            cp = c.p
        ws = ex.load(s2, self.naf)
        S = self.s - (cp + self.fl(n)) * (1 << n)
        D = poly.C.extra.setdefault('nafdigit', set())
        for k in range(min(n, 256)):
            w = val.sym((8, True), 'naf%d_%d' % (n, k), -15, 15)
            ws[k] = w
            D.add(w.p)
            if k:
                S = S - w.p * (1 << k)
        if n:
            poly.C.extra.setdefault('solved', {})[next(iter(ws[0].p.vars()))] = S
        ex.store(s2, self.naf, ws)
        return [(s2, r2)]


def build(reg):
    def add(c):
        reg[c.fn] = c
    pub = PtS('ext', 'pub', 'norm')
    out = Junk(pub)
    b253 = ByLt(32, 253)
    sc = Sc()
    smul = lambda A: {'p': PV(A['q'].g.times(A['s']))}

    def rmul(A):
        return {'p': PV(A['q'].g.times(want_ip(('canon', A['s']))))}
    add(Contract(ED + '.computeScalarWindow5', [('s', b253, 'in'), ('w', Junk(Digits(51, 32, -16, 16)), 'out')],
                 lambda A: {'w': A['s']}, ['C10'], internal=True))
    add(Contract(E('ScalarMult'), [('p', out, 'out'), ('q', pub, 'in'), ('s', b253, 'in')], smul, ['C10'], ret=('ptr', 'p'), internal=True))
    add(Contract(R('ScalarMult'), [('p', out, 'out'), ('q', pub, 'in'), ('s', sc, 'in')], rmul, ['C10'], ret=('ptr', 'p')))
    # tables
    tab = TableS()
    TB, RTB = (lambda n: meth(ED, 'ScalarMultTable', n)), (lambda n: meth(RT, 'ScalarMultTable', n))
    add(Contract(ED + '.computeScalarWindow4', [('s', b253, 'in'), ('w', Junk(Digits(64, 16, -8, 8)), 'out')],
                 lambda A: {'w': A['s']}, ['C12'], internal=True))
    tm = lambda A: {'p': PV(A['t'].g.times(A['s']))}
    for n in ('ScalarMult', 'VarTimeScalarMult'):
        add(Contract(TB(n), [('t', tab, 'in'), ('p', out, 'out'), ('s', b253, 'in')], tm, ['C12'], internal=True))
    add(Contract(TB('Compute'), [('t', Junk(tab), 'out'), ('p', pub, 'in')], lambda A: {'t': PV(A['p'].g)}, ['C12'], internal=True))
    add(Contract(RTB('Compute'), [('t', Junk(tab), 'out'), ('p', pub, 'in')], lambda A: {'t': PV(A['p'].g)}, ['C12']))
    rt = lambda A: {'p': PV(A['t'].g.times(want_ip(('canon', A['s']))))}
    for n in ('ScalarMultTable', 'PublicScalarMultTable'):
        add(Contract(R(n), [('p', out, 'out'), ('t', tab, 'in'), ('s', sc, 'in')], rt, ['C12'], ret=('ptr', 'p')))
    B = G.sym(('B',))
    outb = Junk(PtS('ext', 'pub', 'norm', torsion=True))
    for n in ('ScalarMultBase', 'PublicScalarMultBase'):
        add(Contract(R(n), [('p', outb, 'out'), ('s', sc, 'in')], lambda A: {'p': PV(B.times(want_ip(('canon', A['s']))))}, ['C12'], ret=('ptr', 'p')))
    # variable time
    add(Contract(ED + '.computeScalar5NAF', [('s', b253, 'in'), ('naf', NafDigits(), 'inout')], lambda A: {'naf': A['s']}, ['C11'],
                 internal=True, cut=NafCut))
    add(Contract(E('VarTimeScalarMult'), [('p', out, 'out'), ('q', pub, 'in'), ('s', b253, 'in')], smul, ['C11'], ret=('ptr', 'p'), internal=True))
    add(Contract(R('PublicScalarMult'), [('p', out, 'out'), ('q', pub, 'in'), ('s', sc, 'in')], rmul, ['C11'], ret=('ptr', 'p')))
