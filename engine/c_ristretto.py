"""Contracts of encoding, decoding and equality of group elements (C13-C15),
against the formulas of RFC 9496."""
from vc import *
import point
from point import G, PV, PtCell, boxes, abstract, geq, inside, hull, D as CD
from c_point import E, CP, PJ, NP, R, PtS

I = field.SQRT_M1
fabs = lambda x: x * (1 - 2 * fp(field.sgn(x)))


def _csqrt(a):
    """non-negative square root of a constant"""
    r = pow(a, (PP + 3) // 8, PP)
    if (r * r - a) % PP:
        r = r * I % PP
    assert (r * r - a) % PP == 0
    return min(r, PP - r, key=lambda x: x & 1)


# RFC 9496, section 4.1
SQRT_AD_MINUS_ONE = 25063068953384623474111414158702152701244531502492656460079210482610430750235
INVSQRT_A_MINUS_D = 54469307008909316920995813868745141605393597292927456921205312896311721017578
ONE_MINUS_D_SQ = 1159843021668779879193775521855586647937357759715417654439879720876111806838
D_MINUS_ONE_SQ = 40440834346308536858101042469323190826248399146238708352240133220865137265952
assert SQRT_AD_MINUS_ONE ** 2 % PP == (-CD - 1) % PP
assert INVSQRT_A_MINUS_D ** 2 * (-1 - CD) % PP == 1
assert ONE_MINUS_D_SQ == (1 - CD * CD) % PP
assert D_MINUS_ONE_SQ == (CD - 1) ** 2 % PP


def root(a, kinds=('InvSqrt', 'InvSqrtI')):
    """an inverse square root of a, sign unknown: the symbol the code has
    obtained from its InvSqrt/InvSqrtI, whose contract says r^2 a = 1 if a is a
    non-zero square and r = 0 if a = 0"""
    T = poly.C.extra.get('isr', {})
    for k in kinds:
        if (a, k) in T:
            return field.isr(a, k)
    return field.isr(a, kinds[0])


def rfc_encode(X, Y, Z, T):
    """RFC 9496, 4.3.2: the field element that is encoded"""
    u1 = (Z + Y) * (Z - Y)
    u2 = X * Y
    r, _ = root(u1 * u2 * u2)
    den1, den2 = r * u1, r * u2
    zinv = den1 * den2 * T
    rot = fp(field.sgn(T * zinv))
    sel = lambda b, x, y: y + b * (x - y)
    x = sel(rot, Y * I, X)
    y = sel(rot, X * I, Y)
    den = sel(rot, den1 * INVSQRT_A_MINUS_D, den2)
    neg = fp(field.sgn(x * zinv))
    y = y * (1 - 2 * neg)
    return fabs(den * (Z - y))


class Enc:
    """the encoding of a point: opaque for callers, the RFC formula for the
    body"""

    def __init__(self, ex, st, pv):
        self.ex, self.st, self.pv = ex, st, pv
        self.wrong = False

    def opaque(self):
        T = poly.C.extra.setdefault('enc', {})
        k = self.pv.g.mod_torsion()
        if k not in T:
            f = field.fvar('enc%d' % len(poly.C.name))
            T[k] = f
        return T[k] + (1 if self.wrong else 0)

    def formula(self):
        c = self.pv.cell
        if c is None:
            return None
        fs = [f for f, _ in point.coords_of(self.ex, self.st, 'ext', c)]
        return rfc_encode(*fs) + (1 if self.wrong else 0)

    def subst(self, env):
        r = Enc(self.ex, self.st, self.pv.subst(env))
        r.wrong = self.wrong
        return r

    def perturbed(self):
        r = Enc(self.ex, self.st, self.pv)
        r.wrong = True
        return r

    def ip(self):
        return field.canon(self.opaque())

    def holds(self, p):
        if prove_int(p, ('canon', self.opaque())):
            return True
        f = self.formula()
        return f is not None and prove_int(p, ('canon', f))


class ByEnc(By):
    def put(self, ex, st, ptr, enc):
        ex.store(st, ptr, BYCell(enc.ip(), 32))

    def check(self, ex, st, ptr, enc):
        n = ex.load(st, ptr)
        p = n.p if isinstance(n, BYCell) else packed(n, 8)
        return [('value', enc.holds(p), 'bytes are the RFC 9496 encoding of the point')]


def ret_enc(enc, err=False):
    """want: a 32-byte slice with the encoding"""
    def ok(ex, st, r):
        if err:
            if not isinstance(r, Tup) or len(r) != 2 or r[1] is not NIL:
                return False
            r = r[0]
        if not isinstance(r, Slice) or r.len != 32:
            return False
        return enc.holds(packed(ex.slice_vals(st, r), 8))
    return ('custom', ok, 'returns the 32-byte RFC 9496 encoding of the point')


# ---------------------------------------------------------------- decoding
class Dec:
    """RFC 9496, 4.3.1 for the 32-byte string with value B"""

    def __init__(self, B):
        self.B = B
        lo = poly.mod2k(B, 255)
        s = fp(lo)
        self.s = s
        # B < p  iff  B is the canonical representative of its low 255 bits
        self.canonical = val.is_zero_bit(B - field.canon(s))
        ss = s * s
        u1, u2 = 1 - ss, 1 + ss
        v = -(CD * (u1 * u1)) - u2 * u2
        self.a = v * u2 * u2
        r, w = root(self.a)
        self.r = r
        dx = r * u2
        dy = r * dx * v
        self.x = fabs(2 * s * dx)
        self.y = u1 * dy
        self.t = self.x * self.y
        self.accept = self.canonical * (1 - field.sgn(s)) * w * (1 - field.sgn(self.t)) * (1 - field.iszero(self.y))


def dec_of(B):
    T = poly.C.extra.setdefault('dec', {})
    if B not in T:
        T[B] = Dec(B)
    return T[B]


def dec_ok(B):
    """the answer as one boolean, for callers"""
    T = poly.C.extra.setdefault('decok', {})
    if B not in T:
        T[B] = IP.var(poly.C.new('decodes%d' % len(T), 0, 1))
    return T[B]


class DecPV(PV):
    __slots__ = ('B', 'wrong', 'env')

    def __init__(self, B):
        PV.__init__(self, G.sym(('dec', B)))
        self.B, self.wrong, self.env = B, False, {}

    def subst(self, env):
        r = DecPV(self.B)
        r.wrong = self.wrong
        r.env = dict(self.env, **env) if False else {**self.env, **env}
        return r

    def perturbed(self):
        r = DecPV(self.B)
        r.wrong = True
        return r


def cases(p, limit=14):
    """assignments of the boolean variables of p that make it 1"""
    vs = sorted(p.vars())
    if len(vs) > limit or not all(poly.C.isb[v] for v in vs):
        raise VerifFail('unsupported', 'decision over %d variables' % len(vs))
    out = []

    def rec(q, i, env):
        if not q.d:
            return
        if q.is_const():
            if q.cval() == 1:
                out.append(dict(env))
            return
        v = min(q.vars())
        for b in (0, 1):
            if b and any(env.get(u) for u in poly.C.excl.get(v, ())):
                continue
            env[v] = b
            rec(q.subst({v: b}), 0, env)
            del env[v]
    rec(p, 0, {})
    return out


def zero_mod_root(f, r, a):
    """f = 0 whenever r^2 a = 1"""
    (m, _), = r.d.items()
    rv = m[0][0]
    parts = {}
    for m, c in f.d.items():
        e = dict(m).get(rv, 0)
        parts.setdefault(e % 2, {}).setdefault(e // 2, {})[tuple(x for x in m if x[0] != rv)] = c
    for h in parts.values():
        k = max(h)
        t = FP({})
        for j, d in h.items():
            t = t + FP(d) * a ** (k - j) if k > j else t + FP(d)
        if t.d:
            return False
    return True


class PtDec(PtS):
    """result of decoding: specified only if the string is accepted"""

    def put(self, ex, st, ptr, pv):
        ex.store(st, ptr, PtCell('ext', pv.g, boxes(ex).classes('ext', 'pub')[0][1]))

    def check(self, ex, st, ptr, pv):
        node = ex.load_raw(st, ptr)
        ok = symexec_subst(dec_ok(pv.B), pv.env)
        if isinstance(node, PtCell):
            return [('value', node.g == pv.g and not pv.wrong, 'is the decoded point')]
        if ok.is_const() and ok.cval() == 0:
            return []
        d = Dec(pv.B)
        acc = symexec_subst(d.accept, pv.env)
        cs = [c for f, c in [(0, None)]]
        out = []
        try:
            envs = cases(acc)
        except VerifFail as e:
            return [('value', False, str(e))]
        if type(node) is not list:
            return [('value', not envs, 'the coordinates are not known')]
        fs = [fe_abs(ex, c) for c in point_nodes(ex, st, node)]
        box = tuple(tuple(b) for _, b in fs)
        val_ok, cur_ok = True, True
        for e in envs:
            env = {**pv.env, **e}
            env.update(floor_env(env, sorted({v for f, _ in fs for v in f.vars()})))
            X, Y, Z, T = [f.subst(env).subst(env) for f, _ in fs]
            x, y = d.x.subst(env), d.y.subst(env)
            if pv.wrong:
                x = x + 1
            # Z is a non-zero constant or a unit
            if not point.is_unit(Z, ()) or (X - x * Z).d or (Y - y * Z).d or (T * Z - X * Y).d:
                val_ok = False
            if not zero_mod_root(y * y - x * x - 1 - CD * x * x * y * y, d.r, d.a):
                cur_ok = False
        out.append(('value', val_ok, 'is the point RFC 9496 decoding specifies, if the string is accepted'))
        out.append(('curve', cur_ok, 'the decoded point satisfies the curve equation'))
        okb = any(inside(box, cls) for _, cls in boxes(ex).classes('ext', 'pub'))
        out.append(('bounds', okb, 'limbs within the bounds'))
        return out


def point_nodes(ex, st, node):
    return node


def symexec_subst(p, env):
    return p.subst(env) if env else p


def dec_ret(B):
    def ok(ex, st, r):
        if not isinstance(r, V):
            return False
        env = st.env
        if prove_eq(r.p, symexec_subst(dec_ok(B), env)):
            return True
        return prove_eq(r.p, symexec_subst(Dec(B).accept, env))
    return ('custom', ok, 'accepts exactly the canonical encodings of RFC 9496')


def dec_spec(name, buf):
    def f(A):
        B = A[buf]
        if A.get('_apply'):
            return {name: DecPV(B), 'ret': ('bool', dec_ok(B))}
        return {name: DecPV(B), 'ret': dec_ret(B)}
    return f


class DecContract(Contract):
    """a decoder at a call site: two outcomes"""

    def hook(self, ex, st, args, pos):
        r = Contract.hook(self, ex, st, args, pos)
        if r is None:
            return None
        (st, v), = r
        ok = v.p
        outs = []
        for b in (0, 1):
            s2 = st.fork()
            env = ex.assume(s2, ok, b)
            if env is None:
                continue
            s2.env.update(env)
            s2.mem = {k: symexec.subst_node(x, env) for k, x in s2.mem.items()}
            if not b:
                # rejected: nothing is known about the point
                for (n, sh, role), a in zip(self.params, args):
                    if role == 'out':
                        ex.store(s2, a, junk(ex, ex.ptr_tid(a), 'rej%d' % len(poly.C.name)))
            outs.append((s2, con(BOOL, b)))
        return outs


def build(reg):
    def add(c):
        reg[c.fn] = c
    pub = PtS('ext', 'pub', 'norm')
    enc = lambda A: Enc(A['_ex'], A['_st'], A['p'])
    # C13
    for fn in (E('RistrettoInto'), R('BytesInto')):
        add(Contract(fn, [('p', pub, 'in'), ('buf', Junk(ByEnc(32)), 'out')], lambda A: {'buf': enc(A)}, ['C13'], ret=('ptr', 'p')))
    for fn in (E('Ristretto'), R('Bytes')):
        add(Contract(fn, [('p', pub, 'in')], lambda A: {'ret': ret_enc(enc(A))}, ['C13'], apply=False))
    # C14
    for fn in (E('SetRistretto'), R('SetBytes')):
        add(DecContract(fn, [('p', Junk(PtDec('ext', 'pub', 'pub')), 'out'), ('buf', By(32, 255), 'in')], dec_spec('p', 'buf'), ['C14']))

    # C15
    def equal(A):
        if A.get('_apply'):
            d = A['p'].g - A['q'].g
            return {'ret': ('int', I32, same_class(d))}
        cs = [[f for f, _ in point.coords_of(A['_ex'], A['_st'], 'ext', A[n].cell)] for n in 'pq']
        (X1, Y1, Z1, T1), (X2, Y2, Z2, T2) = cs
        z, a, b = field.iszero, X1 * Y2 - X2 * Y1, Y1 * Y2 - X1 * X2
        # the second form: a product is zero when one of its factors is
        return 1 - (1 - z(a)) * (1 - z(b)), z(a * b)

    def eq_spec(k):
        def f(A):
            if A.get('_apply'):
                return {'ret': (('int', I32) if k == 'int' else ('bool',)) + (same_class(A['p'].g - A['q'].g),)}
            ws = (same_class(A['p'].g - A['q'].g),) + equal(A)

            def ok(ex, st, r):
                return isinstance(r, V) and any(prove_eq(r.p, symexec_subst(w, st.env)) for w in ws)
            return {'ret': ('custom', ok, 'tells whether x1 y2 = x2 y1 or y1 y2 = x1 x2 (RFC 9496)')}
        return f
    for fn, k in ((E('RistrettoEqualsI'), 'int'), (R('EqualsI'), 'int'), (R('Equals'), 'bool')):
        add(Contract(fn, [('p', pub, 'in'), ('q', pub, 'in')], eq_spec(k), ['C15']))


def same_class(d):
    """[d is in the class of zero]"""
    d = d.mod_torsion().norm()
    if not d.d:
        return IP.const(1)
    d, _ = point.orient(d)
    T = poly.C.extra.setdefault('sameclass', {})
    if d not in T:
        T[d] = IP.var(poly.C.new('same%d' % len(T), 0, 1))
    return T[d]
