"""Contracts of the Elligator map (C16), against MAP of RFC 9496, 4.3.4."""
from vc import *
import point
from point import G, PV, PtCell, boxes, abstract, inside, D as CD
from c_point import E, CP, R, PtS
from c_ristretto import (I, fabs, root, SQRT_AD_MINUS_ONE, ONE_MINUS_D_SQ, D_MINUS_ONE_SQ, zero_mod_root, symexec_subst)
import deps

NSQ = lambda c: c % PP != 0 and pow(c % PP, (PP - 1) // 2, PP) == PP - 1


def ell(f):
    """group symbol of the image of a field value (the map is even)"""
    if f.d:
        f, _ = field.orient(f)
    T = poly.C.extra.setdefault('ell', {})
    return G.sym(('ell', T.setdefault(f, len(T)), ''))


class EllPV(PV):
    __slots__ = ('f', 'wrong')

    def __init__(self, f):
        PV.__init__(self, ell(f))
        self.f, self.wrong = f, False

    def subst(self, env):
        r = EllPV(self.f.subst(env))
        r.wrong = self.wrong
        return r

    def perturbed(self):
        r = EllPV(self.f)
        r.wrong = True
        return r


def parts(f, rv):
    """f = sum_k f_k r^k"""
    out = {}
    for m, c in f.d.items():
        e = dict(m).get(rv, 0)
        out.setdefault(e, {})[tuple(x for x in m if x[0] != rv)] = c
    return {k: FP(d, f.mod) for k, d in out.items()}


def cleared(f, rv, a):
    """f a^k with r^2 a = 1 used up, for f even in r"""
    P = parts(f, rv)
    if any(e % 2 for e in P):
        return None
    if not P:
        return f
    k = max(P) // 2
    t = FP({}, f.mod)
    for e, g in P.items():
        t = t + (g * a ** (k - e // 2) if k > e // 2 else g)
    return t


def divide(f, g):
    """f/g or None"""
    key = lambda m: tuple(sorted(m, reverse=True))
    lead = max(g.d, key=key)
    lc = pow(g.d[lead], -1, g.mod)
    ld = dict(lead)
    q = FP({}, f.mod)
    for _ in range(2000):
        if not f.d:
            return q
        m = max(f.d, key=key)
        md = dict(m)
        if any(md.get(v, 0) < e for v, e in ld.items()):
            return None
        for v, e in ld.items():
            md[v] -= e
        t = FP({tuple(sorted((v, e) for v, e in md.items() if e)): f.d[m] * lc % g.mod}, g.mod)
        q = q + t
        f = f - t * g
    return None


def no_root(f, units):
    """the polynomial f in one variable (with even exponents only) has no zero
    where none of the units vanishes: f is a product of units and a constant or
    a quadratic polynomial in r0^2 with non-square discriminant"""
    if f is None or not f.d:
        return False
    hit = True
    while hit and not f.is_const():
        hit = False
        for u in units:
            if u.is_const():
                continue
            q = divide(f, u)
            if q is not None:
                f, hit = q, True
    if f.is_const():
        return True
    vs = f.vars()
    if len(vs) != 1:
        return False
    v, = vs
    es = {dict(m).get(v, 0): c for m, c in f.d.items()}
    if set(es) <= {0, 2, 4} and es.get(4):
        return NSQ(es.get(2, 0) ** 2 - 4 * es[4] * es.get(0, 0))
    return False


def bool_envs(fs, fixed, limit=10):
    """assignments of the boolean variables of fs compatible with fixed"""
    vs = sorted({v for f in fs for v in f.vars() if poly.C.isb[v]})
    free = [v for v in vs if v not in fixed]
    if len(free) > limit:
        raise VerifFail('unsupported', 'decision over %d variables' % len(free))
    out = []

    def rec(i, env):
        if i == len(free):
            out.append(dict(env))
            return
        v = free[i]
        for b in (0, 1):
            if b and any(env.get(u) for u in poly.C.excl.get(v, ())):
                continue
            env[v] = b
            rec(i + 1, env)
            del env[v]
    rec(0, dict(fixed))
    return out


def rfc_map(f, q, case):
    """numerators and denominators of the affine coordinates, RFC 9496, 4.3.4,
    for u v a non-zero square (q^2 u v = 1), a non-square (q^2 i u v = 1), and
    zero (q = 0)"""
    r = I * f * f
    u = (r + 1) * ONE_MINUS_D_SQ
    v = (-1 - r * CD) * (r + CD)
    if case == 'square':
        s = fabs(u * q)
        c = FP.const(-1)
    elif case == 'non-square':
        # the root of i u/v is i u q
        s = -fabs(I * u * q * f)
        c = r
    else:
        return FP.const(0), FP.const(1), FP.const(1), FP.const(1), u, v
    N = c * (r - 1) * D_MINUS_ONE_SQ - v
    return 2 * s * v, N * SQRT_AD_MINUS_ONE, 1 - s * s, 1 + s * s, u, v


def check_map(kind, fs, f, wrong=False):
    """are these the coordinates of the image of f (up to 4-torsion)?"""
    X, Y, Z, T = fs
    zd = Z if kind == 'ext' else T
    r = I * f * f
    u, v = (r + 1) * ONE_MINUS_D_SQ, (-1 - r * CD) * (r + CD)
    a = u * v
    q, w = root(a, ('InvSqrtI',))
    (m, _), = q.d.items()
    qv = m[0][0]
    (wv,) = w.vars()
    units0 = [r + 1, 1 + r * CD, r + CD]
    res = {}
    for case in ('square', 'non-square', 'zero'):
        fixed = {wv: int(case == 'square')}
        code = list(fs)
        xn, xd, yn, yd, _, _ = rfc_map(f, q, case)
        spec = [xn, xd, yn, yd]
        if case == 'zero':
            code = [g.subst({qv: 0}) for g in code]
            rel, units = None, []
        else:
            rel = a if case == 'square' else a * I
            units = units0
        for g in code + spec:
            for b in g.vars():
                if poly.C.isb[b] and poly.C.defn[b]:
                    k, h = poly.C.defn[b][0], poly.C.defn[b][1]
                    if k == 'fiszero' and case != 'zero' and any(divide(u_, h) is not None for u_ in units0 + [a]):
                        fixed[b] = 0
                    if k == 'sgn' and case == 'zero' and not h.subst({qv: 0}).d:
                        fixed[b] = 0
        ok, ok_unit, ok_curve = True, True, True
        for env in bool_envs(code + spec, fixed):
            X, Y, Z, T = [g.subst(env) for g in code]
            d = Z if kind == 'ext' else T
            xn, xd, yn, yd = [g.subst(env) for g in spec]
            if wrong:
                xn = xn + xd
            z = (lambda h: not h.d) if rel is None else (lambda h: zero_mod_root(h, q, rel))
            nz = (lambda h: no_root(h, ())) if rel is None else (lambda h: no_root(cleared(h, qv, rel), units))
            if not nz(xd) or not nz(yd):
                ok_unit = False
            elif rel is not None:
                units = units + [cleared(xd, qv, rel), cleared(yd, qv, rel)]
            if not nz(Z) or not nz(d):
                ok_unit = False
            units = units[:3]
            # the point itself or one of the three others of its class
            reps = [(xn, xd, yn, yd), (-xn, xd, -yn, yd), (I * yn, yd, I * xn, xd), (-(I * yn), yd, -(I * xn), xd)]
            if not any(z(X * b - a_ * Z) and z(Y * e - c * d) for a_, b, c, e in reps):
                ok = False
            # X/Z, Y/d on the curve
            X2, Y2, Z2, D2 = X * X, Y * Y, Z * Z, d * d
            if not z(Y2 * Z2 - X2 * D2 - Z2 * D2 - CD * X2 * Y2):
                ok_curve = False
            if kind == 'ext' and not z(T * Z - X * Y):
                ok_curve = False
        res[case] = (ok, ok_unit, ok_curve)
    return res


class PtEll(PtS):
    """the image of a field value under the Elligator map"""

    def check(self, ex, st, ptr, pv):
        node = ex.load_raw(st, ptr)
        a = abstract(ex, st, self.kind, node) if not isinstance(pv, EllPV) or isinstance(node, PtCell) else None
        if a is not None:
            return super().check(ex, st, ptr, PV(pv.g + G.sym(('wrong',)), pv.box) if getattr(pv, 'wrong', False) else pv)
        if type(node) is not list:
            return [('value', False, 'the coordinates are not known')]
        fs = [fe_abs(ex, c) for c in node]
        box = tuple(tuple(b) for _, b in fs)
        try:
            res = check_map(self.kind, [g for g, _ in fs], pv.f, pv.wrong)
        except VerifFail as e:
            return [('value', False, str(e))]
        out = []
        for case, (ok, un, cu) in res.items():
            out.append(('value', ok, 'is the RFC 9496 image (N*D %s)' % case))
            out.append(('unit', un, 'the denominators do not vanish (N*D %s)' % case))
            out.append(('curve', cu, 'satisfies the curve equation (N*D %s)' % case))
        okb = any(inside(box, cls) for _, cls in boxes(ex).classes(self.kind, self.outc))
        out.append(('bounds', okb, 'limbs within the bounds'))
        return out


def build(reg):
    def add(c):
        reg[c.fn] = c
    P = ['C16']
    lo255 = lambda B: fp(poly.mod2k(B, 255))
    add(Contract(CP('SetRistrettoElligator2'), [('p', Junk(PtEll('comp', 'cp', 'cp')), 'out'), ('r0', Fe('PUB'), 'in')],
                 lambda A: {'p': EllPV(A['r0'])}, P, ret=('ptr', 'p'), internal=True))
    out = ('p', Junk(PtEll('ext', 'pub', 'norm')), 'out')
    add(Contract(R('SetElligator'), [out, ('buf', By(32, 255), 'in')], lambda A: {'p': EllPV(lo255(A['buf']))}, P, ret=('ptr', 'p')))
    lo = lambda h: poly.mod2k(h, 256)
    hi = lambda h: poly.floordiv2k(h, 256)
    h512 = lambda A: deps.hash_value('sha512', A['buf'], 64)
    add(Contract(R('Derive'), [out, ('buf', Buf(), 'val')], lambda A: {'p': EllPV(lo255(lo(h512(A))))}, P, ret=('ptr', 'p')))
    out2 = ('p', Junk(PtS('ext', 'pub', 'norm')), 'out')
    add(Contract(R('DeriveDalek'), [out2, ('buf', Buf(), 'val')],
                 lambda A: {'p': PV(ell(lo255(lo(h512(A)))) + ell(lo255(hi(h512(A)))))}, P, ret=('ptr', 'p')))

    def rnd(A):
        Rr = poly.C.extra.get('rand', [])
        if len(Rr) != 1 or Rr[0][1] != 32:
            raise VerifFail('rand', 'exactly one read of 32 random bytes expected')
        return {'p': EllPV(lo255(Rr[0][0]))}
    add(Contract(R('Rand'), [out], rnd, P, ret=('ptr', 'p'), apply=False))
