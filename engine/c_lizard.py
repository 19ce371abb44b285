"""Contracts of the Elligator inverse and of Lizard (C17).

Jacobi quartic: t^2 = s^4 + 2 B s^2 + 1 with B = (1-d)/(1+d).  A point (s, t) on
it stands for the Edwards point x = 2 s/(sqrt(-d-1) t), y = (1-s^2)/(1+s^2), with
the root of the Elligator map.  inv(s, t) is the non-negative field value the
map takes to (s, t), has(s, t) tells whether there is one."""
from vc import *
import point
from point import G, PV, PtCell, boxes, inside, xy, D as CD
from c_point import E, CP, R, PtS
from c_ristretto import I, fabs, SQRT_AD_MINUS_ONE, ONE_MINUS_D_SQ, D_MINUS_ONE_SQ, zero_mod_root, symexec_subst
from c_elligator import EllPV, PtEll, bool_envs, ell, NSQ, cleared
import deps

inv_ = lambda x: pow(x, -1, PP)
QB = (1 - CD) * inv_(1 + CD) % PP
C2 = 2 * inv_(SQRT_AD_MINUS_ONE) % PP            # 2/sqrt(-d-1)
ADP = (CD + 1) * inv_(CD - 1) % PP
INT = val.INT
U8 = (8, False)


def JP(name):
    return meth(ED, 'JacobiPoint', name)


def quartic(S, T):
    return T * T - S ** 4 - (2 * QB) * S * S - 1


def csqrt(a):
    a %= PP
    r = pow(a, (PP + 3) // 8, PP)
    if (r * r - a) % PP:
        r = r * I % PP
    if (r * r - a) % PP:
        return None
    return r if r % 2 == 0 else PP - r


SQRT_ID = csqrt(I * CD)
SQRT_I_OVER_D = csqrt(I * inv_(CD))
K0 = I * C2 % PP


def cinv(s, t):
    """the preimage of a constant point of the quartic, or None"""
    s, t = s % PP, t % PP
    assert (t * t - pow(s, 4, PP) - 2 * QB * s * s - 1) % PP == 0
    if s == 0:
        return SQRT_ID if t == 1 else 0
    a = (t + 1) * ADP % PP
    n, m = (s * s + a) % PP, (s * s - a) % PP
    if s & 1:
        n, m = m, n
    return csqrt(n * inv_(m) * inv_(I))


def cmap(r0):
    """MAP of RFC 9496 on a constant: (x, y)"""
    r = I * r0 * r0 % PP
    u, v = (r + 1) * ONE_MINUS_D_SQ % PP, (-1 - r * CD) * (r + CD) % PP
    if v == 0:
        sq, s = u == 0, 0
    else:
        s = csqrt(u * inv_(v))
        sq = s is not None
        if not sq:
            s = csqrt(I * u * inv_(v))
    if not sq:
        s = s * r0 % PP
        s = -(s if s % 2 == 0 else PP - s) % PP
    c = PP - 1 if sq else r
    N = (c * (r - 1) * D_MINUS_ONE_SQ - v) % PP
    w0, w1, w2, w3 = 2 * s * v, N * SQRT_AD_MINUS_ONE, 1 - s * s, 1 + s * s
    return w0 * inv_(w1) % PP, w2 * inv_(w3) % PP


def inv_sym(S, T):
    """(value, IP has) of the inverse of a point of the quartic"""
    for f in (S, T):
        v = field.bool_in(f)
        if v is not None:
            r = [inv_sym(S.subst({v: b}), T.subst({v: b})) for b in (0, 1)]
            b = IP.var(v)
            return r[0][0] + fp(b) * (r[1][0] - r[0][0]), r[0][1] + b * (r[1][1] - r[0][1])
    TT = poly.C.extra.setdefault('invsym', {})
    if (S, T) not in TT:
        n = len(poly.C.name)
        if S.is_const() and T.is_const():
            c = cinv(S.cval(), T.cval())
            TT[(S, T)] = (FP.const(c), IP.const(1)) if c is not None else (field.fvar('noinv%d' % n), IP.const(0))
        else:
            v = poly.C.new('inv%d' % n, None, None, ('inv', S, T))
            TT[(S, T)] = (FP.var(v), IP.var(poly.C.new('has%d' % n, 0, 1, ('has', S, T))))
    return TT[(S, T)]


def on_quartic(S, T):
    for f in (S, T):
        v = field.bool_in(f)
        if v is not None:
            return all(on_quartic(S.subst({v: b}), T.subst({v: b})) for b in (0, 1))
    q = quartic(S, T)
    if not q.d:
        return True
    for v in sorted(q.vars()):
        a = poly.C.extra.get('isrvars', {}).get(v)
        if a is not None:
            # for even points the root exists
            return zero_mod_root(q, FP.var(v), a[0])
    return False


class JQ(tuple):
    """a point (s, t) of the quartic"""

    def subst(self, env):
        return JQ(f.subst(env) for f in self)

    def perturbed(self):
        return JQ((self[0], self[1], 'wrong'))


class Jac(Shape):
    """a point of the quartic"""

    def make(self, ex, st, obj, name):
        s, t = field.fvar(name + 's'), field.fvar(name + 't')
        (m, _), = t.d.items()
        tv = m[0][0]
        poly.C.extra.setdefault('rulevars', {})[tv] = (((tv, 2),), s ** 4 + (2 * QB) * s * s + 1)
        b = ex.backend.bounds['PUB']
        st.mem[obj] = [FECell(s, b), FECell(t, b)]
        return JQ((s, t))

    def get(self, ex, st, ptr):
        n = ex.load(st, ptr)
        if type(n) is not list:
            return None
        (S, bs), (T, bt) = [fe_abs(ex, c) for c in n]
        for b in (bs, bt):
            for (lo, hi), (wl, wh) in zip(b, ex.backend.bounds['PUB']):
                if lo < wl or hi > wh:
                    return None
        if not on_quartic(S, T):
            return None
        return JQ((S, T))


class JacOut(Jac):
    def put(self, ex, st, ptr, q):
        b = ex.backend.bounds['PUB']
        ex.store(st, ptr, [FECell(q[0], b), FECell(q[1], b)])

    def check(self, ex, st, ptr, q):
        (S, bs), (T, bt) = [fe_abs(ex, c) for c in ex.load(st, ptr)]
        bad = [1 for bb in (bs, bt) for (lo, hi), (wl, wh) in zip(bb, ex.backend.bounds['PUB']) if lo < wl or hi > wh]
        k = 1 if len(q) > 2 else 0
        return [('value', prove_feq(S, q[0] + k) and prove_feq(T, q[1] + k), 'is the specified point of the quartic'),
                ('bounds', not bad, 'limbs within bounds')]


class FeInv(Shape):
    """the inverse of a point of the quartic, where there is one"""

    def put(self, ex, st, ptr, st_):
        f, _ = inv_sym(*st_[:2])
        ex.store(st, ptr, FECell(f, ex.backend.bounds['PUB']))

    def check(self, ex, st, ptr, st_):
        f, b = fe_abs(ex, ex.load(st, ptr))
        bad = [1 for (lo, hi), (wl, wh) in zip(b, ex.backend.bounds['PUB']) if lo < wl or hi > wh]
        out = [('bounds', not bad, 'limbs within bounds')]
        for k, (ok, msg) in inverse_cases(f + (1 if len(st_) > 2 else 0), *st_[:2], env=st.env).items():
            out.append(('value', ok, msg))
        return out


class JQPoint(Shape):
    """the Edwards point of a point (s, t) of the quartic, in completed
    coordinates: x = 2 s/(sqrt(-d-1) t), y = (1-s^2)/(1+s^2)"""

    def check(self, ex, st, ptr, q):
        fs = [fe_abs(ex, c) for c in ex.load(st, ptr)]
        X, Y, Z, T = [f for f, _ in fs]
        s, t = q[:2]
        c = FP.const(2 * pow(SQRT_AD_MINUS_ONE, -1, PP)) + (1 if len(q) > 2 else 0)
        nz = lambda f, g: any(not (f * k - g).d for k in [1, -1]) or f == g
        box = tuple(tuple(b) for _, b in fs)
        return [('value', not (X * t - c * s * Z).d and not (Y * (1 + s * s) - (1 - s * s) * T).d and nz(Z, t) and nz(T, 1 + s * s),
                 'is the point of the curve that belongs to the point of the quartic'),
                ('bounds', any(inside(box, cls) for _, cls in boxes(ex).classes('comp', 'cp')), 'limbs within the bounds')]


def var_of(f):
    (m, c), = f.d.items()
    return m[0][0]


def bool_value(v, sub):
    """value of a boolean variable under a substitution, or None"""
    D = poly.C.defn[v]
    if not D or D[0] not in ('fiszero', 'sgn', 'issq'):
        return None
    h = subst_all(D[1], sub)
    if not h.is_const():
        return None
    c = h.cval()
    if D[0] == 'fiszero':
        return int(c == 0)
    if D[0] == 'sgn':
        return c & 1
    return int(c != 0 and pow(c, (PP - 1) // 2, PP) == 1)


def subst_all(f, sub):
    """substitute, evaluating the booleans and roots that become constant"""
    f = f.subst(sub)
    while True:
        env = {}
        for v in f.vars():
            if poly.C.isb[v]:
                b = bool_value(v, sub)
                if b is not None:
                    env[v] = b
            else:
                a = poly.C.extra.get('isrvars', {}).get(v)
                if a is not None:
                    h = subst_all(a[0], sub)
                    if not h.d:
                        env[v] = 0
        if not env:
            return f
        f = f.subst(env)


def inverse_cases(f, s, t, env):
    res = {}
    sv, tv = var_of(s), var_of(t)
    a = (t + 1) * ADP
    s2 = s * s
    Y = s2 * s2 - a * a
    # s = 0: t = 1 or t = -1
    for tc, want in ((1, SQRT_ID), (PP - 1, 0)):
        sub = {**env, sv: 0, tv: tc}
        g = subst_all(f, sub)
        res['s=0,t=%d' % tc] = (g == FP.const(want), 'the preimage for s = 0, t = %s' % ('1' if tc == 1 else '-1'))
    # s != 0, Y a non-square
    T = poly.C.extra.get('isr', {})
    cand = [(k, r) for k, r in T.items() if k[1] == 'InvSqrtI']
    zs, zY = var_set(field.iszero(s)), var_set(field.iszero(Y))
    for sg in (0, 1):
        good = False
        for (A, _), y in cand:
            # the root of a constant square multiple of Y will do
            if not A.d or not Y.d:
                continue
            m = next(iter(Y.d))
            if m not in A.d:
                continue
            c = A.d[m] * inv_(Y.d[m]) % PP
            if (A - Y * c).d:
                continue
            w = field.isr(A, 'InvSqrtI')[1]
            fixed = dict(env)
            for v in zs | zY:
                fixed[v] = 0
            fixed[var_of_ip(w)] = int(NSQ(c))
            sgs = field.sgn(s)
            fixed[var_of_ip(sgs)] = sg if sgs.d.get((var_of_ip(sgs),)) == 1 else 1 - sg
            rel = A * I if not NSQ(c) else A
            z = lambda h: zero_mod_root(h, y, rel)
            ok = True
            fs = field.sgn(f)
            for e in bool_envs([f, fpb(fs)], fixed):
                F = f.subst(e)
                r = I * F * F
                u, v = (r + 1) * ONE_MINUS_D_SQ, (-1 - r * CD) * (r + CD)
                K = QB * s2 + t + 1
                k2 = 2 * (1 - CD) ** 2 % PP
                if sg == 0:
                    c1 = z(u - s2 * v) and z(v * K - k2) and z(t * v + (r - 1) * D_MINUS_ONE_SQ + v)
                else:
                    c1 = z(r * u - s2 * v) and z(v * K - k2 * (r * r)) and z(t * v - r * (r - 1) * D_MINUS_ONE_SQ + v) \
                        and z(r * (s2 + a) - (s2 - a))
                n = fs.subst(e)
                if not c1 or not (n.is_const() and n.cval() == 0):
                    ok = False
            good = good or ok
        res['s%d' % sg] = (good, 'a non-negative field element mapped to (s, t), s %s' % ('negative' if sg else 'positive'))
    return res


def fpb(p):
    return fp(p)


def var_set(p):
    return p.vars()


def var_of_ip(p):
    v, = p.vars()
    return v


def has_spec(s, t):
    """[s = 0] or s^4 - a^2 not a square"""
    a = (t + 1) * ADP
    Y = s ** 4 - a * a
    z = field.iszero(s)
    w = field.isr(Y, 'InvSqrtI')[1]
    return z + (1 - z) * (1 - w)


def inverse_spec(A):
    if A.get('_apply'):
        _, h = inv_sym(*A['p'])
        return {'fe': A['p'], 'ret': ('int', INT, h)}
    s, t = A['p']

    def ok(ex, st, r):
        # s = 0 and Y: Y = -a^2 = 0 or a square if s = 0; all cases agree
        return isinstance(r, V) and prove_eq(r.p, symexec_subst(has_spec(s, t), st.env))
    return {'fe': A['p'], 'ret': ('custom', ok, 'tells whether there is a preimage')}


# ---------------------------------------------------------------- points -> quartic
def jq_syms(g):
    """four points of the quartic, one for each point of the class of g (no two
    of which have a zero coordinate)"""
    T = poly.C.extra.setdefault('jq', {})
    if g not in T:
        L = []
        for j in range(4):
            n = len(poly.C.name)
            s, t = field.fvar('s%d_%d' % (n, j)), field.fvar('t%d_%d' % (n, j))
            tv = var_of(t)
            poly.C.extra.setdefault('rulevars', {})[tv] = (((tv, 2),), s ** 4 + (2 * QB) * s * s + 1)
            L.append((s, t))
        T[g] = L
    return T[g]


SPECIAL = [(0, 1), (0, 1), (1, K0), (PP - 1, K0)]


def zero_bit(g):
    x, y = xy(g)
    return 1 - (1 - field.iszero(x)) * (1 - field.iszero(y))


class Jacs(Shape):
    def __init__(self):
        pass

    def put(self, ex, st, ptr, pv):
        b = fp(zero_bit(pv.g))
        bb = ex.backend.bounds['PUB']
        L = []
        for (s, t), (cs, ct) in zip(jq_syms(pv.g), SPECIAL):
            L.append([FECell(s + b * (cs - s), bb), FECell(t + b * (ct - t), bb)])
        ex.store(st, ptr, L)

    def check(self, ex, st, ptr, pv):
        node = ex.load(st, ptr)
        L = [[fe_abs(ex, c) for c in q] for q in node]
        bad = [1 for q in L for _, b in q for (lo, hi), (wl, wh) in zip(b, ex.backend.bounds['PUB']) if lo < wl or hi > wh]
        out = [('bounds', not bad, 'limbs within bounds')]
        qs = [(q[0][0], q[1][0]) for q in L]
        ok, msg = reps_covered(pv, qs, st.env)
        out.append(('value', ok, msg))
        out.append(('special', special_ok(pv, qs, st.env), 'for X = 0 or Y = 0: the points (0,1), (0,1), (1,k), (-1,k), k = 2i/sqrt(-d-1)'))
        return out


def special_ok(pv, qs, env):
    x, y = xy(pv.g)
    xv, yv = var_of(x), var_of(y)
    subs = [{xv: 0, yv: 1}, {xv: 0, yv: PP - 1}, {xv: I, yv: 0}, {xv: PP - I, yv: 0}]
    for sub in subs:
        for (S, T), (cs, ct) in zip(qs, SPECIAL):
            if subst_all(S, {**env, **sub}) != FP.const(cs) or subst_all(T, {**env, **sub}) != FP.const(ct):
                return False
    return True


def reps_covered(pv, qs, env, wrong=False):
    """for X, Y != 0: the points qs of the quartic stand for the four points of
    the class of p, each once"""
    x, y = xy(pv.g)
    msg = 'for even p with X, Y not 0: one point of the quartic for each of the four points of the class of p'
    if getattr(pv, 'wrong', False):
        x = x + 1
    fixed = dict(env)
    for v in field.iszero(x).vars() | field.iszero(y).vars() if not getattr(pv, 'wrong', False) else field.iszero(x - 1).vars() | field.iszero(y).vars():
        fixed[v] = 0
    reps = [(x, y), (-x, -y), (I * y, I * x), (-(I * y), -(I * x))]
    for e in bool_envs([f for q in qs for f in q], fixed):
        left = list(range(4))
        for S, T in qs:
            S, T = S.subst(e), T.subst(e)
            roots = sorted(v for v in S.vars() | T.vars() if v in poly.C.extra.get('isrvars', {}))
            if len(roots) != 1:
                return False, msg
            q, a = FP.var(roots[0]), poly.C.extra['isrvars'][roots[0]][0]
            hit = None
            for j in left:
                xj, yj = reps[j]
                if zero_mod_root(1 - S * S - yj * (1 + S * S), q, a) and zero_mod_root(C2 * S - xj * T, q, a) \
                        and zero_mod_root(quartic(S, T), q, a):
                    hit = j
                    break
            if hit is None:
                return False, msg
            left.remove(hit)
            # the argument of the root is a square multiple of (1 - y^2)
            if not even_arg(a, x, y):
                return False, msg
    return True, msg


def even_arg(a, x, y):
    """a = (square) (1 - y^2), so it is a square for even points"""
    for k in ((1 - y * y) * x * x * y ** 4, (1 - y * y) * x * x, (1 - y * y), (1 - y * y) * y * y, (1 - y * y) * x * x * y * y,
              (1 - y * y) * y ** 4):
        f = point.strip_units(a)
        if f.d and (f.monic() - k.monic()).d == {}:
            c = f.d[max(f.d)] * inv_(k.d[max(k.d)]) % PP
            return not NSQ(c)
    return False


# ---------------------------------------------------------------- all preimages
class InvPV(PV):
    """the set of preimages of a point"""


def pre_syms(g):
    T = poly.C.extra.setdefault('presyms', {})
    k = g
    if k not in T:
        L = []
        for j in range(8):
            n = len(poly.C.name)
            L.append((field.fvar('pre%d' % n), IP.var(poly.C.new('haspre%d' % n, 0, 1))))
        T[k] = L
    return T[k]


class Fes(Shape):
    def put(self, ex, st, ptr, pv):
        b = ex.backend.bounds['PUB']
        ex.store(st, ptr, [FECell(f, b) for f, _ in pre_syms(pv.g)])

    def check(self, ex, st, ptr, pv):
        node = ex.load(st, ptr)
        L = [fe_abs(ex, c) for c in node]
        bad = [1 for _, b in L for (lo, hi), (wl, wh) in zip(b, ex.backend.bounds['PUB']) if lo < wl or hi > wh]
        out = [('bounds', not bad, 'limbs within bounds')]
        fs = [f for f, _ in L]
        poly.C.extra['fes'] = fs
        out.append(('value', generic_inverses(pv, fs, st.env) is not None,
                    'for X, Y not 0: the inverses of the eight points of the quartic above the class of p'))
        out.append(('special', special_inverses(pv, fs, st.env) is not None, 'for X = 0 or Y = 0: all preimages of zero'))
        return out


def generic_inverses(pv, fs, env):
    """[has] for X, Y != 0, or None"""
    x, y = xy(pv.g)
    fixed = dict(env)
    for v in field.iszero(x).vars() | field.iszero(y).vars():
        fixed[v] = 0
    pts, hs = [], []
    for f in fs:
        f = f.subst(fixed)
        if len(f.d) != 1:
            return None
        (m, c), = f.d.items()
        D = poly.C.defn[m[0][0]] if len(m) == 1 and m[0][1] == 1 and c == 1 else None
        if not D or D[0] != 'inv':
            return None
        pts.append((D[1], D[2]))
        hs.append(inv_sym(D[1], D[2])[1])
    want = []
    J = poly.C.extra.get('jq', {}).get(pv.g)
    if J is None:
        # the points are there as formulas: four of them and their duals
        half = []
        for S, T in pts:
            if (-S, -T) not in half:
                half.append((S, T))
        if len(half) != 4 or not reps_covered(pv, half, env)[0]:
            return None
        J = half
    for s, t in J:
        want += [(s, t), (-s, -t)]
    if getattr(pv, 'wrong', False):
        want = want[1:]
    return hs if sorted(map(repr, pts)) == sorted(map(repr, want)) and set(pts) == set(want) else None


def special_inverses(pv, fs, env):
    """[has] for the four points of the class of zero, or None"""
    x, y = xy(pv.g)
    if x.is_const() or y.is_const():
        return None
    xv, yv = var_of(x), var_of(y)
    all_ = zero_preimages()
    out = None
    for sub in ({xv: 0, yv: 1}, {xv: 0, yv: PP - 1}, {xv: I, yv: 0}, {xv: PP - I, yv: 0}):
        vals = [subst_all(f, {**env, **sub}) for f in fs]
        cs = {v.cval() for v in vals if v.is_const()}
        if not all_ <= cs:
            return None
        hs = [int(v.is_const() and v.cval() in all_) for v in vals]
        if out is not None and out != hs:
            return None
        out = hs
    return out


def zero_preimages():
    """all non-negative r0 mapped to the class of zero: s = 0 (u = 0 impossible
    as i is not a square; v = 0; r0 = 0) or s^2 = 1"""
    S = {0, SQRT_ID, SQRT_I_OVER_D}
    for s in (1, PP - 1):
        for t in (K0, PP - K0):
            r = cinv(s, t)
            if r is not None:
                S.add(r)
    return S


def e2inv_spec(A):
    pv = A['p']
    if A.get('_apply'):
        p = IP({})
        for j, (_, h) in enumerate(pre_syms(pv.g)):
            p = p + h * (1 << j)
        return {'fes': pv, 'ret': ('int', U8, p)}

    def ok(ex, st, r):
        fs = poly.C.extra.get('fes')
        if not isinstance(r, V) or fs is None:
            return False
        x, y = xy(pv.g)
        xv, yv = var_of(x), var_of(y)
        hs = generic_inverses(pv, fs, st.env)
        if hs is None:
            return False
        fixed = {v: 0 for v in field.iszero(x).vars() | field.iszero(y).vars()}
        want = IP({})
        for j, h in enumerate(hs):
            want = want + h * (1 << j)
        if not prove_eq(r.p.subst(fixed), want):
            return False
        hs = special_inverses(pv, fs, st.env)
        for sub in ({xv: 0, yv: 1}, {xv: 0, yv: PP - 1}, {xv: I, yv: 0}, {xv: PP - I, yv: 0}):
            env = {v: b for v in r.p.vars() for b in [bool_value(v, sub)] if b is not None}
            m = r.p.subst(env)
            if not m.is_const():
                return False
            # a marked element is a preimage; an unmarked one is marked elsewhere or none
            marked = [j for j in range(8) if m.cval() >> j & 1]
            vals = [subst_all(f, {**st.env, **sub}) for f in fs]
            if {vals[j].cval() for j in marked if vals[j].is_const()} != zero_preimages() or any(not vals[j].is_const() for j in marked):
                return False
        return True
    return {'fes': pv, 'ret': ('custom', ok, 'the mask marks exactly the preimages')}


# ---------------------------------------------------------------- Lizard
def pad_int(data, token):
    """the 32-byte padding of 16 bytes, as an integer"""
    H = deps.hash_value('sha256', token, 32)
    h1 = poly.floordiv2k(poly.mod2k(H, 64), 1) * 2
    h2 = poly.mod2k(poly.floordiv2k(H, 192), 62)
    return h1 + data * (1 << 64) + h2 * (1 << 192)


def lizard_token(data):
    return ('val', 16, data)


def setlizard(A):
    d = A['data']
    return {'p': EllPV(fp(poly.mod2k(pad_int(d, lizard_token(d)), 255)))}   # < 2^254, so no reduction


def founds(g):
    out = []
    for f, h in pre_syms(g):
        n = field.canon(f)
        d = poly.mod2k(poly.floordiv2k(n, 64), 128)
        out.append((h * val.is_zero_bit(pad_int(d, lizard_token(d)) - n), d))
    return out


class LizPV:
    def __init__(self, g, wrong=False):
        self.g, self.wrong = g, wrong

    def subst(self, env):
        return LizPV(self.g.subst(env), self.wrong)

    def perturbed(self):
        return LizPV(self.g, True)


def liz_syms(g):
    T = poly.C.extra.setdefault('lizsyms', {})
    if g not in T:
        T[g] = (IP.var(poly.C.new('liz%d' % len(poly.C.name), 0, 1)), IP.var(poly.C.new('lizdata%d' % len(poly.C.name), 0, (1 << 128) - 1)))
    return T[g]


class LizBuf(Shape):
    def put(self, ex, st, ptr, pv):
        ok, d = liz_syms(pv.g)
        ex.store(st, ptr, BYCell(d, 16))

    def check(self, ex, st, ptr, pv):
        n = ex.load(st, ptr)
        p = n.p if isinstance(n, BYCell) else packed(n, 8)
        F = founds(pv.g)
        tot = sum((f for f, _ in F), IP({}))
        out = []
        if infeasible(tot, 1):
            return out
        for k, (f, d) in enumerate(F):
            env = dict(st.env)
            for j, (h, _) in enumerate(F):
                if j == k:
                    for v in h.vars():
                        env.setdefault(v, 1)
                else:
                    env.setdefault(min(h.vars()), 0) if h.vars() else None
            w = d + 1 if pv.wrong else d
            out.append(('value', prove_eq(p.subst(env), w.subst(env)), 'the data of inverse %d, if it is the only consistent one' % k))
        return out


def infeasible(p, c):
    lo, hi = poly.smart_iv(p)
    return lo is not None and (lo > c or hi < c)


def lizinto_ret(g):
    def ok(ex, st, r):
        tot = sum((f for f, _ in founds(g)), IP({}))
        z = symexec_subst(val.is_zero_bit(tot - 1), st.env)
        if r is NIL:
            return prove_eq(symexec_subst(tot, st.env), IP.const(1)) or (z.is_const() and z.cval() == 1)
        if not isinstance(r, Opaque):
            return False
        return z.is_const() and z.cval() == 0 or infeasible(symexec_subst(tot, st.env), 1) or prove_eq(z, IP.const(0))
    return ('custom', ok, 'an error is reported unless exactly one inverse is a consistent padding')


class LizContract(Contract):
    def hook(self, ex, st, args, pos):
        r = Contract.hook(self, ex, st, args, pos)
        if r is None:
            return None
        (st, v), = r
        outs = []
        pv = PtS('ext', 'pub', 'norm').get(ex, st, args[0])
        ok, d = liz_syms(pv.g)
        for b in (0, 1):
            s2 = st.fork()
            env = ex.assume(s2, ok, b)
            if env is None:
                continue
            s2.env.update(env)
            s2.mem = {k: symexec.subst_node(x, env) for k, x in s2.mem.items()}
            if not b:
                ex.store(s2, args[1], junk(ex, ex.ptr_tid(args[1]), 'noliz%d' % len(poly.C.name)))
            outs.append((s2, NIL if b else Opaque('error', pos)))
        return outs


def build(reg):
    def add(c):
        reg[c.fn] = c
    P = ['C17']
    pub = PtS('ext', 'pub', 'norm')
    add(Contract(JP('elligator2Inverse'), [('p', Jac(), 'in'), ('fe', Junk(FeInv()), 'out')], inverse_spec, P, internal=True))
    add(Contract(JP('Dual'), [('p', Junk(JacOut()), 'out'), ('q', Jac(), 'in')], lambda A: {'p': JQ((-A['q'][0], -A['q'][1]))}, P, ret=('ptr', 'p'), internal=True, apply=False))
    add(Contract(CP('SetJacobiQuartic'), [('p', Junk(JQPoint()), 'out'), ('jc', Jac(), 'in')], lambda A: {'p': A['jc']}, ['C16'], ret=('ptr', 'p'),
                 internal=True, apply=False))
    # printing: nothing is changed
    anystr = lambda A: {'ret': ('custom', lambda ex, st, r: isinstance(r, Opaque) and r.tag == 'str', 'a string')}
    for t, n, sh in ((E, 'p', pub), (CP, 'p', PtS('comp', 'cp', 'cp')), (JP, 'p', Jac())):
        add(Contract(t('String'), [(n, sh, 'in')], anystr, ['C19'], internal=True, apply=False))
    add(Contract(meth(ED, 'FieldElement', 'String').replace('(*', '(', 1), [('fe', ValOf(Fe('PUB')), 'val')], anystr, ['C19'], internal=True, apply=False))
    add(Contract(E('ToJacobiQuarticRistretto'), [('p', pub, 'in'), ('qs', Junk(Jacs()), 'out')], lambda A: {'qs': A['p']}, P, ret=('ptr', 'p'), internal=True))
    add(Contract(E('RistrettoElligator2Inverse'), [('p', pub, 'in'), ('fes', Junk(Fes()), 'out')], e2inv_spec, P))
    add(Contract(R('SetLizard'), [('p', Junk(PtEll('ext', 'pub', 'norm')), 'out'), ('data', By(16), 'in')], setlizard, P, ret=('ptr', 'p')))

    def liz(A):
        g = A['p'].g
        if A.get('_apply'):
            return {'buf': LizPV(g), 'ret': ('nil',)}
        return {'buf': LizPV(g), 'ret': lizinto_ret(g)}
    add(LizContract(R('LizardInto'), [('p', pub, 'in'), ('buf', Junk(LizBuf()), 'out')], liz, P))

    def lizard(A):
        g = A['p'].g

        def ok(ex, st, r):
            k, d = liz_syms(g)
            k = symexec_subst(k, st.env)
            if not k.is_const():
                return False
            if k.cval() == 0:
                return r is NIL or (isinstance(r, Slice) and r.len == 0 and r.obj is None)
            if not isinstance(r, Slice) or r.len != 16:
                return False
            return prove_eq(packed(ex.slice_vals(st, r), 8), d)
        return {'ret': ('custom', ok, 'the data, or nil if there is none')}
    add(Contract(R('Lizard'), [('p', pub, 'in')], lizard, P, apply=False))
