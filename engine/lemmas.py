"""Lemmas over the contracts: what the formulas of RFC 9496 that the contracts
refer to mean for group elements.  Each is a finite list of polynomial
identities over GF(p), decided by normalisation modulo the curve equation

    -x^2 + y^2 = 1 + d x^2 y^2          (d is not a square, -1 is)

and modulo r^2 u1 u2^2 = 1 (the inverse square root of the encoding).

Polynomials are dicts {(exponents of the variables): coefficient}.
"""
from math import gcd
from field import PP, SQRT_M1
from point import D
from c_ristretto import INVSQRT_A_MINUS_D as C
from c_elligator import NSQ

I = SQRT_M1
NV = 6
x_, y_, r_, W_, L_, M_ = range(NV)      # W = 1/(xy), M = 1/L


class P:
    def __init__(self, d):
        self.d = {m: c % PP for m, c in d.items() if c % PP}

    @staticmethod
    def var(i):
        return P({tuple(int(j == i) for j in range(NV)): 1})

    @staticmethod
    def c(k):
        return P({(0,) * NV: k})

    def _(self, o):
        return o if isinstance(o, P) else P.c(o)

    def __add__(self, o):
        o = self._(o)
        r = dict(self.d)
        for m, c in o.d.items():
            r[m] = r.get(m, 0) + c
        return P(r)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-self._(o))

    def __rsub__(self, o):
        return self._(o) - self

    def __mul__(self, o):
        o = self._(o)
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = tuple(a + b for a, b in zip(m, n))
                r[k] = r.get(k, 0) + c * e
        return P(r)
    __rmul__ = __mul__

    def __pow__(self, n):
        r = P.c(1)
        for _ in range(n):
            r = r * self
        return r

    def top(self, i):
        return max((m[i] for m in self.d), default=0)

    def coeffs(self, i):
        """{exponent of variable i: polynomial without it}"""
        out = {}
        for m, c in self.d.items():
            out.setdefault(m[i], {})[m[:i] + (0,) + m[i + 1:]] = c
        return {e: P(d) for e, d in out.items()}


X, Y, R, W, L, M = map(P.var, range(NV))


def eliminate(f, i, value, power=1):
    """f with variable^power = 1/value, the denominators cleared"""
    cs = f.coeffs(i)
    if not cs:
        return f
    K = max(e // power for e in cs)
    out = P({})
    for e, g in cs.items():
        out = out + g * value ** (K - e // power) * P.var(i) ** (e % power)
    return out


def zero(f):
    """f = 0 on the curve, where W = 1/(xy), M = 1/L and r^2 (1-y^2)(xy)^2 = 1"""
    f = eliminate(f, M_, L)
    f = eliminate(f, W_, X * Y)
    f = eliminate(f, r_, (1 - Y * Y) * (X * Y) ** 2, 2)
    # y^2 = (1+x^2)/(1-d x^2)
    cs = f.coeffs(y_)
    if not cs:
        return True
    K = max(e // 2 for e in cs)
    out = P({})
    for e, g in cs.items():
        out = out + g * (1 + X * X) ** (e // 2) * (1 - D * (X * X)) ** (K - e // 2) * Y ** (e % 2)
    return not out.d


def parts(Xc, Yc, Zc, Tc, r):
    """the decisions and results of RFC 9496, 4.3.2: the argument of the first
    sign test, and for both of its outcomes the argument of the second and the
    encoded value (up to sign) for both of its outcomes"""
    u1 = (Zc + Yc) * (Zc - Yc)
    u2 = Xc * Yc
    den1, den2 = r * u1, r * u2
    zinv = den1 * den2 * Tc
    out = []
    for rot in (0, 1):
        x, y, den = (Yc * I, Xc * I, den1 * C) if rot else (Xc, Yc, den2)
        out.append((x * zinv, [den * (Zc - y), den * (Zc + y)]))
    return Tc * zinv, out, u1 * u2 * u2


def matches(A, B, flip):
    """the decisions and results agree: flip tells whether B takes the other
    side of the first test"""
    ta, pa, _ = A
    tb, pb, _ = B
    if not zero(ta + tb if flip else ta - tb):
        return False
    for rot in (0, 1):
        na, sa = pa[rot]
        nb, sb = pb[1 - rot if flip else rot]
        for eps in (0, 1):
            if zero(na + nb if eps else na - nb) and all(
                    zero(sa[k] - sb[k ^ eps]) or zero(sa[k] + sb[k ^ eps]) for k in (0, 1)):
                break
        else:
            return False
    return True


def c13():
    out = []

    def ob(name, ok, msg):
        out.append((name, bool(ok), msg))
    aff = parts(X, Y, P.c(1), X * Y, R)
    a = aff[2]
    ob('encode.root', zero(R * R * a - 1), 'r is an inverse square root')
    # the curve equation and r: used by zero()
    ob('encode.curve', zero((1 + X * X) * (1 - Y * Y) + (1 + D) * (X * Y) ** 2), '(1+x^2)(1-y^2) = -(1+d) x^2 y^2')
    # scaling
    sc = parts(L * X, L * Y, L, L * X * Y, R * M ** 3)
    ob('encode.scale.root', zero((R * M ** 3) ** 2 * sc[2] - 1), 'the inverse square root for scaled coordinates')
    ob('encode.scale', matches(aff, sc, False), 'the encoding does not depend on the scaling of the coordinates')
    # translation by the points of E[4]
    for name, (x2, y2), rr, flip in (('(0,-1)', (-X, -Y), R, False),
                                     ('(i,0)', (Y * I, X * I), R * (1 - Y * Y) * C * W, True),
                                     ('(-i,0)', (-(Y * I), -(X * I)), R * (1 - Y * Y) * C * W, True)):
        tr = parts(x2, y2, P.c(1), x2 * y2, rr)
        ob('encode.torsion%s.root' % name, zero(rr * rr * tr[2] - 1), 'the inverse square root for the translated point')
        ob('encode.torsion%s' % name, matches(aff, tr, flip), 'the encoding of P + %s is the encoding of P (x y != 0)' % name)
    # x y != 0: the arguments of the sign tests do not vanish, so that sgn(-f) = 1 - sgn(f)
    t, ps, _ = aff
    ob('encode.test1', zero(t - X * Y), 'the argument of the first sign test is xy')
    ob('encode.test2', zero(ps[0][0] - X) and zero(ps[1][0] - Y * I), 'the argument of the second is x or iy')
    # x y = 0 on the curve only for E[4]; then r = 0 and the encoding is 0
    ob('encode.zero', I * I % PP == PP - 1 and NSQ(D) and NSQ(-D - 1) is False, 'x y = 0 exactly for (0,1), (0,-1), (i,0), (-i,0); -1 = i^2, -(d+1) is a square')
    # injectivity: s^2 = (1-y)/(1+y) for the chosen representative
    s = ps[0][1]
    ob('encode.value', zero(s[0] * s[0] * (1 + Y) - (1 - Y)) and zero(s[1] * s[1] * (1 - Y) - (1 + Y)), 's^2 = (1-y)/(1+y) for the representative')
    s = ps[1][1]
    ob('encode.valuerot', zero(s[0] * s[0] * (1 + Y * 0 + I * X) - (1 - I * X)) and zero(s[1] * s[1] * (1 - I * X) - (1 + I * X)),
       's^2 = (1-ix)/(1+ix) for the rotated representative')
    return out


def c14():
    """encode(decode(s)) = s for accepted s: y = (1-s^2)/(1+s^2), x >= 0, xy >= 0"""
    out = []
    S = X                                # here the variable x stands for s
    ss = S * S
    u1, u2 = 1 - ss, 1 + ss
    v = -(D * (u1 * u1)) - u2 * u2
    a = v * u2 * u2

    def z(f):
        f = eliminate(f, r_, a, 2)
        return not f.d
    dx = R * u2
    dy = R * dx * v
    xx, yy = 2 * S * dx, u1 * dy
    out.append(('decode.y', z(yy * u2 - u1), 'y = (1-s^2)/(1+s^2)'))
    out.append(('decode.x', z(xx * xx * v - 4 * ss), 'x^2 = 4 s^2/v'))
    out.append(('decode.curve', z(yy * yy - xx * xx - 1 - D * (xx * xx) * (yy * yy)), 'the decoded point is on the curve'))
    # re-encoding: no rotation (xy >= 0), no negation (x >= 0): s'^2 = (1-y)/(1+y) = s^2
    out.append(('decode.encode', z((1 - yy) * u2 * 1 - ss * (1 + yy) * u2), '(1-y)/(1+y) = s^2'))
    out.append(('decode.even', NSQ(D) and pow((-D - 1) % PP, (PP - 1) // 2, PP) == 1, 'd is not a square, -(d+1) is'))
    return out


def c15():
    """x1 y2 = x2 y1 or y1 y2 = x1 x2 exactly if P - Q is in E[4]: the
    numerators of the coordinates of P - Q, by the (complete) addition law"""
    out = []
    x1, y1, x2, y2 = X, Y, R, W

    (nx, dx), (ny, dy) = law(x1, y1, -x2, y2)
    out.append(('equal.x', not (nx - (x1 * y2 - x2 * y1)).d, 'x(P-Q) = 0 exactly if x1 y2 = x2 y1'))
    out.append(('equal.y', not (ny - (y1 * y2 - x1 * x2)).d, 'y(P-Q) = 0 exactly if y1 y2 = x1 x2'))
    # the points with x = 0 or y = 0: y^2 = 1, resp. -x^2 = 1
    curve = lambda a, b: (b * b - a * a - 1 - D * a * a % PP * b * b) % PP
    out.append(('equal.torsion', all(curve(a, b) == 0 for a, b in ((0, 1), (0, PP - 1), (I, 0), (PP - I, 0))), 'they are (0,1), (0,-1), (i,0), (-i,0)'))
    # completeness: the denominators do not vanish because -1 is a square and d is not
    out.append(('equal.complete', NSQ(D) and I * I % PP == PP - 1, 'd is not a square and -1 is: the addition law is complete'))
    return out


# ---------------------------------------------------------------- primes
# Pocklington: n is prime if n - 1 = F R with F > sqrt(n), and for each prime q
# dividing F there is an a with a^(n-1) = 1 and gcd(a^((n-1)/q) - 1, n) = 1.
CERT = {
    2 ** 255 - 19: [(74058212732561358302231226437062788676166966415465897661863160754340907, 2)],
    74058212732561358302231226437062788676166966415465897661863160754340907:
        [(75445702479781427272750846543864801, 2), (31757755568855353, 2)],
    75445702479781427272750846543864801: [(1919519569386763, 2), (72106336199, 2)],
    1919519569386763: [(8574133, 2), (127, 2)],
    72106336199: [(2773320623, 2)],
    2773320623: [(569003, 2)],
    31757755568855353: [(430751, 2), (4153, 2)],
    2 ** 252 + 27742317777372353535851937790883648493: [(276602624281642239937218680557139826668747, 2)],
    276602624281642239937218680557139826668747: [(19757330305831588566944191468367130476339, 2)],
    19757330305831588566944191468367130476339: [(172054593956031949258510691, 2)],
    172054593956031949258510691: [(4434155615661930479, 2)],
    4434155615661930479: [(1257559732178653, 2)],
    1257559732178653: [(1224481, 2), (531581, 2)],
}


def is_prime(n):
    if n < 10 ** 7:
        return n > 1 and all(n % k for k in range(2, int(n ** 0.5) + 2) if k < n)
    if n not in CERT:
        return False
    F = 1
    for q, a in CERT[n]:
        if (n - 1) % q or not is_prime(q) or pow(a, n - 1, n) != 1 or gcd(pow(a, (n - 1) // q, n) - 1, n) != 1:
            return False
        while (n - 1) % (F * q) == 0:
            F *= q
    return F * F > n


def c02():
    l = 2 ** 252 + 27742317777372353535851937790883648493
    return [('prime.l', is_prime(l), 'l is prime, so that t^(l-2) is the inverse of every t != 0 (Fermat)')]


def c07():
    return [('prime.p', is_prime(PP), '2^255-19 is prime, so that a^(p-2) is the inverse of every a != 0 and a^((p-1)/2) tells the squares'),
            ('field.i', I * I % PP == PP - 1 and NSQ(I), 'i^2 = -1 and i is not a square')]


# ---------------------------------------------------------------- the group
def curve_zero(f):
    """f(x1,y1,x2,y2,x3,y3) = 0 for points on the curve: normal form under
    x_k^2 y_k^2 -> (y_k^2 - x_k^2 - 1)/d"""
    di = pow(D, -1, PP)
    work, out = dict(f.d), {}
    while work:
        m, c = work.popitem()
        for k in (0, 2, 4):
            if m[k] >= 2 and m[k + 1] >= 2:
                for dx, dy, e in ((-2, 0, 1), (0, -2, -1), (-2, -2, -1)):
                    n = list(m)
                    n[k] += dx
                    n[k + 1] += dy
                    n = tuple(n)
                    v = (work.get(n, 0) + c * e * di) % PP
                    if v:
                        work[n] = v
                    else:
                        work.pop(n, None)
                break
        else:
            v = (out.get(m, 0) + c) % PP
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    return not out


def law(a, b, c, e):
    """numerators and denominators of (a, b) + (c, e)"""
    k = D * a * b * c * e
    return (a * e + b * c, 1 + k), (b * e + a * c, 1 - k)


def law_frac(p, q):
    """the same for points given by fractions, common denominators cleared"""
    (a, ad), (b, bd) = p
    (c, cd), (e, ed) = q
    k = D * a * b * c * e
    kd = ad * bd * cd * ed
    # (a e/(ad ed) + b c/(bd cd)) / (1 + k/kd)
    return (a * e * bd * cd + b * c * ad * ed, kd + k), (b * e * ad * cd + a * c * bd * ed, kd - k)


def same(p, q):
    return all(curve_zero(f[0] * g[1] - g[0] * f[1]) for f, g in zip(p, q))


def c09():
    out = []

    def ob(name, ok, msg):
        out.append((name, bool(ok), msg))
    x1, y1, x2, y2, x3, y3 = map(P.var, range(6))
    one = P.c(1)
    A, B, Q = (((x1, one), (y1, one)), ((x2, one), (y2, one)), ((x3, one), (y3, one)))
    (nx, dx), (ny, dy) = law(x1, y1, x2, y2)
    ob('group.closed', curve_zero(ny * ny * dx * dx - nx * nx * dy * dy - dx * dx * dy * dy - D * (nx * nx) * ny * ny),
       'the sum of two points is on the curve')
    ob('group.commutative', same(law(x1, y1, x2, y2), law(x2, y2, x1, y1)), 'P + Q = Q + P')
    ob('group.associative', same(law_frac(law_frac(A, B), Q), law_frac(A, law_frac(B, Q))), '(P + Q) + R = P + (Q + R)')
    ob('group.neutral', same(law(x1, y1, P.c(0), P.c(1)), A), 'P + (0, 1) = P')
    ob('group.inverse', same(law(x1, y1, -x1, y1), ((P.c(0), one), (one, one))), 'P + (-x, y) = (0, 1)')
    # completeness: suppose d x1 y1 x2 y2 = e with e^2 = 1.  Then
    #   (y1 + e i x1)^2 = d x1^2 y1^2 (y2 + i x2)^2   and   (y1 - e i x1)^2 = d x1^2 y1^2 (y2 - i x2)^2,
    # so that d is a square unless x2 = y2 = 0
    k = D * x1 * y1 * x2 * y2
    for sg in (1, -1):
        f = (y1 + (sg * I) * (k * x1)) ** 2 - D * (x1 * y1) ** 2 * (y2 + (sg * I) * x2) ** 2
        ok = curve_zero(f - (k * k - 1) * -(1 + x1 * x1))   # a multiple of k^2 - 1
        ob('group.complete%s' % '+-'[sg < 0], ok,
           'if d x1 x2 y1 y2 = e = +-1 then (y1 %s e i x1)^2 = d x1^2 y1^2 (y2 %s i x2)^2' % (('+', '+') if sg > 0 else ('-', '-')))
    ob('group.d', NSQ(D) and I * I % PP == PP - 1, 'd is not a square: the denominators of the addition law never vanish')
    # the doubles: 1 - y^2 is a square for y = y(2Q)
    (nx, dx), (ny, dy) = law(x1, y1, x1, y1)
    ob('group.even', curve_zero(dy * dy - ny * ny + 4 * (1 + D) * (x1 * y1) ** 2) and pow((-D - 1) % PP, (PP - 1) // 2, PP) == 1,
       '1 - y(2Q)^2 = -4(1+d)(xy)^2/(1-d x^2 y^2)^2 is a square')
    return out


# ---------------------------------------------------------------- Elligator
def c17():
    """the preimages of a point (s, t) of the quartic, s != 0, under the map
    r0 -> r = i r0^2, u = (r+1)(1-d^2), v = -(1+dr)(r+d):
      u/v a square:      s = sqrt(u/v) >= 0,       t + 1 = -(r-1)(d-1)^2/v
      u/v not a square:  s = -|r0 sqrt(iu/v)| < 0, t + 1 = r(r-1)(d-1)^2/v
    """
    out = []

    def ob(name, ok, msg):
        out.append((name, bool(ok), msg))
    r = X
    u = (r + 1) * ((1 - D * D) % PP)
    v = -(1 + D * r) * (r + D)
    k = (1 - D * D) % PP
    adp = (D + 1) * pow(D - 1, -1, PP) % PP
    qb = (1 - D) * pow(1 + D, -1, PP) % PP
    for name, s2, t1 in (('square', u, -(r - 1) * ((D - 1) ** 2 % PP)), ('nonsquare', r * u, r * (r - 1) * ((D - 1) ** 2 % PP))):
        # s^2 = s2/v, t + 1 = t1/v, a = (t+1)(d+1)/(d-1) = adp t1/v
        a = t1 * adp
        t = t1 - v
        ob('map.%s.quartic' % name, not (t * t - s2 * s2 - 2 * qb * s2 * v - v * v).d, '(s, t) is on the quartic')
        if name == 'square':
            ok = not (s2 - a - P.c(2 * k)).d and not (s2 + a - 2 * k * r).d
            ob('inverse.square', ok, 's^2 - a = 2(1-d^2)/v, s^2 + a = 2r(1-d^2)/v: s^4 - a^2 = r (square), and r = (s^2+a)/(s^2-a) is determined')
        else:
            ok = not (s2 - a - 2 * k * r * r).d and not (s2 + a - 2 * k * r).d
            ob('inverse.nonsquare', ok, 's^2 - a = 2r^2(1-d^2)/v, s^2 + a = 2r(1-d^2)/v: s^4 - a^2 = r^3 (square), and r = (s^2-a)/(s^2+a) is determined')
    ob('inverse.i', NSQ(I), 'i is not a square: s^4 - a^2 is not a square for r0 != 0, and r = -1 (u = 0) does not occur')
    ob('inverse.zero', NSQ((1 - D * D) * pow(-D, -1, PP) % PP), 'r0 = 0 is mapped to s = 0: (1-d^2)/(-d) is not a square')
    # the points of the quartic over a point (x, y) with x != 0: s^2 = (1-y)/(1+y), t = 2s/(c x)
    S = X
    y = (1 - S * S, 1 + S * S)
    ob('fibre', not (y[1] - y[0] - S * S * (y[1] + y[0])).d, '(1-y)/(1+y) = s^2: y determines s up to sign, then x determines t')
    return out


def extra(fn):
    def run(VS, tier):
        return [(name, '', ok, msg, 'polynomial-identity') for name, ok, msg in fn()]
    return run
