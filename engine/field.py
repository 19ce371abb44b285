"""Polynomials modulo a prime (field values, scalar residues) and the abstract
memory cells for field elements and scalars."""
import poly
from poly import IP, iv
import val
from val import V, con, BOOL
from symexec import Cell, VerifFail, Ptr

PP = 2**255 - 19
LL = 2**252 + 27742317777372353535851937790883648493


def pmono(m):
    """monomial with repetition -> tuple of (var, exp)"""
    out = []
    i, n = 0, len(m)
    while i < n:
        e = 1
        while i + e < n and m[i + e] == m[i]:
            e += 1
        out.append((m[i], e))
        i += e
    return tuple(out)


def fmono_mul(a, b, mod):
    if not a:
        return b
    if not b:
        return a
    d = {}
    for v, e in a:
        d[v] = e
    isb, grp = poly.C.isb, poly.C.grp
    for v, e in b:
        d[v] = d.get(v, 0) + e
    seen = {}
    out = []
    for v in sorted(d):
        e = d[v]
        if isb[v]:
            e = 1
        elif e >= mod - 1:
            if v in poly.C.extra.get('unitvars', ()):
                e %= mod - 1
                if not e:
                    continue
            elif e >= mod:
                e = (e - 1) % (mod - 1) + 1
        g = grp[v]
        if g is not None:
            if g in seen:
                return None
            seen[g] = v
        out.append((v, e))
    X = poly.C.extra.get(('ann', mod))
    if X:
        for v, _ in out:
            if v in X and X[v] in d:
                return None
    X = poly.C.excl
    if X:
        for i in range(len(out)):
            if out[i][0] in X:
                x = X[out[i][0]]
                for j in range(len(out)):
                    if out[j][0] in x:
                        return None
    return tuple(out)


class FP:
    __slots__ = ('d', 'mod', 'h')

    def __init__(self, d, mod=PP):
        self.d = d
        self.mod = mod
        self.h = None

    @staticmethod
    def const(c, mod=PP):
        c %= mod
        return FP({(): c} if c else {}, mod)

    @staticmethod
    def var(v, mod=PP):
        return FP({((v, 1),): 1}, mod)

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, FP) and self.mod == o.mod and self.d == o.d

    def _c(self, o):
        return o if isinstance(o, FP) else FP.const(o, self.mod)

    def __add__(self, o):
        o = self._c(o)
        r = dict(self.d)
        M = self.mod
        for m, c in o.d.items():
            x = (r.get(m, 0) + c) % M
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return FP(r, M)
    __radd__ = __add__

    def __neg__(self):
        M = self.mod
        return FP({m: M - c for m, c in self.d.items()}, M)

    def __sub__(self, o):
        return self + (-self._c(o))

    def __rsub__(self, o):
        return self._c(o) - self

    def __mul__(self, o):
        o = self._c(o)
        M = self.mod
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                t = fmono_mul(m, n, M)
                if t is None:
                    continue
                r[t] = r.get(t, 0) + c * e
        return reduce_rules(FP({m: c % M for m, c in r.items() if c % M}, M))
    __rmul__ = __mul__

    def __pow__(self, e):
        if e == 0:
            return FP.const(1, self.mod)
        if len(self.d) == 1:
            (m, c), = self.d.items()
            mm = []
            for v, x in m:
                y = x * e
                if poly.C.isb[v]:
                    y = 1
                elif y >= self.mod - 1 and v in poly.C.extra.get('unitvars', ()):
                    y %= self.mod - 1
                    if not y:
                        continue
                elif y >= self.mod:
                    y = (y - 1) % (self.mod - 1) + 1
                mm.append((v, y))
            return reduce_rules(FP({tuple(mm): pow(c, e, self.mod)}, self.mod))
        if not self.d:
            return self
        if e > 64:
            return alias(self) ** e
        r = None
        b = self
        while e:
            if e & 1:
                r = b if r is None else r * b
            e >>= 1
            if e:
                b = b * b
        return r

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def vars(self):
        return {v for m in self.d for v, _ in m}

    def subst(self, env):
        """env: var -> int | IP | FP"""
        if not any(v in env for m in self.d for v, _ in m):
            return self
        r = FP({}, self.mod)
        keep = {}
        for m, c in self.d.items():
            if any(v in env for v, _ in m):
                t = FP.const(c, self.mod)
                for v, e in m:
                    if v in env:
                        x = env[v]
                        if isinstance(x, IP):
                            x = fp(x, self.mod)
                        elif isinstance(x, int):
                            x = FP.const(x, self.mod)
                        t = t * x ** e
                    else:
                        t = t * FP({((v, e),): 1}, self.mod)
                r = r + t
            else:
                keep[m] = c
        return r + FP(keep, self.mod)

    def monic(self):
        """scaled so that the largest monomial has coefficient one"""
        if not self.d:
            return self
        m = max(self.d)
        c = self.d[m]
        if c == 1:
            return self
        i = pow(c, -1, self.mod)
        return self * FP.const(i, self.mod)

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        items = sorted(self.d.items())
        for m, c in items[:12]:
            s = '*'.join(poly.C.name[v] + ('^%d' % e if e > 1 else '') for v, e in m)
            cc = c if c < self.mod // 2 else c - self.mod
            out.append('%d' % cc if not m else (s if cc == 1 else ('-' + s if cc == -1 else '%d*%s' % (cc, s))))
        if len(items) > 12:
            out.append('...(%d)' % len(items))
        return ' + '.join(out)


def reduce_rules(f):
    """rewrite rules  lhs-monomial -> FP  (curve equations etc.)"""
    rules = poly.C.extra.get('rulevars')
    if not rules or f.mod != PP:
        return f
    while True:
        hit = []
        for m in f.d:
            for v, e in m:
                if e >= 2 and v in rules:
                    lhs = rules[v][0]
                    if len(m) >= len(lhs):
                        md = dict(m)
                        if all(md.get(u, 0) >= x for u, x in lhs):
                            hit.append((m, v))
                            break
        if not hit:
            return f
        acc = dict(f.d)
        M = f.mod
        for m, v in hit:
            lhs, rhs = rules[v]
            c = acc.pop(m, 0)
            if not c:
                continue
            md = dict(m)
            for u, e in lhs:
                md[u] -= e
                if not md[u]:
                    del md[u]
            rest = tuple(sorted(md.items()))
            for n, x in rhs.d.items():
                t = fmono_mul(rest, n, M)
                if t is None:
                    continue
                y = (acc.get(t, 0) + c * x) % M
                if y:
                    acc[t] = y
                else:
                    acc.pop(t, None)
        f = FP(acc, M)


def subtable(mod):
    return poly.C.extra.setdefault(('sub', mod), {})


def fp(p, mod=PP):
    """the residue of an integer polynomial"""
    if isinstance(p, FP):
        return p
    if isinstance(p, int):
        return FP.const(p, mod)
    T = subtable(mod)
    r = {}
    extra = None
    for m, c in p.d.items():
        c %= mod
        if not c:
            continue
        if T and any(v in T for v in m):
            t = FP.const(c, mod)
            for v in m:
                t = t * (T[v] if v in T else FP.var(v, mod))
            extra = t if extra is None else extra + t
        else:
            k = pmono(m)
            r[k] = (r.get(k, 0) + c) % mod
    f = FP({m: c for m, c in r.items() if c}, mod)
    return reduce_rules(f if extra is None else f + extra)


def fvar(name, mod=PP):
    return FP.var(poly.C.new(name, None, None), mod)


def alias(f):
    """a variable standing for a compound field value"""
    T = poly.C.extra.setdefault('alias', {})
    if f not in T:
        v = poly.C.new('u%d' % len(poly.C.name), None, None, ('alias', f))
        T[f] = FP.var(v, f.mod)
    return T[f]


# ------------------------------------------------------------ canonical integers
def bool_in(f):
    for m in f.d:
        for v, _ in m:
            if poly.C.isb[v]:
                return v
    return None


def shannon(f, fun):
    """fun of a field value that depends on boolean variables, by expansion"""
    v = bool_in(f)
    if v is None:
        return None
    g = poly.C.grp[v]
    if g is None:
        b = IP.var(v)
        r0, r1 = fun(f.subst({v: 0})), fun(f.subst({v: 1}))
        return r0 + (r1 - r0) * b
    mem = [u for u, _ in poly.C.groups[g]]
    z = {u: 0 for u in mem}
    r0 = fun(f.subst(z))
    r = r0
    for u in mem:
        if u in f.vars():
            e = dict(z)
            e[u] = 1
            r = r + (fun(f.subst(e)) - r0) * IP.var(u)
    return r


def orient(f):
    """(g, s) with f = s*g and g one of f, -f chosen canonically"""
    m = max(f.d)
    if f.d[m] * 2 > f.mod:
        return -f, -1
    return f, 1


def sgn(f):
    """parity bit of the canonical representative, as IP"""
    if f.is_const():
        return IP.const(f.cval() & 1)
    r = shannon(f, sgn)
    if r is not None:
        if not r.is_const() and len(r.d) > 1:
            poly.add_fact(r, 0, 1, path=False)
        return r
    T = poly.C.extra.setdefault('sgn', {})
    if f in T:
        return T[f]
    g, o = orient(f)
    v = poly.C.new('sgn%d' % len(poly.C.name), 0, 1, ('sgn', g))
    s = IP.var(v)
    # sgn(g) and iszero(g) exclude each other
    z = iszero(f)
    for zv in z.vars():
        if z.subst({zv: 1}) == IP.const(1):
            poly.exclude(v, zv)
    T[g] = s
    T[-g] = 1 - s - z
    for q in (g, -g):
        poly.add_fact(T[q], 0, 1, path=False)
    return T[f]


def canon(f):
    """canonical representative in [0,p) of a field value, as IP"""
    if f.is_const():
        return IP.const(f.cval())
    T = poly.C.extra.setdefault('canon', {})
    if f not in T:
        s = sgn(f)
        h = poly.C.new('half%d' % len(poly.C.name), 0, (PP - 1) // 2, ('half', f))
        inv2 = pow(2, -1, PP)
        subtable(PP)[h] = (f - fp(s)) * inv2
        p = s + 2 * IP.var(h)
        poly.add_fact(p, 0, PP - 1, path=False)
        T[f] = p
    return T[f]


def iszero(f):
    """[f == 0] as IP"""
    r = iszero_(f)
    if len(r.d) > 1:
        poly.add_fact(r, 0, 1, path=False)
    return r


def iszero_(f):
    if f.is_const():
        return IP.const(int(f.cval() == 0))
    r = shannon(f, iszero)
    if r is not None:
        return r
    if len(f.d) == 1:
        # a monomial vanishes iff one of its variables does
        (m, c), = f.d.items()
        r = IP.const(1)
        for v, e in m:
            r = r * (1 - iszero_atom(FP.var(v, f.mod)))
        return 1 - r
    # pull out common variables
    com = None
    for m in f.d:
        s = {v for v, _ in m}
        com = s if com is None else com & s
        if not com:
            break
    if com:
        r = IP.const(1)
        for v in sorted(com):
            r = r * (1 - iszero_atom(FP.var(v, f.mod)))
        rest = f
        while True:
            hit = False
            for v in com:
                if all(dict(m).get(v, 0) >= 1 for m in rest.d):
                    d = {}
                    for m, c in rest.d.items():
                        md = dict(m)
                        md[v] -= 1
                        d[tuple(sorted((a, b) for a, b in md.items() if b))] = c
                    rest = FP(d, f.mod)
                    hit = True
            if not hit:
                break
        return 1 - r * (1 - iszero(rest))
    return iszero_atom(f)


def iszero_atom(f):
    g = f.monic()
    if len(g.d) == 1:
        (m, _), = g.d.items()
        if len(m) == 1 and m[0][0] in poly.C.extra.get('unitvars', ()):
            return IP.const(0)
    for u in poly.C.extra.get('units', ()):
        if g == u.monic():
            return IP.const(0)
    if len(g.d) == 1:
        # a root symbol vanishes iff its argument does
        (m, _), = g.d.items()
        iv_ = poly.C.extra.get('isrvars', {}).get(m[0][0])
        if iv_ is not None:
            return iszero(iv_[0])
    T = poly.C.extra.setdefault('iszero', {})
    if g not in T:
        # r^2 a = 1 for a root symbol r of a: tells whether a is a square
        for u in g.vars():
            iv_ = poly.C.extra.get('isrvars', {}).get(u)
            if iv_ is not None and iv_[1] in ('InvSqrt', 'InvSqrtI'):
                r = FP.var(u)
                if g == (r * r * iv_[0] - 1).monic():
                    T[g] = isr(iv_[0], iv_[1])[1]
                    return T[g]
    if g not in T:
        v = poly.C.new('isz%d' % len(poly.C.name), 0, 1, ('fiszero', g))
        T[g] = IP.var(v)
        # f = c1 and f = c2 exclude each other
        key = (g.mod, frozenset((m, c) for m, c in g.d.items() if m))
        K = poly.C.extra.setdefault('iszkey', {}).setdefault(key, [])
        for u in K:
            poly.exclude(u, v)
        K.append(v)
        if len(g.d) == 1:
            # a variable vanishes where its indicator is one
            (m, _), = g.d.items()
            poly.C.extra.setdefault(('ann', g.mod), {})[v] = m[0][0]
    return T[g]


def poly_rem(b, g):
    """remainder of b on division by g (lexicographic order)"""
    key = lambda m: tuple(sorted(((v, e) for v, e in m), reverse=True))
    lead = max(g.d, key=key)
    lc = pow(g.d[lead], -1, g.mod)
    ld = dict(lead)
    for _ in range(400):
        cand = [m for m in b.d if all(dict(m).get(v, 0) >= e for v, e in ld.items())]
        if not cand:
            return b
        m = max(cand, key=key)
        md = dict(m)
        for v, e in ld.items():
            md[v] -= e
        q = FP({tuple(sorted((v, e) for v, e in md.items() if e)): b.d[m] * lc % g.mod}, g.mod)
        b = b - q * g
    return b


def reduce_indicators(f):
    """drop multiples of g from the coefficient of the indicator [g = 0]"""
    for v in sorted(f.vars(), reverse=True):
        D = poly.C.defn[v]
        if not D or D[0] != 'fiszero' or D[1].mod != f.mod:
            continue
        a, b = {}, {}
        for m, c in f.d.items():
            if any(u == v for u, _ in m):
                b[tuple(x for x in m if x[0] != v)] = c
            else:
                a[m] = c
        r = poly_rem(FP(b, f.mod), D[1])
        f = FP(a, f.mod) + r * FP.var(v, f.mod)
    return f


SQRT_M1 = pow(2, (PP - 1) // 4, PP)
if SQRT_M1 & 1:
    SQRT_M1 = PP - SQRT_M1
QR = (PP - 1) // 4


def at_u(f, a, u):
    """Value of f when a^((p-1)/4) = u, for u in {1,-1,i,-i} (all values it
    takes for a != 0, as p is prime) or for a = 0 (u = 0); a is a variable.
    None if f is not determined by u."""
    (m, c), = a.d.items()
    (av, e1), = m
    assert c == 1 and e1 == 1
    uu = {1: 1, -1: PP - 1, 'i': SQRT_M1, '-i': PP - SQRT_M1, 0: 0}[u]
    isrs = poly.C.extra.get('isrvars', {})

    def bval(v):
        D = poly.C.defn[v]
        if D is None:
            return None
        if D[0] == 'fiszero':
            x = ev(D[1])
            return None if x is None else int(x == 0)
        return None

    def ev(f):
        rest = {}
        tot = 0
        for m, c in f.d.items():
            keep = []
            ea = 0
            t = c
            for v, e in m:
                if v == av:
                    ea = e
                    continue
                if poly.C.isb[v]:
                    b = bval(v)
                    if b is not None:
                        t = t * b
                        continue
                keep.append((v, e))
            if not t:
                continue
            # symbols for square roots of a: r^2 a = 1 for squares, r = 0 for a = 0
            k2 = []
            zero = False
            for v, e in keep:
                if v in isrs and isrs[v][0] == a:
                    kind = isrs[v][1]
                    if u == 0:
                        zero = True
                        continue
                    if u in (1, -1) or kind == 'InvSqrtI':
                        q, e = divmod(e, 2)
                        if q:
                            ea = ea - q
                            if u not in (1, -1):
                                t = t * pow(SQRT_M1, -q, PP) % PP
                if e:
                    k2.append((v, e))
            if zero or (ea > 0 and u == 0):
                continue
            ea %= (PP - 1)
            n, ea = divmod(ea, QR)
            t = t * pow(uu, n, PP) % PP if u != 0 else t
            key = (ea, tuple(k2))
            rest[key] = (rest.get(key, 0) + t) % PP
        rest = {k: x for k, x in rest.items() if x}
        if not rest:
            return 0
        if set(rest) == {(0, ())}:
            return rest[(0, ())]
        return None
    return ev(f)


def isr(a, kind):
    """(r, w): an (inverse) square root symbol of a and the bit [a is a non-zero square]"""
    T = poly.C.extra.setdefault('isr', {})
    if (a, kind) not in T:
        v = poly.C.new('%s%d' % (kind, len(poly.C.name)), None, None, ('isr', a, kind))
        poly.C.extra.setdefault('isrvars', {})[v] = (a, kind)
        T[(a, kind)] = FP.var(v)
    W = poly.C.extra.setdefault('issq', {})
    if a not in W:
        W[a] = IP.var(poly.C.new('sq%d' % len(poly.C.name), 0, 1, ('issq', a)))
    return T[(a, kind)], W[a]


# ------------------------------------------------------------ cells
class FECell(Cell):
    """A field element: value (FP) and an interval for every limb."""
    __slots__ = ('f', 'b', 'limbs')

    def __init__(self, f, b, limbs=None):
        self.f = f
        self.b = tuple(b)
        self.limbs = limbs

    def __repr__(self):
        return 'FE(%r)' % (self.f,)

    def materialise(self, ex, st, tid):
        if self.limbs is None:
            be = ex.backend
            n = be.nlimbs
            vs = []
            for i in range(n):
                lo, hi = self.b[i]
                if lo == hi:
                    vs.append(con(be.ty, lo))
                else:
                    vs.append(val.sym(be.ty, 'l%d_%d' % (len(poly.C.name), i), lo, hi))
            # eliminate limb 0 through the field value
            v0 = None
            for i in range(n):
                if not vs[i].p.is_const():
                    v0 = i
                    break
            if v0 is not None:
                rest = self.f
                for i in range(n):
                    if i != v0:
                        rest = rest - fp(vs[i].p) * (1 << be.shift[i])
                inv = pow(1 << be.shift[v0], -1, PP)
                var, = vs[v0].p.vars()
                subtable(PP)[var] = rest * inv
            self.limbs = vs
        return list(self.limbs)

    def subst(self, env):
        f = self.f.subst(env)
        if f is self.f:
            return self
        return FECell(f, self.b)

    def equal(self, ex, st, o):
        return None


class SCCell(Cell):
    """A scalar: its integer value V in [0, 2^256)."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'SC(%r)' % (self.p,)

    def materialise(self, ex, st, tid):
        out = []
        lo, hi = iv(self.p)
        for i in range(8):
            a = poly.floordiv2k(self.p, 32 * i)
            b = poly.floordiv2k(self.p, 32 * (i + 1))
            out.append(val.mkf((32, False), a - b * (1 << 32), (0, min((1 << 32) - 1, hi >> (32 * i))), ('leafp',)))
        return out

    def subst(self, env):
        p = self.p.subst(env)
        return self if p is self.p else SCCell(p)

    def equal(self, ex, st, o):
        if isinstance(o, SCCell):
            b = val.is_zero_bit(self.p - o.p)
            return val.mkf(BOOL, b, (0, 1), None)
        return None


class BYCell(Cell):
    """n bytes, little endian: integer value p in [0, 256^n)."""
    __slots__ = ('p', 'n')

    def __init__(self, p, n):
        self.p, self.n = p, n

    def __repr__(self):
        return 'BY(%r)' % (self.p,)

    def materialise(self, ex, st, tid):
        out = []
        lo, hi = iv(self.p)
        for i in range(self.n):
            a = poly.floordiv2k(self.p, 8 * i)
            b = poly.floordiv2k(self.p, 8 * (i + 1)) if i + 1 < self.n else IP.const(0)
            out.append(val.mkf((8, False), a - b * 256, (0, min(255, hi >> (8 * i))), ('leafp',)))
        return out

    def subst(self, env):
        p = self.p.subst(env)
        return self if p is self.p else BYCell(p, self.n)

    def equal(self, ex, st, o):
        if isinstance(o, BYCell) and o.n == self.n:
            b = val.is_zero_bit(self.p - o.p)
            return val.mkf(BOOL, b, (0, 1), None)
        return None


def scvar(name):
    """a reduced scalar variable (integer in [0, l))"""
    v = poly.C.new(name, 0, LL - 1)
    p = IP.var(v)
    poly.C.extra.setdefault('scan', {})[fp(p, LL)] = p
    return p


def scan(f):
    """the representative in [0, l) of a residue mod l"""
    if f.is_const():
        return IP.const(f.cval())
    T = poly.C.extra.setdefault('scan', {})
    if f not in T:
        v = poly.C.new('sc%d' % len(poly.C.name), 0, LL - 1, ('scan', f))
        subtable(LL)[v] = f
        T[f] = IP.var(v)
    return T[f]


def prove_zero(d):
    """a field polynomial is zero under the path facts: case split on the
    boolean variables it contains"""
    if not d.d:
        return True
    for z in poly.C.extra.get('fzero', ()):
        if z.mod == d.mod and d.monic() == z.monic():
            return True
    if not reduce_indicators(d).d:
        return True
    return False


def packed(vals, w):
    """sum vals[i] 2^(w i)"""
    if isinstance(vals, (SCCell, BYCell)):
        return vals.p
    r = IP({})
    for i, v in enumerate(vals):
        r = r + v.p * (1 << (w * i))
    return r


class Backend:
    def __init__(self, name):
        self.name = name
        if name == 'radix51':
            self.nlimbs = 5
            self.ty = (64, False)
            self.shift = [0, 51, 102, 153, 204]
            u = lambda h: tuple((0, h) for _ in range(5))
            # N: results of Mul, Square, Add, Sub;  PUB: anything reachable;  W: unnormalised sums
            self.bounds = {'N': u((1 << 51) + (1 << 24)), 'PUB': u(1 << 53), 'W': u(1 << 54),
                           'C': u((1 << 51) - 1)}
            for k in 'XYZT':
                self.bounds['P' + k] = self.bounds['PUB']
            self.bounds['BI'] = self.bounds['W']
        else:
            self.nlimbs = 10
            self.ty = (32, True)
            self.shift = [0, 26, 51, 77, 102, 128, 153, 179, 204, 230]
            N = [33889976 if i % 2 == 0 else 16944988 for i in range(10)]
            W = (2**31 - 1) // 19
            s = lambda l: tuple((-x, x) for x in l)
            # limbs of the built-in base point, which is not normalised
            bx = [41032219, 27199451, 7502359, 2800332, 50176896, 33336453, 33570123, 31949908, 53948439, 29257844]
            by = [20163995, 28827709, 65616271, 30544542, 24400674, 29683035, 27175815, 26206403, 10372291, 5663137]
            bt = [38281802, 6116118, 27349572, 33310069, 58473857, 22289538, 47757517, 20140834, 50497352, 6414979]
            mx = lambda *a: [max(t) for t in zip(*a)]
            N2 = [2 * x for x in N]
            PX, PY, PT = mx(N2, bx), mx(N, by), mx(N, bt)
            self.bounds = {'N': s(N), 'PX': s(PX), 'PY': s(PY), 'PZ': s(N), 'PT': s(PT),
                           'PUB': s(mx(PX, PY, PT)), 'W': s([W] * 10), 'C': s(N),
                           'BX': s(bx), 'BY': s(by), 'BT': s(bt)}
            self.bounds['BI'] = s([2 * x for x in mx(PX, PY, PT)])

    def value(self, limbs):
        r = FP({})
        for v, s in zip(limbs, self.shift):
            r = r + fp(v.p) * (1 << s)
        return r

    def ivalue(self, limbs):
        r = IP({})
        for v, s in zip(limbs, self.shift):
            r = r + v.p * (1 << s)
        return r
