"""Integer polynomials over symbolic variables, intervals and floors.

A machine integer is represented by an exact integer polynomial (IP) over
symbolic variables together with an interval.  Shifts, masks and wrap-around
introduce floor variables  q = floor(P / 2^k)  whose defining inequality
0 <= P - 2^k q < 2^k  is recorded as a fact.
"""
from math import gcd

INF = None


class Ctx:
    """Symbol table of one verification task."""

    def __init__(self):
        self.name = []
        self.lo = []
        self.hi = []
        self.isb = []        # boolean-valued variable
        self.grp = []        # one-hot group or None
        self.defn = []       # None | ('floor', IP, k) ...
        self.facts = {}      # key -> (lo, hi)
        self.floors = {}     # (IP, k) -> IP
        self.eqs = {}        # IP -> var
        self.mm = {}         # monomial product cache
        self.groups = []     # list of list of (var, value)
        self.named = {}
        self.fieldvars = set()
        self.node = {}
        self.opaque_defs = {}
        self.extra = {}
        self.small = {}      # facts with few terms
        self.excl = {}       # pairs of boolean variables whose product is zero

    def new(self, name, lo=None, hi=None, defn=None, grp=None):
        v = len(self.name)
        self.name.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        self.isb.append(lo == 0 and hi == 1)
        self.grp.append(grp)
        self.defn.append(defn)
        return v


C = Ctx()


def exclude(u, v):
    """the boolean variables u and v are never both one"""
    C.excl.setdefault(u, set()).add(v)
    C.excl.setdefault(v, set()).add(u)
    C.mm.clear()
    add_fact(IP.var(u) + IP.var(v), 0, 1, path=False)


def reset():
    global C
    C = Ctx()
    return C


def ctx():
    return C


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    k = (a, b)
    r = C.mm.get(k, 0)
    if r != 0:
        return r
    t = sorted(a + b)
    out = []
    prev = -1
    isb = C.isb
    grp = C.grp
    seen = None
    bad = False
    for v in t:
        if v == prev and isb[v]:
            continue
        g = grp[v]
        if g is not None:
            if seen is None:
                seen = {}
            if g in seen and seen[g] != v:
                bad = True
                break
            seen[g] = v
        out.append(v)
        prev = v
    if C.excl and not bad:
        for v in out:
            x = C.excl.get(v)
            if x and any(u in x for u in out):
                bad = True
                break
    r = None if bad else tuple(out)
    C.mm[k] = r
    return r


class IP:
    __slots__ = ('d', 'h', '_iv')

    def __init__(self, d):
        self.d = d
        self.h = None
        self._iv = None

    @staticmethod
    def const(c):
        return IP({(): c} if c else {})

    @staticmethod
    def var(v):
        return IP({(v,): 1})

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __eq__(self, o):
        return isinstance(o, IP) and self.d == o.d

    def __add__(self, o):
        if not isinstance(o, IP):
            o = IP.const(o)
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m, 0) + c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return IP(r)
    __radd__ = __add__

    def __neg__(self):
        return IP({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if not isinstance(o, IP):
            o = IP.const(o)
        r = dict(self.d)
        for m, c in o.d.items():
            x = r.get(m, 0) - c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return IP(r)

    def __rsub__(self, o):
        return IP.const(o) - self

    def __mul__(self, o):
        if not isinstance(o, IP):
            if o == 0:
                return IP({})
            if o == 1:
                return self
            return IP({m: c * o for m, c in self.d.items()})
        if self.is_const():
            return o * self.cval()
        if o.is_const():
            return self * o.cval()
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                t = mono_mul(m, n)
                if t is None:
                    continue
                r[t] = r.get(t, 0) + c * e
        return IP({m: c for m, c in r.items() if c})
    __rmul__ = __mul__

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def noconst(self):
        if () in self.d:
            r = dict(self.d)
            del r[()]
            return IP(r)
        return self

    def vars(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def divexact(self, n):
        return IP({m: c // n for m, c in self.d.items()})

    def content(self):
        g = 0
        for c in self.d.values():
            g = gcd(g, c)
            if g == 1:
                break
        return g

    def subst(self, env):
        """env: var -> IP or int"""
        if not any(v in env for m in self.d for v in m):
            return self
        r = IP({})
        acc = {}
        for m, c in self.d.items():
            if any(v in env for v in m):
                t = IP.const(c)
                for v in m:
                    if v in env:
                        e = env[v]
                        t = t * e
                    else:
                        t = t * IP.var(v)
                for k, x in t.d.items():
                    acc[k] = acc.get(k, 0) + x
            else:
                acc[m] = acc.get(m, 0) + c
        return IP({m: c for m, c in acc.items() if c})

    def __repr__(self):
        if not self.d:
            return '0'
        out = []
        items = sorted(self.d.items(), key=lambda x: (len(x[0]), x[0]))
        for m, c in items[:14]:
            s = '*'.join(C.name[v] for v in m)
            if not m:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%d*%s' % (c, s))
        if len(items) > 14:
            out.append('...(%d terms)' % len(items))
        return ' + '.join(out)


ZERO = IP({})
ONE = IP({(): 1})


def var_iv(v):
    a, b = C.lo[v], C.hi[v]
    if OVER:
        k = IP({(v,): 1})
        for F in OVER:
            f = F.get(k)
            if f is not None:
                a, b = meet((a, b), f)
    return a, b


def mono_iv(m):
    lo, hi = 1, 1
    i = 0
    n = len(m)
    while i < n:
        v = m[i]
        e = 1
        while i + e < n and m[i + e] == v:
            e += 1
        a, b = var_iv(v)
        if a is None or b is None:
            return None
        if e % 2 == 0:
            cands = [a ** e, b ** e]
            l = 0 if a <= 0 <= b else min(cands)
            h = max(cands)
        else:
            l, h = a ** e, b ** e
        cs = (lo * l, lo * h, hi * l, hi * h)
        lo, hi = min(cs), max(cs)
        i += e
    return lo, hi


def norm_key(p):
    """primitive part without constant, sign-normalised: (key, g) with p = g*key + const"""
    q = p.noconst()
    if not q.d:
        return None, 0
    g = q.content()
    # sign: make coefficient of the smallest monomial positive
    m = min(q.d)
    if q.d[m] < 0:
        g = -g
    if g != 1:
        q = q.divexact(g)
    return q, g


OVER = []      # stack of path-local fact dictionaries


def lookup_fact(p):
    q, g = norm_key(p)
    if q is None:
        return None
    best = None
    for F in [C.facts] + OVER:
        f = F.get(q)
        if f is not None:
            best = f if best is None else meet(best, f)
    if best is None:
        return None
    c = p.cval()
    lo, hi = best
    if g > 0:
        return (None if lo is None else g * lo + c, None if hi is None else g * hi + c)
    return (None if hi is None else g * hi + c, None if lo is None else g * lo + c)


def meet(a, b):
    lo = a[0] if b[0] is None else (b[0] if a[0] is None else max(a[0], b[0]))
    hi = a[1] if b[1] is None else (b[1] if a[1] is None else min(a[1], b[1]))
    return lo, hi


def add_fact(p, lo, hi, path=None):
    """lo <= p <= hi"""
    q, g = norm_key(p)
    if q is None:
        return
    c = p.cval()
    # lo <= g q + c <= hi
    def cdiv(a, b):
        return -((-a) // b)
    if g > 0:
        l = None if lo is None else cdiv(lo - c, g)
        h = None if hi is None else (hi - c) // g
    else:
        l = None if hi is None else cdiv(hi - c, g)
        h = None if lo is None else (lo - c) // g
    if path is None:
        path = bool(OVER)
    F = OVER[-1] if (path and OVER) else C.facts
    old = F.get(q, (None, None))
    F[q] = meet(old, (l, h))
    if F is C.facts and 2 <= len(q.d) <= 4:
        C.small[q] = F[q]
    if F is C.facts and len(q.d) == 1:
        (m, cc), = q.d.items()
        if len(m) == 1 and cc == 1:
            v = m[0]
            C.lo[v], C.hi[v] = meet((C.lo[v], C.hi[v]), F[q])


def naive_iv(p):
    lo = hi = 0
    for m, c in p.d.items():
        if not m:
            lo += c
            hi += c
            continue
        r = mono_iv(m)
        if r is None:
            return (None, None)
        a, b = r
        if c > 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    return lo, hi


def iv(p):
    if p.is_const():
        c = p.cval()
        return c, c
    if OVER:
        r = naive_iv(p)
    else:
        r = p._iv
        if r is None:
            r = naive_iv(p)
            p._iv = r
    f = lookup_fact(p)
    if f is not None:
        r = meet(r, f)
    return r


def smart_iv(p, depth=2):
    """iv, improved by rewriting p = s*(B - 2^k floor(B/2^k)) + rest"""
    r = iv(p)
    if depth == 0 or len(p.d) > 400:
        return r
    n = len(p.d)
    for v in list(p.vars()):
        D = C.defn[v]
        if D is None or D[0] not in ('floor', 'negfloor'):
            if C.isb[v] and C.grp[v] is None and depth >= 1:
                u = None
                for value in (0, 1):
                    best = smart_iv(p.subst({v: value}), depth - 1)
                    if best[0] is None or best[1] is None:
                        u = None
                        break
                    u = best if u is None else (min(u[0], best[0]), max(u[1], best[1]))
                if u is not None:
                    r = meet(r, u)
            continue
        B, k, off = D[1], D[2], D[3]
        if len(B.d) > 60:
            continue
        fl = IP.var(v) + off if D[0] == 'floor' else -IP.var(v)
        F = B - fl * (1 << k)
        # eliminate v exactly: 2^k p = -c F + R
        c = p.d.get((v,), 0)
        if D[0] == 'negfloor':
            c = -c
        if c and n <= 60 and len(B.d) <= 60 and sum(1 for m in p.d if v in m) == 1:
            R = p * (1 << k) + F * c
            if len(R.d) <= n + len(B.d):
                lo, hi = iv(R)
                if lo is not None and hi is not None:
                    e = -c * ((1 << k) - 1)
                    lo, hi = lo + min(0, e), hi + max(0, e)
                    r = meet(r, (-((-lo) >> k), hi >> k))
        for m in B.d:
            if m and m in p.d and p.d[m] % B.d[m] == 0:
                s = p.d[m] // B.d[m]
                d = p - F * s
                if len(d.d) <= n + len(B.d):
                    lo, hi = smart_iv(d, depth - 1 if len(d.d) < n else 0)
                    if lo is not None and hi is not None:
                        e = s * ((1 << k) - 1)
                        r = meet(r, (lo + min(0, e), hi + max(0, e)))
                break
        if C.isb[v]:
            # case split on a carry or borrow bit
            u = None
            for value in (0, 1):
                if D[0] == 'negfloor':
                    bl, bh = (None, -1) if value else (0, None)
                else:
                    bl, bh = (value + off) << k, ((value + off + 1) << k) - 1
                bl, bh = meet(iv(B), (bl, bh))
                if bl is None or bh is None:
                    u = None
                    break
                if bl > bh:
                    continue
                q = p.subst({v: value})
                best = iv(q)
                for m in B.d:
                    if m and m in q.d and q.d[m] % B.d[m] == 0:
                        s = q.d[m] // B.d[m]
                        lo, hi = iv(q - B * s)
                        if lo is not None and hi is not None:
                            best = meet(best, (lo + min(s * bl, s * bh), hi + max(s * bl, s * bh)))
                        break
                if best[0] is None or best[1] is None:
                    u = None
                    break
                u = best if u is None else (min(u[0], best[0]), max(u[1], best[1]))
            if u is not None:
                r = meet(r, u)
    return r


def floor_of(v):
    """(floor value as IP, B, k) of a floor variable"""
    D = C.defn[v]
    if D is None or D[0] not in ('floor', 'negfloor'):
        return None
    return (IP.var(v) + D[3] if D[0] == 'floor' else -IP.var(v)), D[1], D[2]


def split_iv(p, maxcases=300):
    """interval of p by enumerating the small-range floor variables it depends on"""
    order = []
    seen = set()

    def visit(v, d):
        if v in seen or d > 4:
            return
        seen.add(v)
        F = floor_of(v)
        if F is None or len(F[1].d) > 60:
            return
        lo, hi = var_iv(v)
        if lo is None or hi is None or hi - lo > 16:
            return
        for u in F[1].vars():
            visit(u, d + 1)
        order.append(v)
    for v in sorted(p.vars()):
        visit(v, 0)
    if not order or len(order) > 4:
        return iv(p)
    os = set(order)
    small = [(q, f) for q, f in C.small.items() if q.vars() <= os]
    res = [None, 0]

    def rec(i, env):
        if res[1] > maxcases:
            return False
        if i == len(order):
            for q, (l, h) in small:
                x = q.subst(env).cval()
                if (l is not None and x < l) or (h is not None and x > h):
                    return True
            res[1] += 1
            lo, hi = iv(p.subst(env))
            if lo is None or hi is None:
                return False
            res[0] = (lo, hi) if res[0] is None else (min(lo, res[0][0]), max(hi, res[0][1]))
            return True
        v = order[i]
        fl, B, k = floor_of(v)
        Bs = B.subst(env)
        lo, hi = var_iv(v)
        bl, bh = iv(Bs)
        for x in range(lo, hi + 1):
            q = fl.subst({v: x}).cval()
            a, b = q << k, ((q + 1) << k) - 1
            a2, b2 = meet((bl, bh), (a, b))
            if a2 is not None and b2 is not None and a2 > b2:
                continue
            OVER.append({})
            add_fact(Bs, a, b, path=True)
            e = dict(env)
            e[v] = x
            ok = rec(i + 1, e)
            OVER.pop()
            if not ok:
                return False
        return True
    n = len(OVER)
    ok = rec(0, {})
    del OVER[n:]
    if not ok or res[0] is None:
        return iv(p)
    return res[0]


def best_iv(p):
    r = smart_iv(p)
    if len(p.d) <= 60:
        r = meet(r, split_iv(p))
    return r


def iv_global(p):
    global OVER
    if not OVER:
        return iv(p)
    save = OVER
    OVER = []
    try:
        return iv(p)
    finally:
        OVER = save


def val2(n):
    return (n & -n).bit_length() - 1


MERGE = True
import os
LIM = int(os.environ.get('LIM', '16'))


def floordiv2k(p, k, depth=0, hint=None):
    """floor(p / 2^k) as an IP.  hint: known interval of the result."""
    if k == 0:
        return p
    M = 1 << k
    if not p.is_const() and depth < 50:
        lo, hi = smart_iv(p)
        if lo is not None and hi is not None:
            if lo >> k == hi >> k:
                return IP.const(lo >> k)
            hint = (lo >> k, hi >> k) if hint is None else meet(hint, (lo >> k, hi >> k))
    outer = {}
    inner = {}
    for m, c in p.d.items():
        if not m:
            a = (c + (M >> 1)) >> k
            r = c - (a << k)
            if a:
                outer[m] = a
            if r:
                inner[m] = r
        elif c % M == 0:
            outer[m] = c >> k
        elif 2 * c > M or 2 * c < -M:
            a = (c + (M >> 1)) >> k
            outer[m] = a
            inner[m] = c - (a << k)
        else:
            inner[m] = c
    out = IP(outer)
    B = IP(inner)
    if not B.d:
        return out
    if B.is_const():
        return out + (B.cval() >> k)
    if hint is not None:
        if out.is_const():
            o = out.cval()
            hint = (None if hint[0] is None else hint[0] - o, None if hint[1] is None else hint[1] - o)
        else:
            hint = None

    def qiv(pair):
        lo, hi = pair
        r = (None if lo is None else lo >> k, None if hi is None else hi >> k)
        return meet(r, hint) if hint is not None else r
    ql, qh = qiv(iv(B))
    if ql is not None and ql == qh:
        return out + ql
    # drop a low part that never carries
    vals = sorted({val2(c) for c in B.d.values()})
    for j in reversed([x for x in vals if 0 < x < k]):
        Ld = {m: c for m, c in B.d.items() if m and c % (1 << j)}
        cl = B.d.get((), 0) % (1 << j)
        if cl:
            Ld[()] = cl
        if not Ld:
            continue
        L = IP(Ld)
        l, h = iv(L)
        if l is not None and h is not None and l >= 0 and h < (1 << j):
            H = (B - L).divexact(1 << j)
            return out + floordiv2k(H, k - j, depth, (ql, qh))
    # common power of two
    j = min(val2(c) for c in B.d.values())
    if j:
        return out + floordiv2k(B.divexact(1 << j), k - j, depth, (ql, qh))
    glo, ghi = iv_global(B)
    if glo is not None and ghi is not None and -M <= glo and ghi < M:
        # sign test: floor(B/2^k) is the same for every k with |B| <= 2^k
        kk = max((-glo - 1).bit_length() if glo < 0 else 0, ghi.bit_length() if ghi > 0 else 0)
        if kk < k:
            return out + floordiv2k(B, kk, depth, (ql, qh))
    key = (B, k)
    r = C.floors.get(key)
    if r is not None:
        return out + r
    # merge a nested floor with coefficient one
    if MERGE and depth < 400:
        for m, c in B.d.items():
            if len(m) == 1 and (c == 1 or c == -1):
                v = m[0]
                D = C.defn[v]
                if D is None or D[0] not in ('floor', 'negfloor'):
                    continue
                if (D[0] == 'floor') == (c == 1) and len(B.d) + len(D[1].d) <= LIM:
                    L, a, off = D[1], D[2], D[3]
                    # floor: var = floor(L/2^a) - off;  negfloor: var = -floor(L/2^a)
                    rest = IP({n: x for n, x in B.d.items() if n != m})
                    nb = rest * (1 << a) + L - off * (1 << a)
                    r = floordiv2k(nb, k + a, depth + 1, (ql, qh))
                    if not OVER:
                        C.floors[key] = r
                        add_fact(B - r * (1 << k), 0, (1 << k) - 1)
                    else:
                        add_fact(B - r * (1 << k), 0, (1 << k) - 1, path=True)
                    return out + r
    if ql is None or qh is None or qh > ql:
        ql, qh = qiv(smart_iv(B))
        if ql is not None and ql == qh:
            return out + ql
        # is it a floor we already know?
        for m in (B.d if len(B.d) <= LIM else ()):
            if len(m) != 1:
                continue
            D = C.defn[m[0]]
            if D is None or D[0] not in ('floor', 'negfloor') or len(D[1].d) > 60:
                continue
            cand = IP.var(m[0]) + D[3] if D[0] == 'floor' else -IP.var(m[0])
            lo, hi = best_iv(B - cand * M)
            if lo is not None and hi is not None and lo >= 0 and hi < M:
                if not OVER:
                    C.floors[key] = cand
                add_fact(B - cand * M, 0, M - 1)
                return out + cand
    if OVER:
        save, h2 = (ql, qh), hint
        hint = None
        ql, qh = qiv(iv_global(B))
    if ql is not None and qh is not None and qh - ql == 1:
        if ql == -1:
            v = C.new('n%d' % len(C.name), 0, 1, ('negfloor', B, k, 0))
            r = -IP.var(v)
        else:
            v = C.new('c%d' % len(C.name), 0, 1, ('floor', B, k, ql))
            r = IP.var(v) + ql
    else:
        v = C.new('q%d' % len(C.name), ql, qh, ('floor', B, k, 0))
        r = IP.var(v)
    C.floors[key] = r
    add_fact(B - r * (1 << k), 0, (1 << k) - 1, path=False)
    if OVER and save != (ql, qh):
        add_fact(r, save[0], save[1], path=True)
    return out + r


def mod2k(p, k):
    return p - floordiv2k(p, k) * (1 << k)
