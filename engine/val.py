"""Machine integers as exact integer polynomials: the operations of Go."""
import os
import poly
from poly import IP, iv, meet, floordiv2k, add_fact, norm_key


# int, uint and uintptr: 64 bits, or 32 (thorough runs also verify GOARCH=386)
WORD = int(os.environ.get('VERIF_INT', '64'))
INT = (WORD, True)
LENMAX = 1 << (WORD - 2)


class V:
    __slots__ = ('ty', 'p', 'lo', 'hi', 'node', '_raw')

    def __init__(self, ty, p, lo, hi, node=None, raw=None):
        self.ty = ty
        self.p = p
        self.lo = lo
        self.hi = hi
        self.node = node
        self._raw = raw

    @property
    def raw(self):
        """an integer congruent to the value mod 2^w in a known interval:
        the value before the last wrap-around"""
        return self._raw or (self.p, self.lo, self.hi)

    def __repr__(self):
        return 'V%s(%s in [%s,%s])' % (self.ty, self.p, self.lo, self.hi)

    def const(self):
        return self.p.cval() if self.p.is_const() else None


BOOL = (1, False)


def trange(ty):
    w, s = ty
    if s:
        return -(1 << (w - 1)), (1 << (w - 1)) - 1
    return 0, (1 << w) - 1


def con(ty, c):
    return V(ty, IP.const(c), c, c, ('const',))


def mk(ty, p, ivl=None, node=None):
    """The machine value of type ty congruent to p."""
    r = iv(p)
    if ivl is not None:
        r = meet(r, ivl)
    tl, th = trange(ty)
    lo, hi = r
    if lo is not None and hi is not None and tl <= lo and hi <= th:
        return V(ty, p, lo, hi, node)
    r = meet(r, poly.smart_iv(p))
    lo, hi = r
    if lo is not None and hi is not None and tl <= lo and hi <= th:
        add_fact(p, lo, hi)
        return V(ty, p, lo, hi, node)
    if has_group(p):
        dom = fd_vars([V(ty, p, lo, hi)])
        if dom is not None:
            p2, (l2, h2) = fd_table(dom, lambda env: wrapc(ty, evalp(p, env)))
            add_fact(p2, l2, h2)
            return V(ty, p2, l2, h2, node)
    if ivl is not None:
        add_fact(p, lo, hi)
    w, s = ty
    if s:
        q = floordiv2k(p + (1 << (w - 1)), w)
    else:
        q = floordiv2k(p, w)
    p2 = p - q * (1 << w)
    raw = None
    if r[0] is not None and r[1] is not None and r[1] - r[0] < (1 << w):
        raw = (p, r[0], r[1])
    lo, hi = meet(iv(p2), (tl, th))
    add_fact(p2, tl, th)
    return V(ty, p2, lo, hi, node, raw)


def has_group(p):
    grp = poly.C.grp
    return bool(poly.C.groups) and any(grp[v] is not None for m in p.d for v in m)


def sym(ty, name, lo=None, hi=None):
    tl, th = trange(ty)
    lo = tl if lo is None else lo
    hi = th if hi is None else hi
    v = poly.C.new(name, lo, hi)
    return V(ty, IP.var(v), lo, hi, ('leaf', v))


def gates(x):
    """[(B, w)]: x is B*w with B in {0,1}"""
    n = x.node
    if n is None or len(n) != 3:
        return
    for m, w in ((n[1], n[2]), (n[2], n[1])):
        if n[0] == '&':
            B = is_mask(m)
            if B is not None and w.ty == x.ty:
                yield B, w
        elif n[0] == '*' and is01(m) and not m.p.is_const() and x._raw is None:
            yield m.p, w


def select(x, y, ty, node):
    """x = B*u and y = (1-B)*v: their sum (also |, ^) picks u or v"""
    if x.node is None or y.node is None or x.node[0] not in '&*' or y.node[0] not in '&*':
        return None
    for B, u in gates(x):
        for C, v in gates(y):
            if B + C == IP.const(1):
                p = B * u.p + C * v.p
                lo, hi = min(u.lo, v.lo), max(u.hi, v.hi)
                add_fact(p, lo, hi)
                lo, hi = meet(iv(p), (lo, hi))
                return V(ty, p, lo, hi, node)
    return None


def vadd(x, y, ty):
    r = select(x, y, ty, ('+', x, y))
    if r is not None:
        return r
    if x._raw is not None or y._raw is not None:
        (a, al, ah), (b, bl, bh) = x.raw, y.raw
        if ah + bh - al - bl < x.hi + y.hi - x.lo - y.lo:
            return mk(ty, a + b, (al + bl, ah + bh), ('+', x, y))
    return mk(ty, x.p + y.p, (x.lo + y.lo, x.hi + y.hi), ('+', x, y))


def vsub(x, y, ty):
    if x._raw is not None or y._raw is not None:
        (a, al, ah), (b, bl, bh) = x.raw, y.raw
        if ah - bl - al + bh < x.hi + y.hi - x.lo - y.lo:
            return mk(ty, a - b, (al - bh, ah - bl), ('-', x, y))
    return mk(ty, x.p - y.p, (x.lo - y.hi, x.hi - y.lo), ('-', x, y))


def vmul(x, y, ty):
    cs = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
    return mk(ty, x.p * y.p, (min(cs), max(cs)), ('*', x, y))


def conv(x, ty):
    if x.ty == ty:
        return x
    if x.ty[0] == 8 and x.ty[1] and ty[0] > 8 and x.lo < 0:
        # a signed digit: case distinction on its value
        y = fdize(x)
        if y is not None:
            x = y
    if x._raw is not None and ty[0] <= x.ty[0]:
        a, al, ah = x._raw
        if ah - al < x.hi - x.lo:
            return mk(ty, a, (al, ah), ('conv', x))
    return mk(ty, x.p, (x.lo, x.hi), ('conv', x))


def shr_p(x, n):
    """floor(x/2^n) with interval"""
    p = floordiv2k(x.p, n)
    return p, (x.lo >> n, x.hi >> n)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- finite domains
def fd_vars(vs):
    """If all variables of the given values are boolean/one-hot and the joint
    domain is small, return (bools, groups); otherwise None."""
    bools, groups = set(), set()
    for x in vs:
        for v in x.p.vars():
            g = poly.C.grp[v]
            if g is not None:
                groups.add(g)
            elif poly.C.isb[v]:
                bools.add(v)
            else:
                return None
    n = 1 << min(len(bools), 30)
    for g in groups:
        n *= len(poly.C.groups[g]) + 1
        if n > 5000:
            return None
    if n > 5000:
        return None
    return sorted(bools), sorted(groups)


def fd_table(dom, f):
    """Interpolating polynomial of f over the finite domain; f gets an env."""
    bools, groups = dom
    axes = [('b', v) for v in bools] + [('g', g) for g in groups]
    vals = []

    def rec(i, env):
        if i == len(axes):
            r = f(env)
            vals.append(r)
            return IP.const(r)
        k, a = axes[i]
        if k == 'b':
            e0 = dict(env)
            e0[a] = 0
            e1 = dict(env)
            e1[a] = 1
            p0, p1 = rec(i + 1, e0), rec(i + 1, e1)
            return p0 + (p1 - p0) * IP.var(a)
        mem = poly.C.groups[a]
        base = dict(env)
        for v, _ in mem:
            base[v] = 0
        p0 = rec(i + 1, base)
        r = p0
        for v, _ in mem:
            e = dict(base)
            e[v] = 1
            r = r + (rec(i + 1, e) - p0) * IP.var(v)
        return r
    p = rec(0, {})
    return p, (min(vals), max(vals))


def new_group(name, vals):
    """one-hot variables for the non-zero values of a small domain"""
    g = len(poly.C.groups)
    poly.C.groups.append([])
    for x in vals:
        if x:
            v = poly.C.new('%s=%d' % (name, x), 0, 1, None, g)
            poly.C.groups[g].append((v, x))
    return g


def group_value(g):
    return IP({(v,): x for v, x in poly.C.groups[g]})


def fdize(x, limit=70):
    """a small-range value as a combination of one-hot variables"""
    if x.const() is not None or x.lo is None or x.hi is None or x.hi - x.lo > limit:
        return None
    if x.hi - x.lo <= 1 or x.lo > 0 or x.hi < 0:
        return None
    if any(poly.C.grp[v] is not None for v in x.p.vars()):
        return None
    T = poly.C.extra.setdefault('fdof', {})
    if x.p not in T:
        g = new_group('d%d' % len(poly.C.groups), range(x.lo, x.hi + 1))
        T[x.p] = (g, x.lo, x.hi)
        poly.C.extra.setdefault('fdp', {})[g] = x.p
    g, lo, hi = T[x.p]
    if x.lo < lo or x.hi > hi:
        return None
    p = group_value(g)
    add_fact(p, x.lo, x.hi)
    return V(x.ty, p, x.lo, x.hi, x.node)


def unfd(p):
    """replace  c * sum v e_v  by  c * (the value the group stands for)"""
    F = poly.C.extra.get('fdp')
    if not F:
        return p
    gs = {poly.C.grp[v] for v in p.vars() if poly.C.grp[v] is not None}
    for g in gs:
        if g not in F:
            continue
        mem = poly.C.groups[g]
        vals = dict(mem)
        rest = {}
        by = {}
        for m, c in p.d.items():
            e = [v for v in m if v in vals]
            if not e:
                rest[m] = c
                continue
            by.setdefault(tuple(v for v in m if v not in vals), {})[e[0]] = c
        out = IP(rest)
        ok = False
        for m, cs in by.items():
            v0, x0 = mem[0]
            k = cs.get(v0, 0)
            if k % x0 == 0 and len(cs) == len(mem) and all(cs.get(v) == k // x0 * x for v, x in mem):
                out = out + IP({m: k // x0}) * F[g]
                ok = True
            else:
                out = out + IP({tuple(sorted(m + (v,))): c for v, c in cs.items()})
        if ok:
            p = out
    return p


def fd_range(p):
    """exact range of a polynomial over a small finite domain"""
    dom = fd_vars([V(None, p, None, None)])
    if dom is None or not dom[1]:
        return None
    return fd_table(dom, lambda env: evalp(p, env))[1]


def evalp(p, env):
    r = 0
    for m, c in p.d.items():
        t = c
        for v in m:
            t *= env[v]
            if t == 0:
                break
        r += t
    return r


def wrapc(ty, n):
    w, s = ty
    n &= (1 << w) - 1
    if s and n >> (w - 1):
        n -= 1 << w
    return n


def conc(tok, ty, a, b):
    w = ty[0]
    if tok == '+':
        return wrapc(ty, a + b)
    if tok == '-':
        return wrapc(ty, a - b)
    if tok == '*':
        return wrapc(ty, a * b)
    if tok == '&':
        return wrapc(ty, a & b)
    if tok == '|':
        return wrapc(ty, a | b)
    if tok == '^':
        return wrapc(ty, a ^ b)
    if tok == '&^':
        return wrapc(ty, a & ~b)
    if tok == '<<':
        return wrapc(ty, a << b) if b < 4096 else 0
    if tok == '>>':
        return wrapc(ty, a >> b) if b < 4096 else (-1 if a < 0 else 0)
    if tok == '/':
        q = abs(a) // abs(b)
        return wrapc(ty, q if (a < 0) == (b < 0) else -q)
    if tok == '%':
        r = abs(a) % abs(b)
        return wrapc(ty, -r if a < 0 else r)
    if tok == '==':
        return int(a == b)
    if tok == '!=':
        return int(a != b)
    if tok == '<':
        return int(a < b)
    if tok == '<=':
        return int(a <= b)
    if tok == '>':
        return int(a > b)
    if tok == '>=':
        return int(a >= b)
    raise Unsupported('concrete op ' + tok)


def small_cases(y, limit=8):
    """[(n, [y = n])] for a value of small range"""
    if y.lo is None or y.hi is None or y.hi - y.lo >= limit:
        return None
    if y.hi - y.lo == 1:
        return [(y.lo, y.hi - y.p), (y.hi, y.p - y.lo)]
    cs = [(n, is_zero_bit(y.p - n)) for n in range(y.lo, y.hi + 1)]
    vs = []
    for n, c in cs:
        if len(c.d) == 1:
            (m, k), = c.d.items()
            if k == 1 and len(m) == 1:
                vs.append(m[0])
    for i, u in enumerate(vs):
        for v in vs[:i]:
            if u != v and v not in poly.C.excl.get(u, ()):
                poly.exclude(u, v)
    return cs


def via_fd(tok, x, y, ty):
    dom = fd_vars([x, y])
    if dom is None:
        return None
    p, ivl = fd_table(dom, lambda env: conc(tok, ty, evalp(x.p, env), evalp(y.p, env)))
    add_fact(p, ivl[0], ivl[1])
    return V(ty, p, ivl[0], ivl[1], (tok, x, y))


# ---------------------------------------------------------------- bit operations
def is_mask(y):
    """y = all-ones * B with B in {0,1}: return B"""
    w, s = y.ty
    f = -1 if s else (1 << w) - 1
    if y.p.is_const():
        return None
    for c in y.p.d.values():
        if c % f:
            return None
    B = IP({m: c // f for m, c in y.p.d.items()})
    lo, hi = iv(B)
    if lo is not None and lo >= 0 and hi <= 1:
        return B
    if bool_range(B) == (0, 1):
        return B
    return None


def bool_range(p, limit=6):
    """exact range of a polynomial in few boolean variables"""
    vs = sorted(p.vars())
    if len(vs) > limit or not all(poly.C.isb[v] for v in vs):
        return None
    X, grp = poly.C.excl, poly.C.grp
    vals = set()

    def rec(i, on):
        if i == len(vs):
            vals.add(evalp(p, {v: int(v in on) for v in vs}))
            return
        rec(i + 1, on)
        v = vs[i]
        if any(u in X.get(v, ()) or (grp[u] is not None and grp[u] == grp[v]) for u in on):
            return
        rec(i + 1, on | {v})
    rec(0, frozenset())
    return min(vals), max(vals)


def and_const(x, m, ty):
    """x & m for a constant m (given as an integer of type ty)."""
    w, s = ty
    mm = m & ((1 << w) - 1)
    if mm == 0:
        return con(ty, 0)
    if mm == (1 << w) - 1:
        return x
    p = IP({})
    i = 0
    lo = 0
    hi = 0
    while i < w:
        if not (mm >> i) & 1:
            i += 1
            continue
        j = i
        while j < w and (mm >> j) & 1:
            j += 1
        if j == w:
            # run reaches the top bit
            p = p + floordiv2k(x.p, i) * (1 << i)
            lo += (x.lo >> i) << i
            hi += (x.hi >> i) << i
            if not s:
                lo = max(lo, 0)
        else:
            if x.lo >= 0 and x.hi < (1 << j):
                p = p + floordiv2k(x.p, i) * (1 << i)
                lo += (x.lo >> i) << i
                hi += (x.hi >> i) << i
            else:
                p = p + (floordiv2k(x.p, i) - floordiv2k(x.p, j) * (1 << (j - i))) * (1 << i)
                hi += ((1 << (j - i)) - 1) << i
        i = j
    add_fact(p, lo, hi)
    r = meet(iv(p), (lo, hi))
    return V(ty, p, r[0], r[1], ('&', x, con(ty, m)))


def xor_set(x):
    p = x.p
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1:
            D = poly.C.defn[m[0]]
            if D is not None and D[0] == 'xor' and D[2] == x.ty:
                return D[1]
    return frozenset([p])


def from_xor_set(s, ty, node):
    s = frozenset(p for p in s if p.d)
    if not s:
        return con(ty, 0)
    if len(s) == 1:
        p, = s
        lo, hi = meet(iv(p), trange(ty))
        return V(ty, p, lo, hi, node)
    key = ('xor', s, ty)
    v = poly.C.opaque_defs.get(key)
    if v is None:
        tl, th = trange(ty)
        # tighten: all operands in [0, 2^k)
        ivs = [poly.iv_global(p) for p in s]
        if all(a is not None and a >= 0 and b is not None for a, b in ivs):
            k = max(b.bit_length() for a, b in ivs)
            tl, th = 0, min(th, (1 << k) - 1)
        v = poly.C.new('xor%d' % len(poly.C.name), tl, th, ('xor', s, ty))
        poly.C.opaque_defs[key] = v
    lo, hi = poly.C.lo[v], poly.C.hi[v]
    if poly.OVER:
        ivs = [iv(p) for p in s]
        if all(a is not None and a >= 0 and b is not None for a, b in ivs):
            h = (1 << max(b.bit_length() for a, b in ivs)) - 1
            if h < hi or lo < 0:
                lo, hi = max(lo, 0), min(hi, h)
                add_fact(IP.var(v), lo, hi, path=True)
    return V(ty, IP.var(v), lo, hi, node)


def factor_xorvar(p):
    """p = B * X with X an xor variable of p and B in {0,1}: (B, X) or None"""
    cand = None
    for m in p.d:
        vs = {v for v in m if poly.C.defn[v] is not None and poly.C.defn[v][0] == 'xor'}
        cand = vs if cand is None else cand & vs
        if not cand:
            return None
    for X in cand or ():
        if all(m.count(X) == 1 for m in p.d):
            B = IP({tuple(v for v in m if v != X): c for m, c in p.d.items()})
            lo, hi = iv(B)
            if lo is not None and lo >= 0 and hi <= 1:
                return B, X
    return None


def v2min(x):
    """largest j with 2^j dividing x for sure"""
    if not x.p.d:
        return 10 ** 6
    return min(poly.val2(c) for c in x.p.d.values())


def disjoint(x, y):
    if x.lo is not None and y.lo is not None:
        if y.lo >= 0 and y.hi < (1 << min(v2min(x), 4096)):
            return True
        if x.lo >= 0 and x.hi < (1 << min(v2min(y), 4096)):
            return True
    if len(x.p.d) * len(y.p.d) <= 64:
        return not (x.p * y.p).d
    # a 0/1 factor of one kills the other
    for a, b in ((x.p, y.p), (y.p, x.p)):
        for v in common_bits(a):
            if not b.subst({v: 1}).d:
                return True
    return len(x.p.d) * len(y.p.d) <= 4096 and not (x.p * y.p).d


def common_bits(p):
    c = None
    for m in p.d:
        s = {v for v in m if poly.C.isb[v]}
        c = s if c is None else c & s
        if not c:
            break
    return c or ()


def opaque(tok, x, y, ty):
    a, b = x.p, y.p
    key = (tok, a, b, ty)
    if tok in ('&', '|', '^') and hash(a) > hash(b):
        key = (tok, b, a, ty)
    def bounds(xl, xh, yl, yh):
        tl, th = trange(ty)
        if tok in ('|', '^') and xl >= 0 and yl >= 0:
            tl, th = 0, (1 << max(xh.bit_length(), yh.bit_length())) - 1
        if tok == '|' and xl >= 0 and yl >= 0:
            tl = max(xl, yl)
        if tok == '&':
            if xl >= 0 and yl >= 0:
                tl, th = 0, min(xh, yh)
            elif xl >= 0:
                tl, th = 0, xh
            elif yl >= 0:
                tl, th = 0, yh
        return tl, th
    v = poly.C.opaque_defs.get(key)
    lo, hi = bounds(x.lo, x.hi, y.lo, y.hi)
    if v is None:
        if poly.OVER:
            # the variable outlives this path: bounds that hold on all paths
            (xl, xh), (yl, yh) = [meet(poly.iv_global(z.p), trange(z.ty)) for z in (x, y)]
            tl, th = bounds(xl, xh, yl, yh)
        else:
            tl, th = lo, hi
        v = poly.C.new('%s%d' % ({'|': 'or', '&': 'and'}.get(tok, 'op'), len(poly.C.name)), tl, th, ('op', tok, x, y, ty))
        poly.C.opaque_defs[key] = v
    if poly.OVER and (lo > poly.C.lo[v] or hi < poly.C.hi[v]):
        add_fact(IP.var(v), lo, hi, path=True)
    lo, hi = meet((lo, hi), (poly.C.lo[v], poly.C.hi[v]))
    return V(ty, IP.var(v), lo, hi, (tok, x, y))


def is01(x):
    return x.lo is not None and x.lo >= 0 and x.hi <= 1


def bitop(tok, x, y, ty):
    xc, yc = x.const(), y.const()
    if xc is not None and yc is not None:
        return con(ty, conc(tok, ty, xc, yc))
    w, s = ty
    full = -1 if s else (1 << w) - 1
    if tok == '&^':
        if yc is not None:
            return and_const(x, wrapc(ty, ~yc), ty)
        ny = V(ty, IP.const(full) - y.p, full - y.hi, full - y.lo, ('^', y, con(ty, full)))
        return bitop('&', x, ny, ty)
    if tok == '&':
        if has_group(x.p) or has_group(y.p):
            r = via_fd('&', x, y, ty)
            if r is not None:
                return r
        for a, c in ((x, yc), (y, xc)):
            if c is not None:
                B = is_mask(a)
                if B is not None:
                    return mkf(ty, B * c, (min(0, c), max(0, c)), ('&', x, y))
                return and_const(a, c, ty)
        if is01(x) and is01(y):
            return mkf(ty, x.p * y.p, (0, 1), ('&', x, y))
        for a, b in ((x, y), (y, x)):
            B = is_mask(b)
            if B is not None:
                return mkf(ty, a.p * B, (min(0, a.lo), max(0, a.hi)), ('&', x, y))
        # x & 0/1
        for a, b in ((x, y), (y, x)):
            if is01(b):
                low = and_const(a, 1, ty)
                return mkf(ty, low.p * b.p, (0, 1), ('&', x, y))
        # mask with a constant: (c*B) & x
        for a, b in ((x, y), (y, x)):
            g = b.p.content()
            if g and not b.p.is_const():
                B = b.p.divexact(g)
                lo, hi = iv(B)
                if lo is not None and lo >= 0 and hi <= 1:
                    r = and_const(a, wrapc(ty, g), ty)
                    return mkf(ty, r.p * B, (min(0, r.lo), max(0, r.hi)), ('&', x, y))
        r = via_fd('&', x, y, ty)
        if r is not None:
            return r
        if x.p == y.p:
            return x
        return opaque('&', x, y, ty)
    if xc == 0:
        return y
    if yc == 0:
        return x
    if tok in '|^' and (has_group(x.p) or has_group(y.p)):
        r = via_fd(tok, x, y, ty)
        if r is not None:
            return r
    if tok in '|^':
        r = select(x, y, ty, (tok, x, y))
        if r is not None:
            return r
    if tok == '|':
        if disjoint(x, y):
            return mkf(ty, x.p + y.p, (x.lo + y.lo, x.hi + y.hi), ('|', x, y))
        if is01(x) and is01(y):
            return mkf(ty, x.p + y.p - x.p * y.p, (0, 1), ('|', x, y))
        if x.p == y.p:
            return x
        r = via_fd('|', x, y, ty)
        if r is not None:
            return r
        return opaque('|', x, y, ty)
    if tok == '^':
        if x.p + y.p == IP.const(full):
            return con(ty, full)
        if yc == full:
            return mkf(ty, full - x.p, (full - x.hi, full - x.lo), ('^', x, y))
        if xc == full:
            return mkf(ty, full - y.p, (full - y.hi, full - y.lo), ('^', x, y))
        for a, b in ((x, y), (y, x)):
            # a ^ (mask & w): the mask selects between a and a ^ w
            if b.node is not None and b.node[0] == '&' and len(b.node) == 3:
                for m, w in ((b.node[1], b.node[2]), (b.node[2], b.node[1])):
                    B = is_mask(m)
                    if B is not None and w.ty == ty and not B.is_const() and \
                            (len(xor_set(a) ^ xor_set(w)) <= 1 or a.p + w.p == IP.const(full)):
                        t = bitop('^', a, w, ty)
                        r = a.p + B * (t.p - a.p)
                        lo, hi = min(a.lo, t.lo), max(a.hi, t.hi)
                        add_fact(r, lo, hi)
                        return V(ty, r, lo, hi, ('^', x, y))
        if disjoint(x, y):
            return mkf(ty, x.p + y.p, (x.lo + y.lo, x.hi + y.hi), ('^', x, y))
        if is01(x) and is01(y):
            return mkf(ty, x.p + y.p - 2 * (x.p * y.p), (0, 1), ('^', x, y))
        for a, b in ((x, y), (y, x)):
            f = factor_xorvar(b.p)
            if f is not None and not f[0].is_const():
                B, X = f
                t = from_xor_set(xor_set(a) ^ poly.C.defn[X][1], ty, None)
                r = a.p + B * (t.p - a.p)
                lo, hi = min(a.lo, t.lo), max(a.hi, t.hi)
                add_fact(r, lo, hi)
                return V(ty, r, lo, hi, ('^', x, y))
        r = via_fd('^', x, y, ty)
        if r is not None:
            return r
        # top-bit sign flips etc.: x ^ 2^k with known bit are rare; opaque set
        for a in (x, y):
            if len(a.p.d) > 1:
                add_fact(a.p, a.lo, a.hi)
        return from_xor_set(xor_set(x) ^ xor_set(y), ty, ('^', x, y))
    raise Unsupported(tok)


def mkf(ty, p, ivl, node):
    add_fact(p, ivl[0], ivl[1])
    r = meet(iv(p), ivl)
    return V(ty, p, r[0], r[1], node)


def is_zero_bit(p):
    """IP in {0,1}: [p == 0]"""
    if p.is_const():
        return IP.const(int(p.cval() == 0))
    q, g = norm_key(p)
    c = p.cval()
    if c % g:
        return IP.const(0)
    p = q + c // g
    lo, hi = iv(p)
    if lo is not None and hi is not None:
        if lo > 0 or hi < 0:
            return IP.const(0)
        if lo >= 0 and hi <= 1:
            return 1 - p
        if lo >= -1 and hi <= 0:
            return 1 + p
        if lo >= -1 and hi <= 1 and len(p.d) <= 8:
            return 1 - p * p
    # sum of non-negative terms etc. is left opaque; canonical key up to scaling
    q = p
    v = poly.C.eqs.get(q)
    if v is None:
        v = poly.C.new('z%d' % len(poly.C.name), 0, 1, ('iszero', q))
        poly.C.eqs[q] = v
    return IP.var(v)


def less_bit(p):
    """[p < 0]"""
    lo, hi = iv(p)
    if lo is None or hi is None:
        raise Unsupported('comparison of unbounded value')
    if hi < 0:
        return IP.const(1)
    if lo >= 0:
        return IP.const(0)
    k = max((-lo).bit_length(), hi.bit_length())
    return -floordiv2k(p, k)


def compare(tok, x, y):
    xc, yc = x.const(), y.const()
    if xc is not None and yc is not None:
        return con(BOOL, conc(tok, BOOL, xc, yc))
    d = x.p - y.p
    lo, hi = x.lo - y.hi, x.hi - y.lo
    l2, h2 = meet((lo, hi), iv(d))
    node = (tok, x, y)
    if tok in ('==', '!='):
        if l2 > 0 or h2 < 0:
            b = IP.const(0)
        elif l2 == h2 == 0:
            b = IP.const(1)
        else:
            r = None
            if fd_vars([V(BOOL, d, 0, 0)]) is not None:
                p, _ = fd_table(fd_vars([V(BOOL, d, 0, 0)]), lambda env: int(evalp(d, env) == 0))
                r = p
            b = r if r is not None else is_zero_bit(d)
        if tok == '!=':
            b = 1 - b
        return mkf(BOOL, b, (0, 1), node)
    if tok == '>':
        return compare('<', y, x)
    if tok == '>=':
        r = compare('<', x, y)
        return V(BOOL, 1 - r.p, 1 - r.hi, 1 - r.lo, node)
    if tok == '<=':
        r = compare('<', y, x)
        return V(BOOL, 1 - r.p, 1 - r.hi, 1 - r.lo, node)
    if tok == '<':
        if h2 < 0:
            b = IP.const(1)
        elif l2 >= 0:
            b = IP.const(0)
        else:
            dom = fd_vars([V(BOOL, d, 0, 0)])
            if dom is not None:
                b, _ = fd_table(dom, lambda env: int(evalp(d, env) < 0))
            else:
                b = less_bit(d)
        return mkf(BOOL, b, (0, 1), node)
    raise Unsupported(tok)


def binop(tok, x, y, ty):
    if tok == '+':
        return vadd(x, y, ty)
    if tok == '-':
        return vsub(x, y, ty)
    if tok == '*':
        return vmul(x, y, ty)
    if tok in ('&', '|', '^', '&^'):
        return bitop(tok, x, y, ty)
    if tok in ('<<', '>>'):
        n = y.const()
        if n is None:
            r = via_fd(tok, x, y, ty)
            if r is not None:
                return r
            cs = small_cases(y)
            if cs is not None and cs[0][0] >= 0:
                t, rs = IP({}), []
                for n, c in cs:
                    r = binop(tok, x, con(y.ty, n), ty)
                    t = t + c * r.p
                    rs.append(r)
                return mkf(ty, t, (min(r.lo for r in rs), max(r.hi for r in rs)), (tok, x, y))
            raise Unsupported('shift by a symbolic amount')
        if tok == '<<':
            if n >= ty[0]:
                return con(ty, 0)
            return mk(ty, x.p * (1 << n), (x.lo << n, x.hi << n), ('<<', x, y))
        if n >= ty[0]:
            n = ty[0] - (1 if ty[1] else 0)
        if has_group(x.p):
            r = via_fd(tok, x, con(y.ty, n), ty)
            if r is not None:
                return r
        p, ivl = shr_p(x, n)
        return mkf(ty, p, ivl, ('>>', x, y))
    if tok in ('/', '%'):
        d = y.const()
        xc = x.const()
        if d == 0:
            raise Unsupported('division by zero')
        if d is not None and xc is not None:
            return con(ty, conc(tok, ty, xc, d))
        if d is not None and has_group(x.p):
            r = via_fd(tok, x, y, ty)
            if r is not None:
                return r
        if d is not None and d > 0 and x.lo >= 0 and d & (d - 1) == 0:
            k = d.bit_length() - 1
            p, ivl = shr_p(x, k)
            if tok == '/':
                return mkf(ty, p, ivl, ('>>', x, con(y.ty, k)))
            return and_const(x, d - 1, ty)
        r = via_fd(tok, x, y, ty)
        if r is not None:
            return r
        raise Unsupported('division')
    return compare(tok, x, y)
