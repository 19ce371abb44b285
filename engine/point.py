"""Curve points: formal integer combinations of point symbols, the abstract
memory cells for the coordinate systems of the library, and the recognition of
coordinates as group elements.

The group of points of the (complete) twisted Edwards curve
    -x^2 + y^2 = 1 + d x^2 y^2
is used through the addition law only: a value G = sum c_i P_i stands for a
point with affine coordinates (x_G, y_G) satisfying the curve equation.
"""
import poly
from poly import IP, iv
import val
from val import V
import symexec
from symexec import Cell, VerifFail
import field
from field import FP, fp, PP, FECell

D = (-121665 * pow(121666, -1, PP)) % PP
I = field.SQRT_M1


# ---------------------------------------------------------------- concrete curve
def cadd(p, q):
    (x1, y1), (x2, y2) = p, q
    k = D * x1 * x2 % PP * y1 % PP * y2 % PP
    return ((x1 * y2 + y1 * x2) * pow(1 + k, -1, PP) % PP,
            (y1 * y2 + x1 * x2) * pow(1 - k, -1, PP) % PP)


def cmul(n, p):
    r = (0, 1)
    while n:
        if n & 1:
            r = cadd(r, p)
        p = cadd(p, p)
        n >>= 1
    return r


def oncurve(x, y):
    return (y * y - x * x - 1 - D * x * x % PP * y * y) % PP == 0


def _base():
    y = 4 * pow(5, -1, PP) % PP
    x2 = (y * y - 1) * pow(D * y * y + 1, -1, PP) % PP
    x = pow(x2, (PP + 3) // 8, PP)
    if (x * x - x2) % PP:
        x = x * I % PP
    if x & 1:
        x = PP - x
    return x, y


BASE = _base()            # RFC 7748/9496 base point: y = 4/5, x non-negative
TORSION = [(0, 1), (0, PP - 1), (I, 0), (PP - I, 0)]
_logs = None


def logs():
    """(x, y) -> (k, torsion index) for the multiples k = (v+1) 256^i and small
    k of the base point, up to the 4-torsion"""
    global _logs
    if _logs is None:
        L = {}
        p = BASE
        for i in range(32):
            q = p
            for v in range(1, 9):
                for j, t in enumerate(TORSION):
                    L.setdefault(cadd(q, t), (v * 256 ** i, j))
                q = cadd(q, p)
            for _ in range(8):
                p = cadd(p, p)
        _logs = L
    return _logs


# ---------------------------------------------------------------- group values
class G:
    """sum of coefficient * symbol"""
    __slots__ = ('d', 'h')

    def __init__(self, d):
        self.d = {k: c for k, c in d.items() if c.d}
        self.h = None

    @staticmethod
    def sym(s):
        return G({s: IP.const(1)})

    def __eq__(self, o):
        return isinstance(o, G) and self.d == o.d

    def __hash__(self):
        if self.h is None:
            self.h = hash(frozenset(self.d.items()))
        return self.h

    def __add__(self, o):
        r = dict(self.d)
        for k, c in o.d.items():
            r[k] = r[k] + c if k in r else c
        return G(r)

    def __neg__(self):
        return G({k: -c for k, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def times(self, c):
        if not isinstance(c, IP):
            c = IP.const(c)
        return G({k: x * c for k, x in self.d.items()})

    def subst(self, env):
        r = {k: c.subst(env) for k, c in self.d.items()}
        if all(r[k] is self.d[k] for k in r):
            return self
        return G(r)

    def vars(self):
        s = set()
        for c in self.d.values():
            s |= c.vars()
        return s

    def mod_torsion(self):
        return G({k: c for k, c in self.d.items() if k[0] != 'tor'})

    def norm(self):
        """digits recombined"""
        return G({k: val.unfd(c) for k, c in self.d.items()})

    def __repr__(self):
        return ' + '.join('(%r)%s' % (c, ':'.join(map(str, k))[:40]) for k, c in self.d.items()) or 'O'


ZERO = G({})


def const_point(x, y):
    """group value of a constant point"""
    if (x, y) == (0, 1):
        return ZERO
    e = logs().get((x, y))
    for s in (1, -1):
        e = logs().get((x * s % PP, y))
        if e is not None:
            k, j = e
            g = G({('B',): IP.const(s * k)})
            if j:
                g = g + G({('tor', j): IP.const(s)})
            return g
    for j, t in enumerate(TORSION):
        if j and t == (x, y):
            return G({('tor', j): IP.const(1)})
    return G({('pt', x, y): IP.const(1)})


def concrete(g):
    """affine coordinates of a group value made of constant points only"""
    r = (0, 1)
    for k, c in g.d.items():
        if not c.is_const():
            return None
        if k == ('B',):
            p = BASE
        elif k[0] == 'tor':
            p = TORSION[k[1]]
        elif k[0] == 'pt':
            p = (k[1], k[2])
        else:
            return None
        n = c.cval()
        if n < 0:
            p, n = (-p[0] % PP, p[1]), -n
        if n.bit_length() > 300:
            return None
        r = cadd(r, cmul(n, p))
    return r


def orient(g):
    k = min(g.d)
    c = g.d[k]
    m = min(c.d)
    if c.d[m] < 0:
        return -g, -1
    return g, 1


def unit(name):
    """a variable for a non-zero field element"""
    v = poly.C.new('%s%d' % (name, len(poly.C.name)), None, None)
    poly.C.extra.setdefault('unitvars', set()).add(v)
    return FP.var(v)


def xy(g):
    """affine coordinates as field polynomials"""
    c = concrete(g)
    if c is not None:
        return FP.const(c[0]), FP.const(c[1])
    h, s = orient(g)
    T = poly.C.extra.setdefault('xy', {})
    if h not in T:
        n = len(poly.C.name)
        xv, yv = poly.C.new('x%d' % n, None, None), poly.C.new('y%d' % n, None, None)
        T[h] = (FP.var(xv), FP.var(yv))
        P = poly.C.extra.setdefault('ptvars', {})
        P[xv] = h
        P[yv] = h
        # x^2 y^2 = (y^2 - x^2 - 1)/d
        di = pow(D, -1, PP)
        rhs = FP({((yv, 2),): di, ((xv, 2),): PP - di, (): PP - di})
        poly.C.extra.setdefault('rules', []).append((((xv, 2), (yv, 2)), rhs))
        poly.C.extra.setdefault('rulevars', {})[xv] = (((xv, 2), (yv, 2)), rhs)
    x, y = T[h]
    return (x if s == 1 else -x), y


# ---------------------------------------------------------------- recognition
def strip_units(f):
    """f = monomial of unit variables * rest"""
    U = poly.C.extra.get('unitvars', ())
    if not f.d or not U:
        return f
    mn = None
    for m in f.d:
        e = {v: x for v, x in m if v in U}
        mn = e if mn is None else {v: min(x, e.get(v, 0)) for v, x in mn.items()}
        mn = {v: x for v, x in mn.items() if x}
        if not mn:
            return f
    r = {}
    for m, c in f.d.items():
        r[tuple((v, x - mn.get(v, 0)) for v, x in m if x != mn.get(v, 0))] = c
    return FP(r, f.mod)


def is_unit(f, us):
    """f is a product of a constant, unit variables and the given units"""
    f = strip_units(f)
    if not f.d:
        return False
    if f.is_const():
        return True
    m = f.monic()
    prods = [FP.const(1)]
    seen = set()
    for _ in range(4):
        nxt = []
        for p in prods:
            for u in us:
                q = strip_units(p * u)
                if not q.d:
                    continue
                q = q.monic()
                if q in seen:
                    continue
                seen.add(q)
                if q == m:
                    return True
                nxt.append(q)
        prods = nxt
        if len(seen) > 60:
            break
    return False


def add_frac(a, b):
    """addition law: numerators and denominators of a + b, the denominators
    being units by completeness"""
    (x1, y1), (x2, y2) = xy(a), xy(b)
    k = x1 * x2 * y1 * y2 * D
    return x1 * y2 + y1 * x2, 1 + k, y1 * y2 + x1 * x2, 1 - k


def boolvar(fs):
    best = None
    for f in fs:
        for m in f.d:
            for v, _ in m:
                if poly.C.isb[v] and (best is None or v < best):
                    best = v
    return best


def recognise(X, xd, Y, yd, hints=()):
    """the group value with affine coordinates X/xd, Y/yd, or None"""
    T = poly.C.extra.setdefault('recog', {})
    key = (X, xd, Y, yd)
    if key not in T:
        T[key] = _recognise(X, xd, Y, yd)
        if T[key] is not None:
            T[key] = T[key].norm()
    return T[key]


def _recognise(X, xd, Y, yd):
    v = boolvar((X, xd, Y, yd))
    if v is not None:
        g = poly.C.grp[v]
        if g is None:
            e0, e1 = {v: 0}, {v: 1}
            g0 = recognise(*[f.subst(e0) for f in (X, xd, Y, yd)])
            if g0 is None:
                return None
            g1 = recognise(*[f.subst(e1) for f in (X, xd, Y, yd)])
            if g1 is None:
                return None
            return g0 + (g1 - g0).times(IP.var(v))
        mem = [u for u, _ in poly.C.groups[g]]
        z = {u: 0 for u in mem}
        g0 = recognise(*[f.subst(z) for f in (X, xd, Y, yd)])
        if g0 is None:
            return None
        vs = set().union(*[f.vars() for f in (X, xd, Y, yd)])
        r = g0
        for u in mem:
            if u in vs:
                e = dict(z)
                e[u] = 1
                gu = recognise(*[f.subst(e) for f in (X, xd, Y, yd)])
                if gu is None:
                    return None
                r = r + (gu - g0).times(IP.var(u))
        return r
    vs = set().union(*[f.vars() for f in (X, xd, Y, yd)])
    P = poly.C.extra.get('ptvars', {})
    base = []
    for v in sorted(vs):
        if v in P and P[v] not in base:
            base.append(P[v])
    if not base:
        X, xd = ratio(X, xd)
        Y, yd = ratio(Y, yd)
        if not all(f.is_const() for f in (X, xd, Y, yd)) or not xd.d or not yd.d:
            return None
        x = X.cval() * pow(xd.cval(), -1, PP) % PP
        y = Y.cval() * pow(yd.cval(), -1, PP) % PP
        if not oncurve(x, y):
            return None
        return const_point(x, y)
    if len(base) > 3:
        return None

    def direct(g):
        x, y = xy(g)
        return is_unit(xd, ()) and is_unit(yd, ()) and not (X - xd * x).d and not (Y - yd * y).d

    for g in base:
        for c in (g, -g):
            if direct(c):
                return c
    pairs = [(g, g) for g in base] + [(base[i], base[j]) for i in range(len(base)) for j in range(i)]
    for a, b in pairs:
        for h in (b, -b):
            xn, xe, yn, ye = add_frac(a, h)
            for s in (1, -1):
                if (X * xe - xd * xn * s).d or (Y * ye - yd * yn).d:
                    continue
                us = (xe, ye)
                if is_unit(xd, us) and is_unit(yd, us):
                    r = a + h
                    return r if s == 1 else -r
    return None


def ratio(a, b):
    """cancel common unit variables of a fraction"""
    if a.is_const() and b.is_const():
        return a, b
    U = poly.C.extra.get('unitvars', ())
    mn = None
    for f in (a, b):
        for m in f.d:
            e = {v: x for v, x in m if v in U}
            mn = e if mn is None else {v: min(x, e.get(v, 0)) for v, x in mn.items()}
    mn = {v: x for v, x in (mn or {}).items() if x}
    if not mn:
        return a, b
    out = []
    for f in (a, b):
        out.append(FP({tuple((v, x - mn.get(v, 0)) for v, x in m if x != mn.get(v, 0)): c for m, c in f.d.items()}, f.mod))
    return out


# ---------------------------------------------------------------- cells
class PtCell(Cell):
    """a point in one of the coordinate systems; box: limb bounds per coordinate"""
    __slots__ = ('kind', 'g', 'box', 'coords')

    def __init__(self, kind, g, box):
        self.kind, self.g, self.box = kind, g, box
        self.coords = None

    def __repr__(self):
        return '%s(%r)' % (self.kind, self.g)

    def materialise(self, ex, st, tid):
        if self.coords is None:
            x, y = xy(self.g)
            if self.kind == 'ext':
                l = unit('z')
                fs = [x * l, y * l, l, x * y * l]
            elif self.kind == 'proj':
                l = unit('z')
                fs = [x * l, y * l, l]
            elif self.kind == 'comp':
                z, t = unit('z'), unit('t')
                fs = [x * z, y * t, z, t]
            elif self.kind == 'niels':
                fs = [y + x, y - x, x * y * (2 * D)]
            self.coords = [FECell(f, b) for f, b in zip(fs, self.box)]
        return list(self.coords)

    def subst(self, env):
        g = self.g.subst(env)
        return self if g is self.g else PtCell(self.kind, g, self.box)

    def same(self, o):
        return self.kind == o.kind and self.g == o.g and self.box == o.box

    def equal(self, ex, st, o):
        return None


class TableCell(Cell):
    """precomputed table: entry [i][v] is the Niels form of (v+1) 256^i g"""
    __slots__ = ('g', 'box', 'rows')

    def __init__(self, g, box):
        self.g, self.box = g, box
        self.rows = None

    def __repr__(self):
        return 'Table(%r)' % (self.g,)

    def materialise(self, ex, st, tid):
        if self.rows is None:
            self.rows = [[PtCell('niels', self.g.times((v + 1) << (8 * i)), self.box) for v in range(8)] for i in range(32)]
        return [list(r) for r in self.rows]

    def subst(self, env):
        g = self.g.subst(env)
        return self if g is self.g else TableCell(g, self.box)

    def same(self, o):
        return self.g == o.g and self.box == o.box


def fe_abs(ex, st, n):
    import vc
    return vc.fe_abs(ex, n)


def coords_of(ex, st, kind, node):
    """[(FP, bounds)] of a node"""
    if isinstance(node, PtCell):
        node = node.materialise(ex, st, None)
    return [fe_abs(ex, st, c) for c in node]


def abstract(ex, st, kind, node):
    """(group value, box) of a memory node holding a point, or None"""
    if isinstance(node, PtCell):
        if node.kind != kind:
            return None
        return node.g, node.box
    if type(node) is not list:
        return None
    fs = coords_of(ex, st, kind, node)
    box = tuple(tuple(b) for _, b in fs)
    f = [a for a, _ in fs]
    if kind == 'ext':
        X, Y, Z, T = f
        g = recognise(X, Z, Y, Z)
        if g is None or (T * Z - X * Y).d:
            return None
    elif kind == 'proj':
        X, Y, Z = f
        g = recognise(X, Z, Y, Z)
    elif kind == 'comp':
        X, Y, Z, T = f
        g = recognise(X, Z, Y, T)
    else:
        yp, ym, t = f
        h = pow(2, -1, PP)
        x, y = (yp - ym) * h, (yp + ym) * h
        g = recognise(x, FP.const(1), y, FP.const(1))
        if g is None or (t - x * y * (2 * D)).d:
            return None
    if g is None:
        return None
    return g, box


def geq(a, b, torsion=False):
    """a = b for all values of the variables (up to 4-torsion if torsion)"""
    import vc
    d = a - b
    if torsion:
        d = d.mod_torsion()
    for k, c in d.d.items():
        if not vc.prove_eq(c, IP.const(0)):
            return False
    return True


class PV:
    """abstract value of a point parameter"""
    __slots__ = ('g', 'box', 'cell')

    def __init__(self, g, box=None, cell=None):
        self.g, self.box, self.cell = g, box, cell

    def subst(self, env):
        c = self.cell
        return PV(self.g.subst(env), self.box, c.subst(env) if c is not None else None)

    def perturbed(self):
        return PV(self.g + G.sym(('wrong',)), self.box)

    def __repr__(self):
        return 'PV(%r)' % (self.g,)


def inside(box, cls):
    for b, c in zip(box, cls):
        for (lo, hi), (wl, wh) in zip(b, c):
            if lo is None or hi is None or lo < wl or hi > wh:
                return False
    return True


def hull(a, b):
    return tuple(tuple((min(p[0], q[0]), max(p[1], q[1])) for p, q in zip(x, y)) for x, y in zip(a, b))


class Boxes:
    """limb bounds of the coordinate systems"""

    def __init__(self, be):
        B = be.bounds
        N = B['N']
        self.norm = (N,) * 4
        n2 = tuple((2 * lo, 2 * hi) for lo, hi in N)
        if be.name == 'radix51':
            self.pub = [('pub', (B['PUB'],) * 4)]
            self.cp = (B['W'],) * 4
            self.niels = (B['PUB'],) * 3
        else:
            dec = (n2, N, N, N)
            base = (B['BX'], B['BY'], N, B['BT'])
            self.pub = [('dec', dec), ('base', hull((N,) * 4, base))]
            n3 = tuple((3 * lo, 3 * hi) for lo, hi in N)
            self.cp = (n3,) * 4
            self.niels = (N,) * 3

    def classes(self, kind, cls):
        if kind == 'ext':
            return self.pub if cls == 'pub' else [('norm', self.norm)]
        if kind == 'proj':
            return [(n, b[:3]) for n, b in self.pub] if cls == 'pub' else [('norm', self.norm[:3])]
        if kind == 'comp':
            return [('cp', self.cp)]
        return [('niels', self.niels)]


def boxes(ex):
    be = ex.backend
    b = getattr(be, 'boxes', None)
    if b is None:
        b = be.boxes = Boxes(be)
    return b
