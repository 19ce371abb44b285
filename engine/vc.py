"""Contracts: registry, application at call sites, verification of bodies."""
import itertools
import time
import traceback
import poly
from poly import IP, iv
import val
from val import V, con, BOOL, Unsupported
import symexec
from symexec import (Exec, State, Ptr, Slice, Opaque, NIL, Tup, Cell, Panic, Panic2,
                     VerifFail, clone, FnVal)
import field
from field import FP, fp, PP, LL, FECell, SCCell, BYCell, Backend, packed

RT = 'github.com/bwesterb/go-ristretto'
ED = RT + '/edwards25519'


def meth(pkg, ty, name):
    return '(*%s.%s).%s' % (pkg, ty, name)


# ---------------------------------------------------------------- proving
def prove_range(p, lo, hi):
    l, h = iv(p)
    if l is not None and l >= lo and h is not None and h <= hi:
        return True
    if val.has_group(p):
        r = val.fd_range(p)
        if r is not None:
            return r[0] >= lo and r[1] <= hi
    l, h = poly.best_iv(p)
    if l is not None and l >= lo and h is not None and h <= hi:
        return True
    import smt
    return smt.prove_range(p, lo, hi)


def prove_eq(p, q):
    """integer polynomials equal"""
    d = p - q
    if not d.d:
        return True
    S = poly.C.extra.get('solved')
    while S:
        vs = [v for v in d.vars() if v in S]
        if not vs:
            break
        d = d.subst({v: S[v] for v in vs[:1]})
    env = poly.C.extra.get('curenv')
    if env:
        d = d.subst(env)
    if not d.d:
        return True
    l, h = poly.smart_iv(d)
    if l == 0 and h == 0:
        return True
    if prove_eq_cases(d):
        return True
    # a multiple of m smaller than m in absolute value
    tags = {poly.C.defn[v][0] for v in d.vars() if poly.C.defn[v] is not None}
    for m, t in ((LL, 'scan'), (PP, 'half')):
        if t in tags and not fp(d, m).d and prove_range(d, 1 - m, m - 1):
            return True
    import smt
    if smt.prove_range(d, 0, 0):
        return True
    # comparisons that the path has decided
    if poly.OVER and any(len(m) > 1 for m in d.d):
        bits = [v for v in d.vars() if poly.C.isb[v] and poly.C.defn[v] is not None and poly.C.defn[v][0] == 'negfloor']
        env = {}
        for v in bits[:4]:
            for b in (0, 1):
                if smt.prove_range(IP.var(v), b, b):
                    env[v] = b
                    break
        if env:
            return prove_eq(d.subst(env), IP({}))
    return False


def equation(z):
    """the equation v = Y that z = 1 stands for, for an input v: (v, Y) or None"""
    D = poly.C.defn[z]
    if D is None or D[0] != 'iszero':
        return None
    X = D[1]
    for b in [v for v in X.vars() if poly.C.isb[v]]:
        # a bit that has to be 0
        l, h = poly.smart_iv(X.subst({b: 1}))
        if l is not None and l > 0 or h is not None and h < 0:
            X = X.subst({b: 0})
    for m, c in X.d.items():
        if len(m) == 1 and c in (1, -1) and poly.C.defn[m[0]] is None and not poly.C.isb[m[0]]:
            v = m[0]
            if all(v not in n for n in X.d if n != m):
                return v, IP.var(v) - c * X
    return None


def under(p, eqs):
    """p with v replaced by Y, also within quotients floor(. / 2^k)"""
    env = dict(eqs)
    for v in p.vars():
        D = poly.C.defn[v]
        if D is not None and D[0] in ('floor', 'negfloor') and v not in env:
            q = under(D[1], eqs)
            if q != D[1]:
                f = poly.floordiv2k(q, D[2])
                env[v] = f - D[3] if D[0] == 'floor' else -f
    return p.subst(env)


def floor_env(env, vs):
    """what the equations that hold in the case env say about the quotients vs"""
    eqs = {}
    for z, b in env.items():
        if isinstance(b, IP):
            b = b.cval() if b.is_const() else None
        if b == 1:
            e = equation(z)
            if e is not None:
                eqs[e[0]] = e[1]
    out = {}
    if eqs:
        for v in vs:
            p = under(IP.var(v), {k: y for k, y in eqs.items() if k != v})
            if p != IP.var(v):
                out[v] = p.subst(env)
    return out


def prove_eq_cases(d):
    """d = 0 by cases on a z = [v = Y] in it"""
    for z in sorted(d.vars()):
        e = equation(z)
        if e is not None and not d.subst({z: 0}).d and not under(d.subst({z: 1}), dict([e])).d:
            return True
    return False


def prove_bit(r, want):
    """machine value r equals the 0/1 polynomial want"""
    if prove_eq(r.p, want):
        return True
    # want = z or 1-z with z = [X == 0]
    vs = want.vars()
    if len(vs) != 1:
        return False
    z, = vs
    D = poly.C.defn[z]
    if D is None or D[0] not in ('fiszero', 'iszero'):
        return False
    if want == IP.var(z):
        wpol = 0
    elif want == 1 - IP.var(z):
        wpol = 1
    else:
        return False
    if D[0] == 'fiszero' and len(r.p.vars()) == 1:
        # [q == 0] over the integers with |q| < modulus
        y, = r.p.vars()
        E = poly.C.defn[y]
        if E is not None and E[0] == 'iszero' and r.p == (1 - IP.var(y) if wpol else IP.var(y)):
            m = D[1].mod
            if fp(E[1], m).monic() == D[1] and prove_range(E[1], 1 - m, m - 1):
                return True
    import smt
    # every leaf is a digit; find the number they spell
    def order(x):
        ks = [E[2] if E is not None and E[0] == 'floor' else 0 for E in (poly.C.defn[v] for v in x.p.vars())]
        return (max(ks), min(ks)) if ks else (0, 0)

    def spells(P, Q=IP({})):
        if D[0] == 'iszero':
            return prove_eq(P - Q, D[1]) or prove_eq(Q - P, D[1])
        g = D[1]
        return fp(P - Q, g.mod).monic() == g and prove_range(P, 0, g.mod - 1) and (not Q.d or prove_range(Q, 0, g.mod - 1))
    a = smt.bv_nonzero(r)
    if a is not None and a[1] == wpol and all(x.lo is not None and x.lo >= 0 for x in a[0]):
        ls = sorted(a[0], key=order)
        if any(spells(packed(ls, w)) for w in (8, 32, 51, 64)):
            return True
    # [two numbers differ], digit by digit
    def side(x):
        """the variables whose digits x is one of"""
        vs, todo = set(), list(x.p.vars())
        while todo:
            v = todo.pop()
            E = poly.C.defn[v]
            if E is not None and E[0] in ('floor', 'negfloor'):
                todo += list(E[1].vars())
            else:
                vs.add(v)
        return frozenset(vs)
    ls = smt.bv_leaves(r)
    if not ls or any(x.lo is None or x.lo < 0 for x in ls):
        return False
    sides = []
    for x in ls:
        v, l = set(side(x)), [x]
        for t in [t for t in sides if t[0] & v]:
            sides.remove(t)
            v, l = v | t[0], t[1] + l
        sides.append((v, l))
    if len(sides) != 2:
        return False
    X, Y = (sorted(l, key=order) for _, l in sides)
    if len(X) != len(Y) or smt.bv_differ(r, X, Y) != wpol:
        return False
    return any(spells(packed(X, w), packed(Y, w)) for w in (8, 32, 51, 64) if w >= max(x.hi for x in X + Y).bit_length())


def prove_feq(f, g):
    d = f - g
    if not d.d:
        return True
    if field.prove_zero(d):
        return True
    env = poly.C.extra.get('curenv')
    if env and d.vars() & set(env):
        d = d.subst(env)
        return not d.d or field.prove_zero(d)
    return False


# ---------------------------------------------------------------- shapes
class Shape:
    ptr = True

    def subobjs(self):
        return ()


class Sc(Shape):
    """a reduced scalar behind a pointer"""

    def make(self, ex, st, obj, name):
        v = field.scvar(name)
        st.mem[obj] = SCCell(v)
        return fp(v, LL)

    def get(self, ex, st, ptr):
        n = ex.load(st, ptr)
        if isinstance(n, SCCell):
            p = n.p
        else:
            p = packed(n, 32)
        if not prove_range(p, 0, LL - 1):
            return None
        return fp(p, LL)

    def put(self, ex, st, ptr, f):
        ex.store(st, ptr, SCCell(field.scan(f)))

    def check(self, ex, st, ptr, f):
        n = ex.load(st, ptr)
        p = n.p if isinstance(n, SCCell) else packed(ex.mat_value(st, n, ex.ptr_tid(ptr)), 32)
        ok = []
        ok.append(('value', prove_feq(fp(p, LL), f), 'result is congruent to the specified value modulo l'))
        ok.append(('range', prove_range(p, 0, LL - 1), 'result is in [0, l)'))
        return ok


class ScExact(Sc):
    """scalar compared as an integer (no reducedness required)"""

    def check(self, ex, st, ptr, want):
        n = ex.load(st, ptr)
        p = n.p if isinstance(n, SCCell) else packed(ex.mat_value(st, n, ex.ptr_tid(ptr)), 32)
        return [('value', prove_eq(p, want), 'result is the specified integer')]

    def put(self, ex, st, ptr, p):
        ex.store(st, ptr, SCCell(p))


class ScAny(ScExact):
    """any 256-bit value in a scalar variable"""

    def make(self, ex, st, obj, name):
        v = IP.var(poly.C.new(name, 0, (1 << 256) - 1))
        st.mem[obj] = SCCell(v)
        return v

    def get(self, ex, st, ptr):
        n = ex.load(st, ptr)
        return n.p if isinstance(n, SCCell) else packed(n, 32)


class Big(Shape):
    """a *big.Int"""

    def make(self, ex, st, obj, name):
        v = IP.var(poly.C.new(name, None, None))
        st.mem[obj] = Opaque('big', v)
        return v

    def get(self, ex, st, ptr):
        n = ex.load(st, ptr)
        return n.data if isinstance(n, Opaque) and n.tag == 'big' else None


class Buf(Shape):
    """a byte slice of any length"""
    ptr = False

    def makev(self, ex, st, name):
        return symexec.new_buf(ex, st, name), ('buf', name)

    def getv(self, ex, st, x):
        return symexec.buf_token(ex, st, x)


class BufN(Buf):
    """a byte slice of any length, split into ranges of lengths"""

    def __init__(self, *lens):
        # exact lengths that are of interest; the rest is covered by ranges
        self.ranges, at = [], 0
        for n in sorted(lens):
            if n > at:
                self.ranges.append((at, n - 1))
            self.ranges.append((n, n))
            at = n + 1
        self.ranges.append((at, val.LENMAX))

    def variants(self, ex):
        return [('len%d-%d' % r if r[0] != r[1] else 'len%d' % r[0], r) for r in self.ranges]

    def makev(self, ex, st, name):
        lo, hi = ex.variant.get(name) or self.ranges[0]
        if lo == hi:
            v = IP.var(poly.C.new(name, 0, (1 << (8 * lo)) - 1))
            o = ex.new_obj(ex.array_tid(ex.byte_tid(), lo), name)
            st.mem[o] = BYCell(v, lo)
            return Slice(o, (), 0, lo, lo), ('val', lo, v)
        token = ('buf', name)
        o = ex.new_obj(-1, name)
        st.mem[o] = symexec.BufCell(token)
        n = val.sym(val.INT, 'len(%s)' % name, lo, hi)
        poly.C.extra.setdefault('buflen', {})[token] = n
        cap = val.sym(val.INT, 'cap(%s)' % name, lo, val.LENMAX)
        poly.add_fact(cap.p - n.p, 0, None)
        return Slice(o, (), 0, n, cap), ('buf', name, lo, hi)

    def getv(self, ex, st, x):
        return None


class ValOf(Shape):
    """a value parameter (not a pointer) of the given shape"""
    ptr = False

    def __init__(self, inner):
        self.inner = inner
        if hasattr(inner, 'variants'):
            self.variants = inner.variants

    def typed(self, ex, st, name, tid):
        o = ex.new_obj(tid, name)
        a = self.inner.make(ex, st, o, name)
        return st.mem.pop(o), a

    def getv(self, ex, st, x):
        return None


class By(Shape):
    """an n-byte little-endian array behind a pointer; abstract value: integer"""

    def __init__(self, n, split=None):
        self.n, self.split = n, split

    def make(self, ex, st, obj, name):
        if self.split:
            # every value is uniquely lo + 2^split hi
            v = IP.var(poly.C.new(name, 0, (1 << self.split) - 1))
            v = v + IP.var(poly.C.new(name + 'hi', 0, (1 << (8 * self.n - self.split)) - 1)) * (1 << self.split)
        else:
            v = IP.var(poly.C.new(name, 0, (1 << (8 * self.n)) - 1))
        st.mem[obj] = BYCell(v, self.n)
        return v

    def get(self, ex, st, ptr):
        n = ex.load(st, ptr)
        return n.p if isinstance(n, BYCell) else packed(n, 8)

    def put(self, ex, st, ptr, p):
        ex.store(st, ptr, BYCell(p, self.n))

    def check(self, ex, st, ptr, want):
        n = ex.load(st, ptr)
        p = n.p if isinstance(n, BYCell) else packed(n, 8)
        return [('value', prove_int(p, want), 'bytes encode the specified integer')]


def prove_int(p, want):
    """want: IP | ('canon', f) | ('mod', FP, n)  -- unique representative"""
    if isinstance(want, tuple):
        if want[0] == 'canon':
            f = want[1]
            return prove_feq(fp(p, f.mod), f) and prove_range(p, 0, f.mod - 1)
    return prove_eq(p, want)


def want_ip(want):
    if isinstance(want, tuple) and want[0] == 'canon':
        f = want[1]
        return field.canon(f) if f.mod == PP else field.scan(f)
    return want


class ByC(By):
    """bytes holding a canonical representative: abstract value ('canon', f)"""

    def put(self, ex, st, ptr, want):
        ex.store(st, ptr, BYCell(want_ip(want), self.n))


class Fe(Shape):
    """a field element with limb bounds of the named class"""

    def __init__(self, inb, outb=None):
        self.inb, self.outb = inb, outb or inb

    def make(self, ex, st, obj, name):
        f = field.fvar(name)
        st.mem[obj] = FECell(f, ex.backend.bounds[self.inb])
        return f

    def get(self, ex, st, ptr):
        n = ex.load(st, ptr)
        f, b = fe_abs(ex, n)
        want = ex.backend.bounds[self.inb]
        for (lo, hi), (wl, wh) in zip(b, want):
            if lo < wl or hi > wh:
                return None
        return f

    def put(self, ex, st, ptr, f):
        ex.store(st, ptr, FECell(f, ex.backend.bounds[self.outb]))

    def check(self, ex, st, ptr, want):
        n = ex.load(st, ptr)
        f, b = fe_abs(ex, n)
        ok = [('value', prove_feq(f, want), 'result is the specified field element')]
        bad = [i for i, ((lo, hi), (wl, wh)) in enumerate(zip(b, ex.backend.bounds[self.outb])) if lo < wl or hi > wh]
        ok.append(('bounds', not bad, 'limbs within the %s bounds %s' % (self.outb, '' if not bad else 'violated by limb %d: %s' % (bad[0], b[bad[0]]))))
        return ok


def fe_abs(ex, n):
    if isinstance(n, FECell):
        return n.f, n.b
    b = [poly.meet((v.lo, v.hi), iv(v.p)) for v in n]
    if any(poly.C.isb[u] for v in n for u in v.p.vars()) and not any(val.has_group(v.p) for v in n):
        b = [poly.meet(x, case_iv(v.p)) if any(poly.C.isb[u] for u in v.p.vars()) else x for x, v in zip(b, n)]
    return ex.backend.value(n), b


def case_iv(p, depth=4):
    """interval by case distinction on the boolean variables"""
    if depth == 0:
        return poly.best_iv(p)
    for v in sorted(p.vars()):
        if poly.C.isb[v] and poly.C.defn[v] is not None and (poly.C.defn[v][0] in ('sgn', 'fiszero', 'issq') ) or poly.C.isb[v] and poly.C.defn[v] is None:
            a, b = case_iv(p.subst({v: 0}), depth - 1), case_iv(p.subst({v: 1}), depth - 1)
            return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                    None if a[1] is None or b[1] is None else max(a[1], b[1]))
    return poly.best_iv(p)


class FeIsr(Shape):
    """result of an (inverse) square root: a field element determined up to
    sign by a relation"""

    def __init__(self, kind):
        self.kind = kind

    def put(self, ex, st, ptr, a):
        r, w = field.isr(a, self.kind)
        ex.store(st, ptr, FECell(r, ex.backend.bounds['N']))

    def check(self, ex, st, ptr, a):
        n = ex.load(st, ptr)
        r, b = fe_abs(ex, n)
        bad = [i for i, ((lo, hi), (wl, wh)) in enumerate(zip(b, ex.backend.bounds['PUB'])) if lo < wl or hi > wh]
        out = [('bounds', not bad, 'limbs within bounds')]
        I = FP.const(field.SQRT_M1)
        names = {1: 'a is a square', -1: 'a is a square', 'i': 'a is not a square', '-i': 'a is not a square', 0: 'a = 0'}
        for u in (1, -1, 'i', '-i', 0):
            if u in ('i', '-i') and self.kind != 'InvSqrtI':
                if self.kind == 'InvSqrt':
                    x = field.at_u(r * r * a, a, u)
                    out.append(('value', x is not None and x != 0, 'result is not 0 (a is not 0)'))
                continue
            if u == 0:
                v = field.at_u(r, a, 0)
                ok = v is not None and v == 0
                what = 'result is 0'
            elif self.kind == 'Sqrt':
                v = field.at_u(r * r * a ** (PP - 2), a, u)
                ok = v == 1
                what = 'result^2 = a'
            elif u in (1, -1):
                ok = field.at_u(r * r * a, a, u) == 1
                what = 'result^2 * a = 1'
            else:
                ok = field.at_u(r * r * a * I, a, u) == 1
                what = 'result^2 * i * a = 1'
            out.append(('value', ok, '%s (%s, a^((p-1)/4) = %s)' % (what, names[u], u)))
        if self.kind == 'Sqrt':
            out.append(('sign', not field.sgn(r).d, 'the root is non-negative'))
        return out


class Junk(Shape):
    """write-only output: arbitrary previous content"""

    def __init__(self, out):
        self.out = out

    def make(self, ex, st, obj, name):
        st.mem[obj] = junk(ex, ex.obj_t[obj], name)
        return None

    def get(self, ex, st, ptr):
        return ()

    def put(self, ex, st, ptr, v):
        self.out.put(ex, st, ptr, v)

    def check(self, ex, st, ptr, v):
        return self.out.check(ex, st, ptr, v)


def junk(ex, tid, name):
    t = ex.prog.types[tid]
    if t['k'] == 'array':
        return [junk(ex, t['elem'], '%s%d_' % (name, i)) for i in range(t['len'])]
    if t['k'] == 'struct':
        return [junk(ex, f[1], name + f[0]) for f in t['fields']]
    ty = ex.prog.int_ty(tid)
    if ty is not None:
        return val.sym(ty, name)
    return NIL


class Int(Shape):
    """an integer argument in [lo, hi]"""
    ptr = False

    def __init__(self, ty, lo=None, hi=None):
        self.ty, self.lo, self.hi = ty, lo, hi

    def makev(self, ex, st, name):
        x = val.sym(self.ty, name, self.lo, self.hi)
        return x, x.p

    def getv(self, ex, st, x):
        tl, th = val.trange(self.ty)
        lo = tl if self.lo is None else self.lo
        hi = th if self.hi is None else self.hi
        if not (x.lo >= lo and x.hi <= hi) and not prove_range(x.p, lo, hi):
            return None
        return x.p


I32 = (32, True)
U64 = (64, False)


class Contract:
    """params: list of (name, shape, role); role in 'in', 'out', 'inout', 'val'.
    spec(A) -> dict with the expected values of the 'out'/'inout' parameters
    and 'ret' (None | ('ptr', param) | ('int', ty, IP) | ('bool', IP) | ('bytes', want, n))"""

    def __init__(self, fn, params, spec, props, ret=None, alias=True, internal=False,
                 verify=True, apply=True, cfgs=('', 'forcegeneric'), raw=False, setup=None, bv=None, note='', cut=None):
        self.fn, self.params, self.spec, self.props = fn, params, spec, props
        self.ret, self.alias, self.internal = ret, alias, internal
        self.verify, self.apply, self.cfgs = verify, apply, cfgs
        self.setup = setup
        self.bv = bv
        self.cut = cut
        self.note = note

    def in_shape(self, i):
        return self.params[i][1]

    # ---- use at a call site
    def hook(self, ex, st, args, pos):
        A = {'_apply': True}
        if len(args) != len(self.params):
            return None
        if not self.apply and not any(hasattr(a, 'cases') for a in args):
            return None
        ps = [a for (n, sh, role), a in zip(self.params, args) if sh.ptr and isinstance(a, Ptr)]
        for a, b in itertools.combinations(ps, 2):
            # partial overlap is not covered by the alias patterns
            if a.obj == b.obj and a.path != b.path and (a.path[:len(b.path)] == b.path or b.path[:len(a.path)] == a.path):
                return None
            if a == b and not self.alias:
                return None
        for (n, sh, role), a in zip(self.params, args):
            if sh.ptr:
                if not isinstance(a, Ptr) and not (hasattr(a, 'cases') and role == 'in'):
                    return None
                if role in ('in', 'inout'):
                    v = sh.get(ex, st, a)
                    if v is None:
                        return None
                    A[n] = v
            else:
                v = sh.getv(ex, st, a)
                if v is None:
                    return None
                A[n] = v
        A['_ex'], A['_st'] = ex, st
        out = self.spec(A)
        if out is None:
            return None
        for (n, sh, role), a in zip(self.params, args):
            if role in ('out', 'inout') and n in out:
                sh.put(ex, st, a, out[n])
        r = out.get('ret', self.ret)
        return [(st, self.make_ret(ex, st, r, args))]

    def make_ret(self, ex, st, r, args):
        if r is None:
            return None
        k = r[0]
        if k == 'ptr':
            for (n, sh, role), a in zip(self.params, args):
                if n == r[1]:
                    return a
        if k == 'isrflag':
            w = field.isr(r[1], 'InvSqrtI')[1]
            return V(I32, w, 0, 1, ('leafp',))
        if k == 'int':
            p = r[2]
            lo, hi = iv(p)
            return V(r[1], p, lo, hi, ('leafp',))
        if k == 'bool':
            lo, hi = iv(r[1])
            return V(BOOL, r[1], lo, hi, ('leafp',))
        if k == 'barr':
            return BYCell(want_ip(r[1]), r[2])
        if k == 'tuple':
            return Tup(self.make_ret(ex, st, x, args) for x in r[1:])
        if k == 'bytes':
            tid = ex.array_tid(ex.byte_tid(), r[2])
            o = ex.new_obj(tid, 'bytes')
            st.mem[o] = BYCell(want_ip(r[1]), r[2])
            return Slice(o, (), 0, r[2], r[2])
        if k == 'nil':
            return NIL
        if k == 'big':
            o = ex.new_obj(ex.big_tid(), 'big')
            st.mem[o] = Opaque('big', want_ip(r[1]))
            return Ptr(o)
        if k == 'opaque':
            return r[1]
        raise VerifFail('internal', 'ret %r' % (r,))

    # ---- verification of the body
    def patterns(self):
        """alias patterns: partitions of the pointer parameters of equal type"""
        idx = [i for i, p in enumerate(self.params) if p[1].ptr]
        if not self.alias:
            return [{i: i for i in idx}]
        res = []

        def rec(k, cur):
            if k == len(idx):
                res.append(dict(cur))
                return
            i = idx[k]
            reps = sorted(set(cur.values()))
            cur[i] = i
            rec(k + 1, cur)
            for r in reps:
                if self.compat(r, i):
                    cur[i] = r
                    rec(k + 1, cur)
            cur.pop(i, None)
        rec(0, {})
        return res

    def compat(self, a, b):
        # decided by type in verify(); here by shape family
        return self.tids[a] == self.tids[b]


class Result:
    def __init__(self, fn, cfg):
        self.fn, self.cfg = fn, cfg
        self.obs = []      # (pattern, kind, ok, msg, backend)
        self.deps = set()
        self.inlined = set()
        self.time = 0.0
        self.steps = 0
        self.unsupported = []

    def add(self, pat, kind, ok, msg, backend='normaliser'):
        self.obs.append((pat, kind, bool(ok), msg, backend))

    @property
    def ok(self):
        return bool(self.obs) and all(o[2] for o in self.obs)

    def failures(self):
        return [o for o in self.obs if not o[2]]


class Verifier:
    def __init__(self, prog, cfg, registry):
        self.prog, self.cfg = prog, cfg
        self.registry = registry           # fn -> Contract
        self.deps_models = {}
        self.disabled = set()
        self.perturb = False
        self.globals_mem = None
        self.backend_name = 'generic' if cfg == 'forcegeneric' else 'radix51'
        self.results = {}
        import deps
        self.ext = deps.hooks()

    def new_exec(self, exclude=()):
        hooks = dict(self.ext)
        for fn, c in self.registry.items():
            if self.cfg in c.cfgs and fn not in exclude and fn not in self.disabled:
                hooks[fn] = c.hook
        ex = Exec(self.prog, hooks)
        ex.backend = Backend(self.backend_name)
        ex.verifier = self
        ex.cuts, ex.cut_obs = {}, []
        ex.global_init = self.global_values()
        return ex

    def global_values(self):
        """contents of package-level variables after package initialisation,
        computed by executing the init functions concretely"""
        if self.globals_mem is None:
            poly.reset()
            poly.OVER[:] = []
            ex = Exec(self.prog, dict(self.ext))
            ex.backend = Backend(self.backend_name)
            ex.in_init = True
            ex.global_init = {}
            st = State()
            for pkg in (ED, RT):
                fn = pkg + '.init'
                if fn in self.prog.funcs:
                    outs = ex.call(st, fn, [])
                    assert len(outs) == 1
                    st, r = outs[0]
                    if isinstance(r, Panic):
                        raise VerifFail('init', 'package initialisation panics: %r' % r)
            g = {}
            for name, o in ex.globals.items():
                g[name] = st.mem.get(o)
            self.globals_mem = g
            self.globals_ptr = {n: o for n, o in ex.globals.items()}
            # pointers between globals
            self.init_ex = ex
        def conv(n):
            if type(n) is list:
                return [conv(x) for x in n]
            return n
        out = {}
        for name, v in self.globals_mem.items():
            out[name] = self._rebind(v)
        return out

    def _rebind(self, v):
        """globals holding pointers/slices to init-time objects: give a maker"""
        def has_ptr(n):
            if type(n) is list:
                return any(has_ptr(x) for x in n)
            return isinstance(n, (Ptr, Slice))
        if not has_ptr(v):
            return v
        init_ex = self.init_ex
        rev = {o: n for n, o in init_ex.globals.items()}

        def mk(ex, st):
            def conv(n):
                if type(n) is list:
                    return [conv(x) for x in n]
                if isinstance(n, Ptr) and n.obj in rev:
                    name = rev[n.obj]
                    o = ex.global_by_name(st, name, init_ex.obj_t[n.obj])
                    return Ptr(o, n.path)
                return Opaque('initptr', n)
            return conv(v)
        return mk

    # ------------------------------------------------------------
    def verify(self, fn, patterns=None):
        c = self.registry[fn]
        key = fn
        if key in self.results:
            return self.results[key]
        res = Result(fn, self.cfg)
        self.results[key] = res
        t0 = time.time()
        if fn not in self.prog.funcs:
            res.add('', 'exists', False, 'function %s does not exist in this build' % fn)
            return res
        f = self.prog.funcs[fn]
        if len(f['params']) != len(c.params):
            res.add('', 'signature', False, 'unexpected number of parameters')
            return res
        c.tids = {i: t for i, (n, t) in enumerate(f['params'])}
        for pat in (c.patterns()[:1] if self.perturb else c.patterns()):
            vs = self.variants(c, pat)
            for var in (vs[:1] if self.perturb and not any(isinstance(p[1], BufN) for p in c.params) else vs):
                self.verify_pattern(c, f, pat, res, var)
        res.time = time.time() - t0
        return res

    def variants(self, c, pat):
        """combinations of the permitted representation classes of the inputs"""
        ex = self.new_exec()
        axes = []
        for i, (n, sh, role) in enumerate(c.params):
            if not sh.ptr and hasattr(sh, 'variants'):
                axes.append([(n, nm, b) for nm, b in sh.variants(ex)])
            if not sh.ptr or pat[i] != i:
                continue
            src = [j for j in pat if pat[j] == i and c.params[j][2] in ('in', 'inout')]
            if src and hasattr(c.params[src[0]][1], 'variants'):
                axes.append([(n, nm, b) for nm, b in c.params[src[0]][1].variants(ex)])
        return list(itertools.product(*axes))

    def pat_name(self, c, pat):
        groups = {}
        for i, r in pat.items():
            groups.setdefault(r, []).append(c.params[i][0])
        g = ['='.join(x) for x in groups.values() if len(x) > 1]
        return ','.join(g)

    def verify_pattern(self, c, f, pat, res, var=()):
        pn = self.pat_name(c, pat)
        if len({nm for _, nm, _ in var} - {'pub', 'norm', 'cp', 'niels'}) > 0:
            pn += '{%s}' % ','.join('%s:%s' % (n, nm) for n, nm, _ in var)
        poly.reset()
        poly.OVER[:] = []
        try:
            ex = self.new_exec(exclude=(c.fn,))
            ex.variant = {n: b for n, _, b in var}
            if c.setup:
                c.setup(ex)
            st = State()
            A, args, objs = {}, [], {}
            for i, (n, sh, role) in enumerate(c.params):
                tid = f['params'][i][1]
                if sh.ptr:
                    r = pat[i]
                    if r != i:
                        args.append(args[r])
                        continue
                    # the representative gets the input shape of the first 'in' member
                    members = [j for j in pat if pat[j] == i]
                    o = ex.new_obj(ex.prog.elem(tid), n)
                    objs[i] = o
                    src = [j for j in members if c.params[j][2] in ('in', 'inout')]
                    if src:
                        v = c.params[src[0]][1].make(ex, st, o, n)
                        for j in src:
                            A[c.params[j][0]] = v
                    else:
                        st.mem[o] = junk(ex, ex.obj_t[o], n)
                    args.append(Ptr(o))
                else:
                    x, a = sh.typed(ex, st, n, tid) if hasattr(sh, 'typed') else sh.makev(ex, st, n)
                    args.append(x)
                    A[n] = a
            pre = {o: clone(st.mem[o]) for o in st.mem}
            pre_objs = dict(objs)
            A['_ex'], A['_st'] = ex, st
            if c.cut:
                ex.cuts[c.fn] = lambda ex, f: c.cut(ex, f, A, args, st)
            outs = ex.run(st, c.fn, list(args))
            for ok, msg in ex.cut_obs:
                res.add(pn, 'invariant', ok, msg)
            res.deps |= set(ex.applied)
            res.inlined |= ex.inlined
            res.steps += ex.steps
            if not outs:
                res.add(pn, 'reach', False, 'no feasible execution (vacuous)')
            for st2, r in outs:
                self.check_outcome(c, ex, st2, r, A, args, pat, pre, pn, res)
        except VerifFail as e:
            res.unsupported.append(str(e))
            res.add(pn, 'engine:' + e.kind, False, '%s %s' % (e.msg, e.pos))
        except Unsupported as e:
            res.unsupported.append(str(e))
            res.add(pn, 'engine:unsupported', False, str(e))
        except Exception as e:
            if __debug__ and getattr(self, 'debug', False):
                raise
            res.unsupported.append('%s: %s' % (type(e).__name__, e))
            res.add(pn, 'engine:internal', False, '%s: %s %s' % (type(e).__name__, e, traceback.format_exc(limit=-3)))
        finally:
            poly.OVER[:] = []

    def check_outcome(self, c, ex, st, r, A, args, pat, pre, pn, res):
        ex.push_facts(st)
        poly.C.extra['curenv'] = st.env
        if st.ghost.get('randfail'):
            res.add(pn, 'randfail', isinstance(r, Panic), 'a failing random source is not ignored')
            return
        if isinstance(r, Panic):
            res.add(pn, 'panic', False, 'panic: %s at %s' % (r.why, r.pos))
            return
        if not self.perturb:
            res.add(pn, 'nopanic', True, 'no panic or out-of-range access on this path')
        if st.env:
            A = {k: subst_abs(v, st.env) for k, v in A.items()}
        A = dict(A)
        A['_ex'], A['_st'] = ex, st
        out = c.spec(A)
        if st.env:
            out = {k: subst_abs(v, st.env) for k, v in out.items()}
        if self.perturb:
            out = self.perturbed(out)
            for i, (n, sh, role) in enumerate(c.params):
                if role in ('out', 'inout') and n in out:
                    for kind, ok, msg in sh.check(ex, st, args[i], out[n]):
                        if kind == 'value':
                            res.add(pn, kind, ok, msg)
            if 'ret' in out:
                for kind, ok, msg in self.check_ret(c, ex, st, r, out['ret'], args):
                    res.add(pn, kind, ok, msg)
            return
        # outputs
        written = set()
        for i, (n, sh, role) in enumerate(c.params):
            if role in ('out', 'inout'):
                written.add(args[i].obj)
                if n not in out:
                    continue
                for kind, ok, msg in sh.check(ex, st, args[i], out[n]):
                    res.add(pn, '%s.%s' % (n, kind), ok, msg)
        # return value
        want = out.get('ret', c.ret)
        for kind, ok, msg in self.check_ret(c, ex, st, r, want, args):
            res.add(pn, kind, ok, msg)
        # frame
        for o, old in pre.items():
            if o in written:
                continue
            same = self.same(ex, st, o, old)
            res.add(pn, 'frame', same, 'argument %s is unchanged' % ex.obj_name.get(o))
        bad = []
        for name, o in ex.globals.items():
            if o in st.mem and not self.global_same(ex, st, name, o):
                bad.append(name)
        res.add(pn, 'frame', not bad, 'package-level variables are unchanged %s' % ','.join(bad))

    def perturbed(self, out):
        """a deliberately wrong specification (vacuity guard)"""
        def pert(w):
            if isinstance(w, (IP, FP)):
                return w + 1
            if hasattr(w, 'perturbed'):
                return w.perturbed()
            if isinstance(w, tuple) and w:
                if w[0] == 'canon':
                    return ('canon', w[1] + 1)
                if w[0] == 'int':
                    return ('int', w[1], 1 - w[2])
                if w[0] == 'bool':
                    return ('bool', 1 - w[1])
                if w[0] in ('bytes', 'barr', 'big'):
                    x = pert(w[1])
                    return None if x is None else (w[0], x) + tuple(w[2:])
            return None
        r = {k: pert(v) for k, v in out.items()}
        return {k: v for k, v in r.items() if v is not None}

    def global_same(self, ex, st, name, o):
        gi = ex.global_init.get(name)
        cur = st.mem[o]
        if gi is None:
            z = ex.zero(ex.obj_t[o]) if name.startswith('github.com/bwesterb') else None
            if z is None:
                return True
            return node_eq(cur, z)
        if callable(gi):
            gi = gi(ex, st)
        return node_eq(cur, gi)

    def same(self, ex, st, o, old):
        cur = st.mem[o]
        if cur is old:
            return True
        if isinstance(old, Cell) and not isinstance(cur, Cell):
            old = old.materialise(ex, st, ex.obj_t[o])
        if type(old) is list and type(cur) is list:
            old = ex.mat_value(st, old, ex.obj_t[o])
            cur = ex.mat_value(st, clone(cur), ex.obj_t[o])
        if st.env:
            old = symexec.subst_node(old, st.env)
        return node_eq(cur, old)

    def check_ret(self, c, ex, st, r, want, args):
        if want is None:
            return [('ret', r is None, 'no result')] if r is not None else []
        k = want[0]
        if k == 'any':
            return []
        if k == 'ptr':
            for (n, sh, role), a in zip(c.params, args):
                if n == want[1]:
                    return [('ret', isinstance(r, Ptr) and r == a, 'returns its receiver')]
        if k == 'isrflag':
            ok = isinstance(r, V)
            out = []
            for u in (1, -1, 'i', '-i', 0):
                v = field.at_u(fp(r.p), want[1], u) if ok else None
                out.append(('ret', v == (1 if u in (1, -1) else 0), 'flag tells whether a is a non-zero square (a^((p-1)/4) = %s)' % u))
            return out
        if k == 'int':
            return [('ret', isinstance(r, V) and prove_bit(r, want[2]), 'returned value is as specified')]
        if k == 'bool':
            return [('ret', isinstance(r, V) and prove_bit(r, want[1]), 'returned boolean is as specified')]
        if k == 'barr':
            p = r.p if isinstance(r, BYCell) else packed(r, 8)
            return [('ret', prove_int(p, want[1]), 'returned bytes are as specified')]
        if k == 'bytes':
            if not isinstance(r, Slice) or r.len != want[2]:
                return [('ret', False, 'returned slice has the wrong length')]
            p = packed(ex.slice_vals(st, r), 8)
            return [('ret', prove_int(p, want[1]), 'returned bytes are as specified')]
        if k == 'big':
            ok = isinstance(r, Ptr)
            if ok:
                n = ex.load(st, r)
                ok = isinstance(n, Opaque) and n.tag == 'big' and prove_int(n.data, want[1])
            return [('ret', ok, 'returned integer is as specified')]
        if k == 'nil':
            return [('ret', r is NIL, 'returned error is nil')]
        if k == 'err':
            return [('ret', isinstance(r, Opaque) and r.tag == 'error', 'returns an error')]
        if k == 'opaque':
            return [('ret', isinstance(r, Opaque) and r.tag == want[1].tag and opaque_eq(r.data, want[1].data), 'returned value is as specified')]
        if k == 'custom':
            return [('ret', want[1](ex, st, r), want[2])]
        if k == 'tuple':
            out = []
            if not isinstance(r, Tup) or len(r) != len(want) - 1:
                return [('ret', False, 'result count')]
            for x, w in zip(r, want[1:]):
                out += self.check_ret(c, ex, st, x, w, args)
            return out
        raise VerifFail('internal', 'ret %r' % (want,))


def opaque_eq(a, b):
    if isinstance(a, IP) and isinstance(b, IP):
        return prove_eq(a, b)
    return a == b


def subst_abs(v, env):
    if isinstance(v, (IP, FP)):
        return v.subst(env)
    if isinstance(v, (list, tuple)):
        return type(v)(subst_abs(x, env) for x in v)
    if hasattr(v, 'subst') and not isinstance(v, type):
        return v.subst(env)
    return v


def node_eq(a, b):
    if type(a) is list and type(b) is list:
        return len(a) == len(b) and all(node_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, V) and isinstance(b, V):
        return a.p == b.p or prove_eq(a.p, b.p)
    if isinstance(a, FECell) and isinstance(b, FECell):
        return a.f == b.f and a.b == b.b
    if isinstance(a, (SCCell, BYCell)) and type(a) is type(b):
        return a.p == b.p or prove_eq(a.p, b.p)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a is b or (a.tag == b.tag and opaque_eq(a.data, b.data))
    if isinstance(a, Cell) and isinstance(b, Cell):
        return a is b or (type(a) is type(b) and a.same(b))
    return a is b or a == b
