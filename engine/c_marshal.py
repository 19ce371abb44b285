"""Contracts of the marshalling functions (C18).

A text t stands for the bytes base64.RawURLEncoding decodes it to (point texts
of 64 characters: the bytes encoding/hex decodes it to, if it does)."""
from vc import *
from c_point import R, PtS
from c_scalar import S
from c_ristretto import Enc, DecPV, PtDec, dec_ok, Dec, symexec_subst
import deps

B64 = 'encoding/base64.RawURLEncoding'


def alternatives(ex, st, holds):
    """is there an encoded value that satisfies holds?"""
    return [(v, P) for (kind, n, P), v in poly.C.extra.get('encoders', {}).items() if kind == B64 and n == 32 and holds(P)]


def text_ok(ex, st, vs, holds):
    if len(vs) != 43:
        return False
    p = packed(vs, 8)
    return any(prove_eq(p, v) for v, P in alternatives(ex, st, holds))


def holds_of(A, name):
    a = A[name]
    if isinstance(a, FP):
        return lambda P, wrong=0: prove_int(P, ('canon', a + wrong))
    e = Enc(A['_ex'], A['_st'], a)
    e2 = Enc(A['_ex'], A['_st'], a)
    e2.wrong = True
    return lambda P, wrong=0: (e2 if wrong else e).holds(P)


class Want(tuple):
    """('custom', check, text) with a deliberately wrong version"""

    def perturbed(self):
        return ('custom', lambda ex, st, r: self[1](ex, st, r, 1), self[2])


def marshal_text(name):
    def spec(A):
        h = holds_of(A, name)

        def ok(ex, st, r, wrong=0):
            if not isinstance(r, Tup) or len(r) != 2 or r[1] is not NIL or not isinstance(r[0], Slice) or r[0].len != 43:
                return False
            return text_ok(ex, st, ex.slice_vals(st, r[0]), lambda P: h(P, wrong))
        return {'ret': Want(('custom', ok, 'the unpadded URL-safe base64 text of the 32-byte encoding, and no error'))}
    return spec


def marshal_binary(name):
    def spec(A):
        h = holds_of(A, name)

        def ok(ex, st, r, wrong=0):
            if not isinstance(r, Tup) or len(r) != 2 or r[1] is not NIL or not isinstance(r[0], Slice) or r[0].len != 32:
                return False
            return h(packed(ex.slice_vals(st, r[0]), 8), wrong)
        return {'ret': Want(('custom', ok, 'the 32-byte encoding, and no error'))}
    return spec


def string(name):
    def spec(A):
        h = holds_of(A, name)

        def ok(ex, st, r, wrong=0):
            if not isinstance(r, Opaque) or r.tag != 'str' or type(r.data) is not list:
                return False
            return text_ok(ex, st, r.data, lambda P: h(P, wrong))
        return {'ret': Want(('custom', ok, 'the unpadded URL-safe base64 text of the 32-byte encoding'))}
    return spec


# ---------------------------------------------------------------- parsing
def binary_cases(tok, env):
    """[(condition, value)]: accepted inputs and the 32 bytes they stand for"""
    if tok[0] == 'val' and tok[1] == 32:
        return [(IP.const(1), tok[2])]
    return []


def text_cases(hexok):
    def f(tok, env):
        if tok[0] == 'val':
            key, L = tok, tok[1]
        else:
            key, L = tok[:2], poly.C.extra['buflen'][tok[:2]]
        out, left = [], IP.const(1)
        if hexok and L == 64:
            ok, _ = deps.dec_bits('hex', key, L)
            out.append((ok, deps.dec_value('hex', key, 32)))
            left = 1 - ok
        if deps.dec_max(B64, symexec.len_iv(L)[1]) >= 32:
            ok, n = deps.dec_bits(B64, key, L)
            out.append((left * ok * val.is_zero_bit(n.p - 32), deps.dec_value(B64, key, 32)))
        return out
    return f


def known(p, env):
    """value of a 0/1 condition on this path, or None"""
    p = symexec_subst(p, env)
    if p.is_const():
        return p.cval()
    lo, hi = poly.smart_iv(p)
    return lo if lo == hi else None


def split_conditions(st, cases):
    """the conditions that may hold on this path: [(value, condition decided true?)]"""
    out = []
    for c, v in cases:
        k = known(c, st.env)
        if k == 0:
            continue
        out.append((v, k == 1))
    return out


class ScParsed(Sc):
    """receiver of a scalar parser"""

    def check(self, ex, st, ptr, w):
        out = []
        for v, sure in split_conditions(st, w.cases):
            n = ex.load(st, ptr)
            p = n.p if isinstance(n, SCCell) else packed(ex.mat_value(st, n, ex.ptr_tid(ptr)), 32)
            f = fp(poly.mod2k(v, 253), LL) + w.wrong
            out.append(('value', prove_feq(fp(p, LL), f), 'the scalar is the value of the 32 bytes modulo l'))
            out.append(('range', prove_range(p, 0, LL - 1), 'result is in [0, l)'))
        return out


class Parsed:
    def __init__(self, cases, wrong=0):
        self.cases, self.wrong = cases, wrong

    def perturbed(self):
        return Parsed(self.cases, 1)

    def subst(self, env):
        return self


class PtParsed(PtDec):
    def check(self, ex, st, ptr, w):
        out = []
        for v, sure in split_conditions(st, w.cases):
            d = DecPV(v).subst(st.env)
            d.wrong = bool(w.wrong)
            out += PtDec.check(self, ex, st, ptr, d)
        return out


def parse_scalar(cases):
    def spec(A):
        cs = cases(A['data'], None)

        def ok(ex, st, r):
            L = split_conditions(st, cs)
            if r is NIL:
                return len(L) == 1 and L[0][1]
            return isinstance(r, Opaque) and r.tag == 'error' and not L
        return {'s': Parsed(cs), 'ret': ('custom', ok, 'no error exactly if the input stands for 32 bytes')}
    return spec


def parse_point(cases):
    def spec(A):
        cs = cases(A['data'], None)

        def ok(ex, st, r):
            L = split_conditions(st, cs)
            if r is NIL:
                if len(L) != 1 or not L[0][1]:
                    return False
                v = L[0][0]
                return known(dec_ok(v), st.env) == 1 or known(Dec(v).accept, st.env) == 1
            if not isinstance(r, Opaque) or r.tag != 'error':
                return False
            return all(known(dec_ok(v), st.env) == 0 or known(Dec(v).accept, st.env) == 0 for v, _ in L)
        return {'p': Parsed(cs), 'ret': ('custom', ok, 'no error exactly if the input stands for 32 bytes that are a valid encoding')}
    return spec


def build(reg):
    def add(c):
        reg[c.fn] = c
    P = ['C18']
    ONLY = ('',)
    pub, sc = PtS('ext', 'pub', 'norm'), Sc()
    for M, n, sh, cf in ((R, 'p', pub, ('', 'forcegeneric')), (S, 's', sc, ONLY)):
        kw = dict(apply=False, cfgs=cf)
        add(Contract(M('MarshalText'), [(n, sh, 'in')], marshal_text(n), P, **kw))
        add(Contract(M('MarshalBinary'), [(n, sh, 'in')], marshal_binary(n), P + (['C13'] if n == 'p' else ['C03']), **kw))
        add(Contract(M('String').replace('(*', '(', 1), [(n, ValOf(sh), 'val')], string(n), P, **kw))
        out = Junk(PtParsed('ext', 'pub', 'pub')) if n == 'p' else Junk(ScParsed())
        par = parse_point if n == 'p' else parse_scalar
        add(Contract(M('UnmarshalBinary'), [(n, out, 'out'), ('data', BufN(32), 'val')], par(binary_cases), P + (['C14'] if n == 'p' else ['C03']), **kw))
        add(Contract(M('UnmarshalText'), [(n, out, 'out'), ('data', BufN(43, 64), 'val')], par(text_cases(n == 'p')), P, **kw))
