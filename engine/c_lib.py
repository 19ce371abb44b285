"""The contracts of math/bits, crypto/subtle and bytes.Equal, which the engine applies at
calls (deps.py), verified against the bodies in the Go distribution: on symbolic
arguments the body gives what the contract says."""
import deps
import field
import poly
import smt
import ssa
import val
import vc
from poly import IP
from symexec import Exec, Ptr, Slice, State, Tup, VerifFail
from val import V

PKGS = ['math/bits', 'crypto/subtle', 'crypto/internal/fips140/subtle', 'crypto/internal/constanttime', 'bytes']
U64, U32, INT = (64, False), (32, False), val.INT


def bool_to_uint8(ex, st, a, pos):
    """compiler intrinsic"""
    return [(st, val.mkf((8, False), a[0].p, (0, 1), ('conv', a[0])))]


class Lib:
    def __init__(self, path):
        self.V = vc.Verifier(ssa.Prog(path), '', {})
        self.V.globals_mem = {}
        self.out = []

    def ex(self, own):
        h = {k: f for k, f in deps.hooks().items() if not k.startswith(own)}
        h['crypto/internal/constanttime.boolToUint8'] = bool_to_uint8
        ex = Exec(self.V.prog, h)
        ex.backend = vc.Backend(self.V.backend_name)
        ex.verifier = self.V
        ex.cuts, ex.cut_obs = {}, []
        ex.global_init = {}
        return ex

    def ob(self, name, ok, msg):
        self.out.append((name, bool(ok), msg))

    def both(self, fn, mk, own):
        """results of the body and of the contract on the same arguments"""
        poly.reset()
        poly.OVER[:] = []
        ex = self.ex(own)
        st = State()
        args = mk(ex, st)
        want = deps.hooks()[fn](ex, st.fork(), list(args), '')
        got = ex.run(st, fn, list(args))
        return ex, args, got, want

    def same(self, fn, mk, own, msg, cells=None, alt=None):
        try:
            ex, args, got, want = self.both(fn, mk, own)
            ok = len(want) == 1 and len(got) >= 1
            for s2, r in got:
                ex.push_facts(s2)
                poly.C.extra['curenv'] = s2.env
                w = want[0][1]
                rs, ws = (list(r) if isinstance(r, Tup) else [r]), (list(w) if isinstance(w, Tup) else [w])
                ok = ok and len(rs) == len(ws)
                for x, y in zip(rs, ws):
                    if x is None and y is None:
                        continue
                    ok = ok and isinstance(x, V) and isinstance(y, V) and (alt and alt(ex, s2, args, x) or vc.prove_eq(x.p, y.p) or vc.prove_bit(x, y.p))
                for s in cells or ():
                    for x, y in zip(ex.slice_vals(s2, args[s]), ex.slice_vals(want[0][0], args[s])):
                        ok = ok and vc.prove_eq(x.p, y.p)
        except (VerifFail, val.Unsupported) as e:
            ok, msg = False, '%s (%s)' % (msg, e)
        finally:
            poly.OVER[:] = []
        self.ob(fn, ok, msg)


def sym(ty, n, lo=None, hi=None):
    w, s = ty
    if lo is None:
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return val.sym(ty, n, lo, hi)


def buf(ex, st, n, k):
    byte = next(t for t, d in enumerate(ex.prog.types) if ex.prog.int_ty(t) == (8, False))
    o = ex.new_obj(ex.array_tid(byte, k), n)
    st.mem[o] = [sym((8, False), '%s%d' % (n, i)) for i in range(k)]
    return Slice(o, (), 0, k, k)


def carry_bit(sign):
    """bit w of x + y + c resp. of x - y - c, by bit-vectors"""
    def f(ex, st, a, r):
        import z3
        leaves, memo = {}, {}
        t = smt.bv_term(r, leaves, memo)
        if t is None or not set(leaves) <= {v.p for v in a}:
            return False
        w = r.ty[0]
        x, y, c = [z3.ZeroExt(1, smt.bv_term(v, leaves, memo)) for v in a]
        s = z3.Solver()
        s.set('timeout', 60000)
        s.add(z3.ULE(c, 1), t != z3.ZeroExt(w - 1, z3.Extract(w, w, x + sign * y + sign * c)))
        return s.check() == z3.unsat
    return f


def bytes_same(ex, st, a, r):
    return smt.bv_differ(r, ex.slice_vals(st, a[0]), ex.slice_vals(st, a[1])) == 0


def check(path):
    L = Lib(path)
    for n, ty in (('64', U64), ('32', U32), ('', (val.WORD, False))):
        w = ty[0]
        L.same('math/bits.Add' + n, lambda ex, st: [sym(ty, 'x'), sym(ty, 'y'), sym(ty, 'c', 0, 1)], 'math/bits', 'x + y + carry = carryOut 2^%d + sum' % w, alt=carry_bit(1))
        L.same('math/bits.Sub' + n, lambda ex, st: [sym(ty, 'x'), sym(ty, 'y'), sym(ty, 'c', 0, 1)], 'math/bits', 'x - y - borrow = diff - borrowOut 2^%d' % w, alt=carry_bit(-1))
        L.same('math/bits.Mul' + n, lambda ex, st: [sym(ty, 'x'), sym(ty, 'y')], 'math/bits', 'x y = hi 2^%d + lo' % w)
    own = 'crypto/subtle'
    S = 'crypto/subtle.ConstantTime'
    L.same(S + 'Eq', lambda ex, st: [sym((32, True), 'x'), sym((32, True), 'y')], own, '[x = y]')
    L.same(S + 'ByteEq', lambda ex, st: [sym((8, False), 'x'), sym((8, False), 'y')], own, '[x = y]')
    L.same(S + 'Select', lambda ex, st: [sym(INT, 'v', 0, 1), sym(INT, 'x'), sym(INT, 'y')], own, 'v = 1: x, v = 0: y')
    for k in (16, 32):
        L.same(S + 'Compare', lambda ex, st: [buf(ex, st, 'x', k), buf(ex, st, 'y', k)], own, '[x = y] for %d bytes' % k, alt=bytes_same)
        L.same(S + 'Copy', lambda ex, st: [sym(INT, 'v', 0, 1), buf(ex, st, 'x', k), buf(ex, st, 'y', k)], own, 'x becomes y if v = 1, for %d bytes' % k, cells=(1, 2))
    return L.out
