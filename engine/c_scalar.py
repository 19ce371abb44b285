"""Contracts of the scalar functions (properties C01-C05)."""
from vc import *


def S(name):
    return meth(RT, 'Scalar', name)


def build(reg):
    def add(c):
        reg[c.fn] = c
    sc = Sc()
    ONLY = ('',)

    def arith(name, ins, f, props):
        add(Contract(S(name), [('s', Junk(sc), 'out')] + [(n, sc, 'in') for n in ins],
                     lambda A: {'s': f(*[A[n] for n in ins])}, props, ret=('ptr', 's'), cfgs=ONLY))
    P1 = ['C01']
    arith('Add', ['a', 'b'], lambda a, b: a + b, P1)
    arith('Sub', ['a', 'b'], lambda a, b: a - b, P1)
    arith('Neg', ['a'], lambda a: -a, P1)
    arith('Mul', ['a', 'b'], lambda a, b: a * b, P1)
    arith('Square', ['a'], lambda a: a * a, P1)
    arith('MulAdd', ['a', 'b', 'c'], lambda a, b, c: a * b + c, P1)
    arith('MulSub', ['a', 'b', 'c'], lambda a, b, c: a * b - c, P1)
    arith('Inverse', ['t'], lambda t: t ** (LL - 2), ['C02'])
    arith('Set', ['t'], lambda t: t, ['C05'])
    arith('SetZero', [], lambda: FP.const(0, LL), ['C05'])
    arith('SetOne', [], lambda: FP.const(1, LL), ['C05'])
    # import and export
    add(Contract(S('BytesInto'), [('s', sc, 'in'), ('buf', Junk(ByC(32)), 'out')],
                 lambda A: {'buf': ('canon', A['s'])}, ['C03'], ret=('ptr', 's'), cfgs=ONLY))
    add(Contract(S('Bytes'), [('s', sc, 'in')],
                 lambda A: {'ret': ('bytes', ('canon', A['s']), 32)}, ['C03'], cfgs=ONLY))
    add(Contract(S('SetBytes'), [('s', Junk(sc), 'out'), ('x', By(32, 253), 'in')],
                 lambda A: {'s': fp(poly.mod2k(A['x'], 253), LL)}, ['C03'], ret=('ptr', 's'), cfgs=ONLY))
    add(Contract(S('SetReduced'), [('s', Junk(sc), 'out'), ('t', By(64), 'in')],
                 lambda A: {'s': fp(A['t'], LL)}, ['C04'], ret=('ptr', 's'), cfgs=ONLY))
    add(Contract(S('SetUint64'), [('s', Junk(sc), 'out'), ('x', Int(U64), 'val')],
                 lambda A: {'s': fp(A['x'], LL)}, ['C03'], ret=('ptr', 's'), cfgs=ONLY))
    b01 = Int(I32, 0, 1)

    def condset(A):
        b = fp(A['b'], LL)
        return {'s': A['s'] + b * (A['t'] - A['s'])}
    add(Contract(S('ConditionalSet'), [('s', sc, 'inout'), ('t', sc, 'in'), ('b', b01, 'val')],
                 condset, ['C05'], cfgs=ONLY))

    z = lambda f: field.iszero(f)
    add(Contract(S('IsNonZeroI'), [('s', sc, 'in')], lambda A: {'ret': ('int', I32, 1 - z(A['s']))}, ['C05'], cfgs=ONLY))
    add(Contract(S('EqualsI'), [('s', sc, 'in'), ('a', sc, 'in')], lambda A: {'ret': ('int', I32, z(A['s'] - A['a']))}, ['C05'], cfgs=ONLY))
    add(Contract(S('Equals'), [('s', sc, 'in'), ('a', sc, 'in')], lambda A: {'ret': ('bool', z(A['s'] - A['a']))}, ['C05'], cfgs=ONLY))

    def strict(A):
        b = val.less_bit(A['x'] - LL)
        return {'s': A['s'] + b * (A['x'] - A['s']), 'ret': ('bool', b)}
    add(Contract(S('SetBytesStrict'), [('s', ScAny(), 'inout'), ('x', By(32), 'in')], strict, ['C03'], cfgs=ONLY))
    add(Contract(S('SetBigInt'), [('s', Junk(sc), 'out'), ('x', Big(), 'in')], lambda A: {'s': fp(A['x'], LL)}, ['C03'], ret=('ptr', 's'), cfgs=ONLY))
    add(Contract(S('BigInt'), [('s', sc, 'in')], lambda A: {'ret': ('big', ('canon', A['s']))}, ['C03'], cfgs=ONLY))

    import deps
    def h512(A):
        return deps.hash_value('sha512', A['buf'], 64)
    add(Contract(S('Derive'), [('s', Junk(sc), 'out'), ('buf', Buf(), 'val')], lambda A: {'s': fp(h512(A), LL)}, ['C04'], ret=('ptr', 's'), cfgs=ONLY))
    add(Contract(S('DeriveShort'), [('s', Junk(sc), 'out'), ('buf', Buf(), 'val')],
                 lambda A: {'s': fp(poly.mod2k(h512(A), 128), LL)}, ['C04'], ret=('ptr', 's'), cfgs=ONLY))

    def rnd(A):
        R = poly.C.extra.get('rand', [])
        if len(R) != 1 or R[0][1] != 64:
            raise VerifFail('rand', 'exactly one read of 64 random bytes expected')
        return {'s': fp(R[0][0], LL)}
    add(Contract(S('Rand'), [('s', Junk(sc), 'out')], rnd, ['C04'], ret=('ptr', 's'), cfgs=ONLY, apply=False))
