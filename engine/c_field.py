"""Contracts of the field functions (properties C06-C08)."""
from vc import *


def F(name):
    return meth(ED, 'FieldElement', name)


def build(reg):
    def add(c):
        reg[c.fn] = c

    def arith(name, ins, f, props, inb='PUB', outb='N', **kw):
        add(Contract(F(name), [('fe', Junk(Fe(outb)), 'out')] + [(n, Fe(inb), 'in') for n in ins],
                     lambda A: {'fe': f(*[A[n] for n in ins])}, props, ret=('ptr', 'fe'), **kw))
    P6, P7, P8 = ['C06'], ['C07'], ['C08']
    arith('Add', 'ab', lambda a, b: a + b, P6)
    arith('Sub', 'ab', lambda a, b: a - b, P6)
    arith('Neg', 'a', lambda a: -a, P6, outb='PUB', apply=False)
    arith('Mul', 'ab', lambda a, b: a * b, P6, inb='W')
    arith('Square', 'a', lambda a: a * a, P6, inb='W')
    arith('DoubledSquare', 'a', lambda a: 2 * (a * a), P6, inb='PUB')
    arith('Inverse', 'a', lambda a: a ** (PP - 2), P7)
    arith('Exp22523', 'a', lambda a: a ** ((PP - 5) // 8), P7)
    arith('Set', 'a', lambda a: a, P7, outb='PUB', apply=False)
    arith('SetZero', '', lambda: FP.const(0), P7, outb='C', apply=False)
    arith('SetOne', '', lambda: FP.const(1), P7, outb='C', apply=False)
    arith('SetI', '', lambda: FP.const(SQRT_M1), P7, outb='C', apply=False)

    def condset(A):
        b = fp(A['b'])
        return {'fe': A['fe'] + b * (A['a'] - A['fe'])}
    add(Contract(F('ConditionalSet'), [('fe', Fe('PUB'), 'inout'), ('a', Fe('PUB'), 'in'), ('b', Int(I32, 0, 1), 'val')],
                 condset, P7, apply=False))
    # serialisation
    add(Contract(F('BytesInto'), [('fe', Fe('BI'), 'in'), ('s', Junk(ByC(32)), 'out')],
                 lambda A: {'s': ('canon', A['fe'])}, P8, ret=('ptr', 'fe')))
    add(Contract(F('Bytes'), [('fe', Fe('BI'), 'in')], lambda A: {'ret': ('barr', ('canon', A['fe']), 32)}, P8))
    add(Contract(F('SetBytes'), [('fe', Junk(Fe('N')), 'out'), ('buf', By(32, 255), 'in')],
                 lambda A: {'fe': fp(poly.mod2k(A['buf'], 255))}, P8, ret=('ptr', 'fe')))
    add(Contract(F('BigInt'), [('fe', Fe('BI'), 'in')], lambda A: {'ret': ('big', ('canon', A['fe']))}, P8))
    add(Contract(F('SetBigInt'), [('fe', Junk(Fe('N')), 'out'), ('x', Big(), 'in')], lambda A: {'fe': fp(A['x'])}, P8, ret=('ptr', 'fe')))
    # tests
    z = field.iszero
    add(Contract(F('IsNegativeI'), [('fe', Fe('BI'), 'in')], lambda A: {'ret': ('int', I32, field.sgn(A['fe']))}, P7))
    add(Contract(F('IsNonZeroI'), [('fe', Fe('BI'), 'in')], lambda A: {'ret': ('int', I32, 1 - z(A['fe']))}, P7))
    add(Contract(F('IsOneI'), [('fe', Fe('PUB'), 'in')], lambda A: {'ret': ('int', I32, z(A['fe'] - 1))}, P7))
    add(Contract(F('EqualsI'), [('fe', Fe('PUB'), 'in'), ('a', Fe('PUB'), 'in')], lambda A: {'ret': ('int', I32, z(A['fe'] - A['a']))}, P7))
    add(Contract(F('Equals'), [('fe', Fe('PUB'), 'in'), ('a', Fe('PUB'), 'in')], lambda A: {'ret': ('bool', z(A['fe'] - A['a']))}, P7))
    # square roots
    add(Contract(F('Abs'), [('fe', Junk(Fe('PUB')), 'out'), ('x', Fe('PUB'), 'in')], lambda A: {'fe': fabs(A['x'])}, P7, ret=('ptr', 'fe')))
    add(Contract(F('InvSqrtI'), [('fe', Junk(FeIsr('InvSqrtI')), 'out'), ('a', Fe('PUB'), 'in')],
                 lambda A: {'fe': A['a'], 'ret': ('isrflag', A['a'])}, P7))
    add(Contract(F('InvSqrt'), [('fe', Junk(FeIsr('InvSqrt')), 'out'), ('a', Fe('PUB'), 'in')],
                 lambda A: {'fe': A['a']}, P7, ret=('ptr', 'fe')))
    add(Contract(F('Sqrt'), [('fe', Junk(FeIsr('Sqrt')), 'out'), ('a', Fe('PUB'), 'in')],
                 lambda A: {'fe': A['a']}, P7, ret=('ptr', 'fe'), apply=False))


def fabs(x):
    return x * (1 - 2 * fp(field.sgn(x)))


SQRT_M1 = pow(2, (PP - 1) // 4, PP)
SQRT_M1 = min(SQRT_M1, PP - SQRT_M1, key=lambda x: x & 1)
