"""All contracts, the extra obligations of single properties and the list of
assumptions reported in the evidence."""
import c_scalar
import c_field
import c_point
import c_mult
import c_ristretto
import c_elligator
import c_lizard
import c_marshal
import flow
import lemmas

MODULES = [c_scalar, c_field, c_point, c_mult, c_ristretto, c_elligator, c_lizard, c_marshal]


def extra_flow(VS, tier):
    out = []
    reg = build()
    for cfg, V in VS.items():
        obs, rts, fns = flow.check(V.prog, reg)
        V.flow_functions = fns
        for fn, pos, kind, ok, msg in obs:
            out.append((fn, cfg, ok, '%s %s: %s' % (kind, pos, msg), 'information-flow'))
    return out


EXTRA = {'C20': extra_flow,
         'C02': lemmas.extra(lemmas.c02),
         'C07': lemmas.extra(lemmas.c07),
         'C09': lemmas.extra(lemmas.c09),
         'C17': lemmas.extra(lemmas.c17),
         'C13': lemmas.extra(lemmas.c13),
         'C14': lemmas.extra(lemmas.c14),
         'C15': lemmas.extra(lemmas.c15)}
ASSUMPTIONS = {
    '*': ['int is 64 bits wide (GOARCH amd64/arm64)',
          'edwards25519/field_amd64.go/.s and cref/ are not part of the verified builds (excluded by build constraints resp. C reference)'],
    'C20': ['integer arithmetic, comparisons, shifts and multiplications of the processor take time independent of their operands',
            'the compiler introduces no branches or table lookups of its own',
            'the SHA-2 block functions, crypto/rand.Read and io.ReadFull take time independent of the bytes (math/bits Add, Sub, Mul and crypto/subtle are analysed down to compiler intrinsics, encoding/binary byte order functions too; the other functions of math/bits, none of which is used, except division, are assumed)',
            'lengths of slices are public; the reported outcome (boolean or error) of a decoder or comparison is public'],
}


def build():
    reg = {}
    for m in MODULES:
        m.build(reg)
    return reg
