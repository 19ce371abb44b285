#!/usr/bin/env python3
# Source of properties.jsonl (run by hand; the output is committed).
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
CFG="in the default (64-bit limb) build and in the forcegeneric (32-bit limb) build"
SC=["scalar.go"]; FE=["edwards25519/field.go","edwards25519/field_radix51.go","edwards25519/field_mul64.go","edwards25519/field_generic.go"]
prop("C01","Scalar addition, subtraction, negation and products are exact modulo l",
 "For all reduced scalars a, b, c, the results of Add, Sub, Neg, Mul, Square, MulAdd and MulSub are exactly a+b, a-b, -a, a*b, a^2, a*b+c and a*b-c modulo the group order l, and the stored result is the unique representative in [0, l).",
 ["inputs"],"all triples of scalars in [0,l)","Tests sample a few thousand random scalars against math/big; a dropped carry or a wrong fold constant that only matters for one limb pattern in 2^60 is never sampled.",
 SC,[("carry chains and folds of 2^252 = -c","scalar.go: Add, Sub, Neg, Mul, Square, MulAdd, MulSub, reduceAfterMul")],["Scalar.Bytes of the result"])
prop("C02","Scalar inversion is exact",
 "For every reduced scalar t, Inverse returns the reduced scalar t^(l-2) mod l, which is the multiplicative inverse of t when t is non-zero and zero when t is zero.",
 ["inputs"],"all scalars in [0,l)","Tests invert random scalars only; special values and rare carries inside the 300-step chain are not reached.",
 SC,[("fixed addition chain for l-2","scalar.go: Inverse"),("Mul/Square","scalar.go")],["Scalar.Mul of result and input"])
prop("C03","Scalar import and export keep the value",
 "Bytes/BytesInto write the 32-byte little-endian value; SetBytes reads 32 bytes, ignores the top three bits and reduces modulo l; SetBytesStrict returns true and stores the value exactly when all 256 bits encode a number below l, and otherwise returns false and leaves the scalar unchanged. SetUint64, SetBigInt (any integer, also negative) and BigInt convert exactly, modulo l.",
 ["inputs"],"all 32-byte strings, all uint64, all integers","Boundary values (l-1, l, 2^253-1, bits in the top byte) are a measure-zero part of what random tests draw.",
 SC,[("limb packing and conditional subtraction of l","scalar.go: BytesInto, Bytes, SetBytes, SetBytesStrict, SetUint64, SetBigInt, BigInt")],["Scalar.Bytes","SetBytesStrict result"])
prop("C04","512-bit reduction and hash-derived scalars are exact",
 "SetReduced stores the 64-byte little-endian input modulo l as the representative in [0, l), for every input; Derive is that reduction applied to the SHA-512 digest of its argument, DeriveShort is the first 16 digest bytes as a number, and Rand is the reduction of 64 bytes from the system random source.",
 ["inputs"],"all 64-byte strings; all buffers","Random 512-bit inputs reach the rare carry patterns of the last fold with probability about 2^-127.",
 SC,[("24-limb fold and carry","scalar.go: SetReduced"),("Derive, DeriveShort, Rand","scalar.go")],["Scalar.Bytes"])
prop("C05","Scalar comparison, zero test, copy and conditional set are exact",
 "For all reduced scalars, Equals/EqualsI/IsNonZeroI answer exactly whether the values are equal or non-zero, Set/SetZero/SetOne store exactly the given value, and ConditionalSet(t, b) leaves the receiver unchanged for b=0 and makes it t for b=1.",
 ["inputs"],"all pairs of scalars in [0,l), b in {0,1}","A comparison that ignores one limb or one bit is only seen on scalars that differ nowhere else.",
 SC,[("limb-or folding, masks","scalar.go: IsNonZeroI, EqualsI, Equals, Set, SetZero, SetOne, ConditionalSet")],["boolean results"])
prop("C06","Field addition, subtraction, negation and products are exact mod 2^255-19",
 "For all field elements the library can produce, "+CFG+", Add, Sub, Neg, Mul, Square and DoubledSquare give exactly the mathematical result modulo 2^255-19, without any intermediate overflow, and the result is again a valid input for every field operation.",
 ["inputs","configurations"],"all limb vectors within the representation bounds; both build configurations","Overflow needs limbs near their bounds; random reduced inputs never get there (the unchecked bound is what breaks in practice).",
 FE,[("limb products and carries","edwards25519/field_mul64.go, field_generic.go: Mul, Square, DoubledSquare"),("Neg/sub/add/normalize","edwards25519/field_radix51.go, field_generic.go, field.go")],["FieldElement.Bytes"])
prop("C07","Field inversion, square roots, sign and zero tests are exact",
 "For every field element, "+CFG+": Inverse gives a^(p-2); InvSqrt, InvSqrtI and Sqrt give the documented (inverse) square root or root of i*a with the correct was-square flag; Abs gives the non-negative one of x and -x; IsNegativeI, IsNonZeroI, IsOneI, EqualsI, Equals and ConditionalSet give exactly the documented answers.",
 ["inputs","configurations"],"all field elements in any permitted limb representation","Tests use random elements; representation-dependent errors (unreduced limbs of the same value) and special values are not sampled.",
 FE,[("addition chains","edwards25519/field.go: Inverse, Exp22523, InvSqrt, InvSqrtI, Sqrt"),("sign and zero tests","edwards25519/field.go: IsNegativeI, IsNonZeroI, IsOneI, EqualsI, Equals, Abs; ConditionalSet")],["FieldElement.Bytes","flags"])
prop("C08","Field serialisation is canonical and parsing is exact",
 "For every field element in any permitted limb representation, "+CFG+", Bytes/BytesInto/BigInt give the unique little-endian encoding in [0, 2^255-19), and SetBytes reads 255 bits (ignoring the top bit) exactly modulo 2^255-19; SetBigInt does the same for any integer.",
 ["inputs","configurations"],"all permitted limb vectors; all 32-byte strings","The final conditional subtraction of p only matters for values in [p, 2^255) or for limbs on a carry boundary.",
 FE,[("setReduced / BytesInto / SetBytes","edwards25519/field_radix51.go, field_generic.go"),("BigInt, SetBigInt","edwards25519/field.go")],["FieldElement.Bytes"])
CU=["edwards25519/curve.go","ristretto.go"]
prop("C09","Point addition, subtraction, doubling and negation compute the group law",
 "For all points the library can produce, "+CFG+", Add, Sub, Double, Neg, SetZero, SetBase and Set give a valid curve point that represents exactly the sum, difference, double, negation, neutral element, base point (as a Ristretto group element) or copy, with no exceptional inputs (equal, opposite and neutral points included).",
 ["inputs","configurations"],"all pairs of valid points in any permitted representation","Tests add a few random points; exceptional pairs and representation bounds after long operation chains are not enumerated.",
 CU,[("unified Edwards formulas","edwards25519/curve.go: AddExtended, SubExtended, DoubleExtended, DoubleProjective, SetCompleted, Neg"),("Point wrappers","ristretto.go")],["Point.Bytes","Point.Equals"])
prop("C10","Constant-time scalar multiplication equals s*q",
 "For every valid point q and every reduced scalar s, ScalarMult sets p to s*q, "+CFG+", also when p and q are the same variable.",
 ["inputs","configurations"],"all (s, q)","Signed-window recoding errors show only on particular digit/carry patterns (e.g. top windows) that random scalars may not hit.",
 CU,[("signed 5-bit window recoding, table lookup, accumulate","edwards25519/curve.go: computeScalarWindow5, ScalarMult")],["Point.Bytes"])
prop("C11","Variable-time scalar multiplication equals s*q",
 "For every valid point q and every reduced scalar s (zero included), PublicScalarMult sets p to s*q, "+CFG+", also when p and q are the same variable.",
 ["inputs","configurations"],"all (s, q)","The w-NAF control flow has an astronomically large number of paths; particular carry/limb-boundary patterns are not sampled.",
 ["edwards25519/vartime.go","ristretto.go"],[("w-NAF recoding and sliding double-and-add","edwards25519/vartime.go: computeScalar5NAF, VarTimeScalarMult")],["Point.Bytes"])
prop("C12","Precomputed-table and base-point multiplication equal s*q",
 "For every valid point q and reduced scalar s, filling a table for q and multiplying with it (ScalarMultTable, PublicScalarMultTable) gives s*q, and ScalarMultBase and PublicScalarMultBase give s*B for the built-in table, "+CFG+".",
 ["inputs","configurations"],"all (s, q); every entry of both built-in tables","A single wrong table entry (1 of 256 per backend) is hit only by scalars with that digit at that position.",
 ["edwards25519/table.go","edwards25519/table_radix51.go","edwards25519/table_generic.go","ristretto.go"],[("Compute, selectPoint, ScalarMult, VarTimeScalarMult","edwards25519/table.go"),("built-in table","edwards25519/table_radix51.go, table_generic.go")],["Point.Bytes"])
prop("C13","Encoding is the Ristretto255 encoding and independent of representation",
 "For every valid point in any permitted representation, "+CFG+", Bytes/BytesInto/MarshalBinary give exactly the Ristretto255 encoding (RFC 9496) of its group element, so equal group elements encode identically however they were computed.",
 ["inputs","histories","configurations"],"all valid points, all representations of a coset","Tests compare a handful of vectors; the sign/rotation branches for special points are not enumerated.",
 CU,[("RistrettoInto","edwards25519/curve.go"),("BytesInto/Bytes","ristretto.go")],["Point.Bytes"])
prop("C14","Decoding accepts exactly the canonical Ristretto255 encodings",
 "For every 32-byte string, "+CFG+", SetBytes returns true exactly when the string is a valid canonical Ristretto255 encoding (RFC 9496); then the decoded point is valid and is the one RFC 9496 decoding specifies, so re-encoding it gives back the same bytes. Otherwise it returns false.",
 ["inputs","configurations"],"all 2^256 byte strings","Non-canonical strings (s>=p, negative s, negative t, y=0, high bit set) are a thin set; tests use a short list.",
 CU,[("SetRistretto","edwards25519/curve.go"),("SetBytes, UnmarshalBinary","ristretto.go")],["SetBytes result","Point.Bytes"])
prop("C15","Equality is exactly equality of group elements",
 "For all valid points in any permitted representation, "+CFG+", Equals/EqualsI answer 1/true exactly when the two points represent the same Ristretto group element; ConditionalSet(q, b) leaves the receiver unchanged for b=0 and makes it q for b=1.",
 ["inputs","configurations"],"all pairs of valid points and representations","Torsion-shifted and special representatives are rarely generated.",
 CU,[("RistrettoEqualsI, ConditionalSet","edwards25519/curve.go"),("EqualsI, Equals, ConditionalSet","ristretto.go")],["EqualsI"])
EL=["edwards25519/elligator.go","ristretto.go"]
prop("C16","Elligator maps every string to the specified valid point",
 "For every 32-byte string, "+CFG+", SetElligator gives a valid point equal to the Ristretto255 one-way map (RFC 9496 MAP) of the string's low 255 bits; Derive applies it to the first half of the SHA-512 digest, DeriveDalek adds the maps of both halves, and Rand applies it to 32 system-random bytes.",
 ["inputs","configurations"],"all 32-byte strings, all buffers","Exceptional field inputs (zero, roots of the denominators) and both square classes are not enumerated by tests.",
 EL,[("SetRistrettoElligator2, SetJacobiQuartic","edwards25519/elligator.go"),("SetElligator, Derive, DeriveDalek, Rand","ristretto.go")],["Point.Bytes"])
prop("C17","Lizard decoding finds exactly the encoded data",
 "SetLizard maps 16 bytes to the Elligator image of the documented 32-byte padding; the Elligator inverse of a point, "+CFG+", yields only non-negative field elements whose Elligator image is that group element, and marks all such elements. Hence LizardInto/Lizard return the data exactly when the set of inverses contains exactly one consistent padding, and report an error otherwise.",
 ["inputs","configurations"],"all points and all 16-byte strings","The inverse has eight branches with special cases (s=0, X=0, Y=0); random tests do not reach them.",
 EL,[("RistrettoElligator2Inverse, ToJacobiQuarticRistretto, elligator2Inverse","edwards25519/elligator.go"),("SetLizard, Lizard, LizardInto","ristretto.go")],["Lizard result"])
prop("C18","Marshalling round-trips and rejects bad input without panicking",
 "For every value, MarshalBinary/MarshalText/String give the 32-byte encoding respectively its unpadded URL-safe base64 text, and the matching Unmarshal restores an equal value; for every byte string of any length, UnmarshalBinary and UnmarshalText never panic, and return no error exactly if the input is (for texts: decodes under that base64 alphabet to) 32 bytes that encode a valid value - any 32 bytes for a scalar, which is read like SetBytes; a valid canonical encoding for a point, whose text may also be 64 hex digits. Line breaks in a base64 text are ignored, as encoding/base64 does.",
 ["inputs"],"all values, all byte strings of all lengths","Over-long and oddly sized inputs are unbounded in number; tests use well-formed text.",
 ["ristretto.go","scalar.go"],[("MarshalBinary, UnmarshalBinary, MarshalText, UnmarshalText, String, textToBuf","ristretto.go, scalar.go")],["returned error","panic"])
prop("C19","Operations are alias-safe and touch only their receiver",
 "Every public scalar, point, field and table operation gives the same result whether or not its arguments and receiver are the same variable, changes nothing but its receiver (or output buffer), never changes its inputs, package-level constants or tables, and returns its receiver where documented.",
 ["inputs","histories","configurations"],"all inputs and all alias patterns of pointer arguments; both build configurations","Tests use one or two alias patterns and never look at whether an operand or a package constant changed.",
 ["ristretto.go","scalar.go","edwards25519/curve.go","edwards25519/field.go","edwards25519/field_radix51.go","edwards25519/field_mul64.go","edwards25519/field_generic.go","edwards25519/table.go","edwards25519/vartime.go","edwards25519/elligator.go"],[("local temporaries, write-after-read order","all methods")],["operands after the call"])
prop("C20","Secret-dependent control flow and memory access do not occur",
 "Apart from the operations documented as variable-time (Public*/VarTime*, big.Int and String/text conversions) and what the reported outcome (the returned boolean or error) itself reveals, "+CFG+" no operation branches on, indexes or slices memory by, sizes an allocation by, divides by, or hands to a variable-time library routine a value derived from scalar, point, field or message contents.",
 ["inputs","configurations"],"all executions of the constant-time operations","A timing leak has no functional effect: no functional test can fail on it.",
 ["ristretto.go","scalar.go","edwards25519/curve.go","edwards25519/field.go","edwards25519/table.go","edwards25519/elligator.go"],[("mask arithmetic and ConditionalSet in place of branches","all constant-time methods")],["branch conditions and addresses in the compiled SSA"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
