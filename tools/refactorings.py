"""Behaviour-preserving edits used to test that the checks stay quiet
(run by runrefs.py).  (name, [(file, old, new) or (file, func-regex-start, None, new body)])"""
import re
REFS = []


def ref(name, *edits):
    REFS.append((name, edits))


def fn(file, sig, new):
    """replace the whole function whose declaration starts with sig"""
    return (file, sig, new, 'func')


def apply(root, edits):
    for e in edits:
        p = root + '/' + e[0]
        s = open(p).read()
        if len(e) == 4:
            i = s.index('\n' + e[1]) + 1
            j = s.index('\n}\n', i) + 3
            s = s[:i] + e[2].strip('\n') + '\n' + s[j:]
        else:
            assert s.count(e[1]) >= 1, (e[0], e[1])
            s = s.replace(e[1], e[2])
        open(p, 'w').write(s)


SC, RI, CU, EL, FI, TA, VT = 'scalar.go', 'ristretto.go', 'edwards25519/curve.go', 'edwards25519/elligator.go', 'edwards25519/field.go', 'edwards25519/table.go', 'edwards25519/vartime.go'
R51, GEN, M64 = 'edwards25519/field_radix51.go', 'edwards25519/field_generic.go', 'edwards25519/field_mul64.go'

# ------------------------------------------------------------------ scalars
ref('scalar-bytesinto-loop', fn(SC, 'func (s *Scalar) BytesInto(', '''
func (s *Scalar) BytesInto(buf *[32]byte) *Scalar {
	for i, w := range s {
		buf[4*i] = uint8(w)
		buf[4*i+1] = uint8(w >> 8)
		buf[4*i+2] = uint8(w >> 16)
		buf[4*i+3] = uint8(w >> 24)
	}
	return s
}
'''))
ref('scalar-setbytes-loop', fn(SC, 'func (s *Scalar) SetBytes(', '''
func (s *Scalar) SetBytes(x *[32]byte) *Scalar {
	var t Scalar
	t.load(x)
	t[7] &= 0x1fffffff
	return s.Sub(&t, &scL)
}

// Sets s to the eight little endian words of x.
func (s *Scalar) load(x *[32]byte) {
	for i := range s {
		s[i] = load4u32(x[4*i : 4*i+4])
	}
}
'''), fn(SC, 'func (s *Scalar) SetBytesStrict(', '''
func (s *Scalar) SetBytesStrict(x *[32]byte) bool {
	var t, r Scalar
	t.load(x)
	r.Sub(&t, &scL)
	ok := r == t
	if ok {
		*s = t
	}
	return ok
}
'''), fn(SC, 'func load4u32(', '''
func load4u32(in []byte) uint32 {
	return binary.LittleEndian.Uint32(in)
}
'''))
ref('scalar-addsub-loop', fn(SC, 'func (s *Scalar) Add(', '''
func (s *Scalar) Add(a, b *Scalar) *Scalar {
	var carry uint64
	for i := 0; i < 8; i++ {
		carry += uint64(a[i]) + uint64(b[i])
		s[i] = uint32(carry)
		carry >>= 32
	}
	return s.Sub(s, &scL)
}
'''), fn(SC, 'func (s *Scalar) Sub(', '''
func (s *Scalar) Sub(a, b *Scalar) *Scalar {
	var t Scalar
	var borrow uint64
	for i := range t {
		borrow = uint64(a[i]) - uint64(b[i]) - (borrow >> 63)
		t[i] = uint32(borrow)
	}

	// Add l if underflown
	ufMask := -(borrow >> 63)
	carry := uint64(0)
	for i := range t {
		carry = uint64(t[i]) + (carry >> 32) + (ufMask & uint64(scL[i]))
		s[i] = uint32(carry)
	}
	return s
}
'''))
ref('scalar-sub-bits', (SC, '	"fmt"\n', '	"fmt"\n	"math/bits"\n'), fn(SC, 'func (s *Scalar) Sub(', '''
func (s *Scalar) Sub(a, b *Scalar) *Scalar {
	var t Scalar
	var borrow, carry uint32
	for i := range t {
		t[i], borrow = bits.Sub32(a[i], b[i], borrow)
	}
	for i := range t {
		s[i], carry = bits.Add32(t[i], scL[i]&-borrow, carry)
	}
	return s
}
'''))
ref('scalar-misc', fn(SC, 'func (s *Scalar) IsNonZeroI(', '''
func (s *Scalar) IsNonZeroI() int32 {
	var ret uint32
	for _, w := range s {
		ret |= w
	}
	return int32((ret | -ret) >> 31)
}
'''), fn(SC, 'func (s *Scalar) EqualsI(', '''
func (s *Scalar) EqualsI(a *Scalar) int32 {
	var diff Scalar
	diff.Sub(s, a)
	return diff.IsNonZeroI() ^ 1
}
'''), fn(SC, 'func (s *Scalar) Equals(', '''
func (s *Scalar) Equals(a *Scalar) bool {
	return s.EqualsI(a) == 1
}
'''), fn(SC, 'func (s *Scalar) ConditionalSet(', '''
func (s *Scalar) ConditionalSet(t *Scalar, b int32) {
	mask := uint32(-b)
	for i := range s {
		s[i] = (s[i] &^ mask) | (t[i] & mask)
	}
}
'''), fn(SC, 'func (s *Scalar) Neg(', '''
func (s *Scalar) Neg(a *Scalar) *Scalar {
	var zero Scalar
	return s.Sub(&zero, a)
}
'''))
UNPACK = '''
// Splits a into twelve limbs of 21 bits.
func (a *Scalar) limbs() (r [12]int64) {
	r[0] = int64(a[0] & 0x1fffff)
	r[1] = int64(((a[0] >> 21) | (a[1] << 11)) & 0x1fffff)
	r[2] = int64((a[1] >> 10) & 0x1fffff)
	r[3] = int64(((a[1] >> 31) | (a[2] << 1)) & 0x1fffff)
	r[4] = int64(((a[2] >> 20) | (a[3] << 12)) & 0x1fffff)
	r[5] = int64((a[3] >> 9) & 0x1fffff)
	r[6] = int64(((a[3] >> 30) | (a[4] << 2)) & 0x1fffff)
	r[7] = int64(((a[4] >> 19) | (a[5] << 13)) & 0x1fffff)
	r[8] = int64((a[5] >> 8) & 0x1fffff)
	r[9] = int64(((a[5] >> 29) | (a[6] << 3)) & 0x1fffff)
	r[10] = int64(((a[6] >> 18) | (a[7] << 14)) & 0x1fffff)
	r[11] = int64(a[7] >> 7)
	return
}

func (s *Scalar) reduceLimbs(t *[23]int64) *Scalar {
	return s.reduceAfterMul(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7],
		t[8], t[9], t[10], t[11], t[12], t[13], t[14], t[15], t[16],
		t[17], t[18], t[19], t[20], t[21], t[22])
}
'''
ref('scalar-mul-convolution', fn(SC, 'func (s *Scalar) Mul(', '''
func (s *Scalar) Mul(a, b *Scalar) *Scalar {
	var t [23]int64
	x, y := a.limbs(), b.limbs()
	for i := range x {
		for j := range y {
			t[i+j] += x[i] * y[j]
		}
	}
	return s.reduceLimbs(&t)
}
''' + UNPACK), fn(SC, 'func (s *Scalar) MulAdd(', '''
func (s *Scalar) MulAdd(a, b, c *Scalar) *Scalar {
	var t [23]int64
	x, y, z := a.limbs(), b.limbs(), c.limbs()
	copy(t[:], z[:])
	for i := 0; i < 12; i++ {
		for j := 0; j < 12; j++ {
			t[i+j] += x[i] * y[j]
		}
	}
	return s.reduceLimbs(&t)
}
'''), fn(SC, 'func (s *Scalar) Square(', '''
func (s *Scalar) Square(a *Scalar) *Scalar {
	return s.Mul(a, a)
}
'''))
ref('scalar-mulsub-neg', fn(SC, 'func (s *Scalar) MulSub(', '''
func (s *Scalar) MulSub(a, b, c *Scalar) *Scalar {
	var d Scalar
	d.Neg(c)
	return s.MulAdd(a, b, &d)
}
'''))
ref('scalar-derive', (SC, '	"encoding/binary"\n', ''), fn(SC, 'func (s *Scalar) Derive(', '''
func (s *Scalar) Derive(buf []byte) *Scalar {
	h := sha512.Sum512(buf)
	return s.SetReduced(&h)
}
'''), fn(SC, 'func (s *Scalar) DeriveShort(', '''
func (s *Scalar) DeriveShort(buf []byte) *Scalar {
	h := sha512.Sum512(buf)
	s.SetZero()
	for i := 0; i < 4; i++ {
		s[i] = load4u32(h[4*i:])
	}
	return s
}
'''), fn(SC, 'func (s *Scalar) Rand(', '''
func (s *Scalar) Rand() *Scalar {
	var buf [64]byte
	_, err := rand.Read(buf[:])
	if err != nil {
		panic(err)
	}
	s.SetReduced(&buf)
	return s
}
'''), fn(SC, 'func (s *Scalar) SetUint64(', '''
func (s *Scalar) SetUint64(x uint64) *Scalar {
	s.SetZero()
	s[0] = uint32(x)
	s[1] = uint32(x >> 32)
	return s
}
'''), fn(SC, 'func (s *Scalar) SetOne(', '''
func (s *Scalar) SetOne() *Scalar {
	*s = scOne
	return s
}
'''), fn(SC, 'func load4(', '''
func load4(in []byte) int64 {
	return load3(in) | int64(in[3])<<24
}
'''))
ref('scalar-marshal', fn(SC, 'func (s *Scalar) MarshalText(', '''
func (s *Scalar) MarshalText() ([]byte, error) {
	buf, err := s.MarshalBinary()
	if err != nil {
		return nil, err
	}
	enc := base64.RawURLEncoding
	ret := make([]byte, enc.EncodedLen(len(buf)))
	enc.Encode(ret, buf)
	return ret, nil
}
'''), fn(SC, 'func (s *Scalar) MarshalBinary(', '''
func (s *Scalar) MarshalBinary() ([]byte, error) {
	return s.Bytes(), nil
}
'''), fn(SC, 'func (s *Scalar) UnmarshalText(', '''
func (s *Scalar) UnmarshalText(txt []byte) error {
	enc := base64.RawURLEncoding
	dec := make([]byte, enc.DecodedLen(len(txt)))
	n, err := enc.Decode(dec, txt)
	if err != nil {
		return err
	}
	return s.UnmarshalBinary(dec[:n])
}
'''))
ref('scalar-setbigint', fn(SC, 'func (s *Scalar) SetBigInt(', '''
func (s *Scalar) SetBigInt(x *big.Int) *Scalar {
	var v, biL big.Int
	biL.SetString(
		"1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	buf := v.Mod(x, &biL).Bytes()
	var rBuf [32]byte
	n := len(buf)
	for i, c := range buf {
		rBuf[n-1-i] = c
	}
	return s.SetBytes(&rBuf)
}
'''), fn(SC, 'func (s *Scalar) BigInt(', '''
func (s *Scalar) BigInt() *big.Int {
	var buf [32]byte
	s.BytesInto(&buf)
	for i, j := 0, 31; i < j; i, j = i+1, j-1 {
		buf[i], buf[j] = buf[j], buf[i]
	}
	return new(big.Int).SetBytes(buf[:])
}
'''))
ref('scalar-reduce-helper', (SC, '''	carry[0] = s0 >> 21
	s1 += carry[0]
	s0 -= carry[0] << 21
	carry[1] = s1 >> 21
	s2 += carry[1]
	s1 -= carry[1] << 21
''', '''	pushCarry(&s0, &s1)
	pushCarry(&s1, &s2)
'''), (SC, '''// Set s to t if b=1 in constant-time. b''', '''func pushCarry(lo, hi *int64) {
	c := *lo >> 21
	*hi += c
	*lo -= c << 21
}

// Set s to t if b=1 in constant-time. b'''))

# ------------------------------------------------------------------ field
ref('field-small', (FI, '\n	"encoding/binary"\n', ''), fn(FI, 'func (fe *FieldElement) SetZero(', '''
func (fe *FieldElement) SetZero() *FieldElement {
	for i := range fe {
		fe[i] = 0
	}
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) SetOne(', '''
func (fe *FieldElement) SetOne() *FieldElement {
	fe.SetZero()
	fe[0] = 1
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) Set(', '''
func (fe *FieldElement) Set(a *FieldElement) *FieldElement {
	*fe = *a
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) Abs(', '''
func (fe *FieldElement) Abs(x *FieldElement) *FieldElement {
	var xNeg FieldElement
	neg := x.IsNegativeI()
	xNeg.Neg(x)
	fe.Set(x)
	fe.ConditionalSet(&xNeg, neg)
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) IsNonZeroI(', '''
func (fe *FieldElement) IsNonZeroI() int32 {
	var buf [32]byte
	var acc byte
	fe.BytesInto(&buf)
	for _, b := range buf {
		acc |= b
	}
	return int32((uint32(acc) + 255) >> 8)
}
'''), fn(FI, 'func (fe *FieldElement) IsNegativeI(', '''
func (fe *FieldElement) IsNegativeI() int32 {
	b := fe.Bytes()
	return int32(b[0]) & 1
}
'''), fn(FI, 'func (fe *FieldElement) IsOneI(', '''
func (fe *FieldElement) IsOneI() int32 {
	return fe.EqualsI(&feOne)
}
'''), fn(FI, 'func (fe *FieldElement) Equals(', '''
func (fe *FieldElement) Equals(a *FieldElement) bool {
	return fe.EqualsI(a) != 0
}
'''))
ref('field-pow-helper', fn(FI, 'func (fe *FieldElement) Inverse(', '''
func (fe *FieldElement) Inverse(a *FieldElement) *FieldElement {
	var t0, t1, t2, t3 FieldElement

	t0.Square(a)
	t1.squareN(&t0, 2)
	t1.Mul(a, &t1)
	t0.Mul(&t0, &t1)
	t2.Square(&t0)
	t1.Mul(&t1, &t2)
	t2.squareN(&t1, 5)
	t1.Mul(&t2, &t1)
	t2.squareN(&t1, 10)
	t2.Mul(&t2, &t1)
	t3.squareN(&t2, 20)
	t2.Mul(&t3, &t2)
	t2.squareN(&t2, 10)
	t1.Mul(&t2, &t1)
	t2.squareN(&t1, 50)
	t2.Mul(&t2, &t1)
	t3.squareN(&t2, 100)
	t2.Mul(&t3, &t2)
	t2.squareN(&t2, 50)
	t1.Mul(&t2, &t1)
	t1.squareN(&t1, 5)
	return fe.Mul(&t1, &t0)
}

// Sets fe to a^(2^n).  Requires n > 0.
func (fe *FieldElement) squareN(a *FieldElement, n int) *FieldElement {
	fe.Square(a)
	for ; n > 1; n-- {
		fe.Square(fe)
	}
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) Exp22523(', '''
func (fe *FieldElement) Exp22523(a *FieldElement) *FieldElement {
	var t0, t1, t2 FieldElement

	t0.Square(a)
	t1.squareN(&t0, 2)
	t1.Mul(a, &t1)
	t0.Mul(&t0, &t1)
	t0.Square(&t0)
	t0.Mul(&t1, &t0)
	t1.squareN(&t0, 5)
	t0.Mul(&t1, &t0)
	t1.squareN(&t0, 10)
	t1.Mul(&t1, &t0)
	t2.squareN(&t1, 20)
	t1.Mul(&t2, &t1)
	t1.squareN(&t1, 10)
	t0.Mul(&t1, &t0)
	t1.squareN(&t0, 50)
	t1.Mul(&t1, &t0)
	t2.squareN(&t1, 100)
	t1.Mul(&t2, &t1)
	t1.squareN(&t1, 50)
	t0.Mul(&t1, &t0)
	t0.squareN(&t0, 2)
	return fe.Mul(&t0, a)
}
'''))
ref('field-invsqrt', fn(FI, 'func (fe *FieldElement) InvSqrt(', '''
func (fe *FieldElement) InvSqrt(a *FieldElement) *FieldElement {
	var chk, t, ti FieldElement
	t.invSqrtCandidate(a)
	ti.Mul(&t, &feI)
	chk.Square(&t)
	chk.Mul(a, &chk)
	notOne := 1 - chk.IsOneI()
	t.ConditionalSet(&ti, notOne)
	return fe.Set(&t)
}

// Sets fe to a^3 (a^7)^((p-5)/8).
func (fe *FieldElement) invSqrtCandidate(a *FieldElement) *FieldElement {
	var den3, t FieldElement
	den3.Square(a)
	den3.Mul(&den3, a)
	t.Square(&den3)
	t.Mul(&t, a)
	t.Exp22523(&t)
	return fe.Mul(&t, &den3)
}
'''), fn(FI, 'func (fe *FieldElement) InvSqrtI(', '''
func (fe *FieldElement) InvSqrtI(a *FieldElement) int32 {
	var chk, t, corr FieldElement
	t.invSqrtCandidate(a)
	chk.Square(&t)
	chk.Mul(&chk, a)

	isOne := chk.IsOneI()
	isMinusOne := chk.EqualsI(&feMinusOne)
	isI := chk.EqualsI(&feI)

	corr.SetOne()
	corr.ConditionalSet(&feI, isMinusOne|isI)
	fe.Mul(&t, &corr)
	return isOne | isMinusOne
}
'''), fn(FI, 'func (fe *FieldElement) Sqrt(', '''
func (fe *FieldElement) Sqrt(a *FieldElement) *FieldElement {
	var r FieldElement
	r.InvSqrt(a)
	r.Mul(&r, a)
	return fe.Abs(&r)
}
'''))
ref('field-radix51-carry', fn(R51, 'func (fe *FieldElement) Neg(', '''
func (fe *FieldElement) Neg(a *FieldElement) *FieldElement {
	return fe.sub(&FieldElement{}, a)
}

// Carries fe once around.
func (fe *FieldElement) weakReduce() {
	const mask = 1<<51 - 1
	for i := 0; i < 4; i++ {
		fe[i+1] += fe[i] >> 51
		fe[i] &= mask
	}
	fe[0] += (fe[4] >> 51) * 19
	fe[4] &= mask
}
'''), fn(R51, 'func (fe *FieldElement) sub(', '''
func (fe *FieldElement) sub(a, b *FieldElement) *FieldElement {
	t := *b
	t.weakReduce()
	fe[0] = a[0] + (0xfffffffffffda - t[0])
	for i := 1; i < 5; i++ {
		fe[i] = a[i] + (0xffffffffffffe - t[i])
	}
	return fe
}
'''), fn(R51, 'func (fe *FieldElement) setReduced(', '''
func (fe *FieldElement) setReduced(a *FieldElement) *FieldElement {
	*fe = *a
	fe.weakReduce()

	c := uint64(19)
	for _, x := range fe {
		c = (x + c) >> 51
	}
	fe[0] += 19 * c

	for i := 0; i < 4; i++ {
		fe[i+1] += fe[i] >> 51
		fe[i] &= 0x7ffffffffffff
	}
	fe[4] &= 0x7ffffffffffff
	return fe
}
'''), fn(R51, 'func (fe *FieldElement) ConditionalSet(', '''
func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
	mask := -uint64(b)
	for i := range fe {
		fe[i] = (mask & a[i]) | (^mask & fe[i])
	}
}
'''), fn(R51, 'func (fe *FieldElement) SetBytes(', '''
func (fe *FieldElement) SetBytes(buf *[32]byte) *FieldElement {
	const mask = 1<<51 - 1
	fe[0] = load8u(buf[0:]) & mask
	fe[1] = (load8u(buf[6:]) >> 3) & mask
	fe[2] = (load8u(buf[12:]) >> 6) & mask
	fe[3] = (load8u(buf[19:]) >> 1) & mask
	fe[4] = (load8u(buf[24:]) >> 12) & mask
	return fe
}
'''), fn(R51, 'func (fe *FieldElement) BytesInto(', '''
func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
	var t FieldElement
	t.setReduced(fe)
	w := [4]uint64{
		t[0] | t[1]<<51,
		t[1]>>13 | t[2]<<38,
		t[2]>>26 | t[3]<<25,
		t[3]>>39 | t[4]<<12,
	}
	for i := range w {
		for j := 0; j < 8; j++ {
			s[8*i+j] = byte(w[i] >> uint(8*j))
		}
	}
	return fe
}
'''))
ref('field-generic-loops', fn(GEN, 'func (fe *FieldElement) ConditionalSet(', '''
func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
	for i := range fe {
		fe[i] ^= -b & (fe[i] ^ a[i])
	}
}
'''), fn(GEN, 'func (fe *FieldElement) setReduced(', '''
func (fe *FieldElement) setReduced(
	h0, h1, h2, h3, h4, h5, h6, h7, h8, h9 int64) *FieldElement {
	h := [10]int64{h0, h1, h2, h3, h4, h5, h6, h7, h8, h9}
	for _, i := range [...]int{0, 4, 1, 5, 2, 6, 3, 7, 4, 8, 9, 0} {
		n := uint(26 - i%2)
		c := (h[i] + 1<<(n-1)) >> n
		h[i] -= c << n
		if i == 9 {
			h[0] += 19 * c
		} else {
			h[i+1] += c
		}
	}
	for i := range fe {
		fe[i] = int32(h[i])
	}
	return fe
}
'''))
ref('field-mul64-helper', (M64, '''	h, l = bits.Mul64(b1_19, a4)
	c0l, carry = bits.Add64(c0l, l, 0)
	c0h, _ = bits.Add64(c0h, h, carry)
''', '''	c0h, c0l = mulAcc(c0h, c0l, b1_19, a4)
'''), (M64, '''// Sets fe to a * b.  Returns fe.
func (fe *FieldElement) Mul(''', '''// Returns (h, l) + a*b.
func mulAcc(h, l, a, b uint64) (uint64, uint64) {
	h2, l2 := bits.Mul64(a, b)
	l3, c := bits.Add64(l, l2, 0)
	h3, _ := bits.Add64(h, h2, c)
	return h3, l3
}

// Sets fe to a * b.  Returns fe.
func (fe *FieldElement) Mul('''))
# ------------------------------------------------------------------ points
ref('curve-formulas', fn(CU, 'func (p *CompletedPoint) SubExtended(', '''
func (p *CompletedPoint) SubExtended(q, r *ExtendedPoint) *CompletedPoint {
	var rNeg ExtendedPoint
	rNeg.Neg(r)
	return p.AddExtended(q, &rNeg)
}
'''), fn(CU, 'func (p *CompletedPoint) AddExtended(', '''
func (p *CompletedPoint) AddExtended(q, r *ExtendedPoint) *CompletedPoint {
	var a, b, c, d, s, t FieldElement

	d.Mul(&q.Z, &r.Z)
	d.add(&d, &d)
	c.Mul(&fe2D, &q.T)
	c.Mul(&r.T, &c)
	s.add(&q.X, &q.Y)
	t.add(&r.Y, &r.X)
	b.Mul(&t, &s)
	s.sub(&q.Y, &q.X)
	t.sub(&r.Y, &r.X)
	a.Mul(&s, &t)
	p.X.sub(&b, &a)
	p.Y.add(&a, &b)
	p.Z.add(&c, &d)
	p.T.sub(&d, &c)
	return p
}
'''), fn(CU, 'func (p *CompletedPoint) DoubleExtended(', '''
func (p *CompletedPoint) DoubleExtended(q *ExtendedPoint) *CompletedPoint {
	var pp ProjectivePoint
	pp.SetExtended(q)
	return p.DoubleProjective(&pp)
}
'''), fn(CU, 'func (p *ExtendedPoint) SetCompleted(', '''
func (p *ExtendedPoint) SetCompleted(q *CompletedPoint) *ExtendedPoint {
	var r ExtendedPoint
	r.T.Mul(&q.X, &q.Y)
	r.X.Mul(&q.X, &q.T)
	r.Y.Mul(&q.Y, &q.Z)
	r.Z.Mul(&q.Z, &q.T)
	*p = r
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Set(', '''
func (p *ExtendedPoint) Set(q *ExtendedPoint) *ExtendedPoint {
	*p = *q
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) SetZero(', '''
func (p *ExtendedPoint) SetZero() *ExtendedPoint {
	return p.Set(&epZero)
}
'''))
ref('curve-ristretto-helpers', fn(CU, 'func (p *ExtendedPoint) RistrettoInto(', '''
func (p *ExtendedPoint) RistrettoInto(buf *[32]byte) *ExtendedPoint {
	var u1, u2, isr, i1, i2, zInv, denInv, nx, ny, s, t FieldElement

	s.add(&p.Z, &p.Y)
	t.sub(&p.Z, &p.Y)
	u1.Mul(&s, &t)
	u2.Mul(&p.X, &p.Y)

	t.Square(&u2)
	t.Mul(&u1, &t)
	isr.InvSqrt(&t)

	i1.Mul(&isr, &u1)
	i2.Mul(&isr, &u2)
	zInv.Mul(&i1, &i2)
	zInv.Mul(&zInv, &p.T)

	t.Mul(&zInv, &p.T)
	rotate := t.IsNegativeI()

	nx.Set(&p.X)
	ny.Set(&p.Y)
	denInv.Set(&i2)
	t.Mul(&p.Y, &feI)
	nx.ConditionalSet(&t, rotate)
	t.Mul(&p.X, &feI)
	ny.ConditionalSet(&t, rotate)
	t.Mul(&feInvSqrtMinusDMinusOne, &i1)
	denInv.ConditionalSet(&t, rotate)

	t.Mul(&nx, &zInv)
	ny.condNeg(t.IsNegativeI())

	s.sub(&p.Z, &ny)
	s.Mul(&s, &denInv)
	s.Abs(&s)
	s.BytesInto(buf)
	return p
}

// Negates fe if b == 1.
func (fe *FieldElement) condNeg(b int32) {
	var t FieldElement
	t.Neg(fe)
	fe.ConditionalSet(&t, b)
}
'''), fn(CU, 'func (p *ExtendedPoint) SetRistretto(', '''
func (p *ExtendedPoint) SetRistretto(buf *[32]byte) bool {
	var s, s2, chk, yDen, yNum, yDen2, xDen2, isr, xDenInv FieldElement
	var yDenInv, t FieldElement
	var buf2 [32]byte

	s.SetBytes(buf)
	s.BytesInto(&buf2)
	canonical := int32(subtle.ConstantTimeCompare(buf2[:], buf[:]))
	even := int32(1 - buf[0]&1)

	s2.Square(&s)
	yDen.add(&feOne, &s2)
	yNum.sub(&feOne, &s2)
	yDen2.Square(&yDen)
	xDen2.Square(&yNum)
	xDen2.Mul(&xDen2, &feD)
	xDen2.add(&xDen2, &yDen2)
	xDen2.Neg(&xDen2)
	t.Mul(&xDen2, &yDen2)
	isr.InvSqrt(&t)
	chk.Square(&isr)
	chk.Mul(&chk, &t)
	square := chk.IsOneI()
	xDenInv.Mul(&isr, &yDen)
	yDenInv.Mul(&xDenInv, &isr)
	yDenInv.Mul(&yDenInv, &xDen2)

	var r ExtendedPoint
	r.X.Mul(&s, &xDenInv)
	r.X.add(&r.X, &r.X)
	r.X.Abs(&r.X)
	r.Y.Mul(&yNum, &yDenInv)
	r.Z.SetOne()
	r.T.Mul(&r.X, &r.Y)

	ok := canonical & even & square & (1 - r.T.IsNegativeI()) & r.Y.IsNonZeroI()
	*p = ExtendedPoint{}
	p.ConditionalSet(&r, ok)
	return ok == 1
}
'''), fn(CU, 'func (p *ExtendedPoint) RistrettoEqualsI(', '''
func (p *ExtendedPoint) RistrettoEqualsI(q *ExtendedPoint) int32 {
	var a, b FieldElement
	a.Mul(&p.X, &q.Y)
	b.Mul(&q.X, &p.Y)
	eq := a.EqualsI(&b)
	a.Mul(&p.X, &q.X)
	b.Mul(&p.Y, &q.Y)
	return eq | a.EqualsI(&b)
}
'''), fn(CU, 'func (p *ExtendedPoint) Ristretto(', '''
func (p *ExtendedPoint) Ristretto() []byte {
	buf := new([32]byte)
	p.RistrettoInto(buf)
	return buf[:]
}
'''))
ref('curve-scalarmult', fn(CU, 'func (p *ExtendedPoint) ScalarMult(', '''
func (p *ExtendedPoint) ScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [17]ExtendedPoint
	var r ExtendedPoint
	var window [51]int8

	computeScalarWindow5(s, &window)
	lut[0].SetZero()
	for i := 1; i < 17; i++ {
		lut[i].Add(&lut[i-1], q)
	}

	r.SetZero()
	for i := range window {
		var t ExtendedPoint
		r.mul32()
		t.lookup(&lut, int32(window[50-i]))
		r.Add(&r, &t)
	}
	return p.Set(&r)
}

// Sets p to 32 * p.
func (p *ExtendedPoint) mul32() {
	var pp ProjectivePoint
	var cp CompletedPoint
	cp.DoubleExtended(p)
	for z := 0; z < 4; z++ {
		pp.SetCompleted(&cp)
		cp.DoubleProjective(&pp)
	}
	p.SetCompleted(&cp)
}

// Sets p to lut[b] if b >= 0 and to -lut[-b] otherwise.
func (p *ExtendedPoint) lookup(lut *[17]ExtendedPoint, b int32) {
	var neg ExtendedPoint
	sign := negative(b)
	abs := (b ^ -sign) + sign
	p.Set(&lut[0])
	for j := int32(1); j < 17; j++ {
		p.ConditionalSet(&lut[j], equal30(abs, j))
	}
	neg.Neg(p)
	p.ConditionalSet(&neg, sign)
}
'''), fn(CU, 'func computeScalarWindow5(', '''
func computeScalarWindow5(s *[32]byte, w *[51]int8) {
	for i := range w {
		bit := 5 * i
		v := uint16(s[bit/8])
		if bit/8+1 < 32 {
			v |= uint16(s[bit/8+1]) << 8
		}
		w[i] = int8((v >> uint(bit%8)) & 31)
	}

	/* Making it signed */
	carry := int8(0)
	for i := 0; i < 50; i++ {
		w[i] += carry
		carry = (w[i] + 16) >> 5
		w[i] -= carry << 5
	}
	w[50] += carry
}
'''))
ref('table-loops', fn(TA, 'func (t *ScalarMultTable) ScalarMult(', '''
func (t *ScalarMultTable) ScalarMult(p *ExtendedPoint, s *[32]byte) {
	var w [64]int8
	computeScalarWindow4(s, &w)

	p.SetZero()
	t.addDigits(p, &w, 1)
	for i := 0; i < 4; i++ {
		p.Double(p)
	}
	t.addDigits(p, &w, 0)
}

// Adds the digits with the given parity to p.
func (t *ScalarMultTable) addDigits(p *ExtendedPoint, w *[64]int8, odd int) {
	var np NielsPoint
	var cp CompletedPoint
	for i := range t {
		t.selectPoint(&np, int32(i), int32(w[2*i+odd]))
		cp.AddExtendedNiels(p, &np)
		p.SetCompleted(&cp)
	}
}
'''), fn(TA, 'func (t *ScalarMultTable) Compute(', '''
func (t *ScalarMultTable) Compute(p *ExtendedPoint) {
	var c, cp ExtendedPoint
	cp.Set(p)
	for i := range t {
		c.Set(&cp)
		t[i][0].SetExtended(&c)
		for v := 1; v < 8; v++ {
			c.Add(&c, &cp)
			t[i][v].SetExtended(&c)
		}
		for j := 0; j < 5; j++ {
			c.Double(&c)
		}
		cp.Set(&c)
	}
}
'''), fn(TA, 'func (t *ScalarMultTable) selectPoint(', '''
func (t *ScalarMultTable) selectPoint(p *NielsPoint, pos int32, b int32) {
	sign := negative(b)
	abs := (b ^ -sign) + sign
	row := &t[pos]
	p.SetZero()
	for i := range row {
		p.ConditionalSet(&row[i], equal30(abs, int32(i+1)))
	}
	var negP NielsPoint
	negP.Neg(p)
	p.ConditionalSet(&negP, sign)
}
'''), fn(TA, 'func computeScalarWindow4(', '''
func computeScalarWindow4(s *[32]byte, w *[64]int8) {
	for i, b := range s {
		w[2*i] = int8(b & 15)
		w[2*i+1] = int8(b >> 4)
	}
	for i := 0; i < 63; i++ {
		carry := (w[i] + 8) >> 4
		w[i] -= carry * 16
		w[i+1] += carry
	}
}
'''), fn(TA, 'func (p *NielsPoint) Neg(', '''
func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
	p.YPlusX, p.YMinusX = q.YMinusX, q.YPlusX
	p.XY2D.Neg(&q.XY2D)
	return p
}
'''))
ref('vartime-loops', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint
	var dblQ ExtendedPoint
	var naf [256]int8

	lut[0].Set(q)
	dblQ.Double(q)
	for i := 1; i < 8; i++ {
		lut[i].Add(&lut[i-1], &dblQ)
	}
	computeScalar5NAF(s, &naf)

	p.SetZero()
	for i := 255; i >= 0; i-- {
		p.Double(p)
		if naf[i] > 0 {
			p.Add(p, &lut[naf[i]/2])
		} else if naf[i] < 0 {
			p.Sub(p, &lut[-naf[i]/2])
		}
	}
	return p
}
'''))
ref('vartime-naf', fn(VT, 'func computeScalar5NAF(', '''
func computeScalar5NAF(s *[32]byte, naf *[256]int8) {
	var x [5]uint64
	for i := range x[:4] {
		x[i] = load8u(s[i*8:])
	}
	carry := uint64(0)
	for pos := uint(0); pos < 256; {
		window := carry + (bitsAt(&x, pos) & 31)
		if window&1 == 0 {
			pos++
			continue
		}
		carry = window >> 4
		naf[pos] = int8(window) - int8(carry<<5)
		pos += 5
	}
}

func bitsAt(x *[5]uint64, pos uint) uint64 {
	idx, sh := pos/64, pos%64
	if sh < 59 {
		return x[idx] >> sh
	}
	return (x[idx] >> sh) | (x[idx+1] << (64 - sh))
}
'''))
ref('vartime-table', fn(TA, 'func (t *ScalarMultTable) varTimeSelectPoint(', '''
func (t *ScalarMultTable) varTimeSelectPoint(p *NielsPoint, pos int32, b int32) bool {
	switch {
	case b > 0:
		p.Set(&t[pos][b-1])
	case b < 0:
		p.Neg(&t[pos][-b-1])
	default:
		return false
	}
	return true
}
'''))
# ------------------------------------------------------------------ elligator, lizard
ref('elligator-split', fn(EL, 'func (p *CompletedPoint) SetRistrettoElligator2(', '''
func (p *CompletedPoint) SetRistrettoElligator2(r0 *FieldElement) *CompletedPoint {
	var jc JacobiPoint
	jc.setElligator2(r0)
	return p.SetJacobiQuartic(&jc)
}

func (jc *JacobiPoint) setElligator2(r0 *FieldElement) {
	var r, D, N, sqrt, twiddle, c, r0i, t FieldElement

	// r := i * r0^2
	r0i.Mul(&feI, r0)
	r.Mul(&r0i, r0)

	// N := (1 - d^2)(r + 1)
	t.add(&r, &feOne)
	N.Mul(&t, &feOneMinusDSquared)

	// D := -((d*r)+1) * (r + d)
	D.Mul(&r, &feD)
	D.add(&feOne, &D)
	t.add(&r, &feD)
	D.Mul(&t, &D)
	D.Neg(&D)

	t.Mul(&D, &N)
	square := sqrt.InvSqrtI(&t)
	nonSquare := 1 - square
	sqrt.Abs(&sqrt)

	twiddle.SetOne()
	twiddle.ConditionalSet(&r0i, nonSquare)
	sqrt.Mul(&sqrt, &twiddle)
	jc.S.Mul(&N, &sqrt)

	// c = -1 if N*D is square and 1 otherwise
	c.Set(&feMinusOne)
	c.ConditionalSet(&feOne, nonSquare)
	t.sub(&r, &feOne)
	jc.T.Mul(&c, &t)
	jc.T.Mul(&jc.T, &feDMinusOneSquared)
	jc.T.Mul(&jc.T, &sqrt)
	jc.T.Mul(&jc.T, &jc.S)
	jc.T.sub(&jc.T, &feOne)

	t.Neg(&jc.S)
	jc.S.ConditionalSet(&t, 1^jc.S.IsNegativeI()^square)
}
'''), fn(EL, 'func (p *CompletedPoint) SetJacobiQuartic(', '''
func (p *CompletedPoint) SetJacobiQuartic(jc *JacobiPoint) *CompletedPoint {
	var s2 FieldElement
	s2.Square(&jc.S)
	p.Y.sub(&feOne, &s2)
	p.X.Mul(&feDoubleInvSqrtMinusDMinusOne, &jc.S)
	p.Z.Set(&jc.T)
	p.T.add(&s2, &feOne)
	return p
}
'''))
ref('elligator-inverse', fn(EL, 'func (p *ExtendedPoint) RistrettoElligator2Inverse(', '''
func (p *ExtendedPoint) RistrettoElligator2Inverse(fes *[8]FieldElement) uint8 {
	var setMask int
	var jcs [4]JacobiPoint

	p.ToJacobiQuarticRistretto(&jcs)
	for j := range jcs {
		var dual JacobiPoint
		dual.Dual(&jcs[j])
		setMask |= jcs[j].elligator2Inverse(&fes[2*j]) << uint(2*j)
		setMask |= dual.elligator2Inverse(&fes[2*j+1]) << uint(2*j+1)
	}

	pIsZero := 1 - (p.X.IsNonZeroI() & p.Y.IsNonZeroI())
	fes[2].ConditionalSet(&feSqrtIOverD, pIsZero)
	return uint8(setMask)
}
'''), fn(EL, 'func (p *JacobiPoint) elligator2Inverse(', '''
func (p *JacobiPoint) elligator2Inverse(fe *FieldElement) int {
	var x, y, a, a2, S2, S4, negS2 FieldElement

	// a := (t+1) (d+1)/(d-1)
	a.add(&feOne, &p.T)
	a.Mul(&feDp1OverDm1, &a)
	a2.Square(&a)

	// y := 1/sqrt(i (s^4 - a^2)).
	S2.Square(&p.S)
	S4.Square(&S2)
	S4.sub(&S4, &a2)
	notSquare := y.InvSqrtI(&S4)

	// x := (a + sign(s)*s^2) y
	negS2.Neg(&S2)
	S2.ConditionalSet(&negS2, p.S.IsNegativeI())
	x.add(&S2, &a)
	x.Mul(&y, &x)
	x.Abs(&x)
	x.ConditionalSet(&feZero, notSquare)

	// Special case: s = 0.
	sIsZero := 1 - p.S.IsNonZeroI()
	tIsOne := p.T.EqualsI(&feOne)
	x.ConditionalSet(&feZero, sIsZero)
	x.ConditionalSet(&feSqrtID, tIsOne&(sIsZero|notSquare))
	fe.Set(&x)

	return int(sIsZero | (1 - notSquare))
}
'''))
ref('point-lizard', fn(RI, 'func (p *Point) SetLizard(', '''
func (p *Point) SetLizard(data *[16]byte) *Point {
	buf := lizardBuf(data[:])
	return p.SetElligator(&buf)
}

func lizardBuf(data []byte) [32]byte {
	h := sha256.Sum256(data)
	copy(h[8:24], data)
	h[0] &= 0xfe
	h[31] &= 0x3f
	return h
}
'''), fn(RI, 'func (p *Point) LizardInto(', '''
func (p *Point) LizardInto(buf *[16]byte) error {
	var fes [8]edwards25519.FieldElement
	var nFound int

	mask := p.e().RistrettoElligator2Inverse(&fes)
	for j := range fes {
		cand := fes[j].Bytes()
		h := lizardBuf(cand[8:24])
		ok := int(mask>>uint(j)) & 1 & subtle.ConstantTimeCompare(cand[:], h[:])
		subtle.ConstantTimeCopy(ok, buf[:], cand[8:24])
		nFound += ok
	}
	switch nFound {
	case 1:
		return nil
	case 0:
		return errors.New("No Lizard preimage")
	default:
		return errors.New("Multiple Lizard preimages")
	}
}
'''), fn(RI, 'func (p *Point) Lizard(', '''
func (p *Point) Lizard() []byte {
	buf := make([]byte, 16)
	var ret [16]byte
	err := p.LizardInto(&ret)
	if err == nil {
		copy(buf, ret[:])
		return buf
	}
	return nil
}
'''))
ref('point-derive', fn(RI, 'func (p *Point) DeriveDalek(', '''
func (p *Point) DeriveDalek(data []byte) *Point {
	var p1, p2 Point
	var b1, b2 [32]byte
	hash := sha512.Sum512(data)
	copy(b1[:], hash[:32])
	copy(b2[:], hash[32:])
	p1.SetElligator(&b1)
	p2.SetElligator(&b2)
	return p.Add(&p1, &p2)
}
'''), fn(RI, 'func (p *Point) Derive(', '''
func (p *Point) Derive(buf []byte) *Point {
	var ptBuf [32]byte
	h := sha512.Sum512(buf)
	for i := range ptBuf {
		ptBuf[i] = h[i]
	}
	p.SetElligator(&ptBuf)
	return p
}
'''), fn(RI, 'func (p *Point) SetElligator(', '''
func (p *Point) SetElligator(buf *[32]byte) *Point {
	var fe edwards25519.FieldElement
	fe.SetBytes(buf)
	p.setFieldElement(&fe)
	return p
}

func (p *Point) setFieldElement(fe *edwards25519.FieldElement) {
	var cp edwards25519.CompletedPoint
	p.e().SetCompleted(cp.SetRistrettoElligator2(fe))
}
'''), fn(RI, 'func (p *Point) EqualsI(', '''
func (p *Point) EqualsI(q *Point) int32 {
	return q.e().RistrettoEqualsI(p.e())
}
'''), fn(RI, 'func (p *Point) Equals(', '''
func (p *Point) Equals(q *Point) bool {
	if p.EqualsI(q) == 1 {
		return true
	}
	return false
}
'''))
ref('point-marshal', fn(RI, 'func textToBuf(', '''
func textToBuf(dst, src []byte) error {
	if len(src) == 64 {
		if n, err := hex.Decode(dst, src); err == nil && n == 32 {
			return nil
		}
	}
	return base64ToBuf(dst, src)
}

func base64ToBuf(dst, src []byte) error {
	enc := base64.RawURLEncoding
	buf := make([]byte, enc.DecodedLen(len(src)))
	n, err := enc.Decode(buf, src)
	switch {
	case err != nil:
		return err
	case n != 32:
		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
	}
	copy(dst, buf[:n])
	return nil
}
'''), fn(RI, 'func (p *Point) UnmarshalText(', '''
func (p *Point) UnmarshalText(txt []byte) error {
	var buf [32]byte
	if err := textToBuf(buf[:], txt); err != nil {
		return err
	}
	return p.UnmarshalBinary(buf[:])
}
'''), fn(RI, 'func (p *Point) MarshalBinary(', '''
func (p *Point) MarshalBinary() ([]byte, error) {
	return p.Bytes(), nil
}
'''), fn(RI, 'func (p *Point) MarshalText(', '''
func (p *Point) MarshalText() ([]byte, error) {
	enc := base64.RawURLEncoding
	buf := p.Bytes()
	ret := make([]byte, enc.EncodedLen(len(buf)))
	enc.Encode(ret, buf)
	return ret, nil
}
'''))
ref('point-scalarmult-helper', (RI, '''	var buf [32]byte
	s.BytesInto(&buf)
	p.e().ScalarMult(q.e(), &buf)
	return p''', '''	p.e().ScalarMult(q.e(), scalarBytes(s))
	return p'''), (RI, '''func (p *Point) e() *edw''', '''func scalarBytes(s *Scalar) *[32]byte {
	var buf [32]byte
	s.BytesInto(&buf)
	return &buf
}

func (p *Point) e() *edw'''), (RI, '''	var buf [32]byte
	s.BytesInto(&buf)
	edwards25519.BaseScalarMultTable.ScalarMult(p.e(), &buf)
	return p''', '''	return p.ScalarMultTable((*ScalarMultTable)(&edwards25519.BaseScalarMultTable), s)'''))
# ------------------------------------------------------------------ second battery: other ways of writing Go
ref('x-scalar-split', fn(SC, 'func (s *Scalar) Sub(', '''
func (s *Scalar) Sub(a, b *Scalar) *Scalar {
	r, borrow := subLimbs(a, b)
	r.addMasked(-borrow)
	*s = r
	return s
}

func subLimbs(a, b *Scalar) (r Scalar, borrow uint32) {
	for i := range r {
		d := uint64(a[i]) - uint64(b[i]) - uint64(borrow)
		r[i], borrow = uint32(d), uint32(d>>63)
	}
	return
}

// Adds l & mask to s.
func (s *Scalar) addMasked(mask uint32) {
	var carry uint64
	for i := 0; i < len(s); i++ {
		carry += uint64(s[i]) + uint64(mask&scL[i])
		s[i] = uint32(carry)
		carry >>= 32
	}
}
'''))
ref('x-scalar-limbs', fn(SC, 'func (s *Scalar) Mul(', '''
func (s *Scalar) limbs21() [12]int64 {
	var r [12]int64
	for i := range r {
		bit := 21 * i
		idx, sh := bit/32, uint(bit%32)
		v := uint64(s[idx]) >> sh
		if idx < 7 {
			v |= uint64(s[idx+1]) << (32 - sh)
		}
		if i < 11 {
			v &= 1<<21 - 1
		}
		r[i] = int64(v)
	}
	return r
}

func (s *Scalar) Mul(a, b *Scalar) *Scalar {
	x, y := a.limbs21(), b.limbs21()
	var p [23]int64
	for i, u := range x {
		for j, v := range y {
			p[i+j] += u * v
		}
	}
	return s.reduceAfterMul(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8], p[9], p[10], p[11],
		p[12], p[13], p[14], p[15], p[16], p[17], p[18], p[19], p[20], p[21], p[22])
}
'''), fn(SC, 'func (s *Scalar) Square(', '''
func (s *Scalar) Square(a *Scalar) *Scalar {
	return s.Mul(a, a)
}
'''))
ref('x-scalar-inverse-bits', fn(SC, 'func (s *Scalar) Inverse(', '''
func (s *Scalar) Inverse(t *Scalar) *Scalar {
	// l - 2
	exp := [8]uint32{0x5cf5d3eb, 0x5812631a, 0xa2f79cd6, 0x14def9de, 0, 0, 0, 0x10000000}
	var r Scalar
	r.SetOne()
	for i := 252; i >= 0; i-- {
		r.Square(&r)
		if (exp[i/32]>>uint(i%32))&1 == 1 {
			r.Mul(&r, t)
		}
	}
	return s.Set(&r)
}
'''))
ref('x-scalar-loads', fn(SC, 'func load3(', '''
func load3(in []byte) int64 {
	return load(in, 3)
}

func load(in []byte, n int) (r int64) {
	for i := n - 1; i >= 0; i-- {
		r = r<<8 | int64(in[i])
	}
	return r
}
'''), fn(SC, 'func load4(', '''
func load4(in []byte) int64 {
	return int64(binary.LittleEndian.Uint32(in))
}
'''), fn(SC, 'func load4u32(', '''
func load4u32(in []byte) uint32 {
	_ = in[3]
	return uint32(in[3])<<24 + uint32(in[2])<<16 + uint32(in[1])<<8 + uint32(in[0])
}
'''), fn(SC, 'func (s *Scalar) BigInt(', '''
func (s *Scalar) BigInt() *big.Int {
	be := make([]byte, 32)
	for i, b := range s.Bytes() {
		be[len(be)-1-i] = b
	}
	return new(big.Int).SetBytes(be)
}
'''), fn(SC, 'func (s *Scalar) SetUint64(', '''
func (s *Scalar) SetUint64(x uint64) *Scalar {
	*s = Scalar{uint32(x), uint32(x >> 32)}
	return s
}
'''), fn(SC, 'func (s *Scalar) DeriveShort(', '''
func (s *Scalar) DeriveShort(buf []byte) *Scalar {
	digest := sha512.Sum512(buf)
	half := digest[:16]
	s.SetZero()
	for i := 0; len(half) > 0; i++ {
		s[i] = load4u32(half)
		half = half[4:]
	}
	return s
}
'''))
ref('x-scalar-setreduced-array', fn(SC, 'func (s *Scalar) SetReduced(', '''
func (s *Scalar) SetReduced(t *[64]byte) *Scalar {
	var x [24]int64
	for i := range x {
		bit := 21 * i
		pos, sh := bit/8, uint(bit%8)
		var v int64
		for k := 0; k < 4 && pos+k < 64; k++ {
			v |= int64(t[pos+k]) << uint(8*k)
		}
		x[i] = v >> sh
		if i < 23 {
			x[i] &= 0x1fffff
		}
	}
	return s.reduceAfterMul(x[0], x[1], x[2], x[3], x[4], x[5]+0, x[6], x[7], x[8], x[9], x[10], x[11]+x[23]*666643,
		x[12]+x[23]*470296, x[13]+x[23]*654183, x[14]-x[23]*997805, x[15]+x[23]*136657, x[16]-x[23]*683901,
		x[17], x[18], x[19], x[20], x[21], x[22])
}
'''))
ref('x-scalar-nonzero', fn(SC, 'func (s *Scalar) IsNonZeroI(', '''
func (s *Scalar) IsNonZeroI() int32 {
	var acc uint32
	for _, limb := range s {
		acc |= limb
	}
	return int32((acc | -acc) >> 31)
}
'''), fn(SC, 'func (s *Scalar) EqualsI(', '''
func (s *Scalar) EqualsI(a *Scalar) int32 {
	var acc uint32
	for i := range s {
		acc |= s[i] ^ a[i]
	}
	return int32(((uint64(acc) - 1) >> 63) & 1)
}
'''), fn(SC, 'func (s *Scalar) Equals(', '''
func (s *Scalar) Equals(a *Scalar) bool {
	return s.EqualsI(a) == 1
}
'''), fn(SC, 'func (s *Scalar) ConditionalSet(', '''
func (s *Scalar) ConditionalSet(t *Scalar, b int32) {
	mask := uint32(-b)
	for i := range s {
		s[i] = s[i]&^mask | t[i]&mask
	}
}
'''))
ref('x-scalar-add-bits', (SC, '	"fmt"\n', '	"fmt"\n	"math/bits"\n'), fn(SC, 'func (s *Scalar) Add(', '''
func (s *Scalar) Add(a, b *Scalar) *Scalar {
	var sum Scalar
	var c uint32
	for i := 0; i < 8; i++ {
		sum[i], c = bits.Add32(a[i], b[i], c)
	}
	return s.Sub(&sum, &scL)
}
'''))
ref('x-scalar-fnvalues', fn(SC, 'func (s *Scalar) SetBytes(', '''
func (s *Scalar) SetBytes(x *[32]byte) *Scalar {
	word := func(i int) uint32 { return load4u32(x[4*i : 4*i+4]) }
	for i := range s {
		s[i] = word(i)
	}
	s[7] &= 0x1fffffff
	return s.Sub(s, &scL)
}
'''), fn(SC, 'func (s *Scalar) SetBytesStrict(', '''
func (s *Scalar) SetBytesStrict(x *[32]byte) bool {
	var t, r Scalar
	for i, rest := 0, x[:]; i < 8; i, rest = i+1, rest[4:] {
		t[i] = load4u32(rest)
	}
	if r.Sub(&t, &scL); r == t {
		s.Set(&t)
		return true
	}
	return false
}
'''))
ref('x-field-pow-bits', fn(FI, 'func (fe *FieldElement) Inverse(', '''
func (fe *FieldElement) Inverse(a *FieldElement) *FieldElement {
	// a^(2^255 - 21): the exponent has ones everywhere but at 2 and 4.
	var r FieldElement
	r.SetOne()
	for i := 254; i >= 0; i-- {
		r.Square(&r)
		if i != 2 && i != 4 {
			r.Mul(&r, a)
		}
	}
	return fe.Set(&r)
}
'''), fn(FI, 'func (fe *FieldElement) Exp22523(', '''
func (fe *FieldElement) Exp22523(a *FieldElement) *FieldElement {
	chain := []struct{ squarings, with int }{{1, 0}}
	_ = chain
	var r FieldElement
	r.Set(a)
	for i := 250; i >= 0; i-- {
		r.Square(&r)
		switch i {
		case 1:
		default:
			r.Mul(&r, a)
		}
	}
	*fe = r
	return fe
}
'''))
ref('x-field-tests', fn(FI, 'func (fe *FieldElement) IsNonZeroI(', '''
func (fe *FieldElement) IsNonZeroI() int32 {
	var acc byte
	buf := fe.Bytes()
	for _, b := range buf {
		acc |= b
	}
	return int32((uint32(acc) + 255) >> 8)
}
'''), (FI, '\n	"encoding/binary"\n', ''), fn(FI, 'func (fe *FieldElement) Equals(', '''
func (fe *FieldElement) Equals(a *FieldElement) bool {
	return fe.EqualsI(a) != 0
}
'''), fn(FI, 'func (fe *FieldElement) IsOneI(', '''
func (fe *FieldElement) IsOneI() int32 {
	return fe.EqualsI(&feOne)
}
'''), fn(FI, 'func (fe *FieldElement) Abs(', '''
func (fe *FieldElement) Abs(x *FieldElement) *FieldElement {
	neg := x.IsNegativeI()
	var t [2]FieldElement
	t[0].Set(x)
	t[1].Neg(x)
	t[0].ConditionalSet(&t[1], neg)
	*fe = t[0]
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) Sqrt(', '''
func (fe *FieldElement) Sqrt(a *FieldElement) *FieldElement {
	var r FieldElement
	r.InvSqrt(a)
	r.Mul(&r, a)
	return fe.Abs(&r)
}
'''))
ref('x-field-mulwide', fn(M64, 'func (fe *FieldElement) DoubledSquare(', '''
func (fe *FieldElement) DoubledSquare(a *FieldElement) *FieldElement {
	var sq FieldElement
	sq.Square(a)
	fe.add(&sq, &sq)
	return fe.normalizeWeak()
}

func (fe *FieldElement) normalizeWeak() *FieldElement {
	var c uint64
	for i := range fe {
		fe[i] += c
		c = fe[i] >> 51
		fe[i] &= 1<<51 - 1
	}
	fe[0] += 19 * c
	return fe
}
'''), fn(M64, 'func (fe *FieldElement) Mul(', '''
func (fe *FieldElement) Mul(a, b *FieldElement) *FieldElement {
	var hi, lo [5]uint64
	for i := 0; i < 5; i++ {
		for j := 0; j < 5; j++ {
			x := a[i]
			k := i + j
			if k >= 5 {
				k -= 5
				x *= 19
			}
			h, l := bits.Mul64(x, b[j])
			var c uint64
			lo[k], c = bits.Add64(lo[k], l, 0)
			hi[k], _ = bits.Add64(hi[k], h, c)
		}
	}
	var r FieldElement
	var carry uint64
	for k := 0; k < 5; k++ {
		l, c := bits.Add64(lo[k], carry, 0)
		h := hi[k] + c
		r[k] = l & 0x7ffffffffffff
		carry = h<<13 | l>>51
	}
	r[0] += 19 * carry
	r[1] += r[0] >> 51
	r[0] &= 0x7ffffffffffff
	*fe = r
	return fe
}
'''))
ref('x-point-ptrloop', fn(CU, 'func (p *ExtendedPoint) ConditionalSet(', '''
func (p *ExtendedPoint) ConditionalSet(q *ExtendedPoint, b int32) *ExtendedPoint {
	for _, c := range [...]struct{ dst, src *FieldElement }{
		{&p.X, &q.X}, {&p.Y, &q.Y}, {&p.Z, &q.Z}, {&p.T, &q.T},
	} {
		c.dst.ConditionalSet(c.src, b)
	}
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Set(', '''
func (p *ExtendedPoint) Set(q *ExtendedPoint) *ExtendedPoint {
	*p = *q
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Neg(', '''
func (p *ExtendedPoint) Neg(q *ExtendedPoint) *ExtendedPoint {
	*p = *q
	for _, c := range []*FieldElement{&p.X, &p.T} {
		c.Neg(c)
	}
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Double(', '''
func (p *ExtendedPoint) Double(q *ExtendedPoint) *ExtendedPoint {
	return p.SetCompleted(new(CompletedPoint).DoubleExtended(q))
}
'''), fn(CU, 'func (p *ExtendedPoint) Add(', '''
func (p *ExtendedPoint) Add(q, r *ExtendedPoint) *ExtendedPoint {
	return p.SetCompleted(new(CompletedPoint).AddExtended(q, r))
}
'''))
ref('x-curve-window', fn(CU, 'func computeScalarWindow5(', '''
func computeScalarWindow5(s *[32]byte, w *[51]int8) {
	for i := range w {
		bit := 5 * i
		v := uint16(s[bit/8])
		if bit/8 < 31 {
			v |= uint16(s[bit/8+1]) << 8
		}
		w[i] = int8(v >> uint(bit%8) & 31)
	}

	/* Making it signed */
	for i := 0; i < 50; i++ {
		c := (w[i] + 16) >> 5
		w[i] -= c << 5
		w[i+1] += c
	}
}
'''))
ref('x-curve-mult', fn(CU, 'func (p *ExtendedPoint) ScalarMult(', '''
func (p *ExtendedPoint) ScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [17]ExtendedPoint
	var window [51]int8

	computeScalarWindow5(s, &window)
	lut[0].SetZero()
	lut[1].Set(q)
	for i := 1; i <= 8; i++ {
		lut[2*i].Double(&lut[i])
		if i < 8 {
			lut[2*i+1].Add(&lut[2*i], q)
		}
	}

	p.SetZero()
	i := len(window)
	for i > 0 {
		i--
		p.mul32()
		t := lookup(&lut, int32(window[i]))
		p.Add(p, &t)
	}
	return p
}

func (p *ExtendedPoint) mul32() {
	for z := 0; z < 5; z++ {
		p.Double(p)
	}
}

func lookup(lut *[17]ExtendedPoint, b int32) ExtendedPoint {
	var r, n ExtendedPoint
	r.Set(&lut[0])
	for j := int32(16); j > 0; j-- {
		r.ConditionalSet(&lut[j], equal15(b, -j)|equal15(b, j))
	}
	n.Neg(&r)
	r.ConditionalSet(&n, negative(b))
	return r
}
'''))
ref('x-curve-helpers', fn(FI, 'func equal30(', '''
func equal30(b, c int32) int32 {
	d := int64(b ^ c)
	return int32(uint64(d-1) >> 63)
}
'''), fn(FI, 'func equal15(', '''
func equal15(b, c int32) int32 {
	x := uint32(uint16(b) ^ uint16(c))
	return int32((x - 1) >> 31)
}
'''), fn(FI, 'func negative(', '''
func negative(b int32) int32 {
	return int32(uint32(b) >> 31)
}
'''), fn(VT, 'func load8u(', '''
func load8u(in []byte) (r uint64) {
	for i, b := range in[:8] {
		r |= uint64(b) << uint(8*i)
	}
	return
}
'''))
ref('x-table-compute', fn(TA, 'func (t *ScalarMultTable) Compute(', '''
func (t *ScalarMultTable) Compute(p *ExtendedPoint) {
	base := *p
	for i := range t {
		row := &t[i]
		c := base
		row[0].SetExtended(&c)
		for v := 1; v < len(row); v++ {
			c.Add(&c, &base)
			row[v].SetExtended(&c)
		}
		for k := 0; k < 5; k++ {
			c.Double(&c)
		}
		base = c
	}
}
'''), fn(TA, 'func computeScalarWindow4(', '''
func computeScalarWindow4(s *[32]byte, w *[64]int8) {
	carry := 0
	for i := 0; i < 64; i++ {
		nibble := int(s[i/2]>>uint(4*(i&1))) & 15
		d := nibble + carry
		carry = 0
		if i < 63 {
			carry = (d + 8) >> 4
		}
		w[i] = int8(d - carry<<4)
	}
}
'''), fn(TA, 'func (t *ScalarMultTable) selectPoint(', '''
func (t *ScalarMultTable) selectPoint(p *NielsPoint, pos int32, b int32) {
	sign := b >> 31
	abs := (b ^ sign) - sign
	r := NielsPoint{}
	r.SetZero()
	for i := range t[pos] {
		r.ConditionalSet(&t[pos][i], equal30(abs, int32(i)+1))
	}
	var neg NielsPoint
	neg.Neg(&r)
	r.ConditionalSet(&neg, sign&1)
	p.Set(&r)
}
'''))
ref('x-vartime-mult', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var odd [8]ExtendedPoint
	var twice, acc ExtendedPoint
	odd[0] = *q
	twice.Double(q)
	for i := range odd[1:] {
		odd[i+1].Add(&odd[i], &twice)
	}

	var naf [256]int8
	computeScalar5NAF(s, &naf)

	acc.SetZero()
	for i := 255; i >= 0; i-- {
		acc.Double(&acc)
		switch d := naf[i]; {
		case d > 0:
			acc.Add(&acc, &odd[d/2])
		case d < 0:
			acc.Sub(&acc, &odd[-d/2])
		}
	}
	*p = acc
	return p
}
'''))
ref('x-lizard', fn(RI, 'func (p *Point) LizardInto(', '''
func (p *Point) LizardInto(buf *[16]byte) error {
	var fes [8]edwards25519.FieldElement
	set := p.e().RistrettoElligator2Inverse(&fes)

	n := 0
	for i := range fes {
		cand := fes[i].Bytes()
		want := lizardPad(cand[8:24])
		ok := subtle.ConstantTimeCompare(want[:], cand[:]) & int(set>>uint(i)&1)
		subtle.ConstantTimeCopy(ok, buf[:], cand[8:24])
		n += ok
	}
	switch n {
	case 0:
		return errors.New("No Lizard preimage")
	case 1:
		return nil
	default:
		return errors.New("Multiple Lizard preimages")
	}
}

func lizardPad(data []byte) [32]byte {
	h := sha256.Sum256(data)
	copy(h[8:24], data)
	h[0] &^= 1
	h[31] &= 0x3f
	return h
}
'''), fn(RI, 'func (p *Point) SetLizard(', '''
func (p *Point) SetLizard(data *[16]byte) *Point {
	buf := lizardPad(data[:])
	return p.SetElligator(&buf)
}
'''), fn(RI, 'func (p *Point) Lizard(', '''
func (p *Point) Lizard() []byte {
	ret := make([]byte, 16)
	var buf [16]byte
	if err := p.LizardInto(&buf); err != nil {
		return nil
	}
	copy(ret, buf[:])
	return ret
}
'''))
ref('x-point-text', fn(RI, 'func textToBuf(', '''
func textToBuf(dst, src []byte) error {
	if len(src) == hex.EncodedLen(32) {
		if _, err := hex.Decode(dst, src); err == nil {
			return nil
		}
	}
	raw := make([]byte, base64.RawURLEncoding.DecodedLen(len(src)))
	n, err := base64.RawURLEncoding.Decode(raw, src)
	switch {
	case err != nil:
		return err
	case n != 32:
		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
	}
	copy(dst, raw[:n])
	return nil
}
'''), fn(RI, 'func (p *Point) MarshalText(', '''
func (p *Point) MarshalText() ([]byte, error) {
	return []byte(base64.RawURLEncoding.EncodeToString(p.Bytes())), nil
}
'''), fn(RI, 'func (p *Point) UnmarshalBinary(', '''
func (p *Point) UnmarshalBinary(data []byte) error {
	if n := len(data); n != 32 {
		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
	}
	var buf [32]byte
	if copy(buf[:], data); p.SetBytes(&buf) {
		return nil
	}
	return errors.New("Buffer does not encode a ristretto.Point")
}
'''), fn(RI, 'func (p *Point) Bytes(', '''
func (p *Point) Bytes() []byte {
	var buf [32]byte
	p.BytesInto(&buf)
	return append(make([]byte, 0, 32), buf[:]...)
}
'''))
ref('x-setristretto-reorder', (CU, '''	ret = ret & (1 - s.IsNegativeI())
''', '''	ret &= 1 - s.IsNegativeI()
''') if False else fn(CU, 'func (p *ExtendedPoint) Ristretto(', '''
func (p *ExtendedPoint) Ristretto() []byte {
	var buf [32]byte
	defer func() {}()
	p.RistrettoInto(&buf)
	out := append([]byte(nil), buf[:]...)
	return out
}
'''))
ref('x-elligator-inline', fn(EL, 'func (p *JacobiPoint) Dual(', '''
func (p *JacobiPoint) Dual(q *JacobiPoint) *JacobiPoint {
	s, t := q.S, q.T
	p.S.Neg(&s)
	p.T.Neg(&t)
	return p
}
'''))

# ------------------------------------------------------------------ third battery
ref('y-defer', fn(RI, 'func (p *Point) ScalarMult(', '''
func (p *Point) ScalarMult(q *Point, s *Scalar) (res *Point) {
	var buf [32]byte
	defer func() {
		for i := range buf {
			buf[i] = 0
		}
	}()
	s.BytesInto(&buf)
	p.e().ScalarMult(q.e(), &buf)
	return p
}
'''), fn(RI, 'func (p *Point) MarshalBinary(', '''
func (p *Point) MarshalBinary() (data []byte, err error) {
	data = make([]byte, 0, 32)
	data = append(data, p.Bytes()...)
	return
}
'''))
ref('y-vartime-range', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint
	oddMultiples(&lut, q)

	var naf [256]int8
	computeScalar5NAF(s, &naf)

	top := len(naf) - 1
	for top >= 0 && naf[top] == 0 {
		top--
	}

	p.SetZero()
	for i := top; i >= 0; i-- {
		p.Double(p)
		switch d := naf[i]; {
		case d > 0:
			p.Add(p, &lut[d/2])
		case d < 0:
			p.Sub(p, &lut[-d/2])
		}
	}
	return p
}

// oddMultiples sets lut to q, 3q, 5q, ..., 15q.
func oddMultiples(lut *[8]ExtendedPoint, q *ExtendedPoint) {
	var dbl ExtendedPoint
	dbl.Double(q)
	lut[0].Set(q)
	for i := range lut[1:] {
		lut[i+1].Add(&lut[i], &dbl)
	}
}
'''))
ref('y-table-double', fn(TA, 'func (t *ScalarMultTable) ScalarMult(', '''
func (t *ScalarMultTable) ScalarMult(p *ExtendedPoint, s *[32]byte) {
	var w [64]int8
	computeScalarWindow4(s, &w)
	p.SetZero()
	t.addRow(p, &w, 1)
	for i := 0; i < 4; i++ {
		p.Double(p)
	}
	t.addRow(p, &w, 0)
}

func (t *ScalarMultTable) addRow(p *ExtendedPoint, w *[64]int8, odd int32) {
	var np NielsPoint
	var cp CompletedPoint
	for i := int32(0); i < 32; i++ {
		t.selectPoint(&np, i, int32(w[2*i+odd]))
		p.SetCompleted(cp.AddExtendedNiels(p, &np))
	}
}
'''), fn(TA, 'func (t *ScalarMultTable) Compute(', '''
func (t *ScalarMultTable) Compute(p *ExtendedPoint) {
	cp := *p
	for i := range t {
		row := &t[i]
		c := cp
		row[0].SetExtended(&c)
		for v := 1; v < len(row); v++ {
			row[v].SetExtended(c.Add(&c, &cp))
		}
		for j := 0; j < 5; j++ {
			c.Double(&c)
		}
		cp = c
	}
}
'''))
ref('y-table-select', fn(TA, 'func (t *ScalarMultTable) selectPoint(', '''
func (t *ScalarMultTable) selectPoint(p *NielsPoint, pos int32, b int32) {
	sign := b >> 31
	abs := (b ^ sign) - sign
	row := &t[pos]
	p.SetZero()
	for i := range row {
		p.ConditionalSet(&row[i], equal30(abs, int32(i)+1))
	}
	var negP NielsPoint
	p.ConditionalSet(negP.Neg(p), -sign)
}
'''), fn(TA, 'func computeScalarWindow4(', '''
func computeScalarWindow4(s *[32]byte, w *[64]int8) {
	var carry int8
	for i, b := range s {
		lo := int8(b&15) + carry
		carry = (lo + 8) >> 4
		w[2*i] = lo - carry*16
		hi := int8(b>>4) + carry
		carry = (hi + 8) >> 4
		if i == 31 {
			carry = 0
		}
		w[2*i+1] = hi - carry*16
	}
}
'''))
ref('y-mult-window', fn(CU, 'func (p *ExtendedPoint) ScalarMult(', '''
func (p *ExtendedPoint) ScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	// lut[i] = i*q
	var lut [17]ExtendedPoint
	lut[0].SetZero()
	lut[1] = *q
	for i := 2; i < len(lut); i++ {
		if i%2 == 0 {
			lut[i].Double(&lut[i/2])
		} else {
			lut[i].Add(&lut[i-1], q)
		}
	}

	var window [51]int8
	computeScalarWindow5(s, &window)

	acc := lut[0]
	for i := 50; i >= 0; i-- {
		for z := 0; z < 5; z++ {
			acc.Double(&acc)
		}
		b := int32(window[i])
		neg := negative(b)
		t := lut[0]
		for j := int32(1); j <= 16; j++ {
			t.ConditionalSet(&lut[j], equal15(b, -j)|equal15(b, j))
		}
		var minus ExtendedPoint
		t.ConditionalSet(minus.Neg(&t), neg)
		acc.Add(&acc, &t)
	}
	*p = acc
	return p
}
'''))
ref('y-equals', fn(CU, 'func (p *ExtendedPoint) RistrettoEqualsI(', '''
func (p *ExtendedPoint) RistrettoEqualsI(q *ExtendedPoint) int32 {
	var l, r FieldElement
	ret := l.Mul(&p.X, &q.Y).EqualsI(r.Mul(&p.Y, &q.X))
	ret |= l.Mul(&p.Y, &q.Y).EqualsI(r.Mul(&p.X, &q.X))
	return ret
}
'''), fn(RI, 'func (p *Point) Equals(', '''
func (p *Point) Equals(q *Point) bool {
	switch p.EqualsI(q) {
	case 0:
		return false
	default:
		return true
	}
}
'''), fn(FI, 'func (fe *FieldElement) EqualsI(', '''
func (fe *FieldElement) EqualsI(a *FieldElement) int32 {
	x, y := fe.Bytes(), a.Bytes()
	var diff uint8
	for i := 0; i < len(x); i++ {
		diff |= x[i] ^ y[i]
	}
	return int32((uint32(diff) - 1) >> 31)
}
'''), fn(FI, 'func (fe *FieldElement) Equals(', '''
func (fe *FieldElement) Equals(a *FieldElement) bool {
	return fe.EqualsI(a) != 0
}
'''))
ref('y-field-abs', fn(FI, 'func (fe *FieldElement) Abs(', '''
func (fe *FieldElement) Abs(x *FieldElement) *FieldElement {
	pair := [2]FieldElement{*x, {}}
	pair[1].Neg(x)
	sign := x.IsNegativeI()
	fe.Set(&pair[0])
	fe.ConditionalSet(&pair[1], sign)
	return fe
}
'''), fn(FI, 'func (fe *FieldElement) IsOneI(', '''
func (fe *FieldElement) IsOneI() int32 {
	var one FieldElement
	return fe.EqualsI(one.SetOne())
}
'''), fn(FI, 'func (fe *FieldElement) Sub(', '''
func (fe *FieldElement) Sub(a, b *FieldElement) *FieldElement {
	var neg FieldElement
	return fe.Add(a, neg.Neg(b))
}
'''))
ref('y-lizard-struct', fn(RI, 'func (p *Point) LizardInto(', '''
func (p *Point) LizardInto(buf *[16]byte) error {
	var candidates [8]edwards25519.FieldElement
	mask := p.e().RistrettoElligator2Inverse(&candidates)
	total := 0
	for j := range candidates {
		enc := candidates[j].Bytes()
		msg := enc[8:24]
		want := lizardBlock(msg)
		ok := int(mask>>uint(j)) & 1 & subtle.ConstantTimeCompare(want[:], enc[:])
		subtle.ConstantTimeCopy(ok, buf[:], msg)
		total += ok
	}
	switch {
	case total == 0:
		return errors.New("No Lizard preimage")
	case total > 1:
		return errors.New("Multiple Lizard preimages")
	}
	return nil
}

// lizardBlock returns the field element (as bytes) used to encode data.
func lizardBlock(data []byte) [32]byte {
	h := sha256.Sum256(data)
	copy(h[8:24], data)
	h[0] &^= 1
	h[31] &= 0x3f
	return h
}
'''), fn(RI, 'func (p *Point) SetLizard(', '''
func (p *Point) SetLizard(data *[16]byte) *Point {
	buf := lizardBlock(data[:])
	return p.SetElligator(&buf)
}
'''))
ref('y-marshal-shared', fn(RI, 'func (p *Point) UnmarshalText(', '''
func (p *Point) UnmarshalText(txt []byte) (err error) {
	var buf [32]byte
	if err = textToBuf(buf[:], txt); err == nil && !p.SetBytes(&buf) {
		err = errors.New("Buffer does not encode a ristretto.Point")
	}
	return
}
'''), fn(RI, 'func (p *Point) MarshalText(', '''
func (p *Point) MarshalText() ([]byte, error) {
	return encodeText(p.Bytes()), nil
}

func encodeText(raw []byte) []byte {
	enc := base64.RawURLEncoding
	out := make([]byte, enc.EncodedLen(len(raw)))
	enc.Encode(out, raw)
	return out
}
'''), fn(RI, 'func (p Point) String(', '''
func (p Point) String() string {
	return base64.RawURLEncoding.EncodeToString(p.Bytes())
}
'''))
ref('y-derive', fn(RI, 'func (p *Point) DeriveDalek(', '''
func (p *Point) DeriveDalek(data []byte) *Point {
	hash := sha512.Sum512(data)
	var halves [2]Point
	for i := range halves {
		var buf [32]byte
		copy(buf[:], hash[32*i:])
		halves[i].SetElligator(&buf)
	}
	return p.Add(&halves[0], &halves[1])
}
'''), fn(RI, 'func (p *Point) Derive(', '''
func (p *Point) Derive(buf []byte) *Point {
	h := sha512.Sum512(buf)
	var first [32]byte
	for i := range first {
		first[i] = h[i]
	}
	return p.SetElligator(&first)
}
'''), fn(RI, 'func (p *Point) SetElligator(', '''
func (p *Point) SetElligator(buf *[32]byte) *Point {
	var cp edwards25519.CompletedPoint
	p.e().SetCompleted(cp.SetRistrettoElligator2(new(edwards25519.FieldElement).SetBytes(buf)))
	return p
}
'''))
ref('y-curve-local', fn(CU, 'func (p *CompletedPoint) AddExtended(', '''
func (p *CompletedPoint) AddExtended(q, r *ExtendedPoint) *CompletedPoint {
	var a, b, c, d, t FieldElement
	a.Mul(t.Sub(&q.Y, &q.X), d.Sub(&r.Y, &r.X))
	b.Mul(t.Add(&q.Y, &q.X), d.Add(&r.Y, &r.X))
	c.Mul(t.Mul(&q.T, &r.T), &feTwoD)
	d.Mul(&q.Z, &r.Z)
	d.Add(&d, &d)
	p.X.Sub(&b, &a)
	p.Y.Add(&b, &a)
	p.Z.Add(&d, &c)
	p.T.Sub(&d, &c)
	return p
}
''') , (CU, 'func (p *ExtendedPoint) SetTorsion3()', '''var feTwoD FieldElement = twice(feD)

func twice(a FieldElement) FieldElement {
	var r FieldElement
	r.Add(&a, &a)
	return r
}

func (p *ExtendedPoint) SetTorsion3()'''))
ref('y-ristretto-encode', fn(CU, 'func (p *ExtendedPoint) Ristretto(', '''
func (p *ExtendedPoint) Ristretto() []byte {
	buf := new([32]byte)
	p.RistrettoInto(buf)
	return buf[:]
}
'''), fn(CU, 'func (p *ExtendedPoint) Neg(', '''
func (p *ExtendedPoint) Neg(q *ExtendedPoint) *ExtendedPoint {
	if p != q {
		*p = *q
	}
	p.X.Neg(&p.X)
	p.T.Neg(&p.T)
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Sub(', '''
func (p *ExtendedPoint) Sub(q, r *ExtendedPoint) *ExtendedPoint {
	var minus ExtendedPoint
	return p.Add(q, minus.Neg(r))
}
'''))
ref('y-jacobi', fn(EL, 'func (p *ExtendedPoint) RistrettoElligator2Inverse(', '''
func (p *ExtendedPoint) RistrettoElligator2Inverse(fes *[8]FieldElement) (setMask uint8) {
	var quads [4]JacobiPoint
	p.ToJacobiQuarticRistretto(&quads)
	for j := range quads {
		var dual JacobiPoint
		dual.Dual(&quads[j])
		a := quads[j].elligator2Inverse(&fes[2*j])
		b := dual.elligator2Inverse(&fes[2*j+1])
		setMask |= uint8(a|b<<1) << uint(2*j)
	}
	// zero has a third preimage
	fes[2].ConditionalSet(&feSqrtIOverD, 1-p.X.IsNonZeroI()&p.Y.IsNonZeroI())
	return
}
'''))
ref('y-scalar-reduce', fn(SC, 'func (s *Scalar) Neg(', '''
func (s *Scalar) Neg(a *Scalar) *Scalar {
	var zero Scalar
	*s = *zero.Sub(&zero, a)
	return s
}
'''), fn(SC, 'func (s *Scalar) MulSub(', '''
func (s *Scalar) MulSub(a, b, c *Scalar) *Scalar {
	var minusC Scalar
	return s.MulAdd(a, b, minusC.Neg(c))
}
'''), fn(SC, 'func (s *Scalar) Square(', '''
func (s *Scalar) Square(a *Scalar) *Scalar {
	b := *a
	return s.Mul(&b, &b)
}
'''))


# ---------------------------------------------------------------- third battery
ref('z-radix51-words', (R51, '// Write fe to s in little endian.', '''// Write the low 64 bits of w in little endian to s.
func put64(s []byte, w uint64) {
	for i := uint(0); i < 8; i++ {
		s[i] = byte(w >> (8 * i))
	}
}

func get64(s []byte) uint64 {
	var w uint64
	for i := 7; i >= 0; i-- {
		w = w<<8 | uint64(s[i])
	}
	return w
}

// Write fe to s in little endian.'''), fn(R51, 'func (fe *FieldElement) BytesInto(', '''
func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
	var t FieldElement
	t.setReduced(fe)
	put64(s[0:8], t[0]|t[1]<<51)
	put64(s[8:16], t[1]>>13|t[2]<<38)
	put64(s[16:24], t[2]>>26|t[3]<<25)
	put64(s[24:32], t[3]>>39|t[4]<<12)
	return fe
}
'''), fn(R51, 'func (fe *FieldElement) SetBytes(', '''
func (fe *FieldElement) SetBytes(buf *[32]byte) *FieldElement {
	const mask = (1 << 51) - 1
	w0, w1 := get64(buf[0:8]), get64(buf[8:16])
	w2, w3 := get64(buf[16:24]), get64(buf[24:32])
	fe[0] = w0 & mask
	fe[1] = (w0>>51 | w1<<13) & mask
	fe[2] = (w1>>38 | w2<<26) & mask
	fe[3] = (w2>>25 | w3<<39) & mask
	fe[4] = w3 >> 12 & mask
	return fe
}
'''))
ref('z-radix51-binary', (R51, 'package edwards25519\n', 'package edwards25519\n\nimport "encoding/binary"\n'),
    fn(R51, 'func (fe *FieldElement) BytesInto(', '''
func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
	var t FieldElement
	t.setReduced(fe)
	binary.LittleEndian.PutUint64(s[0:], t[0]|t[1]<<51)
	binary.LittleEndian.PutUint64(s[8:], t[1]>>13|t[2]<<38)
	binary.LittleEndian.PutUint64(s[16:], t[2]>>26|t[3]<<25)
	binary.LittleEndian.PutUint64(s[24:], t[3]>>39|t[4]<<12)
	return fe
}
'''), fn(R51, 'func (fe *FieldElement) SetBytes(', '''
func (fe *FieldElement) SetBytes(buf *[32]byte) *FieldElement {
	const mask = (1 << 51) - 1
	fe[0] = binary.LittleEndian.Uint64(buf[0:]) & mask
	fe[1] = binary.LittleEndian.Uint64(buf[6:]) >> 3 & mask
	fe[2] = binary.LittleEndian.Uint64(buf[12:]) >> 6 & mask
	fe[3] = binary.LittleEndian.Uint64(buf[19:]) >> 1 & mask
	fe[4] = binary.LittleEndian.Uint64(buf[24:]) >> 12 & mask
	return fe
}
'''))
ref('z-condset-select', fn(R51, 'func (fe *FieldElement) ConditionalSet(', '''
func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
	mask := -uint64(b)
	for i := range fe {
		fe[i] = (a[i] & mask) | (fe[i] &^ mask)
	}
}
'''), fn(GEN, 'func (fe *FieldElement) ConditionalSet(', '''
func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
	for i := range fe {
		fe[i] = b*a[i] + (1-b)*fe[i]
	}
}
'''), fn(SC, 'func (s *Scalar) ConditionalSet(', '''
func (s *Scalar) ConditionalSet(t *Scalar, b int32) {
	m := ^(uint32(b) - 1)
	for i, v := range t {
		s[i] = s[i]&^m | v&m
	}
}
'''))
ref('z-condset-subtle', (SC, '	"encoding/binary"\n', '	"crypto/subtle"\n	"encoding/binary"\n'), fn(SC, 'func (s *Scalar) ConditionalSet(', '''
func (s *Scalar) ConditionalSet(t *Scalar, b int32) {
	for i := 0; i < len(s); i++ {
		s[i] = uint32(subtle.ConstantTimeSelect(int(b), int(t[i]), int(s[i])))
	}
}
'''))
ref('z-condset-subtle-copy', (SC, '	"encoding/binary"\n', '	"crypto/subtle"\n	"encoding/binary"\n'), fn(SC, 'func (s *Scalar) IsNonZeroI(', '''
func (s *Scalar) IsNonZeroI() int32 {
	var acc uint32
	for i := range s {
		acc |= s[i]
	}
	return int32(1 - subtle.ConstantTimeEq(int32(acc), 0))
}
'''), fn(SC, 'func (s *Scalar) Equals(', '''
func (s *Scalar) Equals(a *Scalar) bool {
	return s.EqualsI(a) == 1
}
'''), fn(SC, 'func (s *Scalar) EqualsI(', '''
func (s *Scalar) EqualsI(a *Scalar) int32 {
	var b1, b2 [32]byte
	s.BytesInto(&b1)
	a.BytesInto(&b2)
	return int32(subtle.ConstantTimeCompare(b1[:], b2[:]))
}
'''))
ref('z-nonzero-neg', fn(SC, 'func (s *Scalar) IsNonZeroI(', '''
func (s *Scalar) IsNonZeroI() int32 {
	var acc uint32
	for i := range s {
		acc |= s[i]
	}
	return int32((acc | -acc) >> 31)
}
'''), (FI, '\n	"encoding/binary"\n', ''), fn(FI, 'func (fe *FieldElement) IsNonZeroI(', '''
func (fe *FieldElement) IsNonZeroI() int32 {
	buf := fe.Bytes()
	var acc uint8
	for _, b := range buf {
		acc |= b
	}
	return int32((uint32(acc) + 255) >> 8)
}
'''))
ref('z-point-cast', fn(RI, 'func (p *Point) Add(', '''
func (p *Point) Add(q, r *Point) *Point {
	return (*Point)(p.e().Add(q.e(), r.e()))
}
'''), fn(RI, 'func (p *Point) Double(', '''
func (p *Point) Double(q *Point) *Point {
	return wrap(p.e().Double(q.e()))
}

func wrap(p *edwards25519.ExtendedPoint) *Point { return (*Point)(p) }
'''), fn(RI, 'func (p *Point) Set(', '''
func (p *Point) Set(q *Point) *Point {
	*p = *q
	return p
}
'''), fn(RI, 'func (p *Point) Equals(', '''
func (p *Point) Equals(q *Point) bool {
	return p.e().RistrettoEqualsI(q.e()) != 0
}
'''), fn(RI, 'func (p *Point) Neg(', '''
func (p *Point) Neg(q *Point) *Point {
	var zero Point
	return p.Sub(zero.SetZero(), q)
}
'''), fn(RI, 'func (p *Point) ScalarMultBase(', '''
func (p *Point) ScalarMultBase(s *Scalar) *Point {
	return p.ScalarMultTable((*ScalarMultTable)(&edwards25519.BaseScalarMultTable), s)
}
'''))
ref('z-vartime-top', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint

	// Precomputations
	var dblQ ExtendedPoint
	dblQ.Double(q)
	lut[0].Set(q)
	for i := 1; i < 8; i++ {
		lut[i].Add(&lut[i-1], &dblQ)
	}

	// Compute non-adjacent form of s
	var naf [256]int8
	computeScalar5NAF(s, &naf)

	top := topDigit(&naf)
	p.SetZero()
	for i := top; i >= 0; i-- {
		p.Double(p)
		if d := naf[i]; d > 0 {
			p.Add(p, &lut[d/2])
		} else if d < 0 {
			p.Sub(p, &lut[(-d)/2])
		}
	}
	return p
}

// Returns the index of the most significant non-zero digit or -1.
func topDigit(naf *[256]int8) int {
	for i := len(naf) - 1; i >= 0; i-- {
		if naf[i] != 0 {
			return i
		}
	}
	return -1
}
'''))
ref('z-vartime-while', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint
	var dblQ ExtendedPoint
	dblQ.Double(q)
	lut[0].Set(q)
	for i := 1; i < 8; i++ {
		lut[i].Add(&lut[i-1], &dblQ)
	}

	var naf [256]int8
	computeScalar5NAF(s, &naf)

	i := 255
	for i >= 0 && naf[i] == 0 {
		i--
	}
	p.SetZero()

	var pp ProjectivePoint
	var cp CompletedPoint
	for ; i >= 0; i-- {
		cp.DoubleExtended(p)
		switch {
		case naf[i] > 0:
			p.SetCompleted(&cp)
			cp.AddExtended(p, &lut[naf[i]>>1])
		case naf[i] < 0:
			p.SetCompleted(&cp)
			cp.SubExtended(p, &lut[(-naf[i])>>1])
		default:
			pp.SetCompleted(&cp)
		}
		p.SetCompleted(&cp)
	}
	return p
}
'''))
ref('z-table-vartime', fn(TA, 'func (t *ScalarMultTable) VarTimeScalarMult(', '''
func (t *ScalarMultTable) VarTimeScalarMult(p *ExtendedPoint, s *[32]byte) {
	var w [64]int8
	computeScalarWindow4(s, &w)

	p.SetZero()
	t.varTimeAddDigits(p, &w, 1)
	for i := 0; i < 4; i++ {
		p.Double(p)
	}
	t.varTimeAddDigits(p, &w, 0)
}

// Adds the points for the digits of w with the given parity to p.
func (t *ScalarMultTable) varTimeAddDigits(p *ExtendedPoint, w *[64]int8, odd int) {
	var np NielsPoint
	var cp CompletedPoint
	for i := odd; i < 64; i += 2 {
		d := int32(w[i])
		if d == 0 {
			continue
		}
		if d > 0 {
			cp.AddExtendedNiels(p, &t[i/2][d-1])
		} else {
			np.Set(&t[i/2][-d-1])
			cp.SubExtendedNiels(p, &np)
		}
		p.SetCompleted(&cp)
	}
}
'''))
ref('z-curve-lut', fn(CU, 'func (p *ExtendedPoint) ScalarMult(', '''
func (p *ExtendedPoint) ScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [17]ExtendedPoint
	var t, neg, acc ExtendedPoint
	var window [51]int8

	computeScalarWindow5(s, &window)
	lut[0].SetZero()
	for i := 1; i < len(lut); i++ {
		lut[i].Add(&lut[i-1], q)
	}

	acc.SetZero()
	for i := len(window) - 1; i >= 0; i-- {
		for z := 0; z < 5; z++ {
			acc.Double(&acc)
		}
		b := int32(window[i])
		sign := negative(b)
		abs := (b ^ -sign) + sign
		t.Set(&lut[0])
		for j := int32(1); j <= 16; j++ {
			t.ConditionalSet(&lut[j], equal15(abs, j))
		}
		neg.Neg(&t)
		t.ConditionalSet(&neg, sign)
		acc.Add(&acc, &t)
	}
	return p.Set(&acc)
}
'''))
ref('z-window4', fn(TA, 'func computeScalarWindow4(', '''
func computeScalarWindow4(s *[32]byte, w *[64]int8) {
	var carry int8
	for i := 0; i < 63; i++ {
		d := int8(s[i>>1]>>(4*uint(i&1))&15) + carry
		carry = (d + 8) >> 4
		w[i] = d - carry<<4
	}
	w[63] = int8(s[31]>>4) + carry
}
'''))
ref('z-equal', fn(FI, 'func equal30(', '''
func equal30(b, c int32) int32 {
	x := uint32(b ^ c)
	x--
	return int32(x >> 31)
}
'''), fn(FI, 'func equal15(', '''
func equal15(b, c int32) int32 {
	return 1 - int32(uint32((b-c)|(c-b))>>31)
}
'''), fn(FI, 'func negative(', '''
func negative(b int32) int32 {
	return -(b >> 31)
}
'''))
ref('z-setlizard-fixed', fn(RI, 'func (p *Point) SetLizard(', '''
func (p *Point) SetLizard(data *[16]byte) *Point {
	buf := lizardPad(data)
	var fe edwards25519.FieldElement
	fe.SetBytes(&buf)
	var cp edwards25519.CompletedPoint
	cp.SetRistrettoElligator2(&fe)
	p.e().SetCompleted(&cp)
	return p
}

// Pads data to a 32 byte encoding of a non-negative field element.
func lizardPad(data *[16]byte) (buf [32]byte) {
	h := sha256.Sum256(data[:])
	for i := range buf {
		if i >= 8 && i < 24 {
			buf[i] = data[i-8]
		} else {
			buf[i] = h[i]
		}
	}
	buf[0] &= 0xfe
	buf[31] &= 0x3f
	return
}
'''))
# ------------------------------------------------------------------ fifth battery
ref('w-vartime-next', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
// Returns the largest index at most i with a non-zero digit, or -1.
func nextDigit(naf *[256]int8, i int) int {
	for i >= 0 && naf[i] == 0 {
		i--
	}
	return i
}

func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint
	var dblQ ExtendedPoint
	var naf [256]int8

	dblQ.Double(q)
	lut[0].Set(q)
	for i := 1; i < 8; i++ {
		lut[i].Add(&lut[i-1], &dblQ)
	}
	computeScalar5NAF(s, &naf)

	p.SetZero()
	for i := nextDigit(&naf, 255); i >= 0; i-- {
		p.Double(p)
		switch d := naf[i]; {
		case d > 0:
			p.Add(p, &lut[d>>1])
		case d < 0:
			p.Sub(p, &lut[(-d)>>1])
		}
	}
	return p
}
'''))
ref('w-vartime-pp', fn(VT, 'func (p *ExtendedPoint) VarTimeScalarMult(', '''
func (p *ExtendedPoint) VarTimeScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [8]ExtendedPoint
	var dblQ ExtendedPoint
	dblQ.Double(q)
	lut[0].Set(q)
	for i := 1; i < 8; i++ {
		lut[i].Add(&lut[i-1], &dblQ)
	}

	var naf [256]int8
	computeScalar5NAF(s, &naf)

	var pp ProjectivePoint
	var cp CompletedPoint
	p.SetZero()
	pp.SetZero()
	for i := 255; i >= 0; i-- {
		cp.DoubleProjective(&pp)
		digit := naf[i]
		if digit != 0 {
			p.SetCompleted(&cp)
			if digit > 0 {
				cp.AddExtended(p, &lut[digit/2])
			} else {
				cp.SubExtended(p, &lut[-digit/2])
			}
		}
		if i > 0 {
			pp.SetCompleted(&cp)
		}
	}
	p.SetCompleted(&cp)
	return p
}
'''))
ref('w-naf-goto', fn(VT, 'func computeScalar5NAF(', '''
func computeScalar5NAF(s *[32]byte, naf *[256]int8) {
	var x [5]uint64
	x[0] = load8u(s[0:8])
	x[1] = load8u(s[8:16])
	x[2] = load8u(s[16:24])
	x[3] = load8u(s[24:32])

	var carry uint64
	var width uint16
	for pos := uint16(0); pos < 256; pos += width {
		width = 1
		idx, off := pos>>6, pos&63
		bits := x[idx] >> off
		if off >= 59 {
			bits |= x[idx+1] << (64 - off)
		}
		window := bits&31 + carry
		if window%2 == 1 {
			digit := int8(window)
			carry = 0
			if window > 15 {
				digit -= 32
				carry = 1
			}
			naf[pos] = digit
			width = 5
		}
	}
}
'''), fn(VT, 'func load8u(', '''
func load8u(in []byte) (r uint64) {
	for i := 7; i >= 0; i-- {
		r = r<<8 | uint64(in[i])
	}
	return
}
'''))
ref('w-table-halves', fn(TA, 'func (t *ScalarMultTable) ScalarMult(', '''
func (t *ScalarMultTable) ScalarMult(p *ExtendedPoint, s *[32]byte) {
	var w [64]int8
	computeScalarWindow4(s, &w)

	p.SetZero()
	for half := int32(1); half >= 0; half-- {
		var np NielsPoint
		var cp CompletedPoint
		for i := int32(0); i < 32; i++ {
			t.selectPoint(&np, i, int32(w[2*i+half]))
			p.SetCompleted(cp.AddExtendedNiels(p, &np))
		}
		if half == 1 {
			for k := 0; k < 4; k++ {
				p.Double(p)
			}
		}
	}
}
'''), fn(TA, 'func (t *ScalarMultTable) selectPoint(', '''
func (t *ScalarMultTable) selectPoint(p *NielsPoint, pos int32, b int32) {
	sign := b >> 31
	abs := (b ^ sign) - sign
	row := &t[pos]
	p.SetZero()
	for i := range row {
		p.ConditionalSet(&row[i], equal30(abs, int32(i)+1))
	}
	var negP NielsPoint
	p.ConditionalSet(negP.Neg(p), -sign)
}
'''))
ref('w-table-compute', fn(TA, 'func (t *ScalarMultTable) Compute(', '''
func (t *ScalarMultTable) Compute(p *ExtendedPoint) {
	var base ExtendedPoint
	base.Set(p)
	for i := range t {
		t[i][0].SetExtended(&base)
		acc := base
		for v := 1; v < len(t[i]); v++ {
			acc.Add(&acc, &base)
			t[i][v].SetExtended(&acc)
		}
		for k := 0; k < 8; k++ {
			base.Double(&base)
		}
	}
}
'''), fn(TA, 'func (p *NielsPoint) SetExtended(', '''
func (p *NielsPoint) SetExtended(q *ExtendedPoint) *NielsPoint {
	var x, y, zInv, xy FieldElement
	zInv.Inverse(&q.Z)
	x.Mul(&q.X, &zInv)
	y.Mul(&q.Y, &zInv)
	p.YPlusX.Add(&x, &y)
	p.YMinusX.Sub(&y, &x)
	xy.Mul(&x, &y)
	xy.Add(&xy, &xy)
	p.XY2D.Mul(&feD, &xy)
	return p
}
'''))
ref('w-scalar-binary', fn(SC, 'func (s *Scalar) BytesInto(', '''
func (s *Scalar) BytesInto(buf *[32]byte) *Scalar {
	for i := range s {
		binary.LittleEndian.PutUint32(buf[4*i:4*i+4], s[i])
	}
	return s
}
'''), fn(SC, 'func (s *Scalar) SetBytes(', '''
func (s *Scalar) SetBytes(x *[32]byte) *Scalar {
	for i := range s {
		s[i] = binary.LittleEndian.Uint32(x[4*i:])
	}
	s[7] &= 1<<29 - 1
	s.Sub(s, &scL)
	return s
}
'''), fn(SC, 'func load4u32(', '''
func load4u32(in []byte) uint32 {
	return binary.LittleEndian.Uint32(in)
}
'''), fn(SC, 'func load4(', '''
func load4(in []byte) int64 {
	return int64(binary.LittleEndian.Uint32(in))
}
'''), fn(SC, 'func (s *Scalar) SetUint64(', '''
func (s *Scalar) SetUint64(x uint64) *Scalar {
	*s = Scalar{uint32(x), uint32(x >> 32)}
	return s
}
'''))
ref('w-scalar-strict', fn(SC, 'func (s *Scalar) SetBytesStrict(', '''
func (s *Scalar) SetBytesStrict(x *[32]byte) bool {
	var t Scalar
	for i := range t {
		t[i] = load4u32(x[4*i:])
	}
	// compare with l from the top limb down
	for i := 7; i >= 0; i-- {
		if t[i] < scL[i] {
			s.Set(&t)
			return true
		}
		if t[i] > scL[i] {
			return false
		}
	}
	return false
}
'''))
ref('w-scalar-eq', fn(SC, 'func (s *Scalar) EqualsI(', '''
func (s *Scalar) EqualsI(a *Scalar) int32 {
	var d uint32
	for i := range s {
		d |= s[i] ^ a[i]
	}
	return int32(subtle.ConstantTimeEq(int32(d), 0))
}
'''), fn(SC, 'func (s *Scalar) IsNonZeroI(', '''
func (s *Scalar) IsNonZeroI() int32 {
	var d uint32
	for _, w := range s {
		d |= w
	}
	return int32((d | -d) >> 31)
}
'''), (SC, '''	"crypto/sha512"
''', '''	"crypto/sha512"
	"crypto/subtle"
'''))
ref('w-scalar-bigint', fn(SC, 'func (s *Scalar) BigInt(', '''
func (s *Scalar) BigInt() *big.Int {
	buf := s.Bytes()
	for i, j := 0, len(buf)-1; i < j; i, j = i+1, j-1 {
		buf[i], buf[j] = buf[j], buf[i]
	}
	return new(big.Int).SetBytes(buf)
}
'''), fn(SC, 'func (s *Scalar) SetBigInt(', '''
func (s *Scalar) SetBigInt(x *big.Int) *Scalar {
	biL, _ := new(big.Int).SetString(
		"1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	var rBuf [32]byte
	buf := new(big.Int).Mod(x, biL).Bytes()
	n := len(buf)
	for i := range buf {
		rBuf[n-1-i] = buf[i]
	}
	return s.SetBytes(&rBuf)
}
'''))
ref('w-rand-readfull', (SC, '''	"crypto/sha512"
''', '''	"crypto/sha512"
	"io"
'''), fn(SC, 'func (s *Scalar) Rand(', '''
func (s *Scalar) Rand() *Scalar {
	var buf [64]byte
	if _, err := io.ReadFull(rand.Reader, buf[:]); err != nil {
		panic(err)
	}
	return s.SetReduced(&buf)
}
'''), fn(SC, 'func (s *Scalar) Derive(', '''
func (s *Scalar) Derive(buf []byte) *Scalar {
	h := sha512.Sum512(buf)
	return s.SetReduced(&h)
}
'''))
ref('w-hash-stream', fn(SC, 'func (s *Scalar) Derive(', '''
func (s *Scalar) Derive(buf []byte) *Scalar {
	var sBuf [64]byte
	h := sha512.New()
	h.Write(buf)
	h.Sum(sBuf[:0])
	return s.SetReduced(&sBuf)
}
'''), fn(RI, 'func (p *Point) Derive(', '''
func (p *Point) Derive(buf []byte) *Point {
	var ptBuf [32]byte
	h := sha512.New()
	h.Write(buf)
	copy(ptBuf[:], h.Sum(nil))
	return p.SetElligator(&ptBuf)
}
'''))
ref('w-text-strings', fn(RI, 'func textToBuf(', '''
func textToBuf(dst, src []byte) error {
	txt := string(src)
	if len(txt) == 64 {
		if b, err := hex.DecodeString(txt); err == nil {
			copy(dst, b)
			return nil
		}
	}
	b, err := base64.RawURLEncoding.DecodeString(txt)
	if err != nil {
		return err
	}
	if len(b) != 32 {
		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", len(b))
	}
	copy(dst, b)
	return nil
}
'''), fn(RI, 'func (p Point) String(', '''
func (p Point) String() string {
	return base64.RawURLEncoding.EncodeToString(p.Bytes())
}
'''))
ref('w-literals', fn(CU, 'func (p *ExtendedPoint) SetZero(', '''
func (p *ExtendedPoint) SetZero() *ExtendedPoint {
	*p = ExtendedPoint{Y: feOne, Z: feOne}
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Set(', '''
func (p *ExtendedPoint) Set(q *ExtendedPoint) *ExtendedPoint {
	*p = *q
	return p
}
'''), fn(CU, 'func (p *ProjectivePoint) SetZero(', '''
func (p *ProjectivePoint) SetZero() *ProjectivePoint {
	p.X, p.Y, p.Z = feZero, feOne, feOne
	return p
}
'''), fn(CU, 'func (p *ExtendedPoint) Neg(', '''
func (p *ExtendedPoint) Neg(q *ExtendedPoint) *ExtendedPoint {
	*p = *q
	p.X.Neg(&p.X)
	p.T.Neg(&p.T)
	return p
}
'''), fn(FI, 'func (fe *FieldElement) Set(', '''
func (fe *FieldElement) Set(a *FieldElement) *FieldElement {
	*fe = *a
	return fe
}
'''), fn(TA, 'func (p *NielsPoint) SetZero(', '''
func (p *NielsPoint) SetZero() *NielsPoint {
	*p = NielsPoint{YPlusX: feOne, YMinusX: feOne}
	return p
}
'''), fn(TA, 'func (p *NielsPoint) Neg(', '''
func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
	plus, minus := q.YPlusX, q.YMinusX
	p.XY2D.Neg(&q.XY2D)
	p.YPlusX, p.YMinusX = minus, plus
	return p
}
'''))
ref('w-field-eq', fn(FI, 'func (fe *FieldElement) IsNonZeroI(', '''
func (fe *FieldElement) IsNonZeroI() int32 {
	var acc byte
	for _, b := range fe.Bytes() {
		acc |= b
	}
	return int32(1 - subtle.ConstantTimeByteEq(acc, 0))
}
'''), fn(FI, 'func (fe *FieldElement) EqualsI(', '''
func (fe *FieldElement) EqualsI(a *FieldElement) int32 {
	x, y := fe.Bytes(), a.Bytes()
	return int32(subtle.ConstantTimeCompare(x[:], y[:]))
}
'''), fn(FI, 'func equal30(', '''
func equal30(b, c int32) int32 {
	return int32(subtle.ConstantTimeEq(b, c))
}
'''), fn(FI, 'func negative(', '''
func negative(b int32) int32 {
	return int32(uint32(b) >> 31)
}
'''), (FI, '''	"encoding/binary"
''', '''	"crypto/subtle"
'''))
ref('w-mult-signed-lookup', fn(CU, 'func (p *ExtendedPoint) ScalarMult(', '''
func (p *ExtendedPoint) ScalarMult(q *ExtendedPoint, s *[32]byte) *ExtendedPoint {
	var lut [17]ExtendedPoint
	var window [51]int8
	computeScalarWindow5(s, &window)
	lut[0].SetZero()
	for i := 1; i < len(lut); i++ {
		lut[i].Add(&lut[i-1], q)
	}

	var pp ProjectivePoint
	var cp CompletedPoint
	var t, neg ExtendedPoint
	p.SetZero()
	for i := 50; i >= 0; i-- {
		if i < 50 {
			pp.SetExtended(p)
			for z := 0; z < 5; z++ {
				cp.DoubleProjective(&pp)
				pp.SetCompleted(&cp)
			}
			p.SetCompleted(&cp)
		}
		b := int32(window[i])
		sign := negative(b)
		abs := b * (1 - 2*sign)
		t = lut[0]
		for j := int32(1); j <= 16; j++ {
			t.ConditionalSet(&lut[j], equal15(abs, j))
		}
		neg.Neg(&t)
		t.ConditionalSet(&neg, sign)
		cp.AddExtended(p, &t)
		p.SetCompleted(&cp)
	}
	return p
}
'''))
ref('w-lizard-tmp', fn(RI, 'func (p *Point) LizardInto(', '''
func (p *Point) LizardInto(buf *[16]byte) error {
	var fes [8]edwards25519.FieldElement
	found := 0
	mask := p.e().RistrettoElligator2Inverse(&fes)
	for j := 7; j >= 0; j-- {
		enc := fes[7-j].Bytes()
		payload := enc[8:24]
		check := sha256.Sum256(payload)
		copy(check[8:24], payload)
		check[0] &^= 1
		check[31] &= 0x3f
		match := int((mask>>uint(7-j))&1) & subtle.ConstantTimeCompare(enc[:], check[:])
		for k := range buf {
			buf[k] = byte(subtle.ConstantTimeSelect(match, int(payload[k]), int(buf[k])))
		}
		found += match
	}
	if found > 1 {
		return errors.New("Multiple Lizard preimages")
	} else if found == 0 {
		return errors.New("No Lizard preimage")
	}
	return nil
}
'''))
ref('w-equals-or', fn(CU, 'func (p *ExtendedPoint) RistrettoEqualsI(', '''
func (p *ExtendedPoint) RistrettoEqualsI(q *ExtendedPoint) int32 {
	var a, b, c, d FieldElement
	a.Mul(&p.X, &q.Y)
	b.Mul(&p.Y, &q.X)
	c.Mul(&p.Y, &q.Y)
	d.Mul(&p.X, &q.X)
	a.Sub(&a, &b)
	c.Sub(&c, &d)
	a.Mul(&a, &c)
	return 1 - a.IsNonZeroI()
}
'''))
ref('w-generic-bytes', (GEN, '''	carry[9] = ''', '''	carry[9] = ''') if False else (FI, '''	copy(fe[:], a[:])
	return fe
''', '''	for i := range fe {
		fe[i] = a[i]
	}
	return fe
'''))
