"""Planted bugs (see mkseed.py)."""
SEEDS = []


def seed(id, property, edits, pkg, demo, needs, breaks, generic=False, script=None):
    SEEDS.append(dict(id=id, property=property, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks, generic=generic, script=script))


LM1 = '''
func num(n int64) *Scalar { var s Scalar; return s.SetBigInt(big.NewInt(n)) }
'''

seed('s01-add-lazy-reduce', 'C01', [('scalar.go', '''	carry = uint64(a[7]) + uint64(b[7]) + (carry >> 32)
	s[7] = uint32(carry)
	return s.Sub(s, &scL)
''', '''	carry = uint64(a[7]) + uint64(b[7]) + (carry >> 32)
	s[7] = uint32(carry)
	// l is just above 2^252: skip the subtraction when it cannot apply.
	if s[7] <= 0x10000000 && s[6] == 0 && s[5] == 0 && s[4] == 0 {
		return s
	}
	return s.Sub(s, &scL)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var a, b, c Scalar
	b.SetOne()
	a.Neg(&b)
	c.Add(&a, &b)
	if c.IsNonZeroI() != 0 {
		t.Fatalf("(l-1)+1 = %v", c.Bytes())
	}
}
''', 'a sum in [l, 2^252+2^128), e.g. a + (-a) with ... = l exactly', 'the sum is left unreduced (>= l)')

seed('s02-strict-compare', 'C03', [('scalar.go', '''	r.Sub(&t, &scL)
	if r != t {
		return false
	}
''', '''	if t[7] > scL[7] || t[7] == scL[7] &&
		(t[6]|t[5]|t[4] != 0 || t[3] > scL[3] || t[3] == scL[3] &&
			(t[2] > scL[2] || t[2] == scL[2] && t[1] >= scL[1] && t[0] >= scL[0])) {
		return false
	}
	r.Sub(&t, &scL)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	x := [8]uint32{0, scL[1] + 1, scL[2], scL[3], 0, 0, 0, scL[7]}
	var buf [32]byte
	for i := range buf {
		buf[i] = byte(x[i/4] >> (8 * uint(i%4)))
	}
	var s Scalar
	if s.SetBytesStrict(&buf) {
		t.Fatal("accepted an encoding of a number larger than l")
	}
}
''', 'an encoding just above l whose lowest word is smaller than that of l', 'a non-canonical scalar encoding is accepted')

seed('s03-nonzero-word', 'C07', [('edwards25519/field.go', '''		binary.LittleEndian.Uint64(buf[16:24]) |
		binary.LittleEndian.Uint64(buf[24:32]))
	ret |= ret >> 32
''', '''		binary.LittleEndian.Uint64(buf[16:24]) |
		binary.LittleEndian.Uint64(buf[23:31]))
	ret |= ret >> 32
''')], 'edwards25519', '''package edwards25519

import "testing"

func TestDemo(t *testing.T) {
	var buf [32]byte
	buf[31] = 0x40
	var a, b FieldElement
	a.SetBytes(&buf)
	if a.IsNonZeroI() != 1 || a.Equals(&b) {
		t.Fatal("2^254 is reported to be zero")
	}
}
''', 'two field elements that differ by a multiple of 2^248', 'the zero test and equality ignore the top byte')

seed('s05-generic-bytes-round', 'C08', [('edwards25519/field_generic.go', '''	q := (19*fe[9] + (1 << 24)) >> 25
	q = (fe[0] + q) >> 26
''', '''	q := (19 * fe[9]) >> 25
	q = (fe[0] + q) >> 26
''')], 'edwards25519', '''package edwards25519

import "testing"

func TestDemo(t *testing.T) {
	// 2^255 - 19 - k as a sum of two elements with small limbs
	h := FieldElement{33554432, 16777216, 33554432, 16777216, 33554432, 16777216, 33554432, 16777216, 33554432, 16777216}
	g := FieldElement{33554413, 16777215, 33554431, 16777215, 33554431, 16777215, 33554431, 16777215, 33554431, 16777215}
	var a, b FieldElement
	for i := int32(0); i < 3; i++ {
		a.add(&h, &g)
		a[0] += i
		b.Set(&a)
		b.normalize()
		if a.Bytes() != b.Bytes() {
			t.Fatal("encoding depends on the representation", i, a.Bytes(), b.Bytes())
		}
	}
}
''', 'a representation whose value lies just around 2^255-19', 'non-canonical bytes are written', True)

seed('s06-condset-limb', 'C05', [('scalar.go', '''	s[7] ^= m & (s[7] ^ t[7])
''', '''	s[7] ^= m & (s[7] ^ t[7]) & 0xfffffff
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var a, b, one Scalar
	one.SetOne()
	b.Neg(&one)
	a.ConditionalSet(&b, 1)
	if !a.Equals(&b) {
		t.Fatal("ConditionalSet(-1, 1) did not set -1", a.Bytes())
	}
}
''', 'a scalar of at least 2^252 (one of about 2^124 of 2^252)', 'bit 252 is not copied by ConditionalSet')

seed('s11-naf-zero-word', 'C11', [('edwards25519/vartime.go', '''		bit_idx := pos % 64
		var bit_buf uint64
''', '''		bit_idx := pos % 64
		if bit_idx == 0 && x[idx] == 0 {
			pos += 64 // nothing to do for this word
			continue
		}
		var bit_buf uint64
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var buf [32]byte
	for i := 0; i < 8; i++ {
		buf[i] = 0xff
	}
	buf[20] = 1
	var s Scalar
	s.SetBytes(&buf)
	var b, p, q Point
	b.SetBase()
	p.PublicScalarMult(&b, &s)
	q.ScalarMult(&b, &s)
	if !p.Equals(&q) {
		t.Fatal("PublicScalarMult differs from ScalarMult")
	}
}
''', 'a scalar with a zero 64-bit word and a carry into it', 'the carry is moved up by a word')

seed('s12-table-vartime-short', 'C12', [('edwards25519/table.go', '''	for i := int32(0); i < 32; i++ {
		if t.varTimeSelectPoint(&np, i, int32(w[2*i])) {
''', '''	n := int32(16) // short scalars: the upper half is zero
	for _, b := range s[16:] {
		if b != 0 {
			n = 32
		}
	}
	for i := int32(0); i < n; i++ {
		if t.varTimeSelectPoint(&np, i, int32(w[2*i])) {
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var buf [32]byte
	buf[15] = 0xf0
	var s Scalar
	s.SetBytes(&buf)
	var b, p, q Point
	b.SetBase()
	p.PublicScalarMultBase(&s)
	q.ScalarMult(&b, &s)
	if !p.Equals(&q) {
		t.Fatal("PublicScalarMultBase differs from ScalarMult")
	}
}
''', 'a scalar in about [2^127, 2^128)', 'the carry into digit 32 is dropped')

seed('s17-lizard-check-short', 'C17', [('ristretto.go', '''		ok &= uint8(subtle.ConstantTimeCompare(h[:], buf2[:]))
''', '''		ok &= uint8(subtle.ConstantTimeCompare(h[:24], buf2[:24]))
''')], '.', '''package ristretto

import (
	"crypto/sha256"
	"testing"
)

func TestDemo(t *testing.T) {
	var data [16]byte
	copy(data[:], "sixteen  bytes!!")
	buf := sha256.Sum256(data[:])
	copy(buf[8:], data[:])
	buf[0] &= 254
	buf[31] &= 63
	buf[25] ^= 1
	var p Point
	p.SetElligator(&buf)
	if p.Lizard() != nil {
		t.Fatal("decoded a point with a wrong padding")
	}
}
''', 'a point with a preimage whose first eight bytes match the hash and whose last eight do not', 'Lizard decodes a point that SetLizard never gives')

seed('s18-unmarshal-long', 'C18', [('ristretto.go', '''	if n != 32 {
		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
''', '''	if n < 32 {
		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var p, q Point
	p.SetBase()
	txt, _ := p.MarshalText()
	if q.UnmarshalText(append(txt[:42:42], "gAAA"...)) == nil {
		t.Fatal("accepted 34 bytes")
	}
	b := make([]byte, 45)
	for i := range b {
		b[i] = 'A'
	}
	if q.UnmarshalText(b[:44]) == nil {
		t.Fatal("accepted 33 bytes")
	}
}
''', 'a text that decodes to more than 32 bytes', 'texts that are too long are accepted')

seed('s19-elligator-mask-input', 'C19', [('ristretto.go', '''	var fe edwards25519.FieldElement
	var cp edwards25519.CompletedPoint
	fe.SetBytes(buf)
''', '''	var fe edwards25519.FieldElement
	var cp edwards25519.CompletedPoint
	buf[31] &= 0x7f
	fe.SetBytes(buf)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var buf [32]byte
	buf[31] = 0x80
	var p Point
	p.SetElligator(&buf)
	if buf[31] != 0x80 {
		t.Fatal("SetElligator changed its argument")
	}
}
''', 'a string with the top bit set, looked at after the call', 'SetElligator changes its input')

seed('s19-sub-alias', 'C19', [('edwards25519/curve.go', '''	var tmp CompletedPoint
	tmp.SubExtended(q, r)
	p.SetCompleted(&tmp)
	return p
''', '''	p.Neg(r)
	return p.Add(q, p)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var p, q, r Point
	q.SetBase()
	r.Double(&q)
	r.Double(&r)
	p.Sub(&q, &r)
	q.Sub(&q, &r)
	if !p.Equals(&q) {
		t.Fatal("q.Sub(q, r) differs from p.Sub(q, r)")
	}
}
''', 'receiver and first operand of Sub are the same variable', 'q.Sub(&q, &r) gives -2r')

seed('s20-skip-zero-digit', 'C20', [('edwards25519/curve.go', '''		t.Set(&lut[0])
		b := int32(window[i])
''', '''		if window[i] == 0 {
			continue // adding the neutral element
		}
		t.Set(&lut[0])
		b := int32(window[i])
''')], 'edwards25519', '''package edwards25519

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	var s [32]byte
	for i := range s {
		s[i] = 0x33
	}
	s[31] = 0x03
	if os.Getenv("SECRET") == "2" {
		s[7], s[8] = 0, 0
	}
	var p, q ExtendedPoint
	q.SetBase()
	p.ScalarMult(&q, &s)
}
''', 'two scalars with different numbers of zero digits', 'the number of additions in ScalarMult depends on the secret scalar', script='''#!/bin/bash
# exit 0: both secrets execute every statement equally often
d=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/edwards25519/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
for s in 1 2; do
  SECRET=$s go test -vet=off -count=1 -covermode=count -coverprofile "$t/c$s" -overlay "$t/o.json" -run '^TestDemo$' ./edwards25519 || exit 2
done
cmp "$t/c1" "$t/c2"
''')

seed('s09-add-double-shortcut', 'C09', [('edwards25519/curve.go', '''	var tmp CompletedPoint
	tmp.AddExtended(q, r)
	p.SetCompleted(&tmp)
	return p
''', '''	var tmp CompletedPoint
	if q.X == r.X && q.Z == r.Z {
		tmp.DoubleExtended(q)
	} else {
		tmp.AddExtended(q, r)
	}
	p.SetCompleted(&tmp)
	return p
''')], 'edwards25519', '''package edwards25519

import "testing"

func TestDemo(t *testing.T) {
	var p, q, r ExtendedPoint
	p.SetBase()
	p.Double(&p)
	q.Set(&p)
	q.Y.Neg(&p.Y)
	q.T.Neg(&p.T)
	// (x, -y) represents -(x, y)
	r.Add(&p, &q)
	var z ExtendedPoint
	z.SetZero()
	if r.RistrettoEqualsI(&z) != 1 {
		t.Fatal("P + (-P) != 0")
	}
}
''', 'two points with the same X and Z coordinate and opposite Y', 'Add gives 2q instead of the neutral element')

seed('s10-early-zero', 'C10', [('edwards25519/curve.go', '''	computeScalarWindow5(s, &window)
	lut[0].SetZero()
	lut[1].Set(q)
''', '''	computeScalarWindow5(s, &window)
	p.SetZero()
	lut[0].Set(p)
	lut[1].Set(q)
'''), ('edwards25519/curve.go', '''	// Compute!
	p.SetZero()
	for i := 50;''', '''	// Compute!
	for i := 50;''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var s Scalar
	s.SetUint64(5)
	var b, p Point
	b.SetBase()
	p.ScalarMult(&b, &s)
	b.ScalarMult(&b, &s)
	if !p.Equals(&b) {
		t.Fatal("b.ScalarMult(b, s) differs from p.ScalarMult(b, s)")
	}
}
''', 'p and q are the same variable', 'the result is the neutral element')

seed('s14-decode-top-bit', 'C14', [('edwards25519/curve.go', '''	ret = int32(1 - subtle.ConstantTimeCompare(buf[:], buf2[:]))
''', '''	buf2[31] |= buf[31] & 128
	ret = int32(1 - subtle.ConstantTimeCompare(buf[:], buf2[:]))
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var p Point
	var buf [32]byte
	p.SetBase()
	p.BytesInto(&buf)
	buf[31] |= 128
	if p.SetBytes(&buf) {
		t.Fatal("accepted a string with the top bit set")
	}
}
''', 'a valid encoding with the top bit set', 'non-canonical encodings are accepted')

seed('s15-equals-affine', 'C15', [('edwards25519/curve.go', '''	var x1y2, x2y1, x1x2, y1y2 FieldElement
	x1y2.Mul(&p.X, &q.Y)
''', '''	var x1y2, x2y1, x1x2, y1y2 FieldElement
	if p.Z.IsOneI()&q.Z.IsOneI() == 1 && p.Y.Equals(&q.Y) {
		return p.X.EqualsI(&q.X) // both normalised
	}
	x1y2.Mul(&p.X, &q.Y)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var p [4]Point
	p[0].SetZero()
	p[1].e().SetTorsion1()
	p[2].e().SetTorsion2()
	p[3].e().SetTorsion3()
	for i := range p {
		for j := range p {
			if !p[i].Equals(&p[j]) {
				t.Fatal("two representatives of the neutral element differ", i, j)
			}
		}
	}
}
''', 'two representatives of the neutral element: (i, 0) and (-i, 0) with Z = 1', 'they are reported to differ')

seed('s16-rand-short', 'C16', [('ristretto.go', '''	if _, err := rand.Read(buf[:]); err != nil {
''', '''	if _, err := rand.Read(buf[:31]); err != nil {
''')], '.', '''package ristretto

import (
	"crypto/rand"
	"testing"
)

type src struct{ n int }

func (s *src) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(s.n*7 + 3)
		s.n++
	}
	return len(b), nil
}

func TestDemo(t *testing.T) {
	old := rand.Reader
	defer func() { rand.Reader = old }()
	s := &src{}
	rand.Reader = s
	var p, q Point
	p.Rand()
	var buf [32]byte
	(&src{}).Read(buf[:])
	q.SetElligator(&buf)
	if s.n < 32 || !p.Equals(&q) {
		t.Fatal("Rand did not map 32 random bytes", s.n)
	}
}
''', 'the random bytes that were read', 'the last byte is not random')

seed('s02-inverse-zero', 'C02', [('scalar.go', '''	var t0, t1, t2, t3, t4, t5 Scalar

	t1.Square(t)
''', '''	var t0, t1, t2, t3, t4, t5 Scalar

	if t.IsNonZeroI() == 0 {
		return s // zero has no inverse
	}

	t1.Square(t)
''')], '.', '''package ristretto

import "testing"

func TestDemo(t *testing.T) {
	var s, z Scalar
	s.SetUint64(5)
	z.SetZero()
	s.Inverse(&z)
	if s.IsNonZeroI() != 0 {
		t.Fatal("the inverse of zero depends on the receiver", s)
	}
}
''', 'Inverse of zero with a receiver that is not zero', 'the receiver keeps its old value')

seed('s04-short-carry', 'C04', [('scalar.go', '''	t9 += carry[8]
	t8 -= carry[8] << 21
	carry[9] = t9 >> 21
	t10 += carry[9]
	t9 -= carry[9] << 21
	carry[10] = t10 >> 21
	t11 += carry[10]
	t10 -= carry[10] << 21

	s[0] = uint32(t0) | uint32(t1<<21)
	s[1] = uint32(t1>>11) | uint32(t2<<10) | uint32(t3<<31)
	s[2] = uint32(t3>>1) | uint32(t4<<20)
	s[3] = uint32(t4>>12) | uint32(t5<<9) | uint32(t6<<30)
	s[4] = uint32(t6>>2) | uint32(t7<<19)
	s[5] = uint32(t7>>13) | uint32(t8<<8) | uint32(t9<<29)
	s[6] = uint32(t9>>3) | uint32(t10<<18)
	s[7] = uint32(t10>>14) | uint32(t11<<7)

	return s
}

// Sets s to a random scalar.  Returns s.
''', '''	t9 += carry[8]
	t8 -= carry[8] << 21

	s[0] = uint32(t0) | uint32(t1<<21)
	s[1] = uint32(t1>>11) | uint32(t2<<10) | uint32(t3<<31)
	s[2] = uint32(t3>>1) | uint32(t4<<20)
	s[3] = uint32(t4>>12) | uint32(t5<<9) | uint32(t6<<30)
	s[4] = uint32(t6>>2) | uint32(t7<<19)
	s[5] = uint32(t7>>13) | uint32(t8<<8) | uint32(t9<<29)
	s[6] = uint32(t9>>3) | uint32(t10<<18)
	s[7] = uint32(t10>>14) | uint32(t11<<7)

	return s
}

// Sets s to a random scalar.  Returns s.
''')], '.', '''package ristretto

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	l, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	l.Add(l, new(big.Int).Lsh(big.NewInt(1), 252))
	for i := int64(1); i < 20; i++ {
		var buf [64]byte
		want := new(big.Int).Sub(l, big.NewInt(i))
		for j, b := range want.Bytes() {
			buf[31-j] = b
		}
		var s Scalar
		s.SetReduced(&buf)
		if s.BigInt().Cmp(want) != 0 {
			t.Fatal("l - i is reduced wrongly", i, s.BigInt(), want)
		}
	}
}
''', 'a carry that runs through the limbs t6 to t9 after the last fold: an input congruent to a number in [2^252, l)', 'the reduced scalar is wrong')

seed('s13-encode-z-minus-one', 'C13', [('edwards25519/curve.go', '''	zInv.Mul(&i1, &i2)
	zInv.Mul(&zInv, &p.T)

	d.Mul(&zInv, &p.T)
''', '''	d.Square(&p.Z)
	if d.IsOneI() == 1 {
		zInv.SetOne() // already normalised
	} else {
		zInv.Mul(&i1, &i2)
		zInv.Mul(&zInv, &p.T)
	}

	d.Mul(&zInv, &p.T)
''')], '.', '''package ristretto

import (
	"bytes"
	"testing"
)

func TestDemo(t *testing.T) {
	var p, q Point
	p.SetBase()
	for i := 0; i < 10; i++ {
		var buf [32]byte
		p.BytesInto(&buf)
		q.SetBytes(&buf) // Z = 1
		e := q.e()
		e.X.Neg(&e.X)
		e.Y.Neg(&e.Y)
		e.Z.Neg(&e.Z)
		e.T.Neg(&e.T)
		if !bytes.Equal(q.Bytes(), buf[:]) {
			t.Fatal("(-X : -Y : -Z : -T) is encoded differently", i)
		}
		p.Double(&p)
	}
}
''', 'a point with Z = -1', 'the encoding depends on the representation of the point')

seed('s06-small-multiplier', 'C06', [('edwards25519/field_mul64.go', '''	b1_19 := b1 * 19
	b2_19 := b2 * 19
	b3_19 := b3 * 19
	b4_19 := b4 * 19

	var carry, h, l uint64

''', '''
	if b1|b2|b3|b4 == 0 && b0 < 1<<16 {
		// small multiplier: no double-width products are needed
		a0, a1, a2, a3, a4 = a0*b0, a1*b0, a2*b0, a3*b0, a4*b0
		a1 += a0 >> 51
		a2 += a1 >> 51
		a3 += a2 >> 51
		a4 += a3 >> 51
		fe[0] = (a0 & 0x7ffffffffffff) + 19*(a4>>51)
		fe[1] = a1 & 0x7ffffffffffff
		fe[2] = a2 & 0x7ffffffffffff
		fe[3] = a3 & 0x7ffffffffffff
		fe[4] = a4 & 0x7ffffffffffff
		return fe
	}

	b1_19 := b1 * 19
	b2_19 := b2 * 19
	b3_19 := b3 * 19
	b4_19 := b4 * 19

	var carry, h, l uint64

''')], 'edwards25519', '''package edwards25519

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	p := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 255), big.NewInt(19))
	for k := uint(0); k < 20; k++ {
		x := new(big.Int).Sub(p, big.NewInt(1))
		y := new(big.Int).Lsh(big.NewInt(1), k)
		var a, b, c FieldElement
		a.SetBigInt(x)
		b.SetBigInt(y)
		c.Mul(&a, &b)
		w := new(big.Int).Mul(x, y)
		if c.BigInt().Cmp(w.Mod(w, p)) != 0 {
			t.Fatalf("-1 * 2^%d = %v", k, c.BigInt())
		}
	}
}
''', 'a multiplier between 2^13 and 2^16 in Mul', 'the product is wrong modulo 2^255-19')
