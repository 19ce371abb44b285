package main

import (
	"bytes"
	crand "crypto/rand"
	"crypto/sha512"
	"fmt"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
)

type Sc = ristretto.Scalar

func mkSc(v *big.Int) (s Sc) {
	b := le32(v)
	for i := range s {
		s[i] = uint32(b[4*i]) | uint32(b[4*i+1])<<8 | uint32(b[4*i+2])<<16 | uint32(b[4*i+3])<<24
	}
	return
}
func scVal(s *Sc) *big.Int {
	r := new(big.Int)
	for i := 7; i >= 0; i-- {
		r.Lsh(r, 32)
		r.Add(r, new(big.Int).SetUint64(uint64(s[i])))
	}
	return r
}

// a reduced scalar
func genSc() *big.Int {
	switch rng.Intn(6) {
	case 0:
		return new(big.Int).Rand(rng, L)
	case 1:
		return lmod(big.NewInt(int64(rng.Intn(41) - 20)))
	}
	return lmod(edge(253))
}

type scOp struct {
	name string
	n    int
	f    func(s *Sc, a []*Sc) *Sc
	o    func(a []*big.Int) *big.Int
}

func nb() *big.Int { return new(big.Int) }

var scArith = []scOp{
	{"Add", 2, func(s *Sc, a []*Sc) *Sc { return s.Add(a[0], a[1]) }, func(a []*big.Int) *big.Int { return nb().Add(a[0], a[1]) }},
	{"Sub", 2, func(s *Sc, a []*Sc) *Sc { return s.Sub(a[0], a[1]) }, func(a []*big.Int) *big.Int { return nb().Sub(a[0], a[1]) }},
	{"Neg", 1, func(s *Sc, a []*Sc) *Sc { return s.Neg(a[0]) }, func(a []*big.Int) *big.Int { return nb().Neg(a[0]) }},
	{"Mul", 2, func(s *Sc, a []*Sc) *Sc { return s.Mul(a[0], a[1]) }, func(a []*big.Int) *big.Int { return nb().Mul(a[0], a[1]) }},
	{"Square", 1, func(s *Sc, a []*Sc) *Sc { return s.Square(a[0]) }, func(a []*big.Int) *big.Int { return nb().Mul(a[0], a[0]) }},
	{"MulAdd", 3, func(s *Sc, a []*Sc) *Sc { return s.MulAdd(a[0], a[1], a[2]) }, func(a []*big.Int) *big.Int { t := nb().Mul(a[0], a[1]); return t.Add(t, a[2]) }},
	{"MulSub", 3, func(s *Sc, a []*Sc) *Sc { return s.MulSub(a[0], a[1], a[2]) }, func(a []*big.Int) *big.Int { t := nb().Mul(a[0], a[1]); return t.Sub(t, a[2]) }},
}
var scInv = scOp{"Inverse", 1, func(s *Sc, a []*Sc) *Sc { return s.Inverse(a[0]) }, func(a []*big.Int) *big.Int { return nb().Exp(a[0], nb().Sub(L, two), L) }}
var scSet = scOp{"Set", 1, func(s *Sc, a []*Sc) *Sc { return s.Set(a[0]) }, func(a []*big.Int) *big.Int { return a[0] }}

// runs one operation under a random alias pattern (alias=false: all distinct)
func runScOp(op scOp, alias bool) {
	n := op.n + 1 // slot 0 is the receiver
	slot := make([]int, n)
	for i := range slot {
		slot[i] = i
		if alias && i > 0 && rng.Intn(2) == 0 {
			slot[i] = slot[rng.Intn(i)]
		}
	}
	vars := make([]Sc, n)
	vals := make([]*big.Int, n)
	for i := range vars {
		vals[i] = genSc()
		vars[i] = mkSc(vals[i])
	}
	// related operands, for products and differences that nearly cancel
	if op.n >= 2 && rng.Intn(4) == 0 {
		vals[2] = lmod(nb().Add(vals[1], big.NewInt(int64(rng.Intn(5)-2))))
		if rng.Intn(2) == 0 {
			vals[2] = lmod(nb().Neg(vals[2]))
		}
		vars[2] = mkSc(vals[2])
	}
	if op.n == 3 && rng.Intn(3) == 0 {
		t := nb().Mul(vals[slot[1]], vals[slot[2]])
		if rng.Intn(2) == 0 {
			t.Neg(t)
		}
		if slot[3] == 3 {
			vals[3] = lmod(t.Add(t, big.NewInt(int64(rng.Intn(7)-3))))
			vars[3] = mkSc(vals[3])
		}
	}
	var args []*Sc
	var av []*big.Int
	m := kv{"op": "Scalar." + op.name, "alias": fmt.Sprint(slot)}
	for i := 1; i < n; i++ {
		args = append(args, &vars[slot[i]])
		av = append(av, vals[slot[i]])
		m[fmt.Sprintf("arg%d", i)] = vals[slot[i]]
	}
	current = m
	want := lmod(op.o(av))
	ret := op.f(&vars[0], args)
	m["want"] = want
	m["got"] = scVal(&vars[0])
	if scVal(&vars[0]).Cmp(want) != 0 {
		fail("wrong result", m)
	}
	if ret != &vars[0] {
		fail("does not return its receiver", m)
	}
	for i := 1; i < n; i++ {
		if scVal(&vars[i]).Cmp(vals[i]) != 0 {
			fail("an operand was modified", m)
		}
	}
}

func c01() {
	for more() {
		runScOp(scArith[rng.Intn(len(scArith))], rng.Intn(4) == 0)
	}
}

func c02() {
	for more() {
		runScOp(scInv, rng.Intn(4) == 0)
	}
}

func c03() {
	for more() {
		v := edge(256)
		b := le32(v)
		b0 := b
		junk := mkSc(genSc())
		s := junk
		m := kv{"input": b}
		current = m
		// SetBytes
		if s.SetBytes(&b) != &s {
			fail("SetBytes does not return its receiver", m)
		}
		low := nb().Mod(v, nb().Lsh(one, 253))
		if scVal(&s).Cmp(lmod(low)) != 0 {
			m["want"], m["got"] = lmod(low), scVal(&s)
			fail("SetBytes", m)
		}
		// strict
		s = junk
		ok := s.SetBytesStrict(&b)
		want := v.Cmp(L) < 0
		exp := v
		if !want {
			exp = scVal(&junk)
		}
		if ok != want || scVal(&s).Cmp(exp) != 0 {
			m["got"], m["want"], m["ok"] = scVal(&s), exp, ok
			fail("SetBytesStrict", m)
		}
		if b != b0 {
			fail("input buffer modified", m)
		}
		// bytes
		sv := genSc()
		s = mkSc(sv)
		var o [32]byte
		rng.Read(o[:])
		s.BytesInto(&o)
		if o != le32(sv) || !bytes.Equal(s.Bytes(), o[:]) || scVal(&s).Cmp(sv) != 0 {
			fail("Bytes/BytesInto", kv{"scalar": sv, "got": o, "Bytes": s.Bytes()})
		}
		// uint64
		u := edge(64).Uint64()
		s = junk
		s.SetUint64(u)
		if scVal(&s).Cmp(nb().SetUint64(u)) != 0 {
			fail("SetUint64", kv{"input": u, "got": scVal(&s)})
		}
		// big ints
		x := edge(uint(1 + rng.Intn(600)))
		if rng.Intn(2) == 0 {
			x.Neg(x)
		}
		x0 := nb().Set(x)
		s = junk
		s.SetBigInt(x)
		if scVal(&s).Cmp(lmod(x)) != 0 || x.Cmp(x0) != 0 {
			fail("SetBigInt", kv{"input": x0, "got": scVal(&s)})
		}
		s = mkSc(sv)
		if s.BigInt().Cmp(sv) != 0 {
			fail("BigInt", kv{"scalar": sv, "got": s.BigInt()})
		}
	}
}

func c04() {
	for more() {
		v := edge(512)
		if rng.Intn(3) == 0 {
			// close to a multiple of l
			k := edge(260)
			v = nb().Add(nb().Mul(k, L), big.NewInt(int64(rng.Intn(9)-4)))
			v.Mod(v, nb().Lsh(one, 512))
		}
		var b [64]byte
		t := v.Bytes()
		for i := range t {
			b[i] = t[len(t)-1-i]
		}
		b0 := b
		s := mkSc(genSc())
		m := kv{"input": v}
		current = m
		if s.SetReduced(&b) != &s || b != b0 || scVal(&s).Cmp(lmod(v)) != 0 {
			m["got"], m["want"] = scVal(&s), lmod(v)
			fail("SetReduced", m)
		}
		if rng.Intn(8) == 0 {
			buf := make([]byte, rng.Intn(200))
			rng.Read(buf)
			h := sha512.Sum512(buf)
			m = kv{"input": buf}
			s.Derive(buf)
			if scVal(&s).Cmp(lmod(fromLE(h[:]))) != 0 {
				fail("Derive", m)
			}
			s.DeriveShort(buf)
			if scVal(&s).Cmp(fromLE(h[:16])) != 0 {
				fail("DeriveShort", m)
			}
			src, restore := fakeRand()
			s.Rand()
			restore()
			if len(src.out) != 64 || scVal(&s).Cmp(lmod(fromLE(src.out))) != 0 {
				fail("Rand is not the reduction of 64 random bytes", kv{"random source": src.out})
			}
			s.Rand()
			a := scVal(&s)
			s.Rand()
			if a.Cmp(L) >= 0 || a.Cmp(scVal(&s)) == 0 {
				fail("Rand", kv{"got": a})
			}
		}
	}
	// the top bits of Rand must move
	var or, and = nb(), nb().Sub(nb().Lsh(one, 252), one)
	for i := 0; i < 400; i++ {
		var s Sc
		s.Rand()
		or.Or(or, scVal(&s))
		and.And(and, scVal(&s))
	}
	if or.BitLen() < 252 || nb().Not(or).Bit(3) != 0 || and.Sign() != 0 {
		fail("Rand is not uniform", kv{"or": or, "and": and})
	}
	for i := 0; i < 252; i++ {
		if or.Bit(i) == 0 {
			fail("Rand is not uniform", kv{"or": or, "and": and})
		}
	}
}

// fakeSrc stands in for the system random source and records what it gave
type fakeSrc struct{ out []byte }

func (f *fakeSrc) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(rng.Intn(256))
	}
	f.out = append(f.out, b...)
	return len(b), nil
}

func fakeRand() (*fakeSrc, func()) {
	old := crand.Reader
	f := &fakeSrc{}
	crand.Reader = f
	return f, func() { crand.Reader = old }
}

func c05() {
	for more() {
		a := genSc()
		b := genSc()
		switch rng.Intn(4) {
		case 0:
			b = nb().Set(a)
		case 1: // one bit apart
			b = nb().Set(a)
			i := rng.Intn(253)
			b.SetBit(b, i, 1-b.Bit(i))
			b = lmod(b)
		case 2: // one limb only
			b = nb().Lsh(edge(32), uint(32*rng.Intn(8)))
			b = lmod(b)
			if rng.Intn(2) == 0 {
				a = nb()
			}
		}
		x, y := mkSc(a), mkSc(b)
		m := kv{"a": a, "b": b}
		current = m
		e := a.Cmp(b) == 0
		if (x.EqualsI(&y) == 1) != e || x.Equals(&y) != e || (x.EqualsI(&y) != 0 && x.EqualsI(&y) != 1) {
			fail("Equals", m)
		}
		for _, v := range []*Sc{&x, &y} {
			w := int32(1)
			if scVal(v).Sign() == 0 {
				w = 0
			}
			if v.IsNonZeroI() != w {
				m["got"] = v.IsNonZeroI()
				fail("IsNonZeroI", m)
			}
		}
		c := int32(rng.Intn(2))
		z := x
		z.ConditionalSet(&y, c)
		w := a
		if c == 1 {
			w = b
		}
		if scVal(&z).Cmp(w) != 0 {
			m["bit"], m["got"] = c, scVal(&z)
			fail("ConditionalSet", m)
		}
		z.Set(&y)
		if scVal(&z).Cmp(b) != 0 {
			fail("Set", m)
		}
		if z.SetZero(); scVal(&z).Sign() != 0 {
			fail("SetZero", m)
		}
		if z.SetOne(); scVal(&z).Cmp(one) != 0 {
			fail("SetOne", m)
		}
		if scVal(&x).Cmp(a) != 0 || scVal(&y).Cmp(b) != 0 {
			fail("operand modified", m)
		}
	}
}

func init() {
	props["C01"], props["C02"], props["C03"], props["C04"], props["C05"] = c01, c02, c03, c04, c05
}
