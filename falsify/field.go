package main

import (
	"fmt"
	"math/big"
	"reflect"

	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

type Fe = ed.FieldElement

var (
	limb51  = []uint{0, 51, 102, 153, 204}
	limb255 = []uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}
)

// the integer spelled by the limbs, modulo p
func feVal(f *Fe) *big.Int {
	v := reflect.ValueOf(*f)
	r := new(big.Int)
	for i := 0; i < v.Len(); i++ {
		var x *big.Int
		if v.Len() == 5 {
			x = new(big.Int).SetUint64(v.Index(i).Uint())
			x.Lsh(x, limb51[i])
		} else {
			x = big.NewInt(v.Index(i).Int())
			x.Lsh(x, limb255[i])
		}
		r.Add(r, x)
	}
	return r.Mod(r, P)
}

type FV struct {
	f Fe
	v *big.Int
	h string // how it was made
}

func (x *FV) String() string { return fmt.Sprintf("0x%x limbs=%v via %s", x.v, x.f, x.h) }

func baseFe() *FV {
	v := edge(256)
	b := le32(v)
	r := &FV{h: fmt.Sprintf("SetBytes(%x)", b)}
	r.f.SetBytes(&b)
	r.v = fmod(new(big.Int).Mod(v, new(big.Int).Lsh(one, 255)))
	return r
}

// another representation of the same value (signed limbs only), or nil
func altFe(x *FV) *FV {
	r := &FV{v: x.v, h: "other representation of " + x.h}
	rv := reflect.ValueOf(&r.f).Elem()
	if rv.Len() != 10 {
		return nil
	}
	t := new(big.Int).Set(x.v)
	if rng.Intn(2) == 0 {
		t.Sub(t, P)
	}
	for i := 0; i < 10; i++ {
		w := uint(26 - i%2)
		h := new(big.Int).Lsh(one, w-1)
		l := new(big.Int).Add(t, h)
		l.Mod(l, new(big.Int).Lsh(one, w))
		l.Sub(l, h)
		if i == 9 {
			l.Set(t)
			if l.BitLen() > 24 {
				return nil
			}
		}
		rv.Index(i).SetInt(l.Int64())
		t.Sub(t, l)
		t.Rsh(t, w)
	}
	if feVal(&r.f).Cmp(x.v) != 0 {
		return nil
	}
	return r
}

// a field element made by a short chain of public operations; the claimed
// value is followed through and taken from the limbs
func genFe(depth int) *FV {
	a := baseFe()
	if depth == 0 || rng.Intn(3) == 0 {
		a.v = feVal(&a.f)
		if rng.Intn(3) == 0 {
			if b := altFe(a); b != nil {
				return b
			}
		}
		return a
	}
	a = genFe(depth - 1)
	r := &FV{}
	switch rng.Intn(8) {
	case 0, 1, 2:
		r.f.Neg(&a.f)
		r.h = "Neg(" + a.h + ")"
	case 3:
		b := genFe(depth - 1)
		r.f.Add(&a.f, &b.f)
		r.h = "Add(" + a.h + "," + b.h + ")"
	case 4:
		b := genFe(depth - 1)
		r.f.Sub(&a.f, &b.f)
		r.h = "Sub(" + a.h + "," + b.h + ")"
	case 5:
		b := genFe(depth - 1)
		r.f.Mul(&a.f, &b.f)
		r.h = "Mul(" + a.h + "," + b.h + ")"
	case 6:
		b := genFe(depth - 1)
		r.f.Set(&a.f)
		r.f.ConditionalSet(&b.f, 1)
		r.h = "ConditionalSet(" + a.h + "," + b.h + ",1)"
	case 7:
		switch rng.Intn(4) {
		case 0:
			r.f.SetI()
			r.h = "SetI"
		case 1:
			r.f.SetOne()
			r.h = "SetOne"
		case 2:
			r.f.SetZero()
			r.h = "SetZero"
		case 3:
			r.f.DoubledSquare(&a.f)
			r.h = "DoubledSquare(" + a.h + ")"
		}
	}
	r.v = feVal(&r.f)
	return r
}

type feOp struct {
	name string
	n    int
	f    func(s *Fe, a []*Fe) *Fe
	o    func(a []*big.Int) *big.Int
}

var feArith = []feOp{
	{"Add", 2, func(s *Fe, a []*Fe) *Fe { return s.Add(a[0], a[1]) }, func(a []*big.Int) *big.Int { return fadd(a[0], a[1]) }},
	{"Sub", 2, func(s *Fe, a []*Fe) *Fe { return s.Sub(a[0], a[1]) }, func(a []*big.Int) *big.Int { return fsub(a[0], a[1]) }},
	{"Neg", 1, func(s *Fe, a []*Fe) *Fe { return s.Neg(a[0]) }, func(a []*big.Int) *big.Int { return fneg(a[0]) }},
	{"Mul", 2, func(s *Fe, a []*Fe) *Fe { return s.Mul(a[0], a[1]) }, func(a []*big.Int) *big.Int { return fmul(a[0], a[1]) }},
	{"Square", 1, func(s *Fe, a []*Fe) *Fe { return s.Square(a[0]) }, func(a []*big.Int) *big.Int { return fmul(a[0], a[0]) }},
	{"DoubledSquare", 1, func(s *Fe, a []*Fe) *Fe { return s.DoubledSquare(a[0]) }, func(a []*big.Int) *big.Int { return fmul(two, fmul(a[0], a[0])) }},
}
var feUn = []feOp{
	{"Inverse", 1, func(s *Fe, a []*Fe) *Fe { return s.Inverse(a[0]) }, func(a []*big.Int) *big.Int { return finv(a[0]) }},
	{"Exp22523", 1, func(s *Fe, a []*Fe) *Fe { return s.Exp22523(a[0]) }, func(a []*big.Int) *big.Int {
		return new(big.Int).Exp(a[0], new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(5)), 3), P)
	}},
	{"Abs", 1, func(s *Fe, a []*Fe) *Fe { return s.Abs(a[0]) }, func(a []*big.Int) *big.Int { return fabs(a[0]) }},
	{"Set", 1, func(s *Fe, a []*Fe) *Fe { return s.Set(a[0]) }, func(a []*big.Int) *big.Int { return a[0] }},
}

func runFeOp(op feOp, alias bool) {
	n := op.n + 1
	slot := make([]int, n)
	for i := range slot {
		slot[i] = i
		if alias && i > 0 && rng.Intn(2) == 0 {
			slot[i] = slot[rng.Intn(i)]
		}
	}
	vars := make([]*FV, n)
	for i := range vars {
		vars[i] = genFe(3)
	}
	if b := altFe(vars[1]); op.n == 2 && b != nil && rng.Intn(5) == 0 {
		vars[2] = b
	} else if op.n == 2 && rng.Intn(5) == 0 {
		vars[2] = &FV{f: vars[1].f, v: vars[1].v, h: vars[1].h}
		if rng.Intn(2) == 0 {
			vars[2].f.Neg(&vars[1].f)
			vars[2].v = feVal(&vars[2].f)
			vars[2].h = "Neg(" + vars[1].h + ")"
		}
	}
	var args []*Fe
	var av []*big.Int
	m := kv{"op": "FieldElement." + op.name, "alias": fmt.Sprint(slot)}
	for i := 1; i < n; i++ {
		x := vars[slot[i]]
		args = append(args, &x.f)
		av = append(av, x.v)
		m[fmt.Sprintf("arg%d", i)] = x.String()
	}
	current = m
	old := make([]Fe, n)
	for i := range vars {
		old[i] = vars[i].f
	}
	want := op.o(av)
	ret := op.f(&vars[0].f, args)
	got := feVal(&vars[0].f)
	m["got"], m["want"] = got, want
	if got.Cmp(want) != 0 {
		fail("wrong result", m)
	}
	if ret != &vars[0].f {
		fail("does not return its receiver", m)
	}
	for i := 1; i < n; i++ {
		if vars[i].f != old[i] {
			fail("an operand was modified", m)
		}
	}
}

func c06() {
	for more() {
		runFeOp(feArith[rng.Intn(len(feArith))], rng.Intn(4) == 0)
	}
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func isSq(a *big.Int) bool {
	return new(big.Int).Exp(a, new(big.Int).Rsh(P, 1), P).Cmp(one) == 0
}

func c07() {
	for more() {
		if rng.Intn(2) == 0 {
			runFeOp(feUn[rng.Intn(len(feUn))], rng.Intn(4) == 0)
		}
		a := genFe(3)
		b := genFe(3)
		switch rng.Intn(6) {
		case 4: // the same value around 0, in both signed representations
			if x, y := altFe(a), altFe(a); x != nil && y != nil {
				a, b = x, y
			}
		case 0:
			b = &FV{f: a.f, v: a.v, h: a.h}
		case 1: // same value, other representation
			b = &FV{h: "Neg(Neg(" + a.h + "))"}
			b.f.Neg(&a.f)
			b.f.Neg(&b.f)
			b.v = feVal(&b.f)
		case 2: // one bit apart
			v := new(big.Int).Set(a.v)
			i := rng.Intn(255)
			v.SetBit(v, i, 1-v.Bit(i))
			t := le32(v)
			b = &FV{h: fmt.Sprintf("SetBytes(%x)", t)}
			b.f.SetBytes(&t)
			b.v = feVal(&b.f)
		case 3: // a value with a single non-zero limb or byte
			v := new(big.Int).Lsh(edge(8), uint(8*rng.Intn(32)))
			t := le32(v)
			b = &FV{h: fmt.Sprintf("SetBytes(%x)", t)}
			b.f.SetBytes(&t)
			b.v = feVal(&b.f)
		}
		m := kv{"a": a.String(), "b": b.String()}
		current = m
		oa, ob := a.f, b.f
		eq := a.v.Cmp(b.v) == 0
		if a.f.EqualsI(&b.f) != b2i(eq) || a.f.Equals(&b.f) != eq {
			fail("Equals", m)
		}
		for _, x := range []*FV{a, b} {
			m["x"] = x.String()
			if x.f.IsNonZeroI() != b2i(x.v.Sign() != 0) {
				m["got"] = x.f.IsNonZeroI()
				fail("IsNonZeroI", m)
			}
			if x.f.IsOneI() != b2i(x.v.Cmp(one) == 0) {
				fail("IsOneI", m)
			}
			if x.f.IsNegativeI() != int32(x.v.Bit(0)) {
				fail("IsNegativeI", m)
			}
			var r Fe
			fl := r.InvSqrtI(&x.f)
			rv := feVal(&r)
			sq := isSq(x.v)
			r2a := fmul(fmul(rv, rv), x.v)
			m["got"], m["flag"] = rv, fl
			if x.v.Sign() == 0 {
				if rv.Sign() != 0 || fl != 0 {
					fail("InvSqrtI", m)
				}
			} else if sq {
				if fl != 1 || r2a.Cmp(one) != 0 {
					fail("InvSqrtI", m)
				}
			} else if fl != 0 || fmul(r2a, SQM1).Cmp(one) != 0 {
				fail("InvSqrtI", m)
			}
			if sq || x.v.Sign() == 0 {
				if r.InvSqrt(&x.f) != &r {
					fail("InvSqrt return", m)
				}
				rv = feVal(&r)
				if x.v.Sign() == 0 && rv.Sign() != 0 || x.v.Sign() != 0 && fmul(fmul(rv, rv), x.v).Cmp(one) != 0 {
					m["got"] = rv
					fail("InvSqrt", m)
				}
				r.Sqrt(&x.f)
				rv = feVal(&r)
				if fmul(rv, rv).Cmp(x.v) != 0 || rv.Bit(0) != 0 {
					m["got"] = rv
					fail("Sqrt", m)
				}
				r = x.f
				r.Sqrt(&r)
				if feVal(&r).Cmp(rv) != 0 {
					fail("Sqrt with aliased argument", m)
				}
			}
			if x.f != oa && x.f != ob {
				fail("operand modified", m)
			}
		}
		c := int32(rng.Intn(2))
		z := a.f
		z.ConditionalSet(&b.f, c)
		w := a.v
		if c == 1 {
			w = b.v
		}
		if feVal(&z).Cmp(w) != 0 {
			m["bit"] = c
			fail("ConditionalSet", m)
		}
		if a.f != oa || b.f != ob {
			fail("operand modified", m)
		}
		z.SetZero()
		if feVal(&z).Sign() != 0 {
			fail("SetZero", m)
		}
		z.SetOne()
		if feVal(&z).Cmp(one) != 0 {
			fail("SetOne", m)
		}
		z.SetI()
		if feVal(&z).Cmp(SQM1) != 0 {
			fail("SetI", m)
		}
	}
}

func c08() {
	for more() {
		v := edge(256)
		b := le32(v)
		b0 := b
		var f Fe
		m := kv{"input": b}
		current = m
		if f.SetBytes(&b) != &f || b != b0 {
			fail("SetBytes return/frame", m)
		}
		low := fmod(new(big.Int).Mod(v, new(big.Int).Lsh(one, 255)))
		if feVal(&f).Cmp(low) != 0 {
			m["got"] = feVal(&f)
			fail("SetBytes", m)
		}
		x := genFe(3)
		m = kv{"x": x.String()}
		current = m
		o := x.f
		var buf [32]byte
		rng.Read(buf[:])
		x.f.BytesInto(&buf)
		m["got"] = buf
		if buf != le32(x.v) || x.f.Bytes() != buf || x.f.BigInt().Cmp(x.v) != 0 {
			fail("BytesInto/Bytes/BigInt", m)
		}
		if x.f != o {
			fail("operand modified", m)
		}
		y := edge(uint(1 + rng.Intn(600)))
		if rng.Intn(2) == 0 {
			y.Neg(y)
		}
		y0 := new(big.Int).Set(y)
		f.SetBigInt(y)
		if feVal(&f).Cmp(fmod(y0)) != 0 || y.Cmp(y0) != 0 {
			fail("SetBigInt", kv{"input": y0, "got": feVal(&f)})
		}
	}
}

func init() {
	props["C06"], props["C07"], props["C08"] = c06, c07, c08
}
