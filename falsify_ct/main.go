// Searches for two secrets that make one operation execute different
// statements although it reports the same outcome.  Built against a copy of
// /repo in which every basic block counts its executions (go tool cover); run
// only after an information-flow obligation has failed.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"time"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/bwesterb/go-ristretto/edwards25519"
)

var rng *rand.Rand

func reset() {
	for _, c := range ristretto.VerifCov() {
		for i := range c {
			c[i] = 0
		}
	}
	for _, c := range edwards25519.VerifCov() {
		for i := range c {
			c[i] = 0
		}
	}
}

func snap() []uint32 {
	var r []uint32
	for _, c := range ristretto.VerifCov() {
		r = append(r, c...)
	}
	for _, c := range edwards25519.VerifCov() {
		r = append(r, c...)
	}
	return r
}

func where(i int) string {
	for k, c := range ristretto.VerifCov() {
		if i < len(c) {
			return ristretto.VerifPos(k, i)
		}
		i -= len(c)
	}
	for k, c := range edwards25519.VerifCov() {
		if i < len(c) {
			return edwards25519.VerifPos(k, i)
		}
		i -= len(c)
	}
	return "?"
}

type sec struct {
	s, t       ristretto.Scalar
	p, q       ristretto.Point
	f, g       edwards25519.FieldElement
	b          [32]byte
	bit        int32
	msg        [16]byte
	data       [40]byte
	wide       [64]byte
	ps, qs, ss [32]byte
}

func (x *sec) ep() *edwards25519.ExtendedPoint { return (*edwards25519.ExtendedPoint)(&x.p) }
func (x *sec) eq() *edwards25519.ExtendedPoint { return (*edwards25519.ExtendedPoint)(&x.q) }

func scalar() (s ristretto.Scalar) {
	var b [32]byte
	switch rng.Intn(6) {
	case 0:
		s.SetUint64(uint64(rng.Intn(4)))
	case 1:
		s.SetUint64(uint64(rng.Intn(4)))
		s.Neg(&s)
	case 2:
		b[rng.Intn(31)] = byte(1 << uint(rng.Intn(8)))
		s.SetBytes(&b)
	case 3:
		// long runs of equal digits
		for i := range b {
			b[i] = []byte{0, 0xff, 0x88, 0x77, 0x80, 0x10}[rng.Intn(6)]
		}
		b[31] &= 15
		s.SetBytes(&b)
	default:
		rng.Read(b[:])
		b[31] &= 15
		s.SetBytes(&b)
	}
	return
}

func point() (p ristretto.Point) {
	switch rng.Intn(5) {
	case 0:
		p.SetZero()
	case 1:
		p.SetBase()
	case 2:
		s := scalar()
		p.ScalarMultBase(&s)
		p.Neg(&p)
	default:
		s := scalar()
		p.ScalarMultBase(&s)
	}
	e := (*edwards25519.ExtendedPoint)(&p)
	if rng.Intn(3) == 0 {
		var t edwards25519.ExtendedPoint
		switch rng.Intn(3) {
		case 0:
			t.SetTorsion1()
		case 1:
			t.SetTorsion2()
		default:
			t.SetTorsion3()
		}
		e.Add(e, &t)
	}
	return
}

func field() (f edwards25519.FieldElement) {
	var b [32]byte
	switch rng.Intn(5) {
	case 0:
		f.SetZero()
	case 1:
		f.SetOne()
	case 2:
		f.SetOne()
		f.Neg(&f)
	case 3:
		b[rng.Intn(32)] = byte(1 << uint(rng.Intn(7)))
		f.SetBytes(&b)
	default:
		rng.Read(b[:])
		b[31] &= 127
		f.SetBytes(&b)
	}
	return
}

func secret() *sec {
	x := &sec{}
	x.s, x.t = scalar(), scalar()
	x.p, x.q = point(), point()
	x.f, x.g = field(), field()
	if rng.Intn(3) == 0 {
		x.t = x.s
	}
	if rng.Intn(3) == 0 {
		x.q = x.p
	}
	if rng.Intn(3) == 0 {
		x.g = x.f
	}
	x.bit = int32(rng.Intn(2))
	switch rng.Intn(4) {
	case 0:
		x.s.BytesInto(&x.b)
	case 1:
		x.p.BytesInto(&x.b)
	default:
		rng.Read(x.b[:])
		if rng.Intn(2) == 0 {
			x.b[31] = 0
			x.b[0] &= 254
		}
	}
	rng.Read(x.msg[:])
	rng.Read(x.data[:])
	rng.Read(x.wide[:])
	if rng.Intn(3) == 0 {
		x.p.SetLizard(&x.msg)
	}
	switch rng.Intn(4) {
	case 0:
		x.data = [40]byte{}
	case 1:
		x.wide = [64]byte{}
	}
	x.p.BytesInto(&x.ps)
	x.q.BytesInto(&x.qs)
	x.s.BytesInto(&x.ss)
	return x
}

type op struct {
	name string
	f    func(x *sec) string
}

func str(x interface{}) string { return fmt.Sprint(x) }

// the outcome of an operation is public: two runs are compared only if it agrees
var ops = []op{
	{"Scalar.Add", func(x *sec) string { var r ristretto.Scalar; r.Add(&x.s, &x.t); return "" }},
	{"Scalar.Sub", func(x *sec) string { var r ristretto.Scalar; r.Sub(&x.s, &x.t); return "" }},
	{"Scalar.Neg", func(x *sec) string { var r ristretto.Scalar; r.Neg(&x.s); return "" }},
	{"Scalar.Mul", func(x *sec) string { var r ristretto.Scalar; r.Mul(&x.s, &x.t); return "" }},
	{"Scalar.MulAdd", func(x *sec) string { var r ristretto.Scalar; r.MulAdd(&x.s, &x.t, &x.s); return "" }},
	{"Scalar.MulSub", func(x *sec) string { var r ristretto.Scalar; r.MulSub(&x.s, &x.t, &x.s); return "" }},
	{"Scalar.Square", func(x *sec) string { var r ristretto.Scalar; r.Square(&x.s); return "" }},
	{"Scalar.Inverse", func(x *sec) string { var r ristretto.Scalar; r.Inverse(&x.s); return "" }},
	{"Scalar.Set", func(x *sec) string { var r ristretto.Scalar; r.Set(&x.s); return "" }},
	{"Scalar.SetUint64", func(x *sec) string {
		var r ristretto.Scalar
		r.SetUint64(uint64(x.data[0]) | uint64(x.data[7])<<56)
		return ""
	}},
	{"Scalar.SetBytes", func(x *sec) string { var r ristretto.Scalar; r.SetBytes(&x.b); return "" }},
	{"Scalar.SetBytesStrict", func(x *sec) string { var r ristretto.Scalar; return str(r.SetBytesStrict(&x.b)) }},
	{"Scalar.SetReduced", func(x *sec) string { var r ristretto.Scalar; r.SetReduced(&x.wide); return "" }},
	{"Scalar.Derive", func(x *sec) string { var r ristretto.Scalar; r.Derive(x.data[:]); return "" }},
	{"Scalar.DeriveShort", func(x *sec) string { var r ristretto.Scalar; r.DeriveShort(x.data[:]); return "" }},
	{"Scalar.Rand", func(x *sec) string { var r ristretto.Scalar; r.Rand(); return "" }},
	{"Scalar.Bytes", func(x *sec) string { x.s.Bytes(); return "" }},
	{"Scalar.BytesInto", func(x *sec) string { x.s.BytesInto(&x.b); return "" }},
	{"Scalar.MarshalBinary", func(x *sec) string { x.s.MarshalBinary(); return "" }},
	{"Scalar.UnmarshalBinary", func(x *sec) string { var r ristretto.Scalar; return str(r.UnmarshalBinary(x.b[:])) }},
	{"Scalar.Equals", func(x *sec) string { return str(x.s.Equals(&x.t)) }},
	{"Scalar.EqualsI", func(x *sec) string { return str(x.s.EqualsI(&x.t)) }},
	{"Scalar.IsNonZeroI", func(x *sec) string { return str(x.s.IsNonZeroI()) }},
	{"Scalar.ConditionalSet", func(x *sec) string { r := x.s; r.ConditionalSet(&x.t, x.bit); return "" }},
	{"Point.Add", func(x *sec) string { var r ristretto.Point; r.Add(&x.p, &x.q); return "" }},
	{"Point.Sub", func(x *sec) string { var r ristretto.Point; r.Sub(&x.p, &x.q); return "" }},
	{"Point.Neg", func(x *sec) string { var r ristretto.Point; r.Neg(&x.p); return "" }},
	{"Point.Double", func(x *sec) string { var r ristretto.Point; r.Double(&x.p); return "" }},
	{"Point.Set", func(x *sec) string { var r ristretto.Point; r.Set(&x.p); return "" }},
	{"Point.ScalarMult", func(x *sec) string { var r ristretto.Point; r.ScalarMult(&x.p, &x.s); return "" }},
	{"Point.ScalarMultBase", func(x *sec) string { var r ristretto.Point; r.ScalarMultBase(&x.s); return "" }},
	{"ScalarMultTable.Compute", func(x *sec) string { var t ristretto.ScalarMultTable; t.Compute(&x.p); return "" }},
	{"Point.ScalarMultTable", func(x *sec) string {
		var t ristretto.ScalarMultTable
		t.Compute(&x.p)
		reset()
		var r ristretto.Point
		r.ScalarMultTable(&t, &x.s)
		return ""
	}},
	{"Point.Bytes", func(x *sec) string { x.p.Bytes(); return "" }},
	{"Point.BytesInto", func(x *sec) string { x.p.BytesInto(&x.b); return "" }},
	{"Point.MarshalBinary", func(x *sec) string { x.p.MarshalBinary(); return "" }},
	{"Point.SetBytes", func(x *sec) string { var r ristretto.Point; return str(r.SetBytes(&x.b)) }},
	{"Point.UnmarshalBinary", func(x *sec) string { var r ristretto.Point; return str(r.UnmarshalBinary(x.b[:])) }},
	{"Point.Equals", func(x *sec) string { return str(x.p.Equals(&x.q)) }},
	{"Point.EqualsI", func(x *sec) string { return str(x.p.EqualsI(&x.q)) }},
	{"Point.ConditionalSet", func(x *sec) string { r := x.p; r.ConditionalSet(&x.q, x.bit); return "" }},
	{"Point.Derive", func(x *sec) string { var r ristretto.Point; r.Derive(x.data[:]); return "" }},
	{"Point.DeriveDalek", func(x *sec) string { var r ristretto.Point; r.DeriveDalek(x.data[:]); return "" }},
	{"Point.SetElligator", func(x *sec) string { var r ristretto.Point; r.SetElligator(&x.b); return "" }},
	{"Point.SetLizard", func(x *sec) string { var r ristretto.Point; r.SetLizard(&x.msg); return "" }},
	{"Point.LizardInto", func(x *sec) string { return str(x.p.LizardInto(&x.msg)) }},
	{"Point.Lizard", func(x *sec) string { return str(x.p.Lizard() == nil) }},
	{"Point.Rand", func(x *sec) string { var r ristretto.Point; r.Rand(); return "" }},
	{"FieldElement.Add", func(x *sec) string { var r edwards25519.FieldElement; r.Add(&x.f, &x.g); return "" }},
	{"FieldElement.Sub", func(x *sec) string { var r edwards25519.FieldElement; r.Sub(&x.f, &x.g); return "" }},
	{"FieldElement.Neg", func(x *sec) string { var r edwards25519.FieldElement; r.Neg(&x.f); return "" }},
	{"FieldElement.Mul", func(x *sec) string { var r edwards25519.FieldElement; r.Mul(&x.f, &x.g); return "" }},
	{"FieldElement.Square", func(x *sec) string { var r edwards25519.FieldElement; r.Square(&x.f); return "" }},
	{"FieldElement.DoubledSquare", func(x *sec) string { var r edwards25519.FieldElement; r.DoubledSquare(&x.f); return "" }},
	{"FieldElement.Inverse", func(x *sec) string { var r edwards25519.FieldElement; r.Inverse(&x.f); return "" }},
	{"FieldElement.Exp22523", func(x *sec) string { var r edwards25519.FieldElement; r.Exp22523(&x.f); return "" }},
	{"FieldElement.InvSqrt", func(x *sec) string { var r edwards25519.FieldElement; r.InvSqrt(&x.f); return "" }},
	{"FieldElement.InvSqrtI", func(x *sec) string { var r edwards25519.FieldElement; return str(r.InvSqrtI(&x.f)) }},
	{"FieldElement.Sqrt", func(x *sec) string { var r edwards25519.FieldElement; r.Sqrt(&x.f); return "" }},
	{"FieldElement.Abs", func(x *sec) string { var r edwards25519.FieldElement; r.Abs(&x.f); return "" }},
	{"FieldElement.ConditionalSet", func(x *sec) string { r := x.f; r.ConditionalSet(&x.g, x.bit); return "" }},
	{"FieldElement.IsNegativeI", func(x *sec) string { return str(x.f.IsNegativeI()) }},
	{"FieldElement.IsNonZeroI", func(x *sec) string { return str(x.f.IsNonZeroI()) }},
	{"FieldElement.IsOneI", func(x *sec) string { return str(x.f.IsOneI()) }},
	{"FieldElement.EqualsI", func(x *sec) string { return str(x.f.EqualsI(&x.g)) }},
	{"FieldElement.Equals", func(x *sec) string { return str(x.f.Equals(&x.g)) }},
	{"FieldElement.Bytes", func(x *sec) string { x.f.Bytes(); return "" }},
	{"FieldElement.BytesInto", func(x *sec) string { x.f.BytesInto(&x.b); return "" }},
	{"FieldElement.SetBytes", func(x *sec) string { var r edwards25519.FieldElement; r.SetBytes(&x.b); return "" }},
	{"ExtendedPoint.RistrettoElligator2Inverse", func(x *sec) string {
		var fes [8]edwards25519.FieldElement
		x.ep().RistrettoElligator2Inverse(&fes)
		return ""
	}},
	{"ExtendedPoint.ToJacobiQuarticRistretto", func(x *sec) string {
		var r [4]edwards25519.JacobiPoint
		x.ep().ToJacobiQuarticRistretto(&r)
		return ""
	}},
	{"NielsPoint.SetExtended", func(x *sec) string { var r edwards25519.NielsPoint; r.SetExtended(x.ep()); return "" }},
	{"NielsPoint.ConditionalSet", func(x *sec) string {
		var r, s edwards25519.NielsPoint
		r.SetExtended(x.ep())
		s.SetExtended(x.eq())
		reset()
		r.ConditionalSet(&s, x.bit)
		return ""
	}},
}

func (x *sec) describe() map[string]string {
	h := func(b []byte) string { return hex.EncodeToString(b) }
	return map[string]string{
		"s": h(x.ss[:]), "t": fmt.Sprint([8]uint32(x.t)), "p": h(x.ps[:]), "q": h(x.qs[:]), "f": fmt.Sprint(x.f), "g": fmt.Sprint(x.g),
		"b": h(x.b[:]), "bit": fmt.Sprint(x.bit), "msg": h(x.msg[:]), "data": h(x.data[:]), "wide": h(x.wide[:]),
	}
}

func main() {
	seed := flag.Int64("seed", 1, "seed")
	budget := flag.Float64("budget", 20, "seconds")
	flag.String("prop", "C20", "property")
	flag.Parse()
	rng = rand.New(rand.NewSource(*seed))
	end := time.Now().Add(time.Duration(*budget * float64(time.Second)))
	type ref struct {
		x *sec
		c []uint32
	}
	first := map[string]ref{}
	evals := 0
	for time.Now().Before(end) {
		x0 := secret()
		for _, o := range ops {
			x := *x0
			reset()
			out := o.f(&x)
			c := snap()
			evals++
			k := o.name + "/" + out
			r, ok := first[k]
			if !ok {
				first[k] = ref{x0, c}
				continue
			}
			for i := range c {
				if c[i] != r.c[i] {
					b, _ := json.Marshal(map[string]interface{}{
						"what":      o.name + " executes different statements for two secrets",
						"operation": o.name, "outcome": out, "block": where(i),
						"executions": []uint32{r.c[i], c[i]}, "secret1": r.x.describe(), "secret2": x0.describe()})
					fmt.Println("VERIF-FAIL " + string(b))
					os.Exit(1)
				}
			}
		}
	}
	fmt.Printf("VERIF-OK evaluations=%d\n", evals)
}
