package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"

	ristretto "github.com/bwesterb/go-ristretto"
	ed "github.com/bwesterb/go-ristretto/edwards25519"
)

type Pt = ristretto.Point
type Ep = ed.ExtendedPoint

// affine point of a representation, if it is valid
func epAff(p *Ep) (aff, bool) {
	X, Y, Z, T := feVal(&p.X), feVal(&p.Y), feVal(&p.Z), feVal(&p.T)
	if Z.Sign() == 0 || fmul(X, Y).Cmp(fmul(Z, T)) != 0 {
		return aff{X, Y}, false
	}
	zi := finv(Z)
	a := aff{fmul(X, zi), fmul(Y, zi)}
	return a, onCurve(a)
}

func ptAff(p *Pt) (aff, bool) { return epAff((*Ep)(p)) }

type PV struct {
	p Pt
	a aff
	h string
}

func (x *PV) e() *Ep { return (*Ep)(&x.p) }

func specialFe() *big.Int {
	sp := []*big.Int{zero, one, fneg(one), SQM1, fneg(SQM1), two, D, fneg(D), finv(D), fadd(D, one), fsub(D, one)}
	_, sid := sqrtRatio(fmul(SQM1, D), one)
	sp = append(sp, sid, finv(sid), fneg(sid))
	_, s2 := sqrtRatio(SQM1, D)
	sp = append(sp, s2, finv(s2))
	_, s3 := sqrtRatio(fmul(SQM1, fneg(one)), D)
	sp = append(sp, s3, finv(s3))
	return sp[rng.Intn(len(sp))]
}

func fromAff(a aff) *PV {
	z := one
	if rng.Intn(2) == 0 {
		z = fmod(edge(255))
		if z.Sign() == 0 {
			z = one
		}
	}
	r := &PV{a: a, h: fmt.Sprintf("%v with Z=0x%x", a, z)}
	e := r.e()
	e.X.SetBigInt(fmul(a.x, z))
	e.Y.SetBigInt(fmul(a.y, z))
	e.Z.SetBigInt(z)
	e.T.SetBigInt(fmul(fmul(a.x, a.y), z))
	if v, ok := epAff(e); !ok || !edEq(v, a) {
		fail("could not set up a point (SetBigInt)", kv{"point": a})
	}
	return r
}

func genAff() aff {
	switch rng.Intn(8) {
	case 0:
		return ident
	case 1:
		return pmul(big.NewInt(int64(rng.Intn(40))), basePt)
	case 2:
		return pmul(lmod(edge(253)), basePt)
	case 3:
		return rMap(specialFe())
	case 4:
		return rMap(fmod(edge(255)))
	case 5: // small encodings
		for {
			if a, ok := rDecode(le32(big.NewInt(int64(2 * rng.Intn(2000))))); ok {
				return a
			}
		}
	}
	return rMap(fmod(randBits(255)))
}

// a valid even point in some representation
func genPt(depth int) *PV {
	if depth > 0 && rng.Intn(2) == 0 {
		a := genPt(depth - 1)
		r := &PV{}
		switch rng.Intn(4) {
		case 0:
			r.p.Neg(&a.p)
			r.h = "Neg(" + a.h + ")"
		case 1:
			b := genPt(depth - 1)
			r.p.Add(&a.p, &b.p)
			r.h = "Add(" + a.h + "," + b.h + ")"
		case 2:
			r.p.Double(&a.p)
			r.h = "Double(" + a.h + ")"
		case 3:
			b := genPt(depth - 1)
			r.p.Sub(&a.p, &b.p)
			r.h = "Sub(" + a.h + "," + b.h + ")"
		}
		v, ok := ptAff(&r.p)
		if !ok {
			fail("operation gave an invalid point", kv{"op": r.h})
		}
		r.a = v
		return r
	}
	var r *PV
	switch rng.Intn(8) {
	case 0:
		r = &PV{h: "SetZero"}
		r.p.SetZero()
		r.a = ident
	case 1:
		r = &PV{h: "SetBase"}
		r.p.SetBase()
		r.a = basePt
	case 2:
		r = &PV{h: "SetTorsion"}
		switch rng.Intn(3) {
		case 0:
			r.e().SetTorsion1()
			r.a = tors4[1]
		case 1:
			r.e().SetTorsion2()
			r.a = tors4[2]
		case 2:
			r.e().SetTorsion3()
			r.a = tors4[3]
		}
	case 3, 4:
		a := genAff()
		b := rEncode(a)
		r = &PV{h: fmt.Sprintf("SetBytes(%x)", b)}
		r.p.SetBytes(&b)
	default:
		a := genAff()
		if rng.Intn(2) == 0 {
			a = edAdd(a, tors4[rng.Intn(4)])
		}
		return fromAff(a)
	}
	v, ok := ptAff(&r.p)
	if !ok || (r.a.x != nil && !rEq(v, r.a)) {
		fail("could not set up a point", kv{"how": r.h, "got": v})
	}
	r.a = v
	return r
}

// double and add with projective formulas
func pmul(s *big.Int, p aff) aff {
	type ext struct{ x, y, z, t *big.Int }
	add := func(a, b ext) ext {
		A := fmul(fsub(a.y, a.x), fsub(b.y, b.x))
		B := fmul(fadd(a.y, a.x), fadd(b.y, b.x))
		C := fmul(fmul(a.t, fmul(two, D)), b.t)
		Dd := fmul(fmul(two, a.z), b.z)
		E, F, G, H := fsub(B, A), fsub(Dd, C), fadd(Dd, C), fadd(B, A)
		return ext{fmul(E, F), fmul(G, H), fmul(F, G), fmul(E, H)}
	}
	q := ext{p.x, p.y, one, fmul(p.x, p.y)}
	r := ext{zero, one, one, zero}
	for i := s.BitLen() - 1; i >= 0; i-- {
		r = add(r, r)
		if s.Bit(i) == 1 {
			r = add(r, q)
		}
	}
	zi := finv(r.z)
	return aff{fmul(r.x, zi), fmul(r.y, zi)}
}

type ptOp struct {
	name string
	n    int
	f    func(s *Pt, a []*Pt) *Pt
	o    func(a []aff) aff
}

var ptOps = []ptOp{
	{"Add", 2, func(s *Pt, a []*Pt) *Pt { return s.Add(a[0], a[1]) }, func(a []aff) aff { return edAdd(a[0], a[1]) }},
	{"Sub", 2, func(s *Pt, a []*Pt) *Pt { return s.Sub(a[0], a[1]) }, func(a []aff) aff { return edAdd(a[0], edNeg(a[1])) }},
	{"Double", 1, func(s *Pt, a []*Pt) *Pt { return s.Double(a[0]) }, func(a []aff) aff { return edAdd(a[0], a[0]) }},
	{"Neg", 1, func(s *Pt, a []*Pt) *Pt { return s.Neg(a[0]) }, func(a []aff) aff { return edNeg(a[0]) }},
	{"Set", 1, func(s *Pt, a []*Pt) *Pt { return s.Set(a[0]) }, func(a []aff) aff { return a[0] }},
	{"SetZero", 0, func(s *Pt, a []*Pt) *Pt { return s.SetZero() }, func(a []aff) aff { return ident }},
	{"SetBase", 0, func(s *Pt, a []*Pt) *Pt { return s.SetBase() }, func(a []aff) aff { return basePt }},
}
var epOps = []ptOp{
	{"edwards.Add", 2, func(s *Pt, a []*Pt) *Pt { return (*Pt)((*Ep)(s).Add((*Ep)(a[0]), (*Ep)(a[1]))) }, ptOps[0].o},
	{"edwards.Sub", 2, func(s *Pt, a []*Pt) *Pt { return (*Pt)((*Ep)(s).Sub((*Ep)(a[0]), (*Ep)(a[1]))) }, ptOps[1].o},
	{"edwards.Double", 1, func(s *Pt, a []*Pt) *Pt { return (*Pt)((*Ep)(s).Double((*Ep)(a[0]))) }, ptOps[2].o},
	{"edwards.Neg", 1, func(s *Pt, a []*Pt) *Pt { return (*Pt)((*Ep)(s).Neg((*Ep)(a[0]))) }, ptOps[3].o},
}

func runPtOp(op ptOp, alias bool) {
	n := op.n + 1
	slot := make([]int, n)
	for i := range slot {
		slot[i] = i
		if alias && i > 0 && rng.Intn(2) == 0 {
			slot[i] = slot[rng.Intn(i)]
		}
	}
	vars := make([]*PV, n)
	for i := range vars {
		vars[i] = genPt(2)
	}
	if op.n == 2 && rng.Intn(3) == 0 {
		// equal, opposite or torsion-related operands
		switch rng.Intn(3) {
		case 0:
			vars[2] = fromAff(vars[1].a)
		case 1:
			vars[2] = fromAff(edNeg(vars[1].a))
		case 2:
			vars[2] = fromAff(edAdd(vars[1].a, tors4[rng.Intn(4)]))
		}
	}
	var args []*Pt
	var av []aff
	m := kv{"op": "Point." + op.name, "alias": fmt.Sprint(slot)}
	for i := 1; i < n; i++ {
		x := vars[slot[i]]
		args = append(args, &x.p)
		av = append(av, x.a)
		m[fmt.Sprintf("arg%d", i)] = x.h
	}
	current = m
	old := make([]Pt, n)
	for i := range vars {
		old[i] = vars[i].p
	}
	want := op.o(av)
	ret := op.f(&vars[0].p, args)
	got, ok := ptAff(&vars[0].p)
	m["got"], m["want"], m["valid"] = got, want, ok
	if !ok || !rEq(got, want) || (strings.HasPrefix(op.name, "edwards.") && !edEq(got, want)) {
		fail("wrong result", m)
	}
	if ret != &vars[0].p {
		fail("does not return its receiver", m)
	}
	for i := 1; i < n; i++ {
		if vars[i].p != old[i] {
			fail("an operand was modified", m)
		}
	}
}

func c09() {
	for more() {
		if rng.Intn(4) == 0 {
			runPtOp(epOps[rng.Intn(len(epOps))], rng.Intn(4) == 0)
		}
		runPtOp(ptOps[rng.Intn(len(ptOps))], rng.Intn(4) == 0)
	}
}

func windowScalar() *big.Int {
	r := new(big.Int)
	switch rng.Intn(6) {
	case 0:
		return genSc()
	case 1: // one digit
		w := uint(4 + rng.Intn(2))
		r.Lsh(big.NewInt(int64(rng.Intn(32))), w*uint(rng.Intn(64)))
	case 2: // runs of ones
		a, b := uint(rng.Intn(253)), uint(rng.Intn(253))
		r.Sub(new(big.Int).Lsh(one, a), new(big.Int).Lsh(one, b))
	case 3: // digits all equal
		w := uint(4 + rng.Intn(3))
		d := int64(rng.Intn(1 << w))
		for i := uint(0); i*w < 253; i++ {
			r.Add(r, new(big.Int).Lsh(big.NewInt(d), i*w))
		}
	case 4: // extreme digits
		w := uint(4 + rng.Intn(2))
		for i := uint(0); i*w < 253; i++ {
			d := []int64{0, 1 << (w - 1), 1<<(w-1) - 1, 1<<(w-1) + 1, 1<<w - 1, 1}[rng.Intn(6)]
			r.Add(r, new(big.Int).Lsh(big.NewInt(d), i*w))
		}
	case 5:
		return lmod(edge(253))
	}
	return lmod(r)
}

func checkMul(name string, q *PV, s *big.Int, f func(p *Pt, sc *Sc) *Pt) {
	var p Pt
	sc := mkSc(s)
	m := kv{"op": name, "scalar": s, "point": q.h}
	current = m
	oq := q.p
	want := pmul(s, q.a)
	ret := f(&p, &sc)
	got, ok := ptAff(&p)
	m["got"], m["want"], m["valid"] = got, want, ok
	if !ok || !rEq(got, want) {
		fail("wrong result", m)
	}
	if ret != &p {
		fail("does not return its receiver", m)
	}
	if q.p != oq || scVal(&sc).Cmp(s) != 0 {
		fail("operand modified", m)
	}
}

func c10() {
	for more() {
		q := genPt(1)
		s := windowScalar()
		checkMul("ScalarMult", q, s, func(p *Pt, sc *Sc) *Pt {
			if rng.Intn(3) == 0 {
				*p = q.p
				return p.ScalarMult(p, sc)
			}
			return p.ScalarMult(&q.p, sc)
		})
	}
}

func c11() {
	for more() {
		q := genPt(1)
		s := windowScalar()
		checkMul("PublicScalarMult", q, s, func(p *Pt, sc *Sc) *Pt {
			if rng.Intn(3) == 0 {
				*p = q.p
				return p.PublicScalarMult(p, sc)
			}
			return p.PublicScalarMult(&q.p, sc)
		})
	}
}

func c12() {
	// every digit of every position of the base table
	base := &PV{a: basePt, h: "base point"}
	base.p.SetBase()
	for d := int64(1); d < 16; d++ {
		for i := uint(0); i < 64; i++ {
			s := new(big.Int).Lsh(big.NewInt(d), 4*i)
			if s.Cmp(L) >= 0 {
				continue
			}
			if !more() {
				return
			}
			if (d+int64(i))%2 == 0 {
				checkMul("ScalarMultBase", base, s, func(p *Pt, sc *Sc) *Pt { return p.ScalarMultBase(sc) })
			} else {
				checkMul("PublicScalarMultBase", base, s, func(p *Pt, sc *Sc) *Pt { return p.PublicScalarMultBase(sc) })
			}
		}
	}
	for more() {
		q := genPt(1)
		var t ristretto.ScalarMultTable
		t.Compute(&q.p)
		t0 := t
		for i := 0; i < 12; i++ {
			s := windowScalar()
			checkMul("ScalarMultTable", q, s, func(p *Pt, sc *Sc) *Pt { return p.ScalarMultTable(&t, sc) })
			checkMul("PublicScalarMultTable", q, s, func(p *Pt, sc *Sc) *Pt { return p.PublicScalarMultTable(&t, sc) })
			checkMul("ScalarMultBase", base, s, func(p *Pt, sc *Sc) *Pt { return p.ScalarMultBase(sc) })
			checkMul("PublicScalarMultBase", base, s, func(p *Pt, sc *Sc) *Pt { return p.PublicScalarMultBase(sc) })
		}
		if t != t0 {
			fail("table modified", kv{"point": q.h})
		}
	}
}

func c13() {
	for more() {
		q := genPt(2)
		m := kv{"point": q.h}
		current = m
		want := rEncode(q.a)
		o := q.p
		var buf [32]byte
		rng.Read(buf[:])
		if q.p.BytesInto(&buf) != &q.p {
			fail("BytesInto does not return its receiver", m)
		}
		m["got"], m["want"] = buf, want
		if buf != want || !bytes.Equal(q.p.Bytes(), want[:]) {
			fail("encoding", m)
		}
		mb, err := q.p.MarshalBinary()
		if err != nil || !bytes.Equal(mb, want[:]) {
			fail("MarshalBinary", m)
		}
		if q.p != o {
			fail("point modified", m)
		}
		r := fromAff(edAdd(q.a, tors4[rng.Intn(4)]))
		if !bytes.Equal(r.p.Bytes(), want[:]) {
			m["point"] = r.h
			fail("encoding depends on the representative", m)
		}
	}
}

func genEnc() [32]byte {
	switch rng.Intn(8) {
	case 0:
		return le32(edge(256))
	case 1, 2:
		b := rEncode(genAff())
		if rng.Intn(2) == 0 {
			i := rng.Intn(256)
			b[i/8] ^= 1 << uint(i%8)
		}
		return b
	case 3: // negative, p-s
		s := rEncode(genAff())
		return le32(fneg(fromLE(s[:])))
	case 4: // non-canonical
		return le32(new(big.Int).Add(P, big.NewInt(int64(rng.Intn(19)))))
	case 5:
		return le32(specialFe())
	case 6:
		return le32(big.NewInt(int64(rng.Intn(1000))))
	}
	return le32(randBits(255))
}

func c14() {
	for more() {
		b := genEnc()
		b0 := b
		want, ok := rDecode(b)
		var p Pt
		m := kv{"input": b}
		current = m
		got := p.SetBytes(&b)
		m["got"], m["want"] = got, ok
		if got != ok {
			fail("accept/reject", m)
		}
		if b != b0 {
			fail("input modified", m)
		}
		if ok {
			a, v := ptAff(&p)
			m["point"], m["expected"] = a, want
			if !v || !rEq(a, want) {
				fail("decoded point", m)
			}
			if rEncode(a) != b {
				fail("decoded point does not re-encode", m)
			}
		}
		var q Pt
		err := q.UnmarshalBinary(b[:])
		if (err == nil) != ok {
			fail("UnmarshalBinary", m)
		}
	}
}

func c15() {
	for more() {
		a, b := genPt(1), genPt(1)
		switch rng.Intn(6) {
		case 0, 1:
			b = fromAff(edAdd(a.a, tors4[rng.Intn(4)]))
		case 2:
			b = fromAff(edAdd(edNeg(a.a), tors4[rng.Intn(4)]))
		case 3: // (y, x) and friends, when they are on the curve: i-rotations
			b = fromAff(aff{fmul(a.a.y, SQM1), fmul(a.a.x, SQM1)})
		}
		if _, ok := epAff(b.e()); !ok {
			continue
		}
		m := kv{"p": a.h, "q": b.h}
		current = m
		oa, ob := a.p, b.p
		w := rEq(a.a, b.a)
		if a.p.EqualsI(&b.p) != b2i(w) || a.p.Equals(&b.p) != w {
			m["want"] = w
			fail("Equals", m)
		}
		if a.p != oa || b.p != ob {
			fail("operand modified", m)
		}
		for c := int32(0); c < 2; c++ {
			p := a.p
			p.ConditionalSet(&b.p, c)
			v, ok := ptAff(&p)
			e := a.a
			if c == 1 {
				e = b.a
			}
			if !ok || !rEq(v, e) || b.p != ob {
				m["bit"] = c
				fail("ConditionalSet", m)
			}
		}
	}
}

func c16() {
	for more() {
		var b [32]byte
		switch rng.Intn(3) {
		case 0:
			b = le32(specialFe())
		case 1:
			b = le32(edge(256))
		default:
			rng.Read(b[:])
		}
		b0 := b
		var p Pt
		m := kv{"input": b}
		current = m
		if p.SetElligator(&b) != &p || b != b0 {
			fail("SetElligator return/frame", m)
		}
		v := fromLE(b[:])
		want := rMap(fmod(v.SetBit(v, 255, 0)))
		got, ok := ptAff(&p)
		m["got"], m["want"] = got, want
		if !ok || !rEq(got, want) || rEncode(got) != rEncode(want) {
			fail("SetElligator", m)
		}
		if rng.Intn(4) == 0 {
			buf := make([]byte, rng.Intn(100))
			rng.Read(buf)
			h := sha512.Sum512(buf)
			half := func(x []byte) aff { v := fromLE(x); return rMap(fmod(v.SetBit(v, 255, 0))) }
			m = kv{"input": buf}
			current = m
			if p.Derive(buf) != &p {
				fail("Derive return", m)
			}
			if got, ok = ptAff(&p); !ok || !rEq(got, half(h[:32])) {
				fail("Derive", m)
			}
			if p.DeriveDalek(buf) != &p {
				fail("DeriveDalek return", m)
			}
			if got, ok = ptAff(&p); !ok || !rEq(got, edAdd(half(h[:32]), half(h[32:]))) {
				fail("DeriveDalek", m)
			}
			src, restore := fakeRand()
			p.Rand()
			restore()
			if got, ok = ptAff(&p); !ok || len(src.out) != 32 || !rEq(got, half(src.out)) {
				fail("Rand is not the map of 32 random bytes", kv{"random source": src.out})
			}
			p.Rand()
			a, ok1 := ptAff(&p)
			p.Rand()
			c, ok2 := ptAff(&p)
			if !ok1 || !ok2 || rEq(a, c) {
				fail("Rand", m)
			}
		}
	}
}

func lizPad(d [16]byte) [32]byte {
	h := sha256.Sum256(d[:])
	copy(h[8:], d[:])
	h[0] &= 254
	h[31] &= 63
	return h
}

func checkInverse(q *PV, must *big.Int) {
	var fes [8]Fe
	o := q.p
	m := kv{"point": q.h}
	if must != nil {
		m["preimage"] = must
	}
	current = m
	mask := q.e().RistrettoElligator2Inverse(&fes)
	if q.p != o {
		fail("point modified", m)
	}
	found := must == nil
	var liz [][16]byte
	for j := 0; j < 8; j++ {
		if mask>>uint(j)&1 == 0 {
			continue
		}
		v := feVal(&fes[j])
		m["element"] = v
		if v.Bit(0) == 1 {
			fail("inverse is negative", m)
		}
		if !rEq(rMap(v), q.a) {
			fail("not a preimage", m)
		}
		if must != nil && v.Cmp(must) == 0 {
			found = true
		}
		b := le32(v)
		var d [16]byte
		copy(d[:], b[8:24])
		if lizPad(d) == b {
			dup := false
			for _, l := range liz {
				dup = dup || l == d
			}
			if dup {
				liz = append(liz, d)
			} else {
				liz = append(liz, d)
			}
		}
	}
	if !found {
		m["mask"] = mask
		fail("a preimage is missing", m)
	}
	var out [16]byte
	err := q.p.LizardInto(&out)
	if (err == nil) != (len(liz) == 1) || (err == nil && out != liz[0]) {
		m["lizard"] = out[:]
		fail("LizardInto", m)
	}
	r := q.p.Lizard()
	if (r == nil) != (err != nil) || (r != nil && !bytes.Equal(r, out[:])) {
		fail("Lizard", m)
	}
}

func c17() {
	for more() {
		switch rng.Intn(4) {
		case 3:
			// nearly a padding
			var d [16]byte
			rng.Read(d[:])
			b := lizPad(d)
			for n := rng.Intn(3); n >= 0; n-- {
				b[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
			}
			b[0] &= 254
			b[31] &= 127
			f := fmod(fromLE(b[:]))
			f = fabs(f)
			q := fromAff(edAdd(rMap(f), tors4[rng.Intn(4)]))
			checkInverse(q, f)
		case 0:
			var d [16]byte
			if rng.Intn(3) > 0 {
				rng.Read(d[:])
			} else {
				b := le32(edge(128))
				copy(d[:], b[:16])
			}
			d0 := d
			var p Pt
			m := kv{"data": d[:]}
			current = m
			if p.SetLizard(&d) != &p || d != d0 {
				fail("SetLizard return/frame", m)
			}
			b := lizPad(d)
			want := rMap(fromLE(b[:]))
			got, ok := ptAff(&p)
			if !ok || !rEq(got, want) {
				fail("SetLizard", m)
			}
			q := fromAff(edAdd(got, tors4[rng.Intn(4)]))
			checkInverse(q, fromLE(b[:]))
		case 1:
			f := fabs(fmod(edge(255)))
			if rng.Intn(3) == 0 {
				f = fabs(specialFe())
			}
			q := fromAff(edAdd(rMap(f), tors4[rng.Intn(4)]))
			checkInverse(q, f)
		case 2:
			checkInverse(genPt(1), nil)
		}
	}
}

func c18() {
	enc := base64.RawURLEncoding
	for more() {
		q := genPt(1)
		s := genSc()
		sc := mkSc(s)
		pb := rEncode(q.a)
		sb := le32(s)
		m := kv{"point": q.h, "scalar": s}
		current = m
		chk := func(what string, got []byte, err error, want []byte) {
			if err != nil || !bytes.Equal(got, want) {
				m["got"], m["want"], m["error"] = got, want, err
				fail(what, m)
			}
		}
		x, err := q.p.MarshalBinary()
		chk("Point.MarshalBinary", x, err, pb[:])
		x, err = q.p.MarshalText()
		chk("Point.MarshalText", x, err, []byte(enc.EncodeToString(pb[:])))
		chk("Point.String", []byte(q.p.String()), nil, []byte(enc.EncodeToString(pb[:])))
		x, err = sc.MarshalBinary()
		chk("Scalar.MarshalBinary", x, err, sb[:])
		x, err = sc.MarshalText()
		chk("Scalar.MarshalText", x, err, []byte(enc.EncodeToString(sb[:])))
		chk("Scalar.String", []byte(sc.String()), nil, []byte(enc.EncodeToString(sb[:])))
		var p2 Pt
		var s2 Sc
		if err := p2.UnmarshalText([]byte(enc.EncodeToString(pb[:]))); err != nil || !p2.Equals(&q.p) {
			fail("Point text round trip", m)
		}
		if err := p2.UnmarshalText([]byte(hex.EncodeToString(pb[:]))); err != nil || !p2.Equals(&q.p) {
			fail("Point hex round trip", m)
		}
		if err := p2.UnmarshalBinary(pb[:]); err != nil || !p2.Equals(&q.p) {
			fail("Point binary round trip", m)
		}
		if err := s2.UnmarshalText([]byte(enc.EncodeToString(sb[:]))); err != nil || scVal(&s2).Cmp(s) != 0 {
			fail("Scalar text round trip", m)
		}
		if err := s2.UnmarshalBinary(sb[:]); err != nil || scVal(&s2).Cmp(s) != 0 {
			fail("Scalar binary round trip", m)
		}
		// bad input: lengths, alphabets, encodings
		var raw []byte
		n := rng.Intn(100)
		switch rng.Intn(4) {
		case 0:
			raw = make([]byte, n)
			rng.Read(raw)
		case 1:
			raw = append([]byte{}, pb[:]...)
			raw = append(raw, make([]byte, rng.Intn(4))...)
			raw = raw[:len(raw)-rng.Intn(3)]
		case 2:
			t := genEnc()
			raw = t[:]
		case 3:
			t := le32(edge(256))
			raw = t[:]
		}
		var arr [32]byte
		copy(arr[:], raw)
		_, okP := rDecode(arr)
		okP = okP && len(raw) == 32
		m = kv{"data": raw}
		current = m
		if err := p2.UnmarshalBinary(raw); (err == nil) != okP {
			fail("Point.UnmarshalBinary accept/reject", m)
		}
		okS := len(raw) == 32
		lowS := lmod(new(big.Int).Mod(fromLE(arr[:]), new(big.Int).Lsh(one, 253)))
		if err := s2.UnmarshalBinary(raw); (err == nil) != okS || okS && scVal(&s2).Cmp(lowS) != 0 {
			m["got"] = scVal(&s2)
			fail("Scalar.UnmarshalBinary", m)
		}
		txt := []byte(enc.EncodeToString(raw))
		switch rng.Intn(6) {
		case 0:
			txt = []byte(hex.EncodeToString(raw))
		case 1:
			if len(txt) > 0 {
				txt[rng.Intn(len(txt))] = byte(rng.Intn(256))
			}
		case 2:
			txt = append(txt, byte(rng.Intn(256)))
		case 3:
			if len(txt) > 0 {
				txt = txt[:len(txt)-1]
			}
		}
		dec := func(hexOK bool) ([]byte, bool) {
			if hexOK && len(txt) == 64 {
				if b, err := hex.DecodeString(string(txt)); err == nil {
					return b, true
				}
			}
			b, err := enc.DecodeString(string(txt))
			return b, err == nil && len(b) == 32
		}
		m = kv{"text": string(txt)}
		current = m
		t0 := append([]byte{}, txt...)
		b, ok := dec(true)
		if ok {
			copy(arr[:], b)
			var a aff
			a, ok = rDecode(arr)
			err := p2.UnmarshalText(txt)
			if (err == nil) != ok {
				fail("Point.UnmarshalText accept/reject", m)
			}
			if ok {
				if v, _ := ptAff(&p2); !rEq(v, a) {
					fail("Point.UnmarshalText value", m)
				}
			}
		} else if p2.UnmarshalText(txt) == nil {
			fail("Point.UnmarshalText accepts", m)
		}
		b, ok = dec(false)
		err = s2.UnmarshalText(txt)
		if (err == nil) != ok {
			fail("Scalar.UnmarshalText accept/reject", m)
		}
		if ok {
			w := lmod(new(big.Int).Mod(fromLE(b), new(big.Int).Lsh(one, 253)))
			if scVal(&s2).Cmp(w) != 0 {
				fail("Scalar.UnmarshalText value", m)
			}
		}
		if !bytes.Equal(txt, t0) {
			fail("text modified", m)
		}
	}
}

func c19() {
	var g0 Pt
	g0.SetBase()
	for more() {
		for _, op := range scArith {
			runScOp(op, true)
		}
		for _, op := range feArith {
			runFeOp(op, true)
		}
		for _, op := range ptOps {
			runPtOp(op, true)
		}
		for _, op := range epOps {
			runPtOp(op, true)
		}
		internals()
		runScOp(scSet, true)
		runFeOp(feUn[rng.Intn(len(feUn))], true)
		if rng.Intn(4) == 0 {
			runScOp(scInv, true)
			for _, f := range []func(){c03, c04, c05, c07, c08, c10, c11, c13, c14, c15, c16, c17, c18} {
				quota = 4
				f()
				quota = -1
			}
		}
	}
	quota = 200
	c12()
	quota = -1
}

func feAll(fs ...*ed.FieldElement) string {
	var b bytes.Buffer
	for _, f := range fs {
		fmt.Fprintf(&b, "%x ", f.Bytes())
	}
	return b.String()
}

func nielsStr(n *ed.NielsPoint) string     { return feAll(&n.YPlusX, &n.YMinusX, &n.XY2D) }
func compStr(c *ed.CompletedPoint) string  { return feAll(&c.X, &c.Y, &c.Z, &c.T) }
func projStr(c *ed.ProjectivePoint) string { return feAll(&c.X, &c.Y, &c.Z) }

var tableAtStart = ed.BaseScalarMultTable

// the other coordinate systems: same variable or not, operands unchanged
func internals() {
	a, b := genPt(1), genPt(1)
	m := kv{"point": a.h, "other": b.h}
	current = m
	oa, ob := a.p, b.p
	var n1, n2, n3, n4 ed.NielsPoint
	n1.SetExtended(a.e())
	n2.SetExtended(b.e())
	on1, on2 := n1, n2
	if n3.Neg(&n1) != &n3 {
		fail("NielsPoint.Neg does not return its receiver", m)
	}
	n4 = n1
	if n4.Neg(&n4); nielsStr(&n4) != nielsStr(&n3) {
		fail("NielsPoint.Neg(p, p) differs from Neg(p, q)", m)
	}
	for v := int32(0); v < 2; v++ {
		n3, n4 = n1, n1
		n3.ConditionalSet(&n2, v)
		n4.ConditionalSet(&n4, v)
		w := &n1
		if v == 1 {
			w = &n2
		}
		if nielsStr(&n3) != nielsStr(w) || nielsStr(&n4) != nielsStr(&n1) {
			fail("NielsPoint.ConditionalSet", m)
		}
	}
	if n3.Set(&n1); nielsStr(&n3) != nielsStr(&n1) {
		fail("NielsPoint.Set", m)
	}
	var c ed.CompletedPoint
	var pj ed.ProjectivePoint
	var e Ep
	pj.SetExtended(a.e())
	opj := pj
	step := []func() *ed.CompletedPoint{
		func() *ed.CompletedPoint { return c.AddExtended(a.e(), b.e()) },
		func() *ed.CompletedPoint { return c.SubExtended(a.e(), b.e()) },
		func() *ed.CompletedPoint { return c.DoubleExtended(a.e()) },
		func() *ed.CompletedPoint { return c.DoubleProjective(&pj) },
		func() *ed.CompletedPoint { return c.AddExtendedNiels(a.e(), &n2) },
		func() *ed.CompletedPoint { return c.SubExtendedNiels(a.e(), &n2) },
	}
	for i, f := range step {
		m["step"] = i
		if f() != &c {
			fail("CompletedPoint operation does not return its receiver", m)
		}
		oc := c
		e.SetCompleted(&c)
		var p2 ed.ProjectivePoint
		p2.SetCompleted(&c)
		if c != oc {
			fail("SetCompleted changed its operand", m)
		}
		want := []aff{edAdd(a.a, b.a), edAdd(a.a, edNeg(b.a)), edAdd(a.a, a.a), edAdd(a.a, a.a), edAdd(a.a, b.a), edAdd(a.a, edNeg(b.a))}[i]
		if g, ok := epAff(&e); !ok || !edEq(g, want) {
			fail("wrong result of a CompletedPoint operation", m)
		}
	}
	var fes [8]ed.FieldElement
	var qs [4]ed.JacobiPoint
	a.e().RistrettoElligator2Inverse(&fes)
	a.e().ToJacobiQuarticRistretto(&qs)
	j := qs[rng.Intn(4)]
	j1 := j
	var j2 ed.JacobiPoint
	j2.Dual(&j1)
	if j1 != j {
		fail("JacobiPoint.Dual changed its operand", m)
	}
	if j1.Dual(&j1); feAll(&j1.S, &j1.T) != feAll(&j2.S, &j2.T) {
		fail("JacobiPoint.Dual(p, p) differs from Dual(p, q)", m)
	}
	if a.p != oa || b.p != ob || n1 != on1 || n2 != on2 || pj != opj {
		fail("an operand was modified", m)
	}
	if ed.BaseScalarMultTable != tableAtStart {
		fail("the table of the base point was modified", m)
	}
}

func init() {
	props["C09"], props["C10"], props["C11"], props["C12"], props["C13"], props["C14"] = c09, c10, c11, c12, c13, c14
	props["C15"], props["C16"], props["C17"], props["C18"], props["C19"] = c15, c16, c17, c18, c19
}
