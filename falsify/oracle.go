package main

import (
	"math/big"
)

func bi(s string) *big.Int {
	r, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return r
}

var (
	one   = big.NewInt(1)
	two   = big.NewInt(2)
	zero  = big.NewInt(0)
	P     = new(big.Int).Sub(new(big.Int).Lsh(one, 255), big.NewInt(19))
	L     = new(big.Int).Add(new(big.Int).Lsh(one, 252), bi("27742317777372353535851937790883648493"))
	D     = fmul(fneg(big.NewInt(121665)), finv(big.NewInt(121666)))
	SQM1  = bi("19681161376707505956807079304988542015446066515923890162744021073123829784752")
	SQADM = bi("25063068953384623474111414158702152701244531502492656460079210482610430750235")
	IAMD  = bi("54469307008909316920995813868745141605393597292927456921205312896311721017578")
	OMD2  = fsub(one, fmul(D, D))
	DM12  = fmul(fsub(D, one), fsub(D, one))
)

func fmod(a *big.Int) *big.Int    { return new(big.Int).Mod(a, P) }
func fadd(a, b *big.Int) *big.Int { return fmod(new(big.Int).Add(a, b)) }
func fsub(a, b *big.Int) *big.Int { return fmod(new(big.Int).Sub(a, b)) }
func fmul(a, b *big.Int) *big.Int { return fmod(new(big.Int).Mul(a, b)) }
func fneg(a *big.Int) *big.Int    { return fmod(new(big.Int).Neg(a)) }
func finv(a *big.Int) *big.Int {
	return new(big.Int).Exp(fmod(a), new(big.Int).Sub(P, two), P)
}
func fabs(a *big.Int) *big.Int {
	if a.Bit(0) == 1 {
		return fneg(a)
	}
	return a
}
func lmod(a *big.Int) *big.Int { return new(big.Int).Mod(a, L) }

// sqrtRatio as in RFC 9496, 4.2
func sqrtRatio(u, v *big.Int) (bool, *big.Int) {
	v3 := fmul(fmul(v, v), v)
	v7 := fmul(fmul(v3, v3), v)
	e := new(big.Int).Rsh(new(big.Int).Sub(P, big.NewInt(5)), 3)
	r := fmul(fmul(u, v3), new(big.Int).Exp(fmul(u, v7), e, P))
	check := fmul(v, fmul(r, r))
	ok := check.Cmp(fmod(u)) == 0
	fl := check.Cmp(fneg(u)) == 0
	fli := check.Cmp(fmul(fneg(u), SQM1)) == 0
	if fl || fli {
		r = fmul(r, SQM1)
	}
	return ok || fl, fabs(r)
}

type aff struct{ x, y *big.Int }

func (p aff) String() string { return "(0x" + p.x.Text(16) + ",0x" + p.y.Text(16) + ")" }

var ident = aff{zero, one}

func edAdd(p, q aff) aff {
	k := fmul(D, fmul(fmul(p.x, q.x), fmul(p.y, q.y)))
	x := fmul(fadd(fmul(p.x, q.y), fmul(p.y, q.x)), finv(fadd(one, k)))
	y := fmul(fadd(fmul(p.y, q.y), fmul(p.x, q.x)), finv(fsub(one, k)))
	return aff{x, y}
}
func edNeg(p aff) aff { return aff{fneg(p.x), p.y} }
func edMul(s *big.Int, p aff) aff {
	r := ident
	for i := s.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if s.Bit(i) == 1 {
			r = edAdd(r, p)
		}
	}
	return r
}
func edEq(p, q aff) bool { return p.x.Cmp(q.x) == 0 && p.y.Cmp(q.y) == 0 }
func onCurve(p aff) bool {
	x2, y2 := fmul(p.x, p.x), fmul(p.y, p.y)
	return fsub(y2, x2).Cmp(fadd(one, fmul(D, fmul(x2, y2)))) == 0
}

var tors4 = []aff{{zero, one}, {zero, fneg(one)}, {SQM1, zero}, {fneg(SQM1), zero}}

var baseY = fmul(big.NewInt(4), finv(big.NewInt(5)))
var basePt = func() aff {
	y2 := fmul(baseY, baseY)
	_, x := sqrtRatio(fsub(y2, one), fadd(one, fmul(D, y2)))
	return aff{x, baseY}
}()

func le32(a *big.Int) (r [32]byte) {
	b := a.Bytes()
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return
}
func fromLE(b []byte) *big.Int {
	t := make([]byte, len(b))
	for i := range b {
		t[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(t)
}

// encode: RFC 9496, 4.3.2, for the representative (x:y:1:xy)
func rEncode(p aff) [32]byte {
	x0, y0, z0, t0 := p.x, p.y, one, fmul(p.x, p.y)
	u1 := fmul(fadd(z0, y0), fsub(z0, y0))
	u2 := fmul(x0, y0)
	_, inv := sqrtRatio(one, fmul(u1, fmul(u2, u2)))
	den1 := fmul(inv, u1)
	den2 := fmul(inv, u2)
	zinv := fmul(fmul(den1, den2), t0)
	ix, iy := fmul(x0, SQM1), fmul(y0, SQM1)
	ench := fmul(den1, IAMD)
	x, y, den := x0, y0, den2
	if fmul(t0, zinv).Bit(0) == 1 {
		x, y, den = iy, ix, ench
	}
	if fmul(x, zinv).Bit(0) == 1 {
		y = fneg(y)
	}
	return le32(fabs(fmul(den, fsub(z0, y))))
}

// decode: RFC 9496, 4.3.1
func rDecode(b [32]byte) (aff, bool) {
	s := fromLE(b[:])
	if s.Cmp(P) >= 0 || s.Bit(0) == 1 {
		return aff{}, false
	}
	ss := fmul(s, s)
	u1, u2 := fsub(one, ss), fadd(one, ss)
	u22 := fmul(u2, u2)
	v := fsub(fneg(fmul(D, fmul(u1, u1))), u22)
	ok, inv := sqrtRatio(one, fmul(v, u22))
	denx := fmul(inv, u2)
	deny := fmul(fmul(inv, denx), v)
	x := fabs(fmul(fmul(two, s), denx))
	y := fmul(u1, deny)
	t := fmul(x, y)
	if !ok || t.Bit(0) == 1 || y.Sign() == 0 {
		return aff{}, false
	}
	return aff{x, y}, true
}

// map: RFC 9496, 4.3.4
func rMap(t *big.Int) aff {
	r := fmul(SQM1, fmul(t, t))
	u := fmul(fadd(r, one), OMD2)
	v := fmul(fsub(fneg(one), fmul(r, D)), fadd(r, D))
	ok, s := sqrtRatio(u, v)
	sp := fneg(fabs(fmul(s, t)))
	c := fneg(one)
	if !ok {
		s = sp
		c = r
	}
	n := fsub(fmul(c, fmul(fsub(r, one), DM12)), v)
	s2 := fmul(s, s)
	w0 := fmul(fmul(two, s), v)
	w1 := fmul(n, SQADM)
	w2 := fsub(one, s2)
	w3 := fadd(one, s2)
	return aff{fmul(w0, finv(w1)), fmul(w2, finv(w3))}
}

// equal as Ristretto elements
func rEq(p, q aff) bool {
	return fmul(p.x, q.y).Cmp(fmul(p.y, q.x)) == 0 || fmul(p.x, q.x).Cmp(fmul(p.y, q.y)) == 0
}

// ---------------------------------------------------------------- generators
var edgeWidths = [][]uint{{51, 51, 51, 51, 51, 64, 64, 64, 64}, {26, 25, 26, 25, 26, 25, 26, 25, 26, 25, 26, 25, 26, 25, 26, 25, 26, 25, 26, 25, 26}, {21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21}, {32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32}, {8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8}, {64, 64, 64, 64, 64, 64, 64, 64}, {4}, {5}}

func randBits(n uint) *big.Int {
	return new(big.Int).Rand(rng, new(big.Int).Lsh(one, n))
}

// edge returns a number below 2^bits, biased towards carries and boundaries
func edge(bits uint) *big.Int {
	lim := new(big.Int).Lsh(one, bits)
	r := new(big.Int)
	switch rng.Intn(10) {
	case 0, 1:
		return randBits(bits)
	case 9: // words of a multiple of l or p, some of them changed
		m := L
		if rng.Intn(2) == 0 {
			m = P
		}
		k := big.NewInt(1)
		if rng.Intn(3) == 0 {
			k.Rand(rng, new(big.Int).Add(new(big.Int).Div(lim, m), one))
		}
		m = new(big.Int).Mul(m, k)
		w := []uint{8, 16, 32, 32, 32, 64}[rng.Intn(6)]
		mask := new(big.Int).Sub(new(big.Int).Lsh(one, w), one)
		for sh := uint(0); sh < bits; sh += w {
			x := new(big.Int).And(new(big.Int).Rsh(m, sh), mask)
			switch rng.Intn(14) {
			case 0, 1:
				x = big.NewInt(0)
			case 2:
				x = mask
			case 3, 4:
				x = new(big.Int).And(x.Add(x, one), mask)
			case 5:
				x = new(big.Int).And(x.Sub(x, one), mask)
			case 6:
				x = randBits(w)
			}
			r.Add(r, new(big.Int).Lsh(x, sh))
		}
	case 2: // near a multiple of l or p
		m := L
		if rng.Intn(2) == 0 {
			m = P
		}
		q := new(big.Int).Div(lim, m)
		k := new(big.Int)
		switch rng.Intn(3) {
		case 0:
			k.Rand(rng, new(big.Int).Add(q, one))
		case 1:
			k.SetInt64(int64(rng.Intn(20)))
		case 2:
			k.Sub(q, big.NewInt(int64(rng.Intn(3))))
		}
		r.Mul(k, m)
		r.Add(r, big.NewInt(int64(rng.Intn(41)-20)))
	case 3: // small
		r.SetInt64(int64(rng.Intn(300)))
	case 4: // near a power of two
		r.Lsh(one, uint(rng.Intn(int(bits)+1)))
		r.Add(r, big.NewInt(int64(rng.Intn(41)-20)))
	case 5: // near the top
		r.Sub(lim, big.NewInt(int64(rng.Intn(40)+1)))
	case 6: // sparse
		for i := 0; i < 1+rng.Intn(4); i++ {
			t := new(big.Int).Lsh(one, uint(rng.Intn(int(bits))))
			if rng.Intn(2) == 0 {
				r.Add(r, t)
			} else {
				r.Sub(r, t)
			}
		}
	default: // limb patterns
		w := edgeWidths[rng.Intn(len(edgeWidths))]
		var sh uint
		i := 0
		style := rng.Intn(3)
		for sh < bits {
			n := w[i%len(w)]
			m := new(big.Int).Sub(new(big.Int).Lsh(one, n), one)
			var x *big.Int
			k := rng.Intn(6)
			if style == 1 {
				k = rng.Intn(2)
			}
			switch k {
			case 0:
				x = big.NewInt(0)
			case 1:
				x = m
			case 2:
				x = big.NewInt(int64(rng.Intn(3)))
			case 3:
				x = new(big.Int).Sub(m, big.NewInt(int64(rng.Intn(3))))
			case 4:
				x = new(big.Int).Lsh(one, n-1)
				x.Add(x, big.NewInt(int64(rng.Intn(3)-1)))
			default:
				x = randBits(n)
			}
			r.Add(r, new(big.Int).Lsh(x, sh))
			sh += n
			i++
		}
	}
	return r.Mod(r, lim)
}
