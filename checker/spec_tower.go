package main

import (
	"math/big"
)

// Reference arithmetic of the extension tower, on terms:
// F2 = F[i]/(i²+1) (value x·i+y), F6 = F2[τ]/(τ³-ξ) (xτ²+yτ+z), F12 = F6[ω]/(ω²-τ) (xω+y), ξ = i+9.

type F2 struct{ x, y *Term }
type F6 struct{ x, y, z F2 }
type F12 struct{ x, y F6 }

type Tower struct{ T *TermTable }

func (w Tower) zero2() F2              { return F2{w.T.zero, w.T.zero} }
func (w Tower) one2() F2               { return F2{w.T.zero, w.T.one} }
func (w Tower) add2(a, b F2) F2        { return F2{w.T.add(a.x, b.x), w.T.add(a.y, b.y)} }
func (w Tower) neg2(a F2) F2           { return F2{w.T.neg(a.x), w.T.neg(a.y)} }
func (w Tower) sub2(a, b F2) F2        { return w.add2(a, w.neg2(b)) }
func (w Tower) conj2(a F2) F2          { return F2{w.T.neg(a.x), a.y} }
func (w Tower) scal2(a F2, b *Term) F2 { return F2{w.T.mul(a.x, b), w.T.mul(a.y, b)} }
func (w Tower) mul2(a, b F2) F2 {
	T := w.T
	return F2{T.add(T.mul(a.x, b.y), T.mul(a.y, b.x)), T.sub(T.mul(a.y, b.y), T.mul(a.x, b.x))}
}
func (w Tower) sq2(a F2) F2         { return w.mul2(a, a) }
func (w Tower) cube2(a F2) F2       { return w.mul2(w.mul2(a, a), a) }
func (w Tower) xi2(a F2) F2         { return w.mul2(a, F2{w.T.one, w.T.constI(9)}) }
func (w Tower) k2(a F2, n int64) F2 { return w.scal2(a, w.T.constI(n)) }

func (w Tower) add6(a, b F6) F6 { return F6{w.add2(a.x, b.x), w.add2(a.y, b.y), w.add2(a.z, b.z)} }
func (w Tower) neg6(a F6) F6    { return F6{w.neg2(a.x), w.neg2(a.y), w.neg2(a.z)} }
func (w Tower) sub6(a, b F6) F6 { return w.add6(a, w.neg6(b)) }
func (w Tower) mul6(a, b F6) F6 {
	// (xτ²+yτ+z)(x'τ²+y'τ+z')
	t4 := w.mul2(a.x, b.x)
	t3 := w.add2(w.mul2(a.x, b.y), w.mul2(a.y, b.x))
	t2 := w.add2(w.add2(w.mul2(a.x, b.z), w.mul2(a.y, b.y)), w.mul2(a.z, b.x))
	t1 := w.add2(w.mul2(a.y, b.z), w.mul2(a.z, b.y))
	t0 := w.mul2(a.z, b.z)
	return F6{t2, w.add2(t1, w.xi2(t4)), w.add2(t0, w.xi2(t3))}
}
func (w Tower) scal6(a F6, b F2) F6   { return F6{w.mul2(a.x, b), w.mul2(a.y, b), w.mul2(a.z, b)} }
func (w Tower) gfp6(a F6, b *Term) F6 { return F6{w.scal2(a.x, b), w.scal2(a.y, b), w.scal2(a.z, b)} }
func (w Tower) tau6(a F6) F6          { return F6{a.y, a.z, w.xi2(a.x)} }
func (w Tower) zero6() F6             { return F6{w.zero2(), w.zero2(), w.zero2()} }
func (w Tower) one6() F6              { return F6{w.zero2(), w.zero2(), w.one2()} }
func (w Tower) add12(a, b F12) F12    { return F12{w.add6(a.x, b.x), w.add6(a.y, b.y)} }
func (w Tower) neg12(a F12) F12       { return F12{w.neg6(a.x), w.neg6(a.y)} }
func (w Tower) sub12(a, b F12) F12    { return w.add12(a, w.neg12(b)) }
func (w Tower) conj12(a F12) F12      { return F12{w.neg6(a.x), a.y} }
func (w Tower) one12() F12            { return F12{w.zero6(), w.one6()} }
func (w Tower) mul12(a, b F12) F12 {
	x := w.add6(w.mul6(a.x, b.y), w.mul6(a.y, b.x))
	y := w.add6(w.mul6(a.y, b.y), w.tau6(w.mul6(a.x, b.x)))
	return F12{x, y}
}

func (w Tower) f2(l []*Term) F2   { return F2{l[0], l[1]} }
func (w Tower) f6(l []*Term) F6   { return F6{w.f2(l[0:2]), w.f2(l[2:4]), w.f2(l[4:6])} }
func (w Tower) f12(l []*Term) F12 { return F12{w.f6(l[0:6]), w.f6(l[6:12])} }
func l2(a F2) []*Term             { return []*Term{a.x, a.y} }
func l6(a F6) []*Term             { return append(append(l2(a.x), l2(a.y)...), l2(a.z)...) }
func l12(a F12) []*Term           { return append(l6(a.x), l6(a.y)...) }

// Concrete field arithmetic for the Frobenius coefficients (specification side).
type c2 struct{ x, y *big.Int }

func cmul2(a, b c2, p *big.Int) c2 {
	x := new(big.Int).Mul(a.x, b.y)
	x.Add(x, new(big.Int).Mul(a.y, b.x))
	y := new(big.Int).Mul(a.y, b.y)
	y.Sub(y, new(big.Int).Mul(a.x, b.x))
	return c2{x.Mod(x, p), y.Mod(y, p)}
}

func cpow2(a c2, e, p *big.Int) c2 {
	r := c2{big.NewInt(0), big.NewInt(1)}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = cmul2(r, r, p)
		if e.Bit(i) == 1 {
			r = cmul2(r, a, p)
		}
	}
	return r
}

// BN parameters (specification constants).
var (
	bnU     = mustBig("4965661367192848881")
	bnP     = bnPoly(36, 36, 24, 6, 1)
	bnOrder = bnPoly(36, 36, 18, 6, 1)
)

func mustBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic(s)
	}
	return n
}

func bnPoly(c ...int64) *big.Int {
	r := new(big.Int)
	for _, k := range c {
		r.Mul(r, bnU)
		r.Add(r, big.NewInt(k))
	}
	return r
}

// xiPow is ξ^e.
func xiPow(e *big.Int) c2 {
	return cpow2(c2{big.NewInt(1), big.NewInt(9)}, e, bnP)
}

func (w Tower) kc2(c c2) F2 { return F2{w.T.konst(c.x), w.T.konst(c.y)} }

func frac(num *big.Int, den int64) *big.Int {
	q, r := new(big.Int).DivMod(num, big.NewInt(den), new(big.Int))
	if r.Sign() != 0 {
		panic("inexact fraction")
	}
	return q
}

var one_ = big.NewInt(1)

func pm1() *big.Int  { return new(big.Int).Sub(bnP, one_) }
func p2m1() *big.Int { return new(big.Int).Sub(new(big.Int).Mul(bnP, bnP), one_) }

// frob6: coefficientwise conjugation with τ^p = τ·ξ^((p-1)/3).
func (w Tower) frob6(a F6) F6 {
	g := w.kc2(xiPow(frac(pm1(), 3)))
	return F6{w.mul2(w.conj2(a.x), w.sq2(g)), w.mul2(w.conj2(a.y), g), w.conj2(a.z)}
}
func (w Tower) frobP26(a F6) F6 {
	g := w.kc2(xiPow(frac(p2m1(), 3)))
	return F6{w.mul2(a.x, w.sq2(g)), w.mul2(a.y, g), a.z}
}
func (w Tower) frob12(a F12) F12 {
	g := w.kc2(xiPow(frac(pm1(), 6)))
	return F12{w.scal6(w.frob6(a.x), g), w.frob6(a.y)}
}
func (w Tower) frobP212(a F12) F12 {
	g := w.kc2(xiPow(frac(p2m1(), 6)))
	return F12{w.scal6(w.frobP26(a.x), g), w.frobP26(a.y)}
}
