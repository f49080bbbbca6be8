package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// B01, B03: the scalar field and dense polynomials over it.

func scalarAnalysis(R *Report) *Analysis {
	A := newAnalysis(R.P, bnOrder, R.seed)
	if err := A.initGlobals(); err != nil {
		R.bad(R.prop+"/init", "package initialisation", "cannot be established: "+err.Error(), nil)
	}
	return A
}

// frozenBig is an operand that must not be written.
func (A *Analysis) frozenBig(st *State, name string, b *BigVal) Val {
	id := A.alloc(st, &Obj{val: VBig{b}, typ: A.bigType(), tag: name, frozen: "operand " + name})
	return VPtr{obj: id}
}

func (A *Analysis) frozenBigs(st *State, name string, bs []*BigVal) Val {
	var el []Val
	for i, b := range bs {
		el = append(el, A.frozenBig(st, fmt.Sprintf("%s[%d]", name, i), b))
	}
	return A.frozenSlice(st, name, el)
}

func (A *Analysis) frozenSlice(st *State, name string, el []Val) Val {
	s := A.sliceOf(st, A.bigPtrType(), el)
	if o := st.get(s.obj); o != nil {
		n := *o
		n.frozen = "operand " + name
		st.set(s.obj, &n)
	}
	return s
}

// bigList reads a []*big.Int.
func (A *Analysis) bigList(st *State, v Val) (out []*BigVal, ok bool) {
	switch s := v.(type) {
	case VNil:
		return nil, true
	case VSlice:
		for _, e := range A.sliceElems(st, s) {
			if _, isptr := e.(VPtr); !isptr {
				return nil, false
			}
			b := A.bigAt(st, e, 0)
			if b == nil {
				return nil, false
			}
			out = append(out, st.latest(b))
		}
		return out, true
	}
	return nil, false
}

func (A *Analysis) polyEval(p []*Term, x *Term) *Term {
	r := A.T.zero
	for i := len(p) - 1; i >= 0; i-- {
		r = A.T.add(A.T.mul(r, x), p[i])
	}
	return r
}

func (A *Analysis) polyMul(a, b []*Term) []*Term {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	r := make([]*Term, len(a)+len(b)-1)
	for i := range r {
		r[i] = A.T.zero
	}
	for i := range a {
		for j := range b {
			r[i+j] = A.T.add(r[i+j], A.T.mul(a[i], b[j]))
		}
	}
	return r
}

func (A *Analysis) polyAdd(a, b []*Term, sign int) []*Term {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	r := make([]*Term, n)
	for i := range r {
		r[i] = A.T.zero
		if i < len(a) {
			r[i] = a[i]
		}
		if i < len(b) {
			if sign > 0 {
				r[i] = A.T.add(r[i], b[i])
			} else {
				r[i] = A.T.sub(r[i], b[i])
			}
		}
	}
	return r
}

// samePoly compares as polynomials.
func (A *Analysis) samePoly(st *State, got, want []*Term) int {
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := A.T.zero, A.T.zero
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if !A.zeroIn(st, A.T.sub(g, w)) {
			return i
		}
	}
	return -1
}

// boolOf splits an outcome by a boolean result.
func (A *Analysis) boolOf(st *State, v Val) (t, f *State) {
	b, ok := v.(VBool)
	if !ok {
		A.fail(0, "boolean result expected, got %T", v)
	}
	if b.known {
		if b.b {
			return st, nil
		}
		return nil, st
	}
	return A.decide(b.cond, st, 0)
}

// equalityTest checks a boolean outcome against "the terms are equal".
func (R *Report) equalityTest(A *Analysis, st *State, v Val, diff *Term, key, where, what string) {
	t, f := A.boolOf(st, v)
	if t != nil {
		R.check(A.zeroIn(t, diff), key, where, what+": answers true although the values may differ", t)
	}
	if f != nil {
		R.check(A.knownNonzero(f, diff), key, where, what+": answers false although the values may be equal", f)
	}
}

type intClass struct {
	tag string
	mk  func(A *Analysis, name string) *BigVal
}

var anyInt = intClass{"any integer", func(A *Analysis, n string) *BigVal { return A.bigAny(A.T.atom(n)) }}
var reducedInt = intClass{"reduced", func(A *Analysis, n string) *BigVal { return A.bigCanon(A.T.atom(n)) }}

func constClass(k *big.Int, tag string) intClass {
	return intClass{tag, func(A *Analysis, n string) *BigVal { return A.bigConst(k) }}
}

var (
	zeroInt = constClass(big.NewInt(0), "zero")
	oneInt  = constClass(big.NewInt(1), "one")
	topInt  = constClass(new(big.Int).Sub(bnOrder, big.NewInt(1)), "order-1")
	qInt    = constClass(bnOrder, "order")
	negInt  = constClass(big.NewInt(-1), "minus one")
	ngQInt  = constClass(new(big.Int).Neg(bnOrder), "minus order")
)

func (R *Report) anchor(pkg, typ, name string) *ssa.Function {
	var fn *ssa.Function
	if typ == "" {
		fn = R.P.fn(pkg, name)
	} else {
		fn = R.P.method(pkg, typ, name)
	}
	if fn == nil {
		R.note("%s %s.%s was not found and is not analysed", pkg, typ, name)
	}
	return fn
}

func checkField(R *Report) {
	R.rule = "Every operation of the scalar field is analysed for symbolic integers (arbitrary, reduced and boundary constants; equal and aliased operands); on every path the result's residue equals the field operation and the result lies in [0,order)."
	R.bounds = "vectors of up to four entries."
	A := scalarAnalysis(R)
	T := A.T
	all := []intClass{anyInt, reducedInt, zeroInt, oneInt, topInt, qInt, negInt, ngQInt}
	red := []intClass{reducedInt, zeroInt, oneInt, topInt}
	ops := []struct {
		name string
		n    int
		cls  []intClass
		spec func(st *State, a []*Term) *Term
	}{
		{"Add", 2, all, func(st *State, a []*Term) *Term { return T.add(a[0], a[1]) }},
		{"Sub", 2, all, func(st *State, a []*Term) *Term { return T.sub(a[0], a[1]) }},
		{"Mul", 2, all, func(st *State, a []*Term) *Term { return T.mul(a[0], a[1]) }},
		{"MulScalar", 2, all, func(st *State, a []*Term) *Term { return T.mul(a[0], a[1]) }},
		{"Double", 1, all, func(st *State, a []*Term) *Term { return T.scale(a[0], 2) }},
		{"Neg", 1, all, func(st *State, a []*Term) *Term { return T.neg(a[0]) }},
		{"Square", 1, all, func(st *State, a []*Term) *Term { return T.mul(a[0], a[0]) }},
		{"Copy", 1, all, func(st *State, a []*Term) *Term { return a[0] }},
		{"Affine", 1, all, func(st *State, a []*Term) *Term { return a[0] }},
		{"Inverse", 1, red, func(st *State, a []*Term) *Term {
			if A.zeroIn(st, a[0]) {
				return T.zero
			}
			return T.inv(a[0])
		}},
		{"Div", 2, red, func(st *State, a []*Term) *Term {
			if A.zeroIn(st, a[1]) {
				return T.zero
			}
			return T.mul(a[0], T.inv(a[1]))
		}},
	}
	found := 0
	for _, op := range ops {
		fn := R.anchor("utils", "Fq", op.name)
		if fn == nil {
			continue
		}
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		run := func(cs []intClass, same bool) {
			st := A.newState()
			args := []Val{A.fqVal(st)}
			var ts []*Term
			var tags []string
			for i, c := range cs {
				if same && i > 0 {
					args, ts, tags = append(args, args[1]), append(ts, ts[0]), append(tags, "same")
					continue
				}
				b := c.mk(A, fmt.Sprintf("x%d", i))
				args = append(args, A.frozenBig(st, fmt.Sprintf("x%d", i), b))
				ts, tags = append(ts, b.t), append(tags, c.tag)
			}
			key := "Fq." + op.name + " " + strings.Join(tags, ", ")
			R.guard(A, key, func() {
				outs := A.call(fn, args, nil, st, fn.Pos())
				for _, o := range outs {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					got := A.bigAt(o.st, o.rets[0], 0)
					if got == nil {
						R.check(false, key, where, "no result", o.st)
						continue
					}
					got = o.st.latest(got)
					R.check(A.zeroIn(o.st, T.sub(got.t, op.spec(o.st, ts))), key, where, "the result is not the field element "+op.name, o.st)
					R.check(A.isCanon(got), key, where, "the result is not reduced", o.st)
				}
				R.check(len(outs) > 0, key, where, "never returns", nil)
			})
		}
		for _, c := range op.cls {
			if op.n == 1 {
				run([]intClass{c}, false)
				continue
			}
			for _, d := range op.cls {
				run([]intClass{c, d}, false)
			}
			run([]intClass{c, c}, true)
		}
	}
	// predicates
	if fn := R.anchor("utils", "Fq", "Equal"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, c := range red {
			for _, d := range red {
				st := A.newState()
				a, b := c.mk(A, "x0"), d.mk(A, "x1")
				key := "Fq.Equal " + c.tag + ", " + d.tag
				args := []Val{A.fqVal(st), A.frozenBig(st, "x0", a), A.frozenBig(st, "x1", b)}
				R.guard(A, key, func() {
					for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						R.equalityTest(A, o.st, o.rets[0], T.sub(a.t, b.t), key, where, "Equal")
					}
				})
			}
		}
	}
	if fn := R.anchor("utils", "Fq", "IsZero"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, c := range red {
			st := A.newState()
			a := c.mk(A, "x0")
			key := "Fq.IsZero " + c.tag
			R.guard(A, key, func() {
				for _, o := range A.call(fn, []Val{A.fqVal(st), A.frozenBig(st, "x0", a)}, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					R.equalityTest(A, o.st, o.rets[0], a.t, key, where, "IsZero")
				}
			})
		}
	}
	for _, z := range []struct {
		name string
		want int64
	}{{"Zero", 0}, {"One", 1}} {
		if fn := R.anchor("utils", "Fq", z.name); fn != nil {
			found++
			st := A.newState()
			R.guard(A, "Fq."+z.name, func() {
				for _, o := range A.call(fn, []Val{A.fqVal(st)}, nil, st, fn.Pos()) {
					b := A.bigAt(o.st, o.rets[0], 0)
					R.check(b != nil && b.k != nil && b.k.Cmp(big.NewInt(z.want)) == 0, "Fq."+z.name, R.P.pos(fn.Pos()), "is not the constant", o.st)
				}
			})
		}
	}
	if fn := R.anchor("utils", "Fq", "StringToFieldElement"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, s := range []string{"0", "1", "17", "-1", bnOrder.String(), new(big.Int).Add(bnOrder, big.NewInt(5)).String(), new(big.Int).Neg(bnOrder).String(), strings.Repeat("9", 90)} {
			st := A.newState()
			key := "Fq.StringToFieldElement " + s
			R.guard(A, key, func() {
				for _, o := range A.call(fn, []Val{A.fqVal(st), VStr{known: true, s: s}}, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					b := A.bigAt(o.st, o.rets[0], 0)
					k := mustBig(s)
					ok, isb := o.rets[1].(VBool)
					R.check(isb && ok.known && ok.b, key, where, "a decimal number is refused", o.st)
					R.check(b != nil && b.k != nil && b.k.Cmp(k.Mod(k, bnOrder)) == 0, key, where, "the element is not the number modulo the order", o.st)
				}
			})
		}
	}
	// vectors
	if fn := R.anchor("utils", "Fq", "ScalarProduct"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for n := 0; n <= 4; n++ {
			for _, c := range []intClass{anyInt, reducedInt} {
				st := A.newState()
				var l, r []*BigVal
				want := T.zero
				for i := 0; i < n; i++ {
					a, b := c.mk(A, fmt.Sprintf("l%d", i)), c.mk(A, fmt.Sprintf("r%d", i))
					l, r = append(l, a), append(r, b)
					want = T.add(want, T.mul(a.t, b.t))
				}
				key := fmt.Sprintf("Fq.ScalarProduct length %d %s", n, c.tag)
				R.guard(A, key, func() {
					for _, o := range A.call(fn, []Val{A.fqVal(st), A.frozenBigs(st, "l", l), A.frozenBigs(st, "r", r)}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						got := A.bigAt(o.st, o.rets[0], 0)
						R.check(got != nil && A.zeroIn(o.st, T.sub(got.t, want)), key, where, "the result is not the sum of the products", o.st)
						R.check(got != nil && A.isCanon(got), key, where, "the result is not reduced", o.st)
					}
				})
			}
		}
		st := A.newState()
		one := []*BigVal{A.bigConst(one_)}
		R.guard(A, "Fq.ScalarProduct mismatch", func() {
			for _, o := range A.call(fn, []Val{A.fqVal(st), A.frozenBigs(st, "l", one), A.frozenBigs(st, "r", append(one, one...))}, nil, st, fn.Pos()) {
				R.check(o.panicked, "Fq.ScalarProduct mismatch", where, "vectors of different length are accepted", o.st)
			}
		})
	}
	if fn := R.anchor("utils", "Fq", "EvalPoly"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for n := 1; n <= 5; n++ {
			for _, x := range []intClass{reducedInt, zeroInt, oneInt} {
				st := A.newState()
				var v []*BigVal
				for i := 0; i < n; i++ {
					v = append(v, reducedInt.mk(A, fmt.Sprintf("v%d", i)))
				}
				xb := x.mk(A, "x")
				key := fmt.Sprintf("Fq.EvalPoly length %d at %s", n, x.tag)
				R.guard(A, key, func() {
					for _, o := range A.call(fn, []Val{A.fqVal(st), A.frozenBigs(st, "v", v), A.frozenBig(st, "x", xb)}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						got := A.bigAt(o.st, o.rets[0], 0)
						R.check(got != nil && A.zeroIn(o.st, T.sub(got.t, A.polyEval(terms(v), xb.t))), key, where, "the result is not the value of the polynomial", o.st)
						R.check(got != nil && A.isCanon(got), key, where, "the result is not reduced", o.st)
					}
				})
			}
		}
	}
	R.eventsAs(A, R.prop, "mutates")
	R.counts["operations"] = found
	if found < 12 {
		R.bad("B01/anchors", "utils", fmt.Sprintf("only %d operations of the field were found", found), nil)
	}
	R.absorb(A)
}

// ------------------------------------------------------------ polynomials

type coef int

const (
	cAny coef = iota // any reduced element
	cNZ              // non-zero
	cZero
	cOne
)

func (A *Analysis) coefs(name string, cs []coef) (out []*BigVal) {
	for i, c := range cs {
		n := fmt.Sprintf("%s%d", name, i)
		switch c {
		case cAny:
			out = append(out, A.bigCanon(A.T.atom(n)))
		case cNZ:
			b := A.bigCanon(A.T.atomNZ(n))
			b.lo = big.NewInt(1)
			out = append(out, b)
		case cZero:
			out = append(out, A.bigConst(bigZero))
		case cOne:
			out = append(out, A.bigConst(one_))
		}
	}
	return
}

func rep(c coef, n int) (out []coef) {
	for i := 0; i < n; i++ {
		out = append(out, c)
	}
	return
}

// polyShapes: coefficient patterns of length up to n.
func polyShapes(n int, thorough bool) (out [][]coef) {
	for l := 1; l <= n; l++ {
		out = append(out, rep(cAny, l))
		if l >= 2 {
			out = append(out, append(append([]coef{cZero}, rep(cAny, l-2)...), cNZ))
			out = append(out, append(rep(cAny, l-1), cZero))
		}
		if l >= 3 {
			out = append(out, append(append([]coef{cNZ}, rep(cZero, l-2)...), cNZ))
		}
	}
	out = append(out, []coef{cZero})
	return
}

func checkDense(R *Report) {
	R.rule = "Dense polynomial operations are analysed for every pair of coefficient patterns (symbolic, zero, non-zero, trailing zero) up to the bound; results are compared coefficientwise with the ring operation, division with a = q*b + r and deg r < deg b, interpolation by evaluating at every point, also on repeated use of the cached basis."
	n := 4
	if R.thorough() {
		n = 6
	}
	R.bounds = fmt.Sprintf("polynomials of up to %d coefficients, interpolation on up to %d points.", n, n+1)
	A := scalarAnalysis(R)
	T := A.T
	found := 0
	binary := func(name string, spec func(a, b []*Term) []*Term) {
		fn := R.anchor("utils", "PolynomialField", name)
		if fn == nil {
			return
		}
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		sh := polyShapes(n, R.thorough())
		for _, sa := range sh {
			for _, sb := range append(sh, nil) {
				st := A.newState()
				a := A.coefs("a", sa)
				b := A.coefs("b", sb)
				key := fmt.Sprintf("PolynomialField.%s %v %v", name, sa, sb)
				av := A.frozenBigs(st, "a", a)
				bv := A.frozenBigs(st, "b", b)
				if sb == nil { // the same polynomial twice
					b, bv = a, av
				}
				R.guard(A, key, func() {
					for _, o := range A.call(fn, []Val{A.polyVal(st), av, bv}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						got, ok := A.bigList(o.st, o.rets[0])
						if !ok {
							R.check(false, key, where, "the result has empty entries", o.st)
							continue
						}
						i := A.samePoly(o.st, terms(got), spec(terms(a), terms(b)))
						R.check(i < 0, key, where, fmt.Sprintf("coefficient %d is wrong", i), o.st)
						for j, g := range got {
							R.check(A.isCanon(g), key, where, fmt.Sprintf("coefficient %d is not reduced", j), o.st)
						}
					}
				})
			}
		}
	}
	binary("Mul", A.polyMul)
	binary("Add", func(a, b []*Term) []*Term { return A.polyAdd(a, b, 1) })
	binary("Sub", func(a, b []*Term) []*Term { return A.polyAdd(a, b, -1) })

	if fn := R.anchor("utils", "PolynomialField", "Div"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		divide := func(key string, a, b []*BigVal) {
			R.guard(A, key, func() {
				st := A.newState()
				for _, o := range A.call(fn, []Val{A.polyVal(st), A.frozenBigs(st, "a", a), A.frozenBigs(st, "b", b)}, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					q, ok1 := A.bigList(o.st, o.rets[0])
					r, ok2 := A.bigList(o.st, o.rets[1])
					if !ok1 || !ok2 {
						R.check(false, key, where, "the result has empty entries", o.st)
						continue
					}
					i := A.samePoly(o.st, A.polyAdd(A.polyMul(terms(q), terms(b)), terms(r), 1), terms(a))
					R.check(i < 0, key, where, fmt.Sprintf("quotient*divisor+remainder differs from the dividend at coefficient %d", i), o.st)
					for j := len(b) - 1; j < len(r); j++ {
						R.check(A.zeroIn(o.st, r[j].t), key, where, fmt.Sprintf("the remainder has degree %d", j), o.st)
					}
				}
			})
		}
		// dividends whose quotient or remainder has vanishing coefficients
		m := n
		if m > 4 {
			m = 4
		}
		for lq := 1; lq <= m+1; lq++ {
			for mask := 0; mask < 1<<(lq-1); mask++ {
				for lb := 1; lb <= m; lb++ {
					for _, rc := range []coef{cAny, cZero} {
						qs := rep(cAny, lq)
						for i := 0; i < lq-1; i++ {
							if mask>>i&1 == 1 {
								qs[i] = cZero
							}
						}
						qs[lq-1] = cNZ
						b := A.coefs("b", append(rep(cAny, lb-1), cNZ))
						t := A.polyAdd(A.polyMul(terms(A.coefs("q", qs)), terms(b)), terms(A.coefs("r", rep(rc, lb-1))), 1)
						var a []*BigVal
						for _, x := range t {
							if x.isZero() {
								a = append(a, A.bigConst(bigZero))
							} else {
								a = append(a, A.bigCanon(x))
							}
						}
						divide(fmt.Sprintf("PolynomialField.Div of quotient %v, divisor of %d coefficients, remainder %v", qs, lb, rc), a, b)
					}
				}
			}
		}
		for la := 1; la <= n+1; la++ {
			for lb := 1; lb <= n; lb++ {
				for _, pat := range [][2][]coef{
					{rep(cAny, la), append(rep(cAny, lb-1), cNZ)},
					{rep(cAny, la), append(rep(cAny, lb-1), cOne)},
					{append(rep(cAny, la-1), cZero), append(rep(cZero, lb-1), cNZ)},
					{rep(cZero, la), append(rep(cAny, lb-1), cNZ)}} {
					divide(fmt.Sprintf("PolynomialField.Div %v by %v", pat[0], pat[1]), A.coefs("a", pat[0]), A.coefs("b", pat[1]))
				}
			}
		}
	}
	if fn := R.anchor("utils", "PolynomialField", "MulScalar"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, s := range polyShapes(n, false) {
			for _, wc := range []coef{cAny, cZero, cOne} {
				st := A.newState()
				a, w := A.coefs("a", s), A.coefs("w", []coef{wc})[0]
				key := fmt.Sprintf("PolynomialField.MulScalar %v by %v", s, wc)
				R.guard(A, key, func() {
					for _, o := range A.call(fn, []Val{A.polyVal(st), A.frozenBigs(st, "a", a), A.frozenBig(st, "w", w)}, nil, st, fn.Pos()) {
						got, ok := A.bigList(o.st, o.rets[0])
						want := A.polyMul(terms(a), []*Term{w.t})
						R.check(!o.panicked && ok && A.samePoly(o.st, terms(got), want) < 0, key, where, "the result is not the scaled polynomial", o.st)
					}
				})
			}
		}
	}
	if fn := R.anchor("utils", "PolynomialField", "DomainPolynomial"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for l := 1; l <= 2*n; l++ {
			st := A.newState()
			key := fmt.Sprintf("PolynomialField.DomainPolynomial %d", l)
			want := []*Term{T.one}
			for i := 0; i < l; i++ {
				want = A.polyMul(want, []*Term{T.constI(int64(-i)), T.one})
			}
			R.guard(A, key, func() {
				for _, o := range A.call(fn, []Val{A.polyVal(st), VInt{c: int64(l)}}, nil, st, fn.Pos()) {
					got, ok := A.bigList(o.st, o.rets[0])
					R.check(!o.panicked && ok && A.samePoly(o.st, terms(got), want) < 0, key, where, "the result is not the product of (x-i) over the domain", o.st)
				}
			})
		}
	}
	if fn := R.anchor("utils", "PolynomialField", "NewPolZeroAt"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for tot := 1; tot <= n; tot++ {
			for pos := 0; pos < tot; pos++ {
				st := A.newState()
				h := A.bigCanon(T.atom("h"))
				key := fmt.Sprintf("PolynomialField.NewPolZeroAt %d of %d", pos, tot)
				R.guard(A, key, func() {
					for _, o := range A.call(fn, []Val{A.polyVal(st), VInt{c: int64(pos)}, VInt{c: int64(tot)}, A.frozenBig(st, "h", h)}, nil, st, fn.Pos()) {
						got, ok := A.bigList(o.st, o.rets[0])
						if o.panicked || !ok {
							R.check(false, key, where, "no result", o.st)
							continue
						}
						for i := 0; i < tot; i++ {
							want := T.zero
							if i == pos {
								want = h.t
							}
							R.check(A.zeroIn(o.st, T.sub(A.polyEval(terms(got), T.constI(int64(i))), want)), key, where, fmt.Sprintf("wrong value at %d", i), o.st)
						}
					}
				})
			}
		}
	}
	if fn := R.anchor("utils", "PolynomialField", "LagrangeInterpolation"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		// histories: the cached basis is reused with other data and lengths
		var seqs [][]int
		var up, down []int
		for l := 1; l <= n+1; l++ {
			seqs = append(seqs, []int{l, l, 2, l})
		}
		for l := 1; l <= n+2; l++ {
			up, down = append(up, l), append(down, n+3-l)
		}
		for _, seq := range append(seqs, append(up, up...), append(down, down...)) {
			st := A.newState()
			sts := []*State{st}
			for step, ln := range seq {
				c := cAny
				if step == 0 {
					c = cNZ
				}
				cs := rep(c, ln)
				if step == 3 && ln > 1 {
					cs[ln-1] = cZero
				}
				d := A.coefs(fmt.Sprintf("d%d_", step), cs)
				key := fmt.Sprintf("PolynomialField.LagrangeInterpolation of %d points, use %d of %v", ln, step+1, seq)
				R.guard(A, key, func() {
					var next []*State
					for _, s := range sts {
						for _, o := range A.call(fn, []Val{A.polyVal(s), A.frozenBigs(s, "data", d)}, nil, s, fn.Pos()) {
							got, ok := A.bigList(o.st, o.rets1(0))
							if o.panicked || !ok {
								R.check(false, key, where, "no result: "+o.msg, o.st)
								continue
							}
							for i := range d {
								R.check(A.zeroIn(o.st, T.sub(A.polyEval(terms(got), T.constI(int64(i))), d[i].t)), key, where, fmt.Sprintf("wrong value at point %d", i), o.st)
							}
							for j := ln; j < len(got); j++ {
								R.check(A.zeroIn(o.st, got[j].t), key, where, "the degree is too high", o.st)
							}
							next = append(next, o.st)
						}
					}
					if len(next) > 4 {
						next = next[:4]
					}
					sts = next
				})
			}
		}
	}
	listOps := func(name string, withW bool) {
		fn := R.anchor("utils", "PolynomialField", name)
		if fn == nil {
			return
		}
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for cnt := 0; cnt <= 3; cnt++ {
			st := A.newState()
			var el []Val
			var ps [][]*BigVal
			var ws []*BigVal
			for i := 0; i < cnt; i++ {
				p := A.coefs(fmt.Sprintf("p%d_", i), rep(cAny, 1+(i*2)%3))
				ps = append(ps, p)
				el = append(el, A.frozenBigs(st, fmt.Sprintf("p%d", i), p))
				ws = append(ws, A.coefs(fmt.Sprintf("w%d_", i), []coef{cAny})...)
			}
			args := []Val{A.polyVal(st), A.sliceOf(st, fn.Params[1].Type().Underlying().(interface{ Elem() types.Type }).Elem(), el)}
			if withW {
				args = append(args, A.frozenBigs(st, "w", ws))
			}
			key := fmt.Sprintf("PolynomialField.%s of %d", name, cnt)
			R.guard(A, key, func() {
				for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					if withW {
						s, _ := o.rets[0].(VSlice)
						rs := A.sliceElems(o.st, s)
						R.check(len(rs) == cnt, key, where, "wrong number of polynomials", o.st)
						for i, r := range rs {
							got, ok := A.bigList(o.st, r)
							R.check(ok && i < cnt && A.samePoly(o.st, terms(got), A.polyMul(terms(ps[i]), []*Term{ws[i].t})) < 0, key, where, fmt.Sprintf("polynomial %d is not scaled by its weight", i), o.st)
						}
						continue
					}
					got, ok := A.bigList(o.st, o.rets[0])
					var want []*Term
					for _, p := range ps {
						want = A.polyAdd(want, terms(p), 1)
					}
					R.check(ok && A.samePoly(o.st, terms(got), want) < 0, key, where, "the result is not the sum", o.st)
				}
			})
		}
	}
	listOps("LinearCombine", true)
	listOps("AddPolynomials", false)
	if fn := R.anchor("utils", "", "Transpose"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for rows := 1; rows <= 3; rows++ {
			for cols := 0; cols <= 3; cols++ {
				st := A.newState()
				var el []Val
				var m [][]*BigVal
				for i := 0; i < rows; i++ {
					m = append(m, A.coefs(fmt.Sprintf("m%d_", i), rep(cAny, cols)))
					el = append(el, A.frozenBigs(st, "row", m[i]))
				}
				key := fmt.Sprintf("Transpose %dx%d", rows, cols)
				R.guard(A, key, func() {
					for _, o := range A.call(fn, []Val{A.sliceOf(st, fn.Params[0].Type().Underlying().(interface{ Elem() types.Type }).Elem(), el)}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						s, _ := o.rets[0].(VSlice)
						rs := A.sliceElems(o.st, s)
						ok := len(rs) == cols
						for x := 0; ok && x < cols; x++ {
							g, good := A.bigList(o.st, rs[x])
							ok = good && len(g) == rows
							for y := 0; ok && y < rows; y++ {
								ok = A.zeroIn(o.st, T.sub(g[y].t, m[y][x].t))
							}
						}
						R.check(ok, key, where, "the result is not the transposed matrix", o.st)
					}
				})
			}
		}
	}
	R.eventsAs(A, R.prop, "mutates")
	R.counts["operations"] = found
	if found < 6 {
		R.bad("B03/anchors", "utils", fmt.Sprintf("only %d operations were found", found), nil)
	}
	R.absorb(A)
}

// rets1 is result i, nil after a panic.
func (o *Outcome) rets1(i int) Val {
	if o.panicked || i >= len(o.rets) {
		return nil
	}
	return o.rets[i]
}
