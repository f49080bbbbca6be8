package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// A02: group law on both curves.

// Kd is GF(p) (d=1) or GF(p²) (d=2) on terms.
type Kd struct {
	T *TermTable
	d int
}

type ke []*Term

func (k Kd) add(a, b ke) ke {
	r := make(ke, k.d)
	for i := range r {
		r[i] = k.T.add(a[i], b[i])
	}
	return r
}
func (k Kd) neg(a ke) ke {
	r := make(ke, k.d)
	for i := range r {
		r[i] = k.T.neg(a[i])
	}
	return r
}
func (k Kd) sub(a, b ke) ke { return k.add(a, k.neg(b)) }
func (k Kd) mul(a, b ke) ke {
	if k.d == 1 {
		return ke{k.T.mul(a[0], b[0])}
	}
	w := Tower{k.T}
	return ke(l2(w.mul2(w.f2(a), w.f2(b))))
}
func (k Kd) scale(a ke, n int64) ke {
	r := make(ke, k.d)
	for i := range r {
		r[i] = k.T.mul(a[i], k.T.constI(n))
	}
	return r
}
func (k Kd) inv(a ke) ke {
	T := k.T
	if k.d == 1 {
		return ke{T.inv(a[0])}
	}
	n := T.inv(T.add(T.mul(a[0], a[0]), T.mul(a[1], a[1])))
	return ke{T.neg(T.mul(a[0], n)), T.mul(a[1], n)}
}
func (k Kd) konst(n int64) ke {
	r := make(ke, k.d)
	for i := range r {
		r[i] = k.T.zero
	}
	r[k.d-1] = k.T.constI(n)
	return r
}
func (k Kd) eq(e *Env, a, b ke) bool {
	for i := range a {
		if !e.eq(a[i], b[i]) {
			return false
		}
	}
	return true
}
func (k Kd) isZero(e *Env, a ke) bool {
	for i := range a {
		if !e.isZero(a[i]) {
			return false
		}
	}
	return true
}

type affine struct {
	inf  bool
	x, y ke
}

func (k Kd) affineOf(x, y, z ke) affine {
	zi := k.inv(z)
	z2 := k.mul(zi, zi)
	return affine{x: k.mul(x, z2), y: k.mul(y, k.mul(z2, zi))}
}
func (k Kd) dbl(a affine) affine {
	l := k.mul(k.scale(k.mul(a.x, a.x), 3), k.inv(k.scale(a.y, 2)))
	x := k.sub(k.mul(l, l), k.scale(a.x, 2))
	return affine{x: x, y: k.sub(k.mul(l, k.sub(a.x, x)), a.y)}
}
func (k Kd) addDistinct(a, b affine) affine {
	l := k.mul(k.sub(b.y, a.y), k.inv(k.sub(b.x, a.x)))
	x := k.sub(k.sub(k.mul(l, l), a.x), b.x)
	return affine{x: x, y: k.sub(k.mul(l, k.sub(a.x, x)), a.y)}
}

// nonzeroCases splits "v is not zero" into cases the analysis can assume.
func (A *Analysis) nonzeroCases(k Kd, v ke, st *State) []*State {
	var out []*State
	s := st.fork()
	s.facts = append(s.facts, v[0])
	out = append(out, s)
	if k.d == 2 {
		s2 := A.assumeZero(st.fork(), v[0])
		if s2 != nil && !s2.unsolved {
			s2.facts = append(s2.facts, v[1])
			out = append(out, s2)
		}
	}
	return out
}

type ptClass struct {
	name   string
	states []*State
	a, b   affine
	want   affine
	xa     [4][]*BigVal // coordinates of a
	xb     [4][]*BigVal
}

func (A *Analysis) exactNN(t *Term) *BigVal {
	if t.op == OpConst {
		return A.bigConst(t.k)
	}
	return &BigVal{t: t, lo: new(big.Int), exact: true}
}

func (A *Analysis) coords(k Kd, name string) (x, y, z ke) {
	mk := func(c string) ke {
		r := make(ke, k.d)
		for i := range r {
			r[i] = A.T.atom(fmt.Sprintf("%s.%s%d", name, c, i))
		}
		return r
	}
	return mk("x"), mk("y"), mk("z")
}

func (A *Analysis) pointVals(k Kd, x, y, z ke, name string) [4][]*BigVal {
	var r [4][]*BigVal
	for i := 0; i < k.d; i++ {
		r[0] = append(r[0], A.bigAny(x[i]))
		r[1] = append(r[1], A.bigAny(y[i]))
		r[2] = append(r[2], A.exactNN(z[i]))
		r[3] = append(r[3], A.bigAny(A.T.atom(fmt.Sprintf("%s.t%d", name, i))))
	}
	return r
}

func (k Kd) zeros() ke { return k.konst(0) }

// classes for a binary point operation.
func (A *Analysis) binClasses(k Kd, sameAB bool) []ptClass {
	var out []ptClass
	x1, y1, z1 := A.coords(k, "a")
	x2, y2, z2 := A.coords(k, "b")
	a := k.affineOf(x1, y1, z1)
	b := k.affineOf(x2, y2, z2)
	inf := affine{inf: true}
	st := A.newState()
	pv := A.pointVals
	nz := func(v ke, in []*State) []*State {
		var o []*State
		for _, s := range in {
			o = append(o, A.nonzeroCases(k, v, s)...)
		}
		return o
	}
	base := []*State{st}
	pa := pv(k, x1, y1, z1, "a")
	if sameAB {
		out = append(out, ptClass{name: "a infinite", states: base, want: inf, xa: pv(k, x1, y1, k.zeros(), "a"), xb: pv(k, x1, y1, k.zeros(), "a")})
		out = append(out, ptClass{name: "a=b finite", states: nz(y1, nz(z1, base)), want: k.dbl(a), xa: pa, xb: pa})
		return out
	}
	out = append(out, ptClass{name: "both infinite", states: base, want: inf, xa: pv(k, x1, y1, k.zeros(), "a"), xb: pv(k, x2, y2, k.zeros(), "b")})
	out = append(out, ptClass{name: "a infinite", states: nz(z2, base), want: b, xa: pv(k, x1, y1, k.zeros(), "a"), xb: pv(k, x2, y2, z2, "b")})
	out = append(out, ptClass{name: "b infinite", states: nz(z1, base), want: a, xa: pa, xb: pv(k, x2, y2, k.zeros(), "b")})
	h := k.sub(k.mul(x2, k.mul(z1, z1)), k.mul(x1, k.mul(z2, z2)))
	out = append(out, ptClass{name: "distinct abscissae", states: nz(h, nz(z2, nz(z1, base))), want: k.addDistinct(a, b), xa: pa, xb: pv(k, x2, y2, z2, "b")})
	lam := make(ke, k.d)
	for i := range lam {
		lam[i] = A.T.atom(fmt.Sprintf("lambda%d", i))
	}
	l2_ := k.mul(lam, lam)
	l3 := k.mul(l2_, lam)
	xb, yb, zb := k.mul(x1, l2_), k.mul(y1, l3), k.mul(z1, lam)
	// the third coordinate of b is exact on its own
	fin := nz(zb, nz(lam, nz(y1, nz(z1, base))))
	dy := k.scale(k.mul(yb, k.mul(z1, k.mul(z1, z1))), 2)
	out = append(out, ptClass{name: "same point, other representative", states: fin, want: k.dbl(a), xa: pa, xb: pv(k, xb, yb, zb, "b")})
	out = append(out, ptClass{name: "opposite points", states: nz(dy, fin), want: inf, xa: pa, xb: pv(k, xb, k.neg(yb), zb, "b")})
	return out
}

// putPoint allocates a point (or a wrapper holding one) with the given coordinates.
func (A *Analysis) putPoint(st *State, t types.Type, name string, c [4][]*BigVal) VPtr {
	n := 0
	flat := []*BigVal{}
	for i := 0; i < 4; i++ {
		flat = append(flat, c[i]...)
	}
	return A.build(st, t, name, func(string) *BigVal {
		if n >= len(flat) {
			A.fail(0, "point type has unexpected shape")
		}
		b := flat[n]
		n++
		return b
	})
}

func (A *Analysis) garbagePoint(st *State, t types.Type, name string) VPtr {
	return A.build(st, t, name, func(p string) *BigVal { return A.bigAny(A.T.freshAtom("old " + p)) })
}

func (A *Analysis) intZero(st *State, b *BigVal) bool {
	rel, _ := A.relations(st, st.latest(b), A.bigConst(bigZero))
	return rel == relEQ
}

// checkPoint compares the coordinates of a result with the expected affine point.
func (R *Report) checkPoint(A *Analysis, k Kd, st *State, v Val, want affine, key, where, what string) {
	l, ok := A.leaves(st, v)
	if !ok || len(l) < 3*k.d {
		R.bad(key, where, what+": the result is not a complete point", R.trace(st))
		return
	}
	x, y, zb := ke(terms(l[:k.d])), ke(terms(l[k.d:2*k.d])), l[2*k.d:3*k.d]
	z := ke(terms(zb))
	if want.inf {
		for i, c := range zb {
			R.check(A.intZero(st, c), key, where, fmt.Sprintf("%s: the result must be the point at infinity but z[%d] is %v", what, i, c), st)
		}
		return
	}
	if k.isZero(st.env, z) {
		R.bad(key, where, what+": the result is infinite", R.trace(st))
		return
	}
	z2 := k.mul(z, z)
	R.check(k.eq(st.env, x, k.mul(want.x, z2)), key, where, what+": x/z² is not the abscissa of the sum", st)
	R.check(k.eq(st.env, y, k.mul(want.y, k.mul(z2, z))), key, where, what+": y/z³ is not the ordinate of the sum", st)
	for i, c := range zb {
		R.check((c.exact || A.knownNonzero(st, c.t)) && c.lo != nil && c.lo.Sign() >= 0, key, where, fmt.Sprintf("%s: z[%d] may be a multiple of the modulus without being zero (%v)", what, i, c), st)
	}
}

func checkCurve(R *Report) {
	R.rule = "Value numbering over GF(p) / GF(p²) of the Jacobian point operations, for every operand class (either operand infinite, distinct abscissae, same point in another representation, opposite points) and every aliasing of output and inputs: the affine result is the chord-tangent sum, infinity is produced exactly when due, z stays zero iff its residue is, inputs are unchanged."
	R.bounds = "none: coordinates are symbolic."
	A := pairingAnalysis(R)
	nOps := 0
	for _, g := range []struct {
		typ, wrap string
		d         int
	}{{"curvePoint", "G1", 1}, {"twistPoint", "G2", 2}} {
		k := Kd{A.T, g.d}
		ptT := R.P.typ("pairing", g.typ)
		wrT := R.P.typ("pairing", g.wrap)
		if ptT == nil || wrT == nil {
			R.bad("A02/anchors", "pairing", "type "+g.typ+" not found", nil)
			continue
		}
		for _, layer := range []types.Type{ptT, wrT} {
			lname := layer.(*types.Named).Obj().Name()
			if fn := R.P.method("pairing", lname, "Add"); fn != nil {
				nOps++
				R.binaryOp(A, k, fn, layer, lname)
			} else {
				R.note("%s.Add not present", lname)
			}
			// unary operations
			for _, u := range []string{"Double", "Negative", "Neg", "Set", "SetInfinity", "MakeAffine", "IsInfinity"} {
				fn := R.P.method("pairing", lname, u)
				if fn == nil {
					continue
				}
				nOps++
				R.unaryOp(A, k, fn, layer, lname, u)
			}
		}
	}
	R.counts["operations"] = nOps
	if nOps < 12 {
		R.bad("A02/anchors", "pairing", fmt.Sprintf("only %d point operations found", nOps), nil)
	}
	R.eventsAs(A, "A02", "mutates")
	R.absorb(A)
}

func (R *Report) finishPointCall(A *Analysis, k Kd, fn *ssa.Function, args []Val, st *State, recv Val, want affine, inputs map[string]Val, ins map[string][4][]*BigVal, key string) {
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	outs := A.call(fn, args, nil, st, fn.Pos())
	if len(outs) == 0 {
		R.bad(key, where, "no outcome", nil)
	}
	for _, o := range outs {
		if o.panicked {
			R.bad(key, where, "panics: "+o.msg, R.trace(o.st))
			continue
		}
		R.checkPoint(A, k, o.st, recv, want, key, where, key)
		for _, rv := range o.rets {
			if _, isptr := rv.(VPtr); isptr {
				R.checkPoint(A, k, o.st, rv, want, key, where, key+" (returned value)")
			}
		}
		for n, v := range inputs {
			l, ok := A.leaves(o.st, v)
			if !ok {
				R.bad(key, where, "input "+n+" is damaged", R.trace(o.st))
				continue
			}
			c := ins[n]
			j := 0
			for q := 0; q < 3; q++ {
				for _, b := range c[q] {
					R.check(o.st.env.eq(l[j].t, b.t), key, where, "input "+n+" is modified", o.st)
					j++
				}
			}
		}
	}
}

func (R *Report) binaryOp(A *Analysis, k Kd, fn *ssa.Function, t types.Type, lname string) {
	if len(fn.Params) < 3 {
		R.bad("A02/anchors", R.P.pos(fn.Pos()), "unexpected signature of "+funcKey(fn), nil)
		return
	}
	pats := []struct {
		name   string
		ca, cb bool
		ab     bool
		nilRcv bool
	}{{"c separate", false, false, false, false}, {"c=a", true, false, false, false}, {"c=b", false, true, false, false}, {"a=b", false, false, true, false}, {"c=a=b", true, true, true, false}}
	if lname == "G1" || lname == "G2" {
		pats = append(pats, struct {
			name   string
			ca, cb bool
			ab     bool
			nilRcv bool
		}{"zero-value receiver", false, false, false, true})
	}
	for _, p := range pats {
		for _, cl := range A.binClasses(k, p.ab) {
			for si, st0 := range cl.states {
				key := fmt.Sprintf("%s.Add, %s, %s/%d", lname, cl.name, p.name, si)
				R.guard(A, key, func() {
					st := st0.fork()
					av := A.putPoint(st, t, "a", cl.xa)
					bv := av
					if !p.ab {
						bv = A.putPoint(st, t, "b", cl.xb)
					}
					ins := map[string]Val{}
					var cv Val
					switch {
					case p.ca:
						cv = av
						if !p.ab {
							ins["b"] = bv
						}
					case p.cb:
						cv = bv
						ins["a"] = av
					case p.nilRcv:
						cv = VPtr{obj: A.alloc(st, &Obj{val: A.zeroVal(t), typ: t, tag: "c"})}
						ins["a"], ins["b"] = av, bv
					default:
						cv = A.garbagePoint(st, t, "c")
						ins["a"], ins["b"] = av, bv
					}
					args := []Val{cv, av, bv}
					for _, q := range fn.Params[3:] {
						if isPtrTo(q.Type(), "bnPool") {
							args = append(args, A.freshPool(st))
						} else {
							A.fail(fn.Pos(), "unexpected parameter")
						}
					}
					A.callerMark = A.nextObj
					R.finishPointCall(A, k, fn, args, st, cv, cl.want, ins, map[string][4][]*BigVal{"a": cl.xa, "b": cl.xb}, key)
				})
			}
		}
	}
}

func (R *Report) unaryOp(A *Analysis, k Kd, fn *ssa.Function, t types.Type, lname, op string) {
	x, y, z := A.coords(k, "a")
	a := k.affineOf(x, y, z)
	type cls struct {
		name   string
		states []*State
		c      [4][]*BigVal
		inf    bool
	}
	st := A.newState()
	var cs []cls
	cs = append(cs, cls{"infinite", []*State{st}, A.pointVals(k, x, y, k.zeros(), "a"), true})
	fin := A.nonzeroCases(k, z, st)
	if op == "Double" {
		var f2 []*State
		for _, s := range fin {
			f2 = append(f2, A.nonzeroCases(k, y, s)...)
		}
		fin = f2
	}
	cs = append(cs, cls{"finite", fin, A.pointVals(k, x, y, z, "a"), false})
	cs = append(cs, cls{"already affine", []*State{st}, A.pointVals(k, x, y, k.konst(1), "a"), false})
	pats := []string{"separate", "in place"}
	if lname == "G1" || lname == "G2" {
		pats = append(pats, "zero-value receiver")
	}
	nPt := 0
	for _, p := range fn.Params {
		if types.Identical(p.Type(), fn.Params[0].Type()) {
			nPt++
		}
	}
	if nPt == 1 {
		pats = []string{"in place"}
	}
	for _, c := range cs {
		for si, s0 := range c.states {
			for _, pat := range pats {
				key := fmt.Sprintf("%s.%s, %s/%d, %s", lname, op, c.name, si, pat)
				R.guard(A, key, func() {
					s := s0.fork()
					av := A.putPoint(s, t, "a", c.c)
					var cv Val = av
					ins := map[string]Val{}
					switch pat {
					case "separate":
						cv = A.garbagePoint(s, t, "c")
						ins["a"] = av
					case "zero-value receiver":
						cv = VPtr{obj: A.alloc(s, &Obj{val: A.zeroVal(t), typ: t, tag: "c"})}
						ins["a"] = av
					}
					args := []Val{cv}
					first := true
					for _, p := range fn.Params[1:] {
						switch {
						case types.Identical(p.Type(), fn.Params[0].Type()) && first:
							args = append(args, av)
							first = false
						case isPtrTo(p.Type(), "bnPool"):
							args = append(args, A.freshPool(s))
						default:
							A.fail(fn.Pos(), "unexpected parameter")
						}
					}
					A.callerMark = A.nextObj
					src := a
					if c.name == "already affine" {
						src = affine{x: x, y: y}
					}
					want := src
					switch op {
					case "Double":
						want = k.dbl(src)
					case "Negative", "Neg":
						want = affine{x: src.x, y: k.neg(src.y)}
					}
					if c.inf || op == "SetInfinity" {
						want = affine{inf: true}
					}
					if op == "IsInfinity" {
						for _, o := range A.call(fn, args, nil, s, fn.Pos()) {
							where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
							b, ok := o.rets[0].(VBool)
							if ok && !b.known {
								tr, fa := A.decide(b.cond, o.st, fn.Pos())
								if c.inf {
									R.check(fa == nil, key, where, "infinity is not recognised", fa)
								} else {
									R.check(tr == nil, key, where, "a finite point is taken for infinity", tr)
								}
								continue
							}
							R.check(ok && b.b == c.inf, key, where, fmt.Sprintf("the test answers %v", b.b), o.st)
						}
						return
					}
					R.finishPointCall(A, k, fn, args, s, cv, want, ins, map[string][4][]*BigVal{"a": c.c}, key)
					if op == "MakeAffine" {
						s2 := s0.fork()
						av2 := A.putPoint(s2, t, "a", c.c)
						args2 := append([]Val{av2}, args[1:]...)
						for i, p := range fn.Params {
							if isPtrTo(p.Type(), "bnPool") {
								args2[i] = A.freshPool(s2)
							}
						}
						for _, o := range A.call(fn, args2, nil, s2, fn.Pos()) {
							where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
							l, ok := A.leaves(o.st, av2)
							if !ok || o.panicked {
								continue
							}
							zz := l[2*k.d : 3*k.d]
							for i, b := range zz {
								w := int64(0)
								if !c.inf && i == k.d-1 {
									w = 1
								}
								R.check(b.k != nil && b.k.Cmp(big.NewInt(w)) == 0, key, where, fmt.Sprintf("affine form has z[%d] = %v", i, b), o.st)
							}
							if c.inf {
								for i := 0; i < k.d; i++ {
									w := int64(0)
									if i == k.d-1 {
										w = 1
									}
									R.check(A.intZero(o.st, l[i]) && l[k.d+i].k != nil && l[k.d+i].k.Cmp(big.NewInt(w)) == 0, key, where, "infinity is not normalised to 0:1:0", o.st)
								}
							}
						}
					}
				})
			}
		}
	}
}
