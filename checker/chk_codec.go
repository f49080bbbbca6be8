package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// A05: decoding accepts exactly the valid encodings.  A06: encodings.

type codecGroup struct {
	wrap, typ string
	d         int // coordinates per field element
	n         int // encoded coordinates
}

var codecGroups = []codecGroup{{"G1", "curvePoint", 1, 2}, {"G2", "twistPoint", 2, 4}}

// curveB is the constant term of the curve equation.
func (k Kd) curveB() ke {
	if k.d == 1 {
		return ke{k.T.constI(3)}
	}
	// 3/(i+9)
	return k.mul(ke{k.T.zero, k.T.constI(3)}, k.inv(ke{k.T.one, k.T.constI(9)}))
}

func (k Kd) curveEq(x, y ke) ke {
	return k.sub(k.sub(k.mul(y, y), k.mul(x, k.mul(x, x))), k.curveB())
}

// orderTest names the coordinate z of the multiple of a point.
func (A *Analysis) multContract() {
	fn := A.P.method("pairing", "twistPoint", "Mul")
	if fn == nil {
		return
	}
	A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
		l, ok := A.leaves(c.st, c.args[1])
		ids := A.leafIDs(c.st, c.args[0])
		if !ok || len(l) != 8 || len(ids) != 8 {
			return nil
		}
		k := A.bigAt(c.st, c.args[2], c.pos)
		ts := append(terms(l[:6]), k.t)
		if k.k == nil {
			return nil
		}
		for i, id := range ids {
			A.setBig(c.st, VPtr{obj: id}, A.bigCanon(A.T.uf(fmt.Sprintf("mult%s#%d", k.k.Text(62), i), ts[:6]...)), c.pos)
		}
		if c.sig.Results().Len() > 0 {
			return one1(c.st, c.args[0])
		}
		return one1(c.st)
	}
}

func (A *Analysis) orderZ(k Kd, x, y ke) ke {
	z := k.konst(1)
	ts := append(append(append([]*Term{}, x...), y...), z...)
	var r ke
	for i := 0; i < k.d; i++ {
		r = append(r, A.T.uf(fmt.Sprintf("mult%s#%d", bnOrder.Text(62), 2*k.d+i), ts...))
	}
	return r
}

func (A *Analysis) anyNonzero(st *State, ts []*Term) bool {
	for _, t := range ts {
		if A.knownNonzero(st, t) {
			return true
		}
	}
	return false
}

func (A *Analysis) zeroAll(st *State, ts []*Term) bool {
	for _, t := range ts {
		if !A.zeroIn(st, t) {
			return false
		}
	}
	return true
}

func checkDecode(R *Report) {
	R.rule = "Every path of the two point decoders, with the input bytes as symbolic 256-bit words: a path that accepts has proven every coordinate below the modulus and either all coordinates zero (result infinite) or the curve equation (and, for G2, that the multiple by the group order is infinite); a path that rejects has proven a wrong length, a coordinate not below the modulus, or a violated equation; the membership tests themselves decide the equations for unreduced coordinates too."
	R.bounds = "input lengths around and at multiples of the encoding length; contents unrestricted."
	A := pairingAnalysis(R)
	A.multContract()
	A.noMerge = true
	for _, g := range codecGroups {
		k := Kd{A.T, g.d}
		fn := R.P.method("pairing", g.wrap, "Unmarshal")
		if fn == nil {
			R.bad("A05/anchor "+g.wrap, "pairing", g.wrap+".Unmarshal was not found", nil)
			continue
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, nilRecv := range []bool{false, true} {
			for _, n := range []int{0, 1, 31, 32, 32*g.n - 1, 32 * g.n, 32*g.n + 1, 32*g.n + 32, 64 * g.n} {
				for _, zero := range []bool{false, true} {
					if zero && n != 32*g.n {
						continue
					}
					key := fmt.Sprintf("%s length %d zero %v new receiver %v", funcKey(fn), n, zero, nilRecv)
					R.guard(A, key, func() {
						R.decodeCase(A, k, g, fn, n, zero, nilRecv, key, where)
					})
				}
			}
		}
		// membership test
		on := R.P.method("pairing", g.typ, "IsOnCurve")
		if on == nil {
			R.note("%s.IsOnCurve is not present", g.typ)
			continue
		}
		owhere := R.P.pos(on.Pos()) + " " + funcKey(on)
		R.guard(A, funcKey(on), func() {
			st := A.newState()
			x, y, _ := A.coords(k, "a")
			pv := A.pointVals(k, x, y, k.konst(1), "a")
			p := A.putPoint(st, R.P.typ("pairing", g.typ), "a", pv)
			nt, nf := 0, 0
			for _, o := range A.call(on, []Val{p}, nil, st, on.Pos()) {
				if o.panicked {
					R.check(false, funcKey(on), owhere, "panics", o.st)
					continue
				}
				for _, v := range A.splitBool(o.st, o.rets[0]) {
					R.membership(A, k, g, v.st, x, y, v.v.(VBool).b, funcKey(on), owhere)
					if v.v.(VBool).b {
						nt++
					} else {
						nf++
					}
				}
				l, _ := A.leaves(o.st, p)
				for i, b := range append(append([]*BigVal{}, pv[0]...), pv[1]...) {
					R.check(i < len(l) && o.st.env.eq(l[i].t, b.t), funcKey(on)+" point", owhere, "the membership test modifies the point", o.st)
				}
			}
			R.check(nt > 0 && nf > 0, funcKey(on), owhere, "the membership test is constant", nil)
		})
	}
	R.eventsAs(A, "A05", "mutates")
	R.absorb(A)
}

// splitBool forks on an undecided boolean.
func (A *Analysis) splitBool(st *State, v Val) []alt {
	b, ok := v.(VBool)
	if !ok {
		A.fail(0, "boolean expected, got %T", v)
	}
	if b.known {
		return []alt{{st, b}}
	}
	t, f := A.decide(b.cond, st, 0)
	var r []alt
	if t != nil {
		r = append(r, alt{t, VBool{known: true, b: true}})
	}
	if f != nil {
		r = append(r, alt{f, VBool{known: true}})
	}
	return r
}

func (R *Report) membership(A *Analysis, k Kd, g codecGroup, st *State, x, y ke, accepted bool, key, where string) {
	eq := k.curveEq(x, y)
	var oz ke
	if g.d == 2 {
		oz = A.orderZ(k, x, y)
	}
	if accepted {
		R.check(A.zeroAll(st, eq), key, where, "a point that does not satisfy the curve equation is accepted", st)
		if oz != nil {
			R.check(A.zeroAll(st, oz), key, where, "a point outside the subgroup of the group order is accepted", st)
		}
	} else {
		R.check(A.anyNonzero(st, eq) || oz != nil && A.anyNonzero(st, oz), key, where, "a valid point is rejected", st)
	}
}

func (R *Report) decodeCase(A *Analysis, k Kd, g codecGroup, fn *ssa.Function, n int, zero, nilRecv bool, key, where string) {
	st := A.newState()
	byteT := types.Typ[types.Uint8]
	var arr Val = VOpaqueArr{"input", n}
	if zero {
		el := make([]Val, n)
		for i := range el {
			el[i] = VInt{}
		}
		arr = VArr{el}
	}
	id := A.alloc(st, &Obj{val: arr, typ: types.NewArray(byteT, int64(n)), tag: "input", frozen: "the input bytes"})
	in := VSlice{obj: id, len: n, cap: n}
	var inner Val = VNil{}
	if !nilRecv {
		inner = A.garbagePoint(st, R.P.typ("pairing", g.typ), "old")
	}
	recv := A.wrapGroup(st, g.wrap, inner)
	args := []Val{recv, in}
	if len(fn.Params) != 2 {
		A.fail(fn.Pos(), "unexpected parameters")
	}
	var xs []*Term
	for i := 0; i < g.n && !zero; i++ {
		xs = append(xs, A.T.atom(fmt.Sprintf("input[%d:%d]", 32*i, 32*i+32)))
	}
	if zero {
		for i := 0; i < g.n; i++ {
			xs = append(xs, A.T.zero)
		}
	}
	accepted := 0
	outs := A.call(fn, args, nil, st, fn.Pos())
	for _, o := range outs {
		if o.panicked {
			R.check(false, key, where, "panics: "+o.msg, o.st)
			continue
		}
		isErr := func() bool {
			_, isnil := o.rets[len(o.rets)-1].(VNil)
			if v, ok := o.rets[len(o.rets)-1].(VIface); ok && v.t == nil {
				return false
			}
			return !isnil
		}()
		if n != 32*g.n {
			R.check(isErr, key, where, "an encoding of wrong length is accepted", o.st)
			continue
		}
		l, ok := A.leaves(o.st, A.unwrapGroup(o.st, recv))
		if isErr {
			if zero {
				R.check(false, key, where, "the encoding of the point at infinity is rejected", o.st)
				continue
			}
			just := false
			x, y := ke(xs[:g.d]), ke(xs[g.d:])
			// a coordinate known to be out of range
			for _, t := range xs {
				for b := range A.knownBigs(o.st) {
					if b.t == t && b.lo != nil && b.lo.Cmp(bnP) >= 0 {
						just = true
					}
				}
			}
			eq := k.curveEq(x, y)
			just = just || A.anyNonzero(o.st, eq) || g.d == 2 && A.anyNonzero(o.st, A.orderZ(k, x, y))
			R.check(just, key, where, "a path rejects without a wrong length, an out-of-range coordinate or a point outside the group", o.st)
			continue
		}
		accepted++
		if !ok || len(l) != 4*g.d {
			R.check(false, key, where, "the decoded point is incomplete", o.st)
			continue
		}
		inf := true
		for _, t := range xs {
			if !o.st.env.isZero(t) {
				inf = false
			}
		}
		z := l[2*g.d : 3*g.d]
		if inf {
			for _, b := range z {
				R.check(A.intZero(o.st, b), key, where, "the all-zero encoding does not decode to the point at infinity", o.st)
			}
			continue
		}
		for i, t := range xs {
			b := l[i]
			R.check(o.st.env.eq(b.t, t), key, where, fmt.Sprintf("coordinate %d is not read from its 32 byte slot", i), o.st)
			R.check(b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(bnP) < 0 || A.rangeKnown(o.st, t), key, where, fmt.Sprintf("coordinate %d is accepted without being below the modulus", i), o.st)
		}
		x, y := ke(xs[:g.d]), ke(xs[g.d:])
		R.membership(A, k, g, o.st, x, y, true, key, where)
		zz := k.konst(1)
		R.check(k.eq(o.st.env, ke(terms(z)), zz), key, where, "the decoded point is not affine", o.st)
		R.check(k.eq(o.st.env, ke(terms(l[3*g.d:])), zz), key, where, "the squared z coordinate of the decoded point is not one", o.st)
	}
	if n == 32*g.n {
		R.check(accepted > 0, key, where, "nothing is accepted", nil)
	}
	R.check(len(outs) > 0, key, where, "never returns", nil)
}

// knownBigs lists every abstract number alive in the state.
func (A *Analysis) knownBigs(st *State) map[*BigVal]bool {
	r := map[*BigVal]bool{}
	for _, o := range st.over {
		if b, ok := o.val.(VBig); ok {
			r[st.latest(b.b)] = true
		}
	}
	for _, b := range st.ref {
		r[st.latest(b)] = true
	}
	return r
}

func (A *Analysis) rangeKnown(st *State, t *Term) bool {
	for b := range A.knownBigs(st) {
		if b.t == t && b.lo != nil && b.lo.Sign() >= 0 && b.hi != nil && b.hi.Cmp(bnP) < 0 {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------ encoding

// slots reads a byte slice as consecutive 32 byte numbers.
func (A *Analysis) slots(st *State, v Val) ([]*BigVal, int) {
	s, ok := v.(VSlice)
	if !ok {
		return nil, -1
	}
	var out []*BigVal
	for i := 0; i+32 <= s.len; i += 32 {
		p := s
		p.off, p.len = s.off+i, 32
		b := A.fromBytes(st, p, 0)
		out = append(out, b)
	}
	return out, s.len
}

func checkEncode(R *Report) {
	R.rule = "Byte-slot abstraction of the encoders: the output has the fixed length, coordinate i occupies exactly bytes [32i,32i+32) as left-padded big-endian number reduced into [0,p), infinity is all zero bytes, the element itself is unchanged; the target-group decoder reads the same slots."
	R.bounds = "none: coordinates are symbolic."
	A := pairingAnalysis(R)
	for _, g := range codecGroups {
		k := Kd{A.T, g.d}
		ptT := R.P.typ("pairing", g.typ)
		for _, m := range []string{"Marshal", "X"} {
			fn := R.P.method("pairing", g.wrap, m)
			if fn == nil {
				if m == "Marshal" {
					R.bad("A06/anchor "+g.wrap, "pairing", g.wrap+".Marshal was not found", nil)
				}
				continue
			}
			where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
			x, y, z := A.coords(k, "a")
			base := A.newState()
			type cls struct {
				name string
				st   *State
				pv   [4][]*BigVal
				inf  bool
			}
			cl := []cls{{"infinite", base.fork(), A.pointVals(k, x, y, k.zeros(), "a"), true},
				{"affine", base.fork(), A.pointVals(k, x, y, k.konst(1), "a"), false}}
			for _, s := range A.nonzeroCases(k, z, base) {
				cl = append(cl, cls{"finite", s, A.pointVals(k, x, y, z, "a"), false})
			}
			for _, c := range cl {
				key := funcKey(fn) + " " + c.name
				R.guard(A, key, func() {
					zz := z
					if c.name == "affine" {
						zz = k.konst(1)
						for i := range c.pv[3] {
							c.pv[3][i] = A.bigConst(k.konst(1)[i].k)
						}
					}
					p := A.putPoint(c.st, ptT, "a", c.pv)
					w := A.wrapGroup(c.st, g.wrap, p)
					outs := A.call(fn, []Val{w}, nil, c.st, fn.Pos())
					for _, o := range outs {
						if o.panicked || len(o.rets) != 1 {
							R.check(false, key, where, "panics or has no result", o.st)
							continue
						}
						var want affine
						if c.inf {
							want = affine{inf: true}
						} else {
							want = k.affineOf(x, y, zz)
						}
						R.checkPoint(A, k, o.st, p, want, key+" element", where, "after the call")
						if m == "X" {
							b := A.bigAt(o.st, o.rets[0], 0)
							wx := A.T.zero
							if !c.inf {
								wx = want.x[0]
							}
							R.check(o.st.env.eq(b.t, wx) && A.isCanon(b), key, where, "the abscissa is not the reduced affine coordinate", o.st)
							continue
						}
						sl, n := A.slots(o.st, o.rets[0])
						R.check(n == 32*g.n, key, where, fmt.Sprintf("the encoding has %d bytes", n), o.st)
						if n != 32*g.n {
							continue
						}
						for i, b := range sl {
							wt := A.T.zero
							if !c.inf {
								wt = append(append([]*Term{}, want.x...), want.y...)[i]
							}
							R.check(o.st.env.eq(b.t, wt), key, where, fmt.Sprintf("bytes %d..%d do not hold coordinate %d", 32*i, 32*i+31, i), o.st)
							R.check(A.isCanon(b), key, where, fmt.Sprintf("bytes %d..%d are not reduced: %v", 32*i, 32*i+31, b), o.st)
						}
					}
					R.check(len(outs) > 0, key, where, "never returns", nil)
				})
			}
		}
	}
	// target group
	ft := R.P.typ("pairing", "gfP12")
	if fn := R.P.method("pairing", "GT", "Marshal"); fn != nil {
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := funcKey(fn)
		R.guard(A, key, func() {
			st := A.newState()
			var at []*Term
			inner := A.build(st, ft, "e", func(p string) *BigVal {
				t := A.T.atom(p)
				at = append(at, t)
				return A.bigAny(t)
			})
			w := A.wrapGroup(st, "GT", inner)
			for _, o := range A.call(fn, []Val{w}, nil, st, fn.Pos()) {
				if o.panicked || len(o.rets) != 1 {
					R.check(false, key, where, "panics or has no result", o.st)
					continue
				}
				sl, n := A.slots(o.st, o.rets[0])
				R.check(n == 384, key, where, fmt.Sprintf("the encoding has %d bytes", n), o.st)
				if n != 384 {
					continue
				}
				l, _ := A.leaves(o.st, inner)
				for i, b := range sl {
					R.check(o.st.env.eq(b.t, at[i]), key, where, fmt.Sprintf("bytes %d..%d do not hold coordinate %d", 32*i, 32*i+31, i), o.st)
					R.check(A.isCanon(b), key, where, fmt.Sprintf("bytes %d..%d are not reduced", 32*i, 32*i+31), o.st)
					R.check(i < len(l) && o.st.env.eq(l[i].t, at[i]), key, where, "the element is changed by encoding it", o.st)
				}
			}
		})
	} else {
		R.bad("A06/anchor GT", "pairing", "GT.Marshal was not found", nil)
	}
	if fn := R.P.method("pairing", "GT", "Unmarshal"); fn != nil {
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, n := range []int{0, 383, 384, 385, 768} {
			for _, nilRecv := range []bool{false, true} {
				key := fmt.Sprintf("%s length %d new receiver %v", funcKey(fn), n, nilRecv)
				R.guard(A, key, func() {
					st := A.newState()
					id := A.alloc(st, &Obj{val: VOpaqueArr{"input", n}, typ: types.NewArray(types.Typ[types.Uint8], int64(n)), tag: "input", frozen: "the input bytes"})
					var inner Val = VNil{}
					if !nilRecv {
						inner = A.build(st, ft, "old", func(p string) *BigVal { return A.bigAny(A.T.freshAtom(p)) })
					}
					w := A.wrapGroup(st, "GT", inner)
					acc := 0
					for _, o := range A.call(fn, []Val{w, VSlice{obj: id, len: n, cap: n}}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics", o.st)
							continue
						}
						for _, v := range A.splitBool(o.st, o.rets[len(o.rets)-1]) {
							if !v.v.(VBool).b {
								continue
							}
							acc++
							if n != 384 {
								R.check(false, key, where, "an encoding of wrong length is accepted", v.st)
								continue
							}
							l, ok := A.leaves(v.st, A.unwrapGroup(v.st, w))
							R.check(ok && len(l) == 12, key, where, "the decoded element is incomplete", v.st)
							for i, b := range l {
								R.check(v.st.env.eq(b.t, A.T.atom(fmt.Sprintf("input[%d:%d]", 32*i, 32*i+32))), key, where, fmt.Sprintf("coordinate %d is not read from its 32 byte slot", i), v.st)
							}
							R.check(samePtr(o.rets[0], w), key, where, "the receiver is not returned", v.st)
						}
					}
					if n == 384 {
						R.check(acc > 0, key, where, "a complete encoding is rejected", nil)
					}
				})
			}
		}
	} else {
		R.bad("A06/anchor GT", "pairing", "GT.Unmarshal was not found", nil)
	}
	R.eventsAs(A, "A06", "byte-layout", "mutates")
	R.absorb(A)
}

var _ = big.NewInt
