package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// B04, B06: sparse polynomials and the tree that stores them.

type treeEnt struct {
	key uint64
	val *BigVal
	id  int
}

// treeFields locates key, value and children of the node type.
type treeFields struct {
	key, val int
	kids     []int
	root     int
	bad      string
}

func (P *Program) treeFields() treeFields {
	f := treeFields{key: -1, val: -1, root: -1}
	n, t := P.typ("utils", "AvlNode"), P.typ("utils", "AvlTree")
	if n == nil || t == nil {
		f.bad = "the tree types were not found"
		return f
	}
	ns, ok := n.Underlying().(*types.Struct)
	ts, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		f.bad = "the tree types are not structs"
		return f
	}
	for i := 0; i < ns.NumFields(); i++ {
		ft := ns.Field(i).Type()
		switch {
		case isPtrTo(ft, "AvlNode"):
			f.kids = append(f.kids, i)
		case isBigPtr(ft):
			f.val = i
		default:
			if b, ok := ft.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				f.key = i
			}
		}
	}
	for i := 0; i < ts.NumFields(); i++ {
		if isPtrTo(ts.Field(i).Type(), "AvlNode") {
			f.root = i
		}
	}
	if f.key < 0 || f.val < 0 || f.root < 0 || len(f.kids) != 2 {
		f.bad = "the node layout is not recognised"
	}
	return f
}

// treeEntries reads the stored pairs in key order of the structure walk.
func (A *Analysis) treeEntries(st *State, v Val) (out []treeEnt, bad string) {
	f := A.P.treeFields()
	if f.bad != "" {
		return nil, f.bad
	}
	p, ok := v.(VPtr)
	if !ok {
		return nil, "no tree"
	}
	s, ok := loadPath(st.get(p.obj).val, p.path).(VStruct)
	if !ok {
		return nil, "no tree"
	}
	seen := map[int]bool{}
	var walk func(n Val, lo, hi *uint64) string
	walk = func(n Val, lo, hi *uint64) string {
		np, ok := n.(VPtr)
		if !ok {
			return ""
		}
		if seen[np.obj] {
			return "a node is reachable twice"
		}
		seen[np.obj] = true
		x, ok := st.get(np.obj).val.(VStruct)
		if !ok {
			return "a node is not readable"
		}
		ki, ok := x.f[f.key].(VInt)
		if !ok || ki.sym != nil {
			return "a key is not readable"
		}
		k := uint64(ki.c)
		if lo != nil && k <= *lo || hi != nil && k >= *hi {
			return fmt.Sprintf("key %d is stored where a search does not find it", k)
		}
		if m := walk(x.f[f.kids[0]], lo, &k); m != "" {
			return m
		}
		vp, ok := x.f[f.val].(VPtr)
		if !ok {
			return fmt.Sprintf("key %d has no value", k)
		}
		out = append(out, treeEnt{k, st.latest(A.bigAt(st, vp, 0)), vp.obj})
		return walk(x.f[f.kids[1]], &k, hi)
	}
	bad = walk(s.f[f.root], nil, nil)
	return
}

type pair struct {
	k uint64
	v *BigVal
}

// mkTree builds a tree with the code's own constructor and insertion.
func (A *Analysis) mkTree(st *State, ps []pair, freeze string) (Val, *State) {
	nw := A.P.fn("utils", "NewAvlTree")
	ins := A.P.method("utils", "AvlTree", "Insert")
	if nw == nil || ins == nil {
		A.fail(0, "the tree constructor or Insert was not found")
	}
	o := A.single(A.call(nw, nil, nil, st, nw.Pos()), nw)
	t, s := o.rets[0], o.st
	for _, p := range ps {
		id := A.alloc(s, &Obj{val: VBig{p.v}, typ: A.bigType(), tag: fmt.Sprintf("coefficient %d", p.k), frozen: freeze})
		o := A.single(A.call(ins, []Val{t, VInt{c: int64(p.k)}, VPtr{obj: id}}, nil, s, ins.Pos()), ins)
		s = o.st
	}
	if freeze != "" {
		A.freezeTree(s, t, freeze)
	}
	return t, s
}

// freezeTree makes the nodes of a tree immutable.
func (A *Analysis) freezeTree(st *State, t Val, what string) {
	seen := map[int]bool{}
	var walk func(v Val)
	walk = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			if seen[x.obj] {
				return
			}
			seen[x.obj] = true
			o := st.get(x.obj)
			if o == nil {
				return
			}
			n := *o
			n.frozen = what
			st.set(x.obj, &n)
			walk(o.val)
		case VStruct:
			for _, f := range x.f {
				walk(f)
			}
		}
	}
	walk(t)
}

func (A *Analysis) single(outs []Outcome, fn *ssa.Function) Outcome {
	var ok []Outcome
	for _, o := range outs {
		if !o.panicked {
			ok = append(ok, o)
		}
	}
	if len(ok) != 1 || len(outs) != 1 {
		A.fail(fn.Pos(), "%d outcomes where one is expected", len(outs))
	}
	return ok[0]
}

// treePoly is the polynomial a tree stores; zero values are a violation.
func (R *Report) treePoly(A *Analysis, st *State, v Val, key, where string) (map[uint64]*Term, bool) {
	es, bad := A.treeEntries(st, v)
	if bad != "" {
		R.check(false, key, where, "the resulting tree is broken: "+bad, st)
		return nil, false
	}
	m := map[uint64]*Term{}
	for _, e := range es {
		if A.zeroIn(st, e.val.t) {
			R.check(false, key, where, fmt.Sprintf("a zero coefficient is stored at %d", e.key), st)
		}
		m[e.key] = e.val.t
	}
	return m, true
}

func (A *Analysis) sameSparse(st *State, got, want map[uint64]*Term) string {
	var ks []uint64
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		g, w := A.T.zero, A.T.zero
		if t, ok := got[k]; ok {
			g = t
		}
		if t, ok := want[k]; ok {
			w = t
		}
		if !A.zeroIn(st, A.T.sub(g, w)) {
			return fmt.Sprintf("coefficient %d is wrong", k)
		}
	}
	return ""
}

func (A *Analysis) sparseOf(ps []pair) map[uint64]*Term {
	m := map[uint64]*Term{}
	for _, p := range ps {
		m[p.k] = p.v.t
	}
	return m
}

func (A *Analysis) smul(a, b map[uint64]*Term) map[uint64]*Term {
	r := map[uint64]*Term{}
	for i, x := range a {
		for j, y := range b {
			t, ok := r[i+j]
			if !ok {
				t = A.T.zero
			}
			r[i+j] = A.T.add(t, A.T.mul(x, y))
		}
	}
	return r
}

func (A *Analysis) sadd(a, b map[uint64]*Term, sign int) map[uint64]*Term {
	r := map[uint64]*Term{}
	for k, v := range a {
		r[k] = v
	}
	for k, v := range b {
		t, ok := r[k]
		if !ok {
			t = A.T.zero
		}
		if sign > 0 {
			r[k] = A.T.add(t, v)
		} else {
			r[k] = A.T.sub(t, v)
		}
	}
	return r
}

func (A *Analysis) seval(a map[uint64]*Term, x *Term) *Term {
	r := A.T.zero
	for k, v := range a {
		r = A.T.add(r, A.T.mul(v, A.T.pow(x, int(k))))
	}
	return r
}

// nzPairs: non-zero symbolic coefficients at the given keys, inserted in the
// given order.
func (A *Analysis) nzPairs(name string, keys []uint64) (out []pair) {
	for _, k := range keys {
		b := A.bigCanon(A.T.atomNZ(fmt.Sprintf("%s%d", name, k)))
		b.lo = one_
		out = append(out, pair{k, b})
	}
	return
}

func sparseShapes(n int) [][]uint64 {
	out := [][]uint64{{}, {0}, {1}, {3}, {0, 1}, {1, 0}, {0, 2}, {2, 3}, {1, 2, 0}, {0, 1, 2}, {0, 3, 1}, {2, 1, 0}}
	if n > 3 {
		out = append(out, []uint64{0, 1, 2, 3}, []uint64{3, 1, 0, 2}, []uint64{5, 0, 2, 1})
	}
	return out
}

func checkSparse(R *Report) {
	R.rule = "Sparse polynomial operations (on the repository's own tree) are analysed for operands with symbolic non-zero coefficients at enumerated exponents in several insertion orders; on every path (each sum zero or not) the stored coefficients are compared with the ring operation, division with a = q*b + r and deg r < deg b, interpolation by evaluation at every point, and no zero coefficient is stored. Operands are immutable."
	n := 3
	if R.thorough() {
		n = 4
	}
	R.bounds = fmt.Sprintf("operands with up to %d terms of degree at most 5; interpolation over up to %d points.", n, n+3)
	A := scalarAnalysis(R)
	T := A.T
	if f := R.P.treeFields(); f.bad != "" {
		R.bad("B04/anchors", "utils", f.bad, nil)
		return
	}
	found := 0
	sh := sparseShapes(n)
	build := func(st *State, name string, keys []uint64) (Val, []pair, *State) {
		ps := A.nzPairs(name, keys)
		v, s := A.mkTree(st, ps, "operand "+name)
		return v, ps, s
	}
	// binary operations
	binary := func(name string, aliasToo bool, spec func(a, b map[uint64]*Term) map[uint64]*Term) {
		fn := R.anchor("utils", "Fq", name)
		if fn == nil {
			return
		}
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		one := func(ka, kb []uint64, alias bool, eqv bool) {
			key := fmt.Sprintf("Fq.%s %v %v alias %v equal %v", name, ka, kb, alias, eqv)
			R.guard(A, key, func() {
				st := A.newState()
				a, pa, st := build(st, "a", ka)
				b, pb := a, pa
				if !alias {
					nm := "b"
					if eqv {
						nm = "a"
					}
					b, pb, st = build(st, nm, kb)
				}
				outs := A.call(fn, []Val{A.fqVal(st), a, b}, nil, st, fn.Pos())
				for _, o := range outs {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					got, ok := R.treePoly(A, o.st, o.rets[0], key, where)
					if !ok {
						continue
					}
					m := A.sameSparse(o.st, got, spec(A.sparseOf(pa), A.sparseOf(pb)))
					R.check(m == "", key, where, m, o.st)
				}
				R.check(len(outs) > 0, key, where, "never returns", nil)
			})
		}
		for _, ka := range sh {
			for _, kb := range sh {
				one(ka, kb, false, false)
			}
			one(ka, nil, true, false)
			one(ka, ka, false, true)
		}
	}
	binary("MulSparse", true, A.smul)
	binary("AddToSparse", true, func(a, b map[uint64]*Term) map[uint64]*Term { return A.sadd(a, b, 1) })
	binary("SubToSparse", true, func(a, b map[uint64]*Term) map[uint64]*Term { return A.sadd(a, b, -1) })

	if fn := R.anchor("utils", "Fq", "DivideSparse"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		dshapes := [][]uint64{{}, {0}, {2}, {0, 1}, {0, 2}, {1, 2, 0}, {3}, {0, 3}, {3, 1}}
		bshapes := [][]uint64{{0}, {1}, {0, 1}, {0, 2}, {1, 2}, {2, 1, 0}, {3, 0}}
		for _, ka := range dshapes {
			for _, kb := range bshapes {
				for _, mode := range []string{"", "monic", "multiple"} {
					key := fmt.Sprintf("Fq.DivideSparse %v by %v %s", ka, kb, mode)
					R.guard(A, key, func() {
						st := A.newState()
						pb := A.nzPairs("b", kb)
						var maxB uint64
						for _, p := range pb {
							if p.k > maxB {
								maxB = p.k
							}
						}
						if mode != "" {
							for i := range pb {
								if pb[i].k == maxB {
									pb[i].v = A.bigConst(one_)
								}
							}
						}
						pa := A.nzPairs("a", ka)
						if mode == "multiple" { // a = b*c: the remainder vanishes
							if len(ka) == 0 || len(ka) > 2 {
								return
							}
							pr := A.smul(A.sparseOf(pb), A.sparseOf(A.nzPairs("c", ka)))
							pa = nil
							for k := uint64(0); k < 12; k++ {
								if t, ok := pr[k]; ok {
									if !A.knownNonzero(st, t) {
										s2 := A.assumeZero(st.fork(), t)
										if s2 != nil && !s2.unsolved {
											st.facts = append(st.facts, t)
										}
									}
									b := A.bigCanon(t)
									pa = append(pa, pair{k, b})
								}
							}
						}
						b, st := A.mkTree(st, pb, "operand b")
						a, st := A.mkTree(st, pa, "operand a")
						outs := A.call(fn, []Val{A.fqVal(st), a, b}, nil, st, fn.Pos())
						for _, o := range outs {
							if o.panicked {
								R.check(false, key, where, "panics: "+o.msg, o.st)
								continue
							}
							q, ok1 := R.treePoly(A, o.st, o.rets[0], key, where)
							r, ok2 := R.treePoly(A, o.st, o.rets[1], key, where)
							if !ok1 || !ok2 {
								continue
							}
							m := A.sameSparse(o.st, A.sadd(A.smul(q, A.sparseOf(pb)), r, 1), A.sparseOf(pa))
							R.check(m == "", key, where, "quotient*divisor+remainder differs from the dividend: "+m, o.st)
							for k, t := range r {
								R.check(k < maxB || A.zeroIn(o.st, t), key, where, fmt.Sprintf("the remainder has degree %d", k), o.st)
							}
						}
						R.check(len(outs) > 0, key, where, "never returns", nil)
					})
				}
			}
		}
		// division by zero
		R.guard(A, "Fq.DivideSparse by zero", func() {
			st := A.newState()
			a, _, st := build(st, "a", []uint64{0, 1})
			b, _, st := build(st, "b", nil)
			for _, o := range A.call(fn, []Val{A.fqVal(st), a, b}, nil, st, fn.Pos()) {
				R.check(o.panicked, "Fq.DivideSparse by zero", where, "division by the zero polynomial is accepted", o.st)
			}
		})
	}
	// tree and scalar
	if fn := R.anchor("utils", "Fq", "MulSparseScalar"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, ka := range sh {
			for _, wc := range []coef{cAny, cNZ, cZero, cOne} {
				key := fmt.Sprintf("Fq.MulSparseScalar %v by %v", ka, wc)
				R.guard(A, key, func() {
					st := A.newState()
					a, pa, st := build(st, "a", ka)
					w := A.coefs("w", []coef{wc})[0]
					for _, o := range A.call(fn, []Val{A.fqVal(st), a, A.frozenBig(st, "w", w)}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						if got, ok := R.treePoly(A, o.st, o.rets[0], key, where); ok {
							m := A.sameSparse(o.st, got, A.smul(A.sparseOf(pa), map[uint64]*Term{0: w.t}))
							R.check(m == "", key, where, m, o.st)
						}
					}
				})
			}
		}
	}
	if fn := R.anchor("utils", "Fq", "EvalSparsePoly"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, ka := range append(append([][]uint64{}, sh...), []uint64{5, 2}, []uint64{7, 3, 1}, []uint64{15, 8, 3}, []uint64{2, 4, 6}, []uint64{4, 9, 14}, []uint64{5, 13}, []uint64{6, 7, 20}, []uint64{10, 21, 43}, []uint64{4, 5, 6, 7}, []uint64{2, 3, 10, 100}, []uint64{9, 10, 19, 29}) {
			for _, xc := range []coef{cAny, cZero, cOne} {
				key := fmt.Sprintf("Fq.EvalSparsePoly %v at %v", ka, xc)
				R.guard(A, key, func() {
					st := A.newState()
					a, pa, st := build(st, "a", ka)
					x := A.coefs("x", []coef{xc})[0]
					for _, o := range A.call(fn, []Val{A.fqVal(st), a, A.frozenBig(st, "x", x)}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						got := A.bigAt(o.st, o.rets[0], 0)
						R.check(got != nil && A.zeroIn(o.st, T.sub(got.t, A.seval(A.sparseOf(pa), x.t))), key, where, "the result is not the value of the polynomial", o.st)
					}
				})
			}
		}
	}
	withVector := func(name string, check func(o Outcome, pa []pair, w []*BigVal, key, where string)) {
		fn := R.anchor("utils", "Fq", name)
		if fn == nil {
			return
		}
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, ka := range sh {
			for _, wc := range []coef{cAny, cZero} {
				key := fmt.Sprintf("Fq.%s %v weights %v", name, ka, wc)
				R.guard(A, key, func() {
					st := A.newState()
					a, pa, st := build(st, "a", ka)
					w := A.coefs("w", rep(wc, 4))
					if n > 3 {
						w = A.coefs("w", rep(wc, 6))
					}
					for _, o := range A.call(fn, []Val{A.fqVal(st), a, A.frozenBigs(st, "w", w)}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						check(o, pa, w, key, where)
					}
				})
			}
		}
	}
	withVector("SparseScalarProduct", func(o Outcome, pa []pair, w []*BigVal, key, where string) {
		want := T.zero
		for _, p := range pa {
			want = T.add(want, T.mul(p.v.t, w[p.k].t))
		}
		got := A.bigAt(o.st, o.rets[0], 0)
		R.check(got != nil && A.zeroIn(o.st, T.sub(got.t, want)), key, where, "the result is not the scalar product", o.st)
		R.check(got != nil && A.isCanon(got), key, where, "the result is not reduced", o.st)
	})
	withVector("Combine", func(o Outcome, pa []pair, w []*BigVal, key, where string) {
		want := map[uint64]*Term{}
		for _, p := range pa {
			want[p.k] = T.mul(p.v.t, w[p.k].t)
		}
		if got, ok := R.treePoly(A, o.st, o.rets[0], key, where); ok {
			m := A.sameSparse(o.st, got, want)
			R.check(m == "", key, where, m, o.st)
		}
	})
	// lists of trees
	lists := func(name string, withW bool) {
		fn := R.anchor("utils", "Fq", name)
		if fn == nil {
			return
		}
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for cnt := 0; cnt <= 3; cnt++ {
			key := fmt.Sprintf("Fq.%s of %d", name, cnt)
			R.guard(A, key, func() {
				st := A.newState()
				var el []Val
				var ps [][]pair
				for i := 0; i < cnt; i++ {
					var v Val
					var p []pair
					v, p, st = build(st, fmt.Sprintf("p%d_", i), [][]uint64{{0, 2}, {2, 1}, {0}}[i])
					el, ps = append(el, v), append(ps, p)
				}
				w := A.coefs("w", rep(cAny, cnt))
				args := []Val{A.fqVal(st), A.sliceOf(st, fn.Params[1].Type().Underlying().(*types.Slice).Elem(), el)}
				if withW {
					args = append(args, A.frozenBigs(st, "w", w))
				}
				for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					if withW {
						s, _ := o.rets[0].(VSlice)
						rs := A.sliceElems(o.st, s)
						R.check(len(rs) == cnt, key, where, "wrong number of polynomials", o.st)
						for i, r := range rs {
							if got, ok := R.treePoly(A, o.st, r, key, where); ok && i < cnt {
								m := A.sameSparse(o.st, got, A.smul(A.sparseOf(ps[i]), map[uint64]*Term{0: w[i].t}))
								R.check(m == "", key, where, fmt.Sprintf("polynomial %d: %s", i, m), o.st)
							}
						}
						continue
					}
					want := map[uint64]*Term{}
					for _, p := range ps {
						want = A.sadd(want, A.sparseOf(p), 1)
					}
					if got, ok := R.treePoly(A, o.st, o.rets[0], key, where); ok {
						m := A.sameSparse(o.st, got, want)
						R.check(m == "", key, where, m, o.st)
					}
				}
			})
		}
	}
	lists("LinearCombine", true)
	lists("AddPolynomials", false)
	// matrices
	if fn := R.anchor("utils", "", "TransposeSparse"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for rows := 0; rows <= 3; rows++ {
			key := fmt.Sprintf("TransposeSparse %d rows", rows)
			R.guard(A, key, func() {
				st := A.newState()
				var el []Val
				var ps [][]pair
				for i := 0; i < rows; i++ {
					var v Val
					var p []pair
					v, p, st = build(st, fmt.Sprintf("r%d_", i), [][]uint64{{0, 2}, {2, 1, 0}, {3}}[i])
					el, ps = append(el, v), append(ps, p)
				}
				const cols = 4
				for _, o := range A.call(fn, []Val{A.sliceOf(st, fn.Params[0].Type().Underlying().(*types.Slice).Elem(), el), VInt{c: cols}}, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					s, _ := o.rets[0].(VSlice)
					rs := A.sliceElems(o.st, s)
					R.check(len(rs) == cols, key, where, "wrong number of columns", o.st)
					for x, r := range rs {
						want := map[uint64]*Term{}
						for y, p := range ps {
							for _, e := range p {
								if e.k == uint64(x) {
									want[uint64(y)] = e.v.t
								}
							}
						}
						if got, ok := R.treePoly(A, o.st, r, key, where); ok {
							m := A.sameSparse(o.st, got, want)
							R.check(m == "", key, where, fmt.Sprintf("column %d: %s", x, m), o.st)
						}
					}
				}
			})
		}
	}
	if fn := R.anchor("utils", "Fq", "InterpolateSparseArray"); fn != nil {
		found++
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		type useOf struct {
			ks  []uint64
			deg int
		}
		history := func(key string, uses []useOf) {
			R.guard(A, key, func() {
				sts := []*State{A.newState()}
				for u, use := range uses {
					var next []*State
					for _, s := range sts {
						a, pa, s := build(s, fmt.Sprintf("d%d_", u), use.ks)
						for _, o := range A.call(fn, []Val{A.fqVal(s), a, VInt{c: int64(use.deg)}}, nil, s, fn.Pos()) {
							if o.panicked {
								R.check(false, key, where, "panics: "+o.msg, o.st)
								continue
							}
							got, ok := R.treePoly(A, o.st, o.rets[0], key, where)
							if !ok {
								continue
							}
							want := A.sparseOf(pa)
							for i := 0; i < use.deg; i++ {
								w := T.zero
								if t, ok := want[uint64(i)]; ok {
									w = t
								}
								R.check(A.zeroIn(o.st, T.sub(A.seval(got, T.constI(int64(i))), w)), key, where, fmt.Sprintf("wrong value at point %d (use %d)", i, u+1), o.st)
							}
							for k := range got {
								R.check(k < uint64(use.deg), key, where, fmt.Sprintf("the degree %d is too high", k), o.st)
							}
							next = append(next, o.st)
						}
					}
					// go on from the path without cancellation and from one with little of it
					sort.SliceStable(next, func(i, j int) bool { return len(next[i].env.ovr) < len(next[j].env.ovr) })
					if len(next) > 2 {
						next = next[:2]
					}
					sts = next
				}
			})
		}
		full := func(d int) (ks []uint64) {
			for i := d - 1; i >= 0; i-- {
				ks = append(ks, uint64(i))
			}
			return
		}
		// every set of data up to four points, few data above
		most := 3
		for deg := 1; deg <= n+1; deg++ {
			for mask := 0; mask < 1<<deg; mask++ {
				var ks []uint64
				for _, k := range full(deg) {
					if mask>>k&1 == 1 {
						ks = append(ks, k)
					}
				}
				if deg > 4 && len(ks) > most {
					continue
				}
				history(fmt.Sprintf("Fq.InterpolateSparseArray %v over %d points", ks, deg), []useOf{{ks, deg}, {ks, deg}})
			}
		}
		// cached bases of several lengths, single points and few data
		few := func(d int) []uint64 {
			if d <= 3 {
				return full(d)
			}
			return []uint64{uint64(d - 1), 0}
		}
		var up, down, single []useOf
		lmax := n + 3
		for d := 1; d <= lmax; d++ {
			up = append(up, useOf{few(d), d})
			down = append(down, useOf{few(lmax + 1 - d), lmax + 1 - d})
			for k := 0; k < d; k++ {
				single = append(single, useOf{[]uint64{uint64(k)}, d})
			}
		}
		back := append([]useOf{}, single...)
		for i, j := 0, len(back)-1; i < j; i, j = i+1, j-1 {
			back[i], back[j] = back[j], back[i]
		}
		history("Fq.InterpolateSparseArray of growing length", append(up, up...))
		history("Fq.InterpolateSparseArray of falling length", append(down, down...))
		history("Fq.InterpolateSparseArray of single points", append(single, single...))
		history("Fq.InterpolateSparseArray of single points backwards", append(back, back...))
		// too few points
		R.guard(A, "Fq.InterpolateSparseArray too few points", func() {
			st := A.newState()
			a, _, st := build(st, "a", []uint64{0, 2})
			for _, o := range A.call(fn, []Val{A.fqVal(st), a, VInt{c: 2}}, nil, st, fn.Pos()) {
				R.check(o.panicked, "Fq.InterpolateSparseArray too few points", where, "data beyond the number of points is accepted", o.st)
			}
		})
	}
	R.eventsAs(A, R.prop, "mutates")
	R.counts["operations"] = found
	if found < 9 {
		R.bad("B04/anchors", "utils", fmt.Sprintf("only %d operations were found", found), nil)
	}
	R.absorb(A)
}

// ------------------------------------------------------------------- trees

func checkTree(R *Report) {
	R.rule = "The tree is analysed as a map from keys to non-zero elements: all sequences of insertions (replacing, accumulating, zero and non-zero values) and removals up to the bound, and all insertion orders of more keys followed by every removal. After every step the search order holds at every node, exactly the model's pairs are stored, no zero is stored, and every query (Get, Has, Size, extremes, both traversals, arrays, clones) agrees with the model. Keys only enter comparisons, so the enumerated orders represent all keys."
	depth, perm := 4, 5
	if R.thorough() {
		depth, perm = 5, 6
	}
	R.bounds = fmt.Sprintf("sequences of %d operations over 3 keys; all insertion orders of %d keys.", depth, perm)
	A := scalarAnalysis(R)
	A.maxSteps *= 4
	if f := R.P.treeFields(); f.bad != "" {
		R.bad("B06/anchors", "utils", f.bad, nil)
		return
	}
	m := func(n string) *ssa.Function { return R.anchor("utils", "AvlTree", n) }
	put, ins, insNo, rem := m("Put"), m("Insert"), m("InsertNoOverwriteAllowed"), m("Remove")
	get, has, size, maxN, maxP, desc, chn, arr, clone := m("Get"), m("Has"), m("Size"), m("MaxNode"), m("MaxPower"), m("DecendingNodes"), m("ChannelNodes"), m("ToArray"), m("Clone")
	minN, root := m("MinNode"), m("Root")
	nw := R.P.fn("utils", "NewAvlTree")
	if nw == nil || ins == nil || rem == nil || get == nil {
		R.bad("B06/anchors", "utils", "the tree operations were not found", nil)
		return
	}
	entries := func(st *State, v Val) (out []pair, ok bool) {
		var el []Val
		switch x := v.(type) {
		case VNil:
			return nil, true
		case VSlice:
			el = A.sliceElems(st, x)
		case VChan:
			q, isq := st.get(x.obj).val.(VQueue)
			if !isq || !q.closed {
				return nil, false
			}
			el = q.q
		default:
			return nil, false
		}
		for _, e := range el {
			s, ok := e.(VStruct)
			if !ok || len(s.f) != 2 {
				return nil, false
			}
			k, ok := s.f[0].(VInt)
			if !ok || k.sym != nil {
				return nil, false
			}
			if _, ok := s.f[1].(VPtr); !ok {
				return nil, false
			}
			out = append(out, pair{uint64(k.c), st.latest(A.bigAt(st, s.f[1], 0))})
		}
		return out, true
	}
	audits := 0
	// audit compares every observation with the model.
	audit := func(st *State, t Val, model map[uint64]*Term, universe []uint64, hist string, full bool) {
		audits++
		key := "tree after" + hist
		got, ok := R.treePoly(A, st, t, key, "utils tree")
		if !ok {
			return
		}
		w := A.sameSparse(st, got, model)
		R.check(w == "" && len(got) == len(model), key, R.P.pos(ins.Pos())+" "+funcKey(ins), "stored pairs differ from the map: "+w, st)
		if !full {
			return
		}
		var ks []uint64
		for k := range model {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		ask := func(fn *ssa.Function, args []Val, judge func(o Outcome) string) {
			if fn == nil {
				return
			}
			where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
			R.guard(A, key+" "+fn.Name(), func() {
				for _, o := range A.call(fn, append([]Val{t}, args...), nil, st.fork(), fn.Pos()) {
					if o.panicked {
						R.check(false, key+" "+fn.Name(), where, "panics: "+o.msg, o.st)
						continue
					}
					m := judge(o)
					R.check(m == "", key+" "+fn.Name(), where, m, o.st)
				}
			})
		}
		for _, k := range universe {
			w, present := model[k]
			ask(get, []Val{VInt{c: int64(k)}}, func(o Outcome) string {
				_, isnil := o.rets[1].(VNil)
				if isnil != present {
					return fmt.Sprintf("Get(%d) reports presence %v instead of %v", k, isnil, present)
				}
				b := A.bigAt(o.st, o.rets[0], 0)
				if b == nil {
					if present {
						return fmt.Sprintf("Get(%d) yields nothing", k)
					}
					return ""
				}
				if !present {
					w = A.T.zero
				}
				if !A.zeroIn(o.st, A.T.sub(b.t, w)) {
					return fmt.Sprintf("Get(%d) yields another value", k)
				}
				return ""
			})
			ask(has, []Val{VInt{c: int64(k)}}, func(o Outcome) string {
				b, ok := o.rets[0].(VBool)
				if !ok || !b.known || b.b != present {
					return fmt.Sprintf("Has(%d) is wrong", k)
				}
				return ""
			})
		}
		ask(size, nil, func(o Outcome) string {
			if i, ok := o.rets[0].(VInt); !ok || i.sym != nil || i.c != int64(len(ks)) {
				return "Size is wrong"
			}
			return ""
		})
		ask(maxP, nil, func(o Outcome) string {
			want := int64(0)
			if len(ks) > 0 {
				want = int64(ks[len(ks)-1])
			}
			if i, ok := o.rets[0].(VInt); !ok || i.sym != nil || i.c != want {
				return "MaxPower is wrong"
			}
			return ""
		})
		node := func(o Outcome, k uint64) string {
			f := R.P.treeFields()
			p, ok := o.rets[0].(VPtr)
			if !ok {
				return "no node"
			}
			s, ok := o.st.get(p.obj).val.(VStruct)
			if !ok {
				return "no node"
			}
			i, ok := s.f[f.key].(VInt)
			if !ok || i.sym != nil || uint64(i.c) != k {
				return "it yields another node"
			}
			return ""
		}
		if len(ks) > 0 {
			ask(maxN, nil, func(o Outcome) string { return node(o, ks[len(ks)-1]) })
			ask(minN, nil, func(o Outcome) string { return node(o, ks[0]) })
		}
		ask(root, nil, func(o Outcome) string {
			_, isnil := o.rets[0].(VNil)
			if isnil != (len(ks) == 0) {
				return "Root does not tell whether the tree is empty"
			}
			return ""
		})
		order := func(asc bool) func(o Outcome) string {
			return func(o Outcome) string {
				es, ok := entries(o.st, o.rets[0])
				if !ok {
					return "the traversal is not readable or not ended"
				}
				if len(es) != len(ks) {
					return fmt.Sprintf("%d entries are traversed instead of %d", len(es), len(ks))
				}
				for i, e := range es {
					k := ks[i]
					if !asc {
						k = ks[len(ks)-1-i]
					}
					if e.k != k || !A.zeroIn(o.st, A.T.sub(e.v.t, model[k])) {
						return fmt.Sprintf("entry %d of the traversal is wrong", i)
					}
				}
				return ""
			}
		}
		ask(desc, nil, order(false))
		if chn != nil {
			ask(chn, []Val{VBool{known: true, b: true}}, order(true))
			ask(chn, []Val{VBool{known: true}}, order(false))
		}
		ln := int64(1)
		if len(ks) > 0 {
			ln = int64(ks[len(ks)-1]) + 1
		}
		ask(arr, []Val{VInt{c: ln + 1}}, func(o Outcome) string {
			l, ok := A.bigList(o.st, o.rets[0])
			if !ok || int64(len(l)) != ln+1 {
				return "the array has a wrong length or empty entries"
			}
			for i, b := range l {
				w, present := model[uint64(i)]
				if !present {
					w = A.T.zero
				}
				if !A.zeroIn(o.st, A.T.sub(b.t, w)) {
					return fmt.Sprintf("array entry %d is wrong", i)
				}
			}
			return ""
		})
		ask(clone, nil, func(o Outcome) string {
			c, bad := A.treeEntries(o.st, o.rets[0])
			if bad != "" {
				return bad
			}
			g := map[uint64]*Term{}
			for _, e := range c {
				g[e.key] = e.val.t
			}
			if len(g) != len(model) {
				return "the clone has another size"
			}
			// the clone shares no node
			own := map[int]bool{}
			A.nodesOf(o.st, t, own)
			other := map[int]bool{}
			A.nodesOf(o.st, o.rets[0], other)
			for id := range other {
				if own[id] {
					return "the clone shares nodes with the original"
				}
			}
			return A.sameSparse(o.st, g, model)
		})
	}
	fresh := 0
	type op struct {
		name string
		fn   *ssa.Function
		k    uint64
		zero bool
		neg  bool
		acc  int // 1: accumulate with the field addition, 2: accumulate the negative (cancels)
	}
	apply := func(st *State, t Val, model map[uint64]*Term, p op, hist string, cont func(st *State, model map[uint64]*Term, hist string)) {
		h := fmt.Sprintf("%s %s(%d)", hist, p.name, p.k)
		key := "tree after" + h
		if p.fn == nil {
			return
		}
		where := R.P.pos(p.fn.Pos()) + " " + funcKey(p.fn)
		s := st.fork()
		args := []Val{t, VInt{c: int64(p.k)}}
		var b *BigVal
		cur, present := model[p.k]
		if p.fn != rem {
			fresh++
			switch {
			case p.zero:
				b = A.bigConst(bigZero)
			case p.neg:
				b = A.bigConst(big.NewInt(int64(-3 - fresh)))
			case p.acc == 2:
				if !present {
					return
				}
				b = A.bigCanon(A.T.neg(cur))
				b.lo = one_
			default:
				b = A.bigCanon(A.T.atomNZ(fmt.Sprintf("v%d", fresh)))
				b.lo = one_
			}
			args = append(args, A.frozenBig(s, "value", b))
			if p.fn == put {
				args = append(args, VFunc{sum: true})
			}
		}
		R.guard(A, key, func() {
			outs := A.call(p.fn, args, nil, s, p.fn.Pos())
			for _, o := range outs {
				if p.fn == insNo && present {
					R.check(o.panicked, key, where, "an existing value is overwritten", o.st)
					continue
				}
				if o.panicked {
					R.check(false, key, where, "panics: "+o.msg, o.st)
					continue
				}
				m2 := map[uint64]*Term{}
				for k, v := range model {
					m2[k] = v
				}
				switch {
				case p.fn == rem:
					_, isnil := o.rets[len(o.rets)-1].(VNil)
					R.check(isnil == present, key, where, "the error does not tell whether the key was stored", o.st)
					if present && isnil {
						b := A.bigAt(o.st, o.rets[0], 0)
						R.check(b != nil && A.zeroIn(o.st, A.T.sub(b.t, cur)), key, where, "another value is returned than was removed", o.st)
					}
					delete(m2, p.k)
				case p.fn == put:
					v := b.t
					if present {
						v = A.T.add(v, cur)
					}
					if A.zeroIn(o.st, v) {
						delete(m2, p.k)
					} else if A.knownNonzero(o.st, v) {
						m2[p.k] = v
					} else {
						R.check(false, key, where, "a value is stored without a test for zero", o.st)
						continue
					}
				case p.zero:
					delete(m2, p.k)
				default:
					m2[p.k] = b.t
				}
				cont(o.st, m2, h)
			}
			R.check(len(outs) > 0, key, where, "never returns", nil)
		})
	}
	newTree := func() (Val, *State) {
		o := A.single(A.call(nw, nil, nil, A.newState(), nw.Pos()), nw)
		return o.rets[0], o.st
	}
	R.guard(A, "tree sequences", func() {
		t, st := newTree()
		universe := []uint64{0, 1, 2}
		var rec func(st *State, model map[uint64]*Term, d int, hist string)
		rec = func(st *State, model map[uint64]*Term, d int, hist string) {
			audit(st, t, model, append(universe, 7), hist, true)
			if d == 0 {
				return
			}
			for _, k := range universe {
				ops := []op{{name: "Insert", fn: ins, k: k}, {name: "Remove", fn: rem, k: k}}
				if d <= 2 {
					ops = append(ops, op{name: "InsertZero", fn: ins, k: k, zero: true}, op{name: "InsertNegative", fn: ins, k: k, neg: true}, op{name: "InsertNoOverwrite", fn: insNo, k: k}, op{name: "Put", fn: put, k: k, acc: 1}, op{name: "PutNegative", fn: put, k: k, acc: 2})
				}
				for _, p := range ops {
					if _, present := model[k]; !present && p.fn == rem && d < depth {
						continue
					}
					apply(st, t, model, p, hist, func(s *State, m map[uint64]*Term, h string) { rec(s, m, d-1, h) })
				}
			}
		}
		rec(st, map[uint64]*Term{}, depth, "")
	})
	R.guard(A, "insertion orders", func() {
		t, st := newTree()
		var rec func(st *State, model map[uint64]*Term, left []uint64, hist string)
		rec = func(st *State, model map[uint64]*Term, left []uint64, hist string) {
			if len(left) == 0 {
				audit(st, t, model, nil, hist, true)
				for i := 0; i < perm; i++ {
					apply(st, t, model, op{name: "Remove", fn: rem, k: uint64(i)}, hist, func(s *State, m map[uint64]*Term, h string) {
						audit(s, t, m, nil, h, false)
						// and once more from the reduced tree
						apply(s, t, m, op{name: "Remove", fn: rem, k: uint64((i + 1) % perm)}, h, func(s *State, m map[uint64]*Term, h string) { audit(s, t, m, nil, h, false) })
						apply(s, t, m, op{name: "Insert", fn: ins, k: uint64(i)}, h, func(s *State, m map[uint64]*Term, h string) { audit(s, t, m, nil, h, false) })
					})
				}
				return
			}
			audit(st, t, model, nil, hist, false)
			for i, k := range left {
				rest := append(append([]uint64{}, left[:i]...), left[i+1:]...)
				apply(st, t, model, op{name: "Insert", fn: ins, k: k}, hist, func(s *State, m map[uint64]*Term, h string) { rec(s, m, rest, h) })
			}
		}
		var all []uint64
		for i := 0; i < perm; i++ {
			all = append(all, uint64(i))
		}
		rec(st, map[uint64]*Term{}, all, "")
	})
	// long monotone and alternating sequences trigger rebalancing
	R.guard(A, "long sequences", func() {
		for _, dir := range []string{"ascending", "descending", "inward", "outward"} {
			t, st := newTree()
			n := 24
			model := map[uint64]*Term{}
			hist := " " + dir
			for i := 0; i < n; i++ {
				k := uint64(i)
				switch dir {
				case "descending":
					k = uint64(n - 1 - i)
				case "inward":
					if i%2 == 1 {
						k = uint64(n - 1 - i/2)
					} else {
						k = uint64(i / 2)
					}
				case "outward":
					if i%2 == 1 {
						k = uint64(n/2 - 1 - i/2)
					} else {
						k = uint64(n/2 + i/2)
					}
				}
				done := false
				apply(st, t, model, op{name: "Insert", fn: ins, k: k}, hist, func(s *State, m map[uint64]*Term, h string) {
					st, model, done = s, m, true
				})
				if !done {
					break
				}
				audit(st, t, model, nil, fmt.Sprintf("%s, %d insertions", hist, i+1), i%6 == 5)
			}
			for i := 0; i < n; i += 5 {
				apply(st, t, model, op{name: "Remove", fn: rem, k: uint64(i)}, hist, func(s *State, m map[uint64]*Term, h string) { st, model = s, m })
				audit(st, t, model, nil, fmt.Sprintf("%s, removal of %d", hist, i), true)
			}
		}
	})
	// constructors
	if fn := R.anchor("utils", "", "NewSparseArrayFromArray"); fn != nil {
		for _, cs := range [][]coef{{}, {cAny}, {cAny, cAny}, {cNZ, cZero, cNZ}, {cZero}, {cAny, cNZ, cAny, cOne}} {
			key := fmt.Sprintf("NewSparseArrayFromArray %v", cs)
			R.guard(A, key, func() {
				st := A.newState()
				c := A.coefs("c", cs)
				want := map[uint64]*Term{}
				for i, b := range c {
					want[uint64(i)] = b.t
				}
				for _, o := range A.call(fn, []Val{A.frozenBigs(st, "array", c)}, nil, st, fn.Pos()) {
					if o.panicked {
						R.check(false, key, R.P.pos(fn.Pos()), "panics: "+o.msg, o.st)
						continue
					}
					if got, ok := R.treePoly(A, o.st, o.rets[0], key, R.P.pos(fn.Pos())); ok {
						m := A.sameSparse(o.st, got, want)
						R.check(m == "", key, R.P.pos(fn.Pos())+" "+funcKey(fn), m, o.st)
					}
				}
			})
		}
	}
	R.keyUse()
	R.eventsAs(A, R.prop, "mutates")
	R.counts["states_audited"] = audits
	R.absorb(A)
}

// nodesOf collects the node objects of a tree.
func (A *Analysis) nodesOf(st *State, v Val, out map[int]bool) {
	f := A.P.treeFields()
	p, ok := v.(VPtr)
	if !ok {
		return
	}
	s, ok := loadPath(st.get(p.obj).val, p.path).(VStruct)
	if !ok {
		return
	}
	var walk func(n Val)
	walk = func(n Val) {
		np, ok := n.(VPtr)
		if !ok || out[np.obj] {
			return
		}
		out[np.obj] = true
		if x, ok := st.get(np.obj).val.(VStruct); ok {
			for _, k := range f.kids {
				walk(x.f[k])
			}
		}
	}
	walk(s.f[f.root])
}

// keyUse: keys are only compared and moved by the tree, so that the analysed
// orders stand for all keys.
func (R *Report) keyUse() {
	n := 0
	for _, fn := range R.P.funcs {
		if fn.Pkg != R.P.pkgs["utils"] || fn.Signature.Recv() == nil {
			continue
		}
		rt := fn.Signature.Recv().Type()
		if !isPtrTo(rt, "AvlNode") && !isPtrTo(rt, "AvlTree") {
			continue
		}
		isKey := func(t types.Type) bool {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Kind() == types.Uint
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				bad := ""
				switch in := in.(type) {
				case *ssa.BinOp:
					if !isKey(in.X.Type()) {
						continue
					}
					n++
					switch in.Op {
					case token.EQL, token.NEQ, token.LSS, token.GTR, token.LEQ, token.GEQ:
					default:
						bad = "a key enters arithmetic"
					}
				case *ssa.Convert:
					if !isKey(in.X.Type()) {
						continue
					}
					n++
					if k := in.Type().Underlying().(*types.Basic).Kind(); k != types.Int && k != types.Int64 && k != types.Uint64 && k != types.Uintptr && k != types.Uint {
						bad = "a key is narrowed"
					}
				}
				if bad != "" {
					R.check(false, "keys in "+funcKey(fn), R.P.pos(in.Pos())+" "+funcKey(fn), bad, nil)
				}
			}
		}
	}
	R.check(n > 0, "keys", "utils", "no use of keys was found in the tree", nil)
	R.counts["key_uses"] = n
}
