package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// A01: every operation of the extension tower computes the defining formula
// for arbitrary integer representatives and every full-operand alias pattern.

type towerOp struct {
	typ, name string
	// spec gets the terms of the operands (excluding the receiver) in parameter order.
	spec func(w Tower, a [][]*Term) []*Term
	inv  bool // result*operand = 1
}

func towerOps() []towerOp {
	var ops []towerOp
	add := func(typ, name string, f func(w Tower, a [][]*Term) []*Term) {
		ops = append(ops, towerOp{typ: typ, name: name, spec: f})
	}
	id := func(w Tower, a [][]*Term) []*Term { return a[0] }
	for _, t := range []string{"gfP2", "gfP6", "gfP12"} {
		n := map[string]int{"gfP2": 2, "gfP6": 6, "gfP12": 12}[t]
		add(t, "Set", id)
		add(t, "SetZero", func(w Tower, a [][]*Term) []*Term {
			r := make([]*Term, n)
			for i := range r {
				r[i] = w.T.zero
			}
			return r
		})
		add(t, "SetOne", func(w Tower, a [][]*Term) []*Term {
			r := make([]*Term, n)
			for i := range r {
				r[i] = w.T.zero
			}
			r[n-1] = w.T.one
			return r
		})
		each := func(f func(w Tower, x, y *Term) *Term) func(w Tower, a [][]*Term) []*Term {
			return func(w Tower, a [][]*Term) []*Term {
				r := make([]*Term, n)
				for i := range r {
					var y *Term
					if len(a) > 1 && len(a[1]) == n {
						y = a[1][i]
					}
					r[i] = f(w, a[0][i], y)
				}
				return r
			}
		}
		add(t, "Negative", each(func(w Tower, x, y *Term) *Term { return w.T.neg(x) }))
		add(t, "Add", each(func(w Tower, x, y *Term) *Term { return w.T.add(x, y) }))
		add(t, "Sub", each(func(w Tower, x, y *Term) *Term { return w.T.sub(x, y) }))
		add(t, "Double", each(func(w Tower, x, y *Term) *Term { return w.T.add(x, x) }))
	}
	add("gfP2", "Conjugate", func(w Tower, a [][]*Term) []*Term { return l2(w.conj2(w.f2(a[0]))) })
	add("gfP2", "Mul", func(w Tower, a [][]*Term) []*Term { return l2(w.mul2(w.f2(a[0]), w.f2(a[1]))) })
	add("gfP2", "MulScalar", func(w Tower, a [][]*Term) []*Term { return l2(w.scal2(w.f2(a[0]), a[1][0])) })
	add("gfP2", "MulXi", func(w Tower, a [][]*Term) []*Term { return l2(w.xi2(w.f2(a[0]))) })
	add("gfP2", "Square", func(w Tower, a [][]*Term) []*Term { return l2(w.sq2(w.f2(a[0]))) })
	add("gfP6", "Mul", func(w Tower, a [][]*Term) []*Term { return l6(w.mul6(w.f6(a[0]), w.f6(a[1]))) })
	add("gfP6", "Square", func(w Tower, a [][]*Term) []*Term { return l6(w.mul6(w.f6(a[0]), w.f6(a[0]))) })
	add("gfP6", "MulScalar", func(w Tower, a [][]*Term) []*Term { return l6(w.scal6(w.f6(a[0]), w.f2(a[1]))) })
	add("gfP6", "MulGFP", func(w Tower, a [][]*Term) []*Term { return l6(w.gfp6(w.f6(a[0]), a[1][0])) })
	add("gfP6", "MulTau", func(w Tower, a [][]*Term) []*Term { return l6(w.tau6(w.f6(a[0]))) })
	add("gfP6", "Frobenius", func(w Tower, a [][]*Term) []*Term { return l6(w.frob6(w.f6(a[0]))) })
	add("gfP6", "FrobeniusP2", func(w Tower, a [][]*Term) []*Term { return l6(w.frobP26(w.f6(a[0]))) })
	add("gfP12", "Conjugate", func(w Tower, a [][]*Term) []*Term { return l12(w.conj12(w.f12(a[0]))) })
	add("gfP12", "Frobenius", func(w Tower, a [][]*Term) []*Term { return l12(w.frob12(w.f12(a[0]))) })
	add("gfP12", "FrobeniusP2", func(w Tower, a [][]*Term) []*Term { return l12(w.frobP212(w.f12(a[0]))) })
	add("gfP12", "Mul", func(w Tower, a [][]*Term) []*Term { return l12(w.mul12(w.f12(a[0]), w.f12(a[1]))) })
	add("gfP12", "Square", func(w Tower, a [][]*Term) []*Term { return l12(w.mul12(w.f12(a[0]), w.f12(a[0]))) })
	add("gfP12", "MulScalar", func(w Tower, a [][]*Term) []*Term {
		x, b := w.f12(a[0]), w.f6(a[1])
		return l12(F12{w.mul6(x.x, b), w.mul6(x.y, b)})
	})
	for _, t := range []string{"gfP2", "gfP6", "gfP12"} {
		ops = append(ops, towerOp{typ: t, name: "Invert", inv: true})
	}
	return ops
}

func mulLeaves(w Tower, a, b []*Term) []*Term {
	switch len(a) {
	case 2:
		return l2(w.mul2(w.f2(a), w.f2(b)))
	case 6:
		return l6(w.mul6(w.f6(a), w.f6(b)))
	}
	return l12(w.mul12(w.f12(a), w.f12(b)))
}

// partitions enumerates the ways to identify the members of {0..n-1}
// (restricted growth strings).
func partitions(n int) [][]int {
	var out [][]int
	var rec func(p []int, m int)
	rec = func(p []int, m int) {
		if len(p) == n {
			out = append(out, append([]int{}, p...))
			return
		}
		for i := 0; i <= m; i++ {
			nm := m
			if i == m {
				nm++
			}
			rec(append(p, i), nm)
		}
	}
	if n == 0 {
		return [][]int{{}}
	}
	rec(nil, 0)
	return out
}

func isPtrTo(t types.Type, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == name
}

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBigInt(p.Elem())
}

func terms(b []*BigVal) []*Term {
	r := make([]*Term, len(b))
	for i, x := range b {
		r[i] = x.t
	}
	return r
}

// pairingAnalysis prepares an interpreter over GF(p) with the pool contracts.
func pairingAnalysis(R *Report) *Analysis {
	A := newAnalysis(R.P, bnP, R.seed)
	if err := A.initGlobals(); err != nil {
		R.bad(R.prop+"/init", "package initialisation", "cannot be established: "+err.Error(), nil)
	}
	A.installPool()
	return A
}

// freshPool is a non-nil scratch pool.
func (A *Analysis) freshPool(st *State) Val {
	t := A.P.typ("pairing", "bnPool")
	if t == nil {
		return VNil{}
	}
	return VPtr{obj: A.alloc(st, &Obj{val: A.zeroVal(t), typ: t, tag: "scratch pool"})}
}

// callWith builds arguments for fn: operands of the receiver's type follow the
// alias pattern, scalars and other operands are separate.
type operandSet struct {
	args  []Val
	ops   [][]*Term // terms of the parameters that are field elements or scalars
	ids   [][]int   // their cells
	recv  Val
	alias string
}

func (A *Analysis) operands(st *State, fn *ssa.Function, part []int, leaf func(arg int, path string) *BigVal) (*operandSet, bool) {
	sig := fn.Signature
	recvT := sig.Recv().Type()
	var same []int // indices into fn.Params sharing the receiver's type
	for i, p := range fn.Params {
		if types.Identical(p.Type(), recvT) {
			same = append(same, i)
		}
	}
	os := &operandSet{args: make([]Val, len(fn.Params))}
	cls := map[int]Val{}
	for k, i := range same {
		c := part[k]
		v, ok := cls[c]
		if !ok {
			arg := i
			v = A.build(st, recvT.Underlying().(*types.Pointer).Elem(), fmt.Sprintf("arg%d", i), func(path string) *BigVal { return leaf(arg, path) })
			cls[c] = v
		} else {
			os.alias += fmt.Sprintf(" %s=%s", fn.Params[same[firstOf(part, c)]].Name(), fn.Params[i].Name())
		}
		os.args[i] = v
	}
	for i, p := range fn.Params {
		if os.args[i] != nil {
			continue
		}
		t := p.Type()
		switch {
		case isPtrTo(t, "bnPool"):
			os.args[i] = A.freshPool(st)
		case isBigPtr(t), isPtrTo(t, "gfP2"), isPtrTo(t, "gfP6"), isPtrTo(t, "gfP12"), isPtrTo(t, "curvePoint"), isPtrTo(t, "twistPoint"):
			arg := i
			os.args[i] = A.build(st, t.Underlying().(*types.Pointer).Elem(), fmt.Sprintf("arg%d", i), func(path string) *BigVal { return leaf(arg, path) })
		default:
			return nil, false
		}
	}
	os.recv = os.args[0]
	for i, p := range fn.Params {
		if i == 0 || isPtrTo(p.Type(), "bnPool") {
			continue
		}
		l, ok := A.leaves(st, os.args[i])
		if !ok {
			return nil, false
		}
		os.ops = append(os.ops, terms(l))
		os.ids = append(os.ids, A.leafIDs(st, os.args[i]))
	}
	return os, true
}

func firstOf(part []int, c int) int {
	for i, x := range part {
		if x == c {
			return i
		}
	}
	return 0
}

func countSame(fn *ssa.Function) int {
	n := 0
	for _, p := range fn.Params {
		if types.Identical(p.Type(), fn.Params[0].Type()) {
			n++
		}
	}
	return n
}

func checkTower(R *Report) {
	R.rule = "Value numbering over GF(p): after each tower operation, called with operands that are arbitrary integer representatives under every full-operand alias pattern, each coefficient of the result carries the value number of the defining formula of the field extension; operands that are not the output are unchanged; zero/one tests answer exactly; normalisation yields the canonical representative."
	R.bounds = "none: all operand values are symbolic; identities are decided at a random point of the 254-bit field."
	A := pairingAnalysis(R)
	w := Tower{A.T}
	found := 0
	for _, op := range towerOps() {
		fn := R.P.method("pairing", op.typ, op.name)
		if fn == nil {
			R.note("%s.%s is not present", op.typ, op.name)
			continue
		}
		found++
		for _, part := range partitions(countSame(fn)) {
			key := fmt.Sprintf("%s.%s %v", op.typ, op.name, part)
			R.guard(A, key, func() {
				st := A.newState()
				os, ok := A.operands(st, fn, part, func(arg int, path string) *BigVal {
					return A.bigAny(A.T.atom(path))
				})
				if !ok {
					A.fail(fn.Pos(), "unexpected parameter types")
				}
				A.callerMark = A.nextObj
				outs := A.call(fn, os.args, nil, st, fn.Pos())
				for _, o := range outs {
					where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
					if o.panicked {
						R.bad(key, where, "panics: "+o.msg, R.trace(o.st))
						continue
					}
					got, ok := A.leaves(o.st, os.recv)
					if !ok {
						R.bad(key, where, "the receiver is damaged", R.trace(o.st))
						continue
					}
					if op.inv {
						prod := mulLeaves(w, terms(got), os.ops[0])
						for i, t := range prod {
							want := A.T.zero
							if i == len(prod)-1 {
								want = A.T.one
							}
							R.check(o.st.env.eq(t, want), key, where, fmt.Sprintf("result·operand is not 1 (coefficient %d)%s", i, os.alias), o.st)
						}
					} else {
						want := op.spec(w, os.ops)
						for i, t := range want {
							R.check(i < len(got) && o.st.env.eq(got[i].t, t), key, where, fmt.Sprintf("coefficient %d is %v, not the defining formula%s", i, got[i].t, os.alias), o.st)
						}
					}
					// a returned element is the receiver
					for _, rv := range o.rets {
						if l, ok := A.leaves(o.st, rv); ok && len(l) == len(got) {
							for i := range l {
								R.check(o.st.env.eq(l[i].t, got[i].t), key, where, "the returned element differs from the receiver"+os.alias, o.st)
							}
						}
					}
					// inputs that are not the output are unchanged
					rid := map[int]bool{}
					for _, id := range A.leafIDs(o.st, os.recv) {
						rid[id] = true
					}
					for k, ids := range os.ids {
						for j, id := range ids {
							if rid[id] {
								continue
							}
							v, ok := o.st.get(id).val.(VBig)
							R.check(ok && o.st.env.eq(v.b.t, os.ops[k][j]), key, where, fmt.Sprintf("operand %d is modified%s", k, os.alias), o.st)
						}
					}
				}
			})
		}
	}
	// normalisation and tests
	for _, typ := range []string{"gfP2", "gfP6", "gfP12"} {
		n := map[string]int{"gfP2": 2, "gfP6": 6, "gfP12": 12}[typ]
		if fn := R.P.method("pairing", typ, "Minimal"); fn != nil {
			found++
			key := typ + ".Minimal"
			R.guard(A, key, func() {
				st := A.newState()
				os, _ := A.operands(st, fn, []int{0}, func(arg int, path string) *BigVal { return A.bigAny(A.T.atom(path)) })
				for _, o := range A.call(fn, os.args, nil, st, fn.Pos()) {
					got, _ := A.leaves(o.st, os.recv)
					for i, g := range got {
						R.check(!o.panicked && A.isCanon(g) && o.st.env.eq(g.t, A.T.atom(leafName("arg0", typ, i))), key, R.P.pos(fn.Pos())+" "+funcKey(fn), fmt.Sprintf("coefficient %d is not the canonical representative: %v", i, g), o.st)
					}
				}
			})
		}
		for _, name := range []string{"IsZero", "IsOne"} {
			fn := R.P.method("pairing", typ, name)
			if fn == nil {
				continue
			}
			found++
			// class -1: the element tested for; class i: coefficient i differs from it
			for cls := -1; cls < n; cls++ {
				key := fmt.Sprintf("%s.%s class %d", typ, name, cls)
				R.guard(A, key, func() {
					st := A.newState()
					idx := 0
					os, _ := A.operands(st, fn, []int{0}, func(arg int, path string) *BigVal {
						i := idx
						idx++
						target := int64(0)
						if name == "IsOne" && i == n-1 {
							target = 1
						}
						if cls == -1 {
							if typ == "gfP12" {
								// any representative of the residue
								return A.bigAny(A.T.constI(target))
							}
							return A.bigConst(big.NewInt(target))
						}
						b := A.bigAny(A.T.atom(path))
						if typ != "gfP12" {
							b = A.bigCanon(A.T.atom(path))
						}
						if i == cls {
							st.facts = append(st.facts, A.T.sub(b.t, A.T.constI(target)))
							if target == 0 {
								b = &BigVal{t: b.t, lo: b.lo, hi: b.hi, exact: b.exact}
							}
						}
						return b
					})
					for _, o := range A.call(fn, os.args, nil, st, fn.Pos()) {
						where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
						if o.panicked {
							R.bad(key, where, "panics: "+o.msg, R.trace(o.st))
							continue
						}
						b, ok := o.rets[0].(VBool)
						if ok && !b.known {
							t, f := A.decide(b.cond, o.st, fn.Pos())
							if cls == -1 {
								R.check(f == nil, key, where, "the test may answer false for the element itself", f)
							} else {
								R.check(t == nil, key, where, fmt.Sprintf("the test may answer true although coefficient %d differs", cls), t)
							}
							continue
						}
						R.check(ok && b.b == (cls == -1), key, where, fmt.Sprintf("the test answers %v for class %d (-1: the element itself, i: coefficient i differs)", b.b, cls), o.st)
					}
				})
			}
		}
	}
	R.counts["operations"] = found
	if found < 20 {
		R.bad("A01/anchors", "pairing", "the tower operations were not found", nil)
	}
	R.eventsAs(A, "A01", "mutates")
	R.absorb(A)
}

func leafName(root, typ string, i int) string {
	xy := []string{".x", ".y"}
	xyz := []string{".x", ".y", ".z"}
	switch typ {
	case "gfP2":
		return root + xy[i]
	case "gfP6":
		return root + xyz[i/2] + xy[i%2]
	}
	return root + xy[i/6] + xyz[(i%6)/2] + xy[i%2]
}
