package main

import (
	"fmt"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exponent domain: an element of a cyclic group is represented by its discrete
// logarithm; its coordinates are uninterpreted functions of that logarithm, so
// plain copies of coordinates transport it and everything else loses it.

type GroupModel struct {
	tag      string
	typ      string // type name in package pairing
	n        int    // coordinates
	additive bool
}

var grpCurve = GroupModel{"g1", "curvePoint", 4, true}
var grpTwist = GroupModel{"g2", "twistPoint", 8, true}
var grpF12 = GroupModel{"gt", "gfP12", 12, false}
var grpF2 = GroupModel{"f2", "gfP2", 2, false}

func (g GroupModel) leaf(T *TermTable, e *Term, i int) *Term {
	return T.uf(fmt.Sprintf("%s#%d", g.tag, i), e)
}

// logOf recognises the element stored at v.
func (A *Analysis) logOf(st *State, v Val, g GroupModel) (*Term, bool) {
	l, ok := A.leaves(st, v)
	if !ok || len(l) != g.n {
		return nil, false
	}
	// the identity
	if g.additive {
		zero := true
		for i, b := range l {
			if g.isZ(i) && !(b.t.op == OpConst && b.t.k.Sign() == 0) {
				zero = false
			}
		}
		if zero {
			return A.T.zero, true
		}
	} else {
		one := true
		for i, b := range l {
			want := A.T.zero
			if i == g.n-1 {
				want = A.T.one
			}
			if b.t != want {
				one = false
			}
		}
		if one {
			return A.T.zero, true
		}
	}
	var e *Term
	for i, b := range l {
		if g.additive && g.isT(i) {
			continue // redundant coordinate
		}
		if b.t.op != OpUF || b.t.name != fmt.Sprintf("%s#%d", g.tag, i) {
			return nil, false
		}
		if e == nil {
			e = b.t.args[0]
		} else if e != b.t.args[0] && !st.env.eq(e, b.t.args[0]) {
			return nil, false
		}
	}
	return e, true
}

func (g GroupModel) isZ(i int) bool {
	w := g.n / 4
	return i/w == 2
}
func (g GroupModel) isT(i int) bool {
	w := g.n / 4
	return i/w == 3
}

func (A *Analysis) putLog(st *State, v Val, g GroupModel, e *Term) bool {
	ids := A.leafIDs(st, v)
	if len(ids) != g.n {
		return false
	}
	for i, id := range ids {
		A.setBig(st, VPtr{obj: id}, A.bigAny(g.leaf(A.T, e, i)), 0)
	}
	return true
}

func (A *Analysis) newLog(st *State, g GroupModel, name string, e *Term) Val {
	t := A.P.typ("pairing", g.typ)
	if t == nil {
		A.fail(0, "type %s was not found", g.typ)
	}
	i := -1
	return A.build(st, t, name, func(string) *BigVal { i++; return A.bigAny(g.leaf(A.T, e, i)) })
}

// groupContracts installs the group law in the exponent domain for the named
// operations of g's type; entry (when given) is never replaced at depth 0.
func (A *Analysis) groupContracts(g GroupModel, ops ...string) {
	for _, op := range ops {
		op := op
		fn := A.P.method("pairing", g.typ, op)
		if fn == nil {
			continue
		}
		key := funcKey(fn)
		A.contracts[key] = func(A *Analysis, c *callCtx) []Outcome {
			if len(A.stack) == 0 {
				return nil
			}
			get := func(i int) *Term {
				e, ok := A.logOf(c.st, c.args[i], g)
				if !ok {
					A.event(c.st, "unknown-operand", fmt.Sprintf("operand %d of %s is not a value computed from the inputs", i, key), c.pos)
					return A.T.freshAtom("lost")
				}
				return e
			}
			bigArg := func(i int) *Term {
				b := A.bigAt(c.st, c.args[i], c.pos)
				return b.t
			}
			var e *Term
			switch op {
			case "Add":
				e = A.T.add(get(1), get(2))
			case "Double":
				e = A.T.scale(get(1), 2)
			case "Negative":
				e = A.T.neg(get(1))
			case "MakeAffine":
				e = get(0)
			case "IsInfinity":
				x := get(0)
				if c.st.env.isZero(x) {
					return one1(c.st, VBool{known: true, b: true})
				}
				return one1(c.st, VBool{cond: &Cond{kind: "zero", t: x}})
			case "ScalarMul":
				e = A.T.mul(get(1), bigArg(2))
			case "Mul":
				if g.additive {
					e = A.T.mul(get(1), bigArg(2))
				} else {
					e = A.T.add(get(1), get(2))
				}
			case "Exp":
				e = A.T.mul(get(1), bigArg(2))
			case "Square":
				e = A.T.scale(get(1), 2)
			case "Invert":
				e = A.T.neg(get(1))
			default:
				return nil
			}
			if !A.putLog(c.st, c.args[0], g, e) {
				return nil
			}
			if c.sig.Results().Len() > 0 {
				return one1(c.st, c.args[0])
			}
			return one1(c.st)
		}
	}
}

// exponents is the family of loop bounds the ladders are unrolled for: every
// value below 40 and, for lengths around the word and field boundaries, the
// sparse, dense and mixed bit patterns.
func exponents(thorough bool) []*big.Int {
	var out []*big.Int
	small := int64(40)
	if thorough {
		small = 1100
	}
	for k := int64(0); k < small; k++ {
		out = append(out, big.NewInt(k))
	}
	lens := []int{7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 191, 192, 193, 253, 254, 255, 256, 257, 320, 384, 512, 513}
	if thorough {
		lens = nil
		for i := 6; i < 270; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 511, 512, 513, 767, 768, 1023, 1024, 1025, 3060)
	}
	for _, b := range []*big.Int{bnOrder, bnP, bnU} {
		for d := int64(-1); d <= 1; d++ {
			out = append(out, new(big.Int).Add(b, big.NewInt(d)))
		}
		out = append(out, new(big.Int).Lsh(b, 1))
	}
	x := uint64(0x9e3779b97f4a7c15)
	for _, n := range lens {
		top := new(big.Int).Lsh(big.NewInt(1), uint(n-1))
		ones := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1))
		mix := new(big.Int).Set(top)
		for i := 0; i < n-1; i++ {
			x = x*6364136223846793005 + 1442695040888963407
			if x>>63 == 1 {
				mix.SetBit(mix, i, 1)
			}
		}
		out = append(out, top, ones, mix, new(big.Int).Or(top, big.NewInt(1)))
	}
	return out
}

func shortBig(k *big.Int) string {
	if k.BitLen() < 40 {
		return k.String()
	}
	return fmt.Sprintf("0x%s (%d bits)", k.Text(16), k.BitLen())
}

func checkLadders(R *Report) {
	R.rule = "Constant propagation through every double-and-add / square-and-multiply routine with a symbolic base: group elements are abstracted to their exponent, loops are unrolled for constant scalars, and the exponent that reaches the result must be exactly scalar times base, with the operands unchanged; covers output = base."
	R.bounds = "scalars: all values below 40 (thorough: 1100) and dense, sparse and mixed patterns for bit lengths up to 513 (thorough: every length to 269 and up to 3060); negative scalars are out of scope."
	// exponents live in the integers; a prime far larger than any of them
	mod := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 4423), big.NewInt(1))
	A := newAnalysis(R.P, mod, R.seed)
	if err := A.initGlobals(); err != nil {
		R.bad("A03/init", "package initialisation", "cannot be established: "+err.Error(), nil)
		return
	}
	A.installPool()
	ks := exponents(R.thorough())
	for _, g := range []struct {
		g    GroupModel
		op   string
		laws []string
	}{
		{grpCurve, "Mul", []string{"Add", "Double", "IsInfinity", "Negative"}},
		{grpTwist, "Mul", []string{"Add", "Double", "IsInfinity", "Negative"}},
		{grpF2, "Exp", []string{"Mul", "Square", "Invert"}},
		{grpF12, "Exp", []string{"Mul", "Square", "Invert"}},
	} {
		fn := R.P.method("pairing", g.g.typ, g.op)
		if fn == nil {
			R.bad("A03/anchor "+g.g.typ+"."+g.op, "pairing", "the operation was not found", nil)
			continue
		}
		A.contracts = map[string]Contract{}
		A.installPool()
		A.groupContracts(g.g, g.laws...)
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, alias := range []bool{false, true} {
			for _, k := range ks {
				if alias && k.BitLen() > 70 {
					continue
				}
				key := fmt.Sprintf("%s output=base %v", funcKey(fn), alias)
				st := A.newState()
				a := A.T.atomNZ("base")
				base := A.newLog(st, g.g, "base", a)
				recv := base
				if !alias {
					recv = A.newLog(st, g.g, "old", A.T.atom("old"))
				}
				sc := A.newBig(st, A.bigConst(k), 0)
				args, ok := A.bindArgs(fn, map[string]Val{}, recv, base, sc, A.freshPool(st))
				if !ok {
					R.bad(key, where, "the parameters are not (receiver, base, scalar, pool)", nil)
					break
				}
				R.guard(A, key, func() {
					outs := A.call(fn, args, nil, st, fn.Pos())
					for _, o := range outs {
						if o.panicked {
							R.check(false, key, where, "panics for the scalar "+shortBig(k), o.st)
							continue
						}
						e, ok := A.logOf(o.st, recv, g.g)
						want := A.T.mul(A.T.konst(k), a)
						if !ok {
							R.check(false, key, where, "the result is not a multiple of the base for the scalar "+shortBig(k), o.st)
							continue
						}
						same := o.st.env.eq(e, want)
						if !same && g.g.tag == "g1" {
							// every point of the curve has the group order
							q := o.st.env.eval(A.T.mul(e, A.T.inv(a)))
							for _, v := range []*big.Int{q, new(big.Int).Sub(q, mod)} {
								d := new(big.Int).Sub(v, k)
								same = same || d.BitLen() < 4000 && d.Mod(d, bnOrder).Sign() == 0
							}
						}
						R.check(same, key, where, fmt.Sprintf("for the scalar %s the result is %s", shortBig(k), showMult(A, o.st, e, a)), o.st)
						if !alias {
							b, ok := A.logOf(o.st, base, g.g)
							R.check(ok && o.st.env.eq(b, a), key+" operand", where, "the base is modified", o.st)
						}
						R.check(A.bigAt(o.st, sc, 0).k != nil && A.bigAt(o.st, sc, 0).k.Cmp(k) == 0, key+" scalar", where, "the scalar is modified", o.st)
						if len(o.rets) > 0 {
							R.check(samePtr(o.rets[0], recv), key+" return", where, "the receiver is not returned", o.st)
						}
					}
					R.check(len(outs) > 0, key, where, "never returns", nil)
				})
			}
		}
	}
	R.eventsAs(A, "A03", "unknown-operand")
	R.absorb(A)
	// the scalar field
	F := newAnalysis(R.P, bnOrder, R.seed)
	if err := F.initGlobals(); err != nil {
		R.bad("A03/init", "package initialisation", "cannot be established: "+err.Error(), nil)
		return
	}
	for _, name := range []string{"Exp", "ExpInt"} {
		fn := R.P.method("utils", "Fq", name)
		if fn == nil {
			R.bad("A03/anchor Fq."+name, "utils", "the operation was not found", nil)
			continue
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, k := range ks {
			if k.Cmp(bnOrder) >= 0 || name == "ExpInt" && k.BitLen() > 63 {
				continue
			}
			for bi, bv := range []*BigVal{F.bigCanon(F.T.atomNZ("base")), F.bigConst(bigZero)} {
				if bi == 1 && k.BitLen() > 6 {
					continue
				}
				key := fmt.Sprintf("%s base %d", funcKey(fn), bi)
				st := F.newState()
				base := F.newBig(st, bv, 0)
				var ev Val = F.newBig(st, F.bigConst(k), 0)
				if name == "ExpInt" {
					ev = VInt{c: k.Int64()}
				}
				R.guard(F, key, func() {
					for _, o := range F.call(fn, []Val{F.fqVal(st), base, ev}, nil, st, fn.Pos()) {
						if o.panicked {
							R.check(false, key, where, "panics for the exponent "+shortBig(k), o.st)
							continue
						}
						got := F.bigAt(o.st, o.rets[0], 0)
						want := F.T.powBig(bv.t, k)
						R.check(o.st.env.eq(got.t, want), key, where, "wrong power for the exponent "+shortBig(k), o.st)
						R.check(F.isCanon(got), key+" range", where, "the power is not reduced for the exponent "+shortBig(k), o.st)
					}
				})
			}
		}
	}
	R.absorb(F)
	checkGroupAPI(R)
}

func (T *TermTable) powBig(a *Term, k *big.Int) *Term {
	r := T.one
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = T.mul(r, r)
		if k.Bit(i) == 1 {
			r = T.mul(r, a)
		}
	}
	return r
}

// bindArgs assigns the values to fn's parameters in order, by kind: receiver
// first, then the others by type.
func (A *Analysis) bindArgs(fn *ssa.Function, _ map[string]Val, recv, base, sc, pool Val) ([]Val, bool) {
	args := make([]Val, len(fn.Params))
	for i, p := range fn.Params {
		t := p.Type()
		switch {
		case i == 0:
			args[i] = recv
		case isPtrTo(t, "bnPool"):
			args[i] = pool
		case isBigPtr(t):
			args[i] = sc
		case typeName(t) == typeName(fn.Params[0].Type()):
			args[i] = base
		default:
			return nil, false
		}
	}
	return args, true
}

func showMult(A *Analysis, st *State, e, a *Term) string {
	q := A.T.mul(e, A.T.inv(a))
	v := st.env.eval(q)
	if v.BitLen() < 600 {
		return shortBig(v) + " times the base"
	}
	s := e.String()
	if len(s) > 60 {
		s = s[:60] + "…"
	}
	return strings.TrimSpace(s)
}

// putGen names a package-level point by its logarithm.
func (A *Analysis) putGen(st *State, global string, g GroupModel, e *Term) bool {
	gl := A.P.global("pairing", global)
	if gl == nil {
		return false
	}
	v, po := A.load(st, VPtr{obj: A.globals[gl]}, 0)
	if po != "" {
		return false
	}
	ids := A.leafIDs(st, v)
	if len(ids) != g.n {
		return false
	}
	for i, id := range ids {
		o := *st.get(id)
		o.val = VBig{A.bigAny(g.leaf(A.T, e, i))}
		st.set(id, &o)
	}
	return true
}

// wrapGroup builds a public group element around a model element; nil gives
// the zero value of the type.
func (A *Analysis) wrapGroup(st *State, typ string, inner Val) Val {
	t := A.P.typ("pairing", typ)
	if t == nil {
		A.fail(0, "type %s was not found", typ)
	}
	return VPtr{obj: A.alloc(st, &Obj{val: VStruct{[]Val{inner}}, typ: t, tag: typ})}
}

func (A *Analysis) unwrapGroup(st *State, v Val) Val {
	p, ok := v.(VPtr)
	if !ok {
		return nil
	}
	s, ok := st.get(p.obj).val.(VStruct)
	if !ok || len(s.f) != 1 {
		return nil
	}
	return s.f[0]
}

type groupOp struct {
	name string
	nOps int // group operands
	exp  bool
	spec func(T *TermTable, a, b, k, gen *Term) *Term
}

func checkGroupAPI(R *Report) {
	A := newAnalysis(R.P, bnOrder, R.seed)
	if err := A.initGlobals(); err != nil {
		R.bad("A03/init", "package initialisation", "cannot be established: "+err.Error(), nil)
		return
	}
	A.installPool()
	A.groupContracts(grpCurve, "Add", "Double", "Negative", "Mul", "IsInfinity", "MakeAffine")
	A.groupContracts(grpTwist, "Add", "Double", "Negative", "Mul", "IsInfinity", "MakeAffine")
	A.groupContracts(grpF12, "Mul", "Square", "Invert", "Exp")
	add := groupOp{"Add", 2, false, func(T *TermTable, a, b, k, gen *Term) *Term { return T.add(a, b) }}
	neg := groupOp{"Neg", 1, false, func(T *TermTable, a, b, k, gen *Term) *Term { return T.neg(a) }}
	sm := groupOp{"ScalarMult", 1, true, func(T *TermTable, a, b, k, gen *Term) *Term { return T.mul(a, k) }}
	sb := groupOp{"ScalarBaseMult", 0, true, func(T *TermTable, a, b, k, gen *Term) *Term { return T.mul(gen, k) }}
	for _, t := range []struct {
		typ string
		g   GroupModel
		ops []groupOp
		gen string
	}{{"G1", grpCurve, []groupOp{add, neg, sm, sb}, "curveGen"}, {"G2", grpTwist, []groupOp{add, neg, sm, sb}, "twistGen"}, {"GT", grpF12, []groupOp{add, neg, sm}, ""}} {
		for _, op := range t.ops {
			fn := R.P.method("pairing", t.typ, op.name)
			if fn == nil {
				R.note("%s.%s does not exist", t.typ, op.name)
				continue
			}
			key := funcKey(fn)
			where := R.P.pos(fn.Pos()) + " " + key
			for _, pat := range partitions(op.nOps + 1) {
				for _, nilRecv := range []bool{false, true} {
					if nilRecv && contains(pat[1:], pat[0]) {
						continue
					}
					st := A.newState()
					gen := A.T.atomNZ("generator")
					if t.gen != "" && !A.putGen(st, t.gen, t.g, gen) {
						R.bad("A03/anchor "+t.gen, "pairing", "the generator was not found", nil)
						continue
					}
					logs := map[int]*Term{}
					objs := map[int]Val{}
					var vals []Val
					var es []*Term
					for i, c := range pat {
						if objs[c] == nil {
							e := A.T.atom(fmt.Sprintf("%s%d", t.typ, c))
							if i == 0 && nilRecv {
								objs[c] = A.wrapGroup(st, t.typ, VNil{})
							} else {
								objs[c] = A.wrapGroup(st, t.typ, A.newLog(st, t.g, fmt.Sprintf("operand%d", c), e))
							}
							logs[c] = e
						}
						vals = append(vals, objs[c])
						es = append(es, logs[c])
					}
					es = append(es, nil, nil)
					k := A.T.atom("scalar")
					sc := A.newBig(st, A.exactNN(k), 0)
					args := make([]Val, len(fn.Params))
					vi := 0
					okArgs := true
					for i, p := range fn.Params {
						switch {
						case isPtrTo(p.Type(), t.typ) && vi < len(vals):
							args[i] = vals[vi]
							vi++
						case isBigPtr(p.Type()):
							args[i] = sc
						default:
							okArgs = false
						}
					}
					if !okArgs {
						R.bad(key, where, "the parameters are not the group operands and a scalar", nil)
						continue
					}
					k2 := fmt.Sprintf("%s aliasing %v new receiver %v", key, pat, nilRecv)
					want := op.spec(A.T, es[1], es[2], k, gen)
					R.guard(A, k2, func() {
						n := 0
						for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
							n++
							if o.panicked {
								R.check(false, k2, where, "panics", o.st)
								continue
							}
							e, ok := A.logOf(o.st, A.unwrapGroup(o.st, vals[0]), t.g)
							R.check(ok && o.st.env.eq(e, want), k2, where, "the receiver does not hold the defined group element", o.st)
							R.check(len(o.rets) == 1 && samePtr(o.rets[0], vals[0]), k2+" return", where, "the receiver is not returned", o.st)
							for c, v := range objs {
								if c == pat[0] {
									continue
								}
								e, ok := A.logOf(o.st, A.unwrapGroup(o.st, v), t.g)
								R.check(ok && o.st.env.eq(e, logs[c]), k2+" operand", where, "an operand is modified", o.st)
								for _, x := range A.leafIDs(o.st, A.unwrapGroup(o.st, v)) {
									R.check(!contains(A.leafIDs(o.st, A.unwrapGroup(o.st, vals[0])), x), k2+" sharing", where, "the result shares storage with an operand", o.st)
								}
							}
							R.check(A.bigAt(o.st, sc, 0).t == k, k2+" scalar", where, "the scalar is modified", o.st)
						}
						R.check(n > 0, k2, where, "never returns", nil)
					})
				}
			}
		}
	}
	R.eventsAs(A, "A03", "unknown-operand")
	R.absorb(A)
}
