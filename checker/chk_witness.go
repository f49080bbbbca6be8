package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D04: witness calculation solves the system or reports that it cannot.

func (P *Program) solvers() (dense, sparse *ssa.Function) {
	return P.fn(cc, "CalculateWitness"), P.fn(cc, "CalculateSparseWitness")
}

type witInput struct {
	name string
	v    *BigVal
}

func (A *Analysis) inputArgs(st *State, in []witInput) Val {
	t := A.typ("InputArgument")
	var e []Val
	for _, i := range in {
		e = append(e, A.structOf("InputArgument", map[string]Val{"identifier": str(i.name), "value": A.frozenBig(st, "input "+i.name, i.v)}))
	}
	return A.sliceOf(st, t, e)
}

// witness is one successful outcome: the wires and the path they hold on.
type witness struct {
	st *State
	w  []*Term
}

// solved interprets a solver; refused are the outcomes with an error.
func (R *Report) solved(A *Analysis, fn *ssa.Function, sys, in Val, st *State, key, what string) (ok []witness, refused []*State) {
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	for _, o := range A.call(fn, []Val{sys, in}, nil, st, fn.Pos()) {
		if o.panicked {
			R.check(false, key+" panic", R.P.pos(o.pos), "witness calculation panics: "+o.msg+" ("+what+")", o.st)
			continue
		}
		if _, isnil := o.rets[1].(VNil); !isnil {
			refused = append(refused, o.st)
			continue
		}
		bs, good := A.bigList(o.st, o.rets[0])
		if !good {
			R.check(false, key+" vector", where, "the witness has an undefined entry ("+what+")", o.st)
			continue
		}
		ok = append(ok, witness{o.st, terms(bs)})
	}
	return
}

// systemHolds checks every row of the system under a witness.
func (R *Report) systemHolds(A *Analysis, r *r1, wit witness, key, where, what string) {
	T := A.T
	if len(wit.w) != r.wl {
		R.check(false, key+" length", where, fmt.Sprintf("the witness has %d entries, the system %d wires (%s)", len(wit.w), r.wl, what), wit.st)
		return
	}
	R.check(A.zeroIn(wit.st, T.sub(wit.w[0], T.one)), key+" one", where, "the first wire is not the constant 1 ("+what+")", wit.st)
	for j := 0; j < r.n; j++ {
		l, rr, o, e := A.dot(r.rows[0][j], wit.w), A.dot(r.rows[1][j], wit.w), A.dot(r.rows[3][j], wit.w), A.dot(r.rows[2][j], wit.w)
		eq := T.sub(T.add(T.mul(l, rr), A.abscissa(wit.st, e)), o)
		R.check(A.zeroIn(wit.st, eq), key+" rows", where, fmt.Sprintf("the calculated witness does not satisfy constraint %d of %d (%s)", j, r.n, what), wit.st)
	}
}

// gateValues gives every gate its value; stuck tells that a divisor vanishes or
// an equality fails.
func (A *Analysis) gateValues(st *State, gs []gate, val map[string]*Term) (stuck bool) {
	T := A.T
	bits := map[string]int64{}
	for _, g := range gs {
		switch g.kind {
		case "multiplicationGate":
			if len(g.left) == 1 && g.left[0].wire == g.id {
				d := A.form(g.right, val)
				if A.zeroIn(st, d) {
					return true
				}
				val[g.id] = T.mul(A.form(g.out, val), T.inv(d))
				continue
			}
			val[g.id] = T.mul(A.form(g.left, val), A.form(g.right, val))
		case "additionGate":
			val[g.id] = A.form(g.left, val)
		case "scalarBaseMultiplyGate":
			val[g.id] = A.abscissa(st, A.form(g.expo, val))
		case "zeroOrOneGate":
			val[g.id] = T.uf("bit", val[g.rep], T.constI(bits[g.rep]))
			bits[g.rep]++
		case "equalityGate":
			if !A.zeroIn(st, T.sub(A.form(g.left, val), A.form(g.right, val))) {
				return true
			}
		case "sumCheckGate":
			if !A.zeroIn(st, T.sub(A.form(g.left, val), val[g.rep])) {
				return true
			}
		}
	}
	return false
}

// witnessCases splits the gate lists of D01 into small systems.
func witnessCases(thorough bool) (out []lowerCase) {
	for _, c := range lowerCases(thorough) {
		small := c.name != "products" && c.name != "quotients" && c.name != "equalities" && c.name != "sums" && c.name != "exponentiations"
		if small {
			out = append(out, c)
			continue
		}
		A0 := c // gates are independent of each other: one system for each
		n := len(A0.gates(countingAnalysis))
		for i := 0; i < n; i++ {
			i := i
			d := c
			d.name = fmt.Sprintf("%s %d", c.name, i)
			d.gates = func(A *Analysis) []gate { return c.gates(A)[i : i+1] }
			out = append(out, d)
		}
	}
	self := func(A *Analysis, id string) []fac { return []fac{A.fone(id)} }
	in := []string{"a", "bb", "c"}
	out = append(out,
		// a value is divided by and multiplied with values computed before
		lowerCase{"mixed", []string{"c"}, in, func(A *Analysis) []gate {
			return []gate{
				{kind: "multiplicationGate", id: "71", left: self(A, "71"), right: []fac{A.fw("a", 1), A.fneg("bb", 2), A.fnum("5", 3)}, out: []fac{A.fw("c", 4)}},
				{kind: "multiplicationGate", id: "72", left: []fac{A.fw("71", 5), A.fw("a", 6)}, right: []fac{A.fneg("71", 7)}, out: self(A, "72")},
				{kind: "equalityGate", id: "73", left: []fac{A.fw("72", 8), A.fnum("8", 9)}, right: []fac{A.fw("bb", 10)}, quiet: true},
				{kind: "multiplicationGate", id: "74", left: self(A, "74"), right: []fac{A.fw("72", 11)}, out: []fac{A.fw("71", 12), A.fw("a", 13)}},
				{kind: "scalarBaseMultiplyGate", id: "75", expo: []fac{A.fw("74", 14), A.fneg("a", 15)}},
				{kind: "additionGate", id: "76", left: []fac{A.fw("75", 16), A.fneg("74", 17)}, out: self(A, "76")},
				{kind: "equalityGate", id: "77", left: []fac{A.fw("76", 18)}, right: []fac{A.fw("76", 19), A.fone("c")}, quiet: true},
			}
		}, true},
		// more divisors than one: the unknown moves to the right factor
		lowerCase{"two quotients", nil, in, func(A *Analysis) []gate {
			return []gate{
				{kind: "multiplicationGate", id: "71", left: self(A, "71"), right: []fac{A.fw("a", 1)}, out: []fac{A.fw("c", 4), A.fw("bb", 2)}},
				{kind: "multiplicationGate", id: "72", left: self(A, "72"), right: []fac{A.fw("a", 1), A.fw("71", 7)}, out: []fac{A.fnum("1", 8)}},
			}
		}, false})
	bits := func(A *Analysis, of string) (gs []gate) {
		var sum []fac
		for i := 0; i < A.T.mod.BitLen(); i++ {
			id := fmt.Sprintf("%d%s", i, of)
			gs = append(gs, gate{kind: "zeroOrOneGate", id: id, rep: of})
			sum = append(sum, fac{wire: id, c: A.bigConst(new(big.Int).Lsh(one_, uint(i)))})
		}
		return append(gs, gate{kind: "sumCheckGate", id: "sum" + of, left: sum, rep: of, quiet: true})
	}
	out = append(out,
		lowerCase{"full split of an input", []string{"c"}, in, func(A *Analysis) []gate {
			return append(bits(A, "a"), gate{kind: "multiplicationGate", id: "71", left: []fac{A.fw("0a", 1), A.fw("17a", 2)}, right: []fac{A.fneg("253a", 3)}, out: self(A, "71")})
		}, false},
		lowerCase{"full split of a product", nil, in, func(A *Analysis) []gate {
			gs := []gate{{kind: "multiplicationGate", id: "71", left: []fac{A.fw("a", 1), A.fw("c", 2)}, right: []fac{A.fneg("bb", 3)}, out: self(A, "71")}}
			gs = append(gs, bits(A, "71")...)
			return append(gs, gate{kind: "additionGate", id: "72", left: []fac{A.fw("071", 4), A.fw("571", 5), A.fw("71", 6)}, out: self(A, "72")})
		}, false})
	// a split map may be traversed in any order
	for _, c := range append([]lowerCase{}, out...) {
		if c.name == "splits" || c.name == "chain 3" || c.name == "full split of a product" {
			c.name += backwards
			out = append(out, c)
		}
	}
	return
}

const backwards = " backwards"

func checkWitness(R *Report) {
	R.rule = "Both witness solvers are interpreted on the systems the builders make of gate lists (symbolic coefficients, symbolic inputs) and of compiled programs. On every path without error the vector must have 1 first, the inputs at their positions, a value for each gate equal to the gate's meaning, and satisfy every row; a path with an error must be one on which a divisor vanishes, an equality fails or an input is missing. No path may panic, and inputs and system are not modified."
	R.bounds = "gates with factor lists of up to three entries, chains of up to eight gates, bit sums of up to 13 bits; compiled programs of the language schemas (dense systems without 254-bit splits)."
	dense, sparse := R.P.solvers()
	bd, bs := R.P.builders()
	if dense == nil || sparse == nil || bd == nil || bs == nil {
		R.bad("D04/anchor", cc, "a constraint builder or witness solver was not found", nil)
		return
	}
	countingAnalysis = witnessAnalysis(R)
	cs := witnessCases(R.thorough())
	progs := witnessPrograms(R.thorough())
	direct := directRows(R.thorough())
	R.parallel(2*(len(cs)+len(progs)+len(direct))+2, func(i int, S *Report) {
		fn, build := dense, bd
		if i&1 == 1 {
			fn, build = sparse, bs
		}
		switch k := i / 2; {
		case k < len(cs):
			S.witnessCase(fn, build, cs[k], i&1 == 1)
		case k < len(cs)+len(progs):
			S.witnessProgram(fn, build, progs[k-len(cs)], i&1 == 1)
		case k < len(cs)+len(progs)+len(direct):
			S.witnessRows(fn, direct[k-len(cs)-len(progs)], i&1 == 1)
		default:
			S.witnessInputs(fn, build, i&1 == 1)
		}
	})
}

// countingAnalysis only serves to count the gates of a case.
var countingAnalysis *Analysis

func witnessAnalysis(R *Report) *Analysis {
	A := langAnalysis(R)
	A.zkContracts()
	A.installRand(&drawLog{}, false)
	A.splitBits()
	A.maxSteps = 30_000_000
	return A
}

// splitBits models bits of split values. Only for the lowest two a test of the
// bit itself takes both ways: paths double with every such bit.
func (A *Analysis) splitBits() {
	A.T.bits = A.T.mod.BitLen()
	A.forkDecide = func(c *Cond, st *State) (int, bool) {
		t := c.t
		if c.kind == "cmp" {
			a, b := st.latest(c.cmp.a), st.latest(c.cmp.b)
			t = a.t
			if b.k == nil {
				t = b.t
			}
			if (a.k == nil) == (b.k == nil) || c.set != 2 && c.set != 5 {
				return 0, false
			}
			if a.k != nil && a.k.Sign() != 0 || b.k != nil && b.k.Sign() != 0 {
				return 0, false
			}
		} else if c.kind != "zero" {
			return 0, false
		}
		if t.op != OpUF || t.name != "bit" || t.args[1].op != OpConst || t.args[1].k.Cmp(one_) <= 0 || A.zeroIn(st, t) {
			return 0, false
		}
		zero := c.kind == "zero" || c.set == 2
		if zero == c.neg {
			return 1, true
		}
		return 0, true
	}
}

func (R *Report) witnessCase(fn, build *ssa.Function, c lowerCase, sparse bool) {
	A := witnessAnalysis(R)
	if strings.HasSuffix(c.name, backwards) {
		A.mapOrder = 1
	}
	T := A.T
	key := "D04 " + funcKey(fn) + " " + c.name
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	R.guard(A, key, func() {
		gs := c.gates(A)
		st := A.newState()
		prog := A.program(st, append([]string{"1"}, c.public...), c.inputs)
		r, st := A.lowered(build, prog, A.gateList(st, gs), c.randomize, sparse, st)
		var in []witInput
		for i := range c.inputs {
			// any order
			n := c.inputs[(i*3+1)%len(c.inputs)]
			if len(c.inputs)%3 == 0 {
				n = c.inputs[len(c.inputs)-1-i]
			}
			in = append(in, witInput{n, A.bigCanon(T.atom("in:" + n))})
		}
		ok, refused := R.solved(A, fn, r.val, A.inputArgs(st, in), st, key, c.name)
		values := func(st *State) (map[string]*Term, bool) {
			val := map[string]*Term{"": T.one}
			for _, i := range in {
				val[i.name] = i.v.t
			}
			return val, A.gateValues(st, gs, val)
		}
		for _, w := range ok {
			if w.st.unsolved {
				continue
			}
			R.systemHolds(A, r, w, key, where, c.name)
			if len(w.w) != r.wl {
				continue
			}
			val, stuck := values(w.st)
			R.check(!stuck, key+" accepted", where, "a witness is returned although a divisor vanishes or an equality fails ("+c.name+")", w.st)
			for n, t := range val {
				if j, is := r.index[n]; is && !stuck {
					R.check(A.zeroIn(w.st, T.sub(w.w[j], t)), key+" values", where, "wire "+n+" does not carry the value of its gate or input ("+c.name+")", w.st)
				}
			}
			if c.randomize {
				j := r.index["1@randomIn"]
				_, isAtom := collected(w.w[j])
				R.check(isAtom, key+" randomiser", where, "the randomiser is not drawn at random ("+c.name+")", w.st)
			}
		}
		for _, s := range refused {
			if s.unsolved {
				continue
			}
			_, stuck := values(s)
			R.check(stuck, key+" refused", where, "a satisfiable system is refused ("+c.name+")", s)
		}
		if len(ok) == 0 {
			_, stuck := values(st)
			R.check(stuck, key+" outcome", where, "no path yields a witness ("+c.name+")", st)
		}
	})
	R.counts["systems"]++
	R.operandEvents(A, key)
	R.absorb(A)
}

// collected tells whether a term is a drawn secret.
func collected(t *Term) (string, bool) {
	return t.name, t.op == OpAtom && strings.Contains(t.name, "secret")
}

// witnessPrograms are the schemas that run without a randomiser and splits, and
// one with a split.
func witnessPrograms(thorough bool) (out []lcase) {
	for i, c := range langCases(thorough) {
		if strings.Contains(c.src, "SPLIT") && !thorough && i%4 != 0 {
			continue
		}
		out = append(out, c)
	}
	return
}

func (R *Report) witnessProgram(fn, build *ssa.Function, c lcase, sparse bool) {
	if !sparse && strings.Contains(c.src, "SPLIT") {
		return
	}
	A := langEnv(R, c)
	A.zkContracts()
	A.splitBits()
	A.maxSteps = 60_000_000
	T := A.T
	key := "D04 " + funcKey(fn) + "/" + c.name
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	R.guard(A, key, func() {
		runs, _ := A.compileText(c.src)
		for _, run := range runs {
			st := run.st
			w := &wires{A: A, st: st, val: map[string]*Term{}, bits: map[string]int{}}
			var in []witInput
			for _, i := range A.mainInputs(run) {
				k, _ := valKey(str(i))
				t := T.atomNZ("in:" + i)
				w.val[k] = t
				in = append(in, witInput{i, A.bigCanon(t)})
			}
			if w.read(run.gates) != "" {
				continue // decided by D10
			}
			for _, o := range A.call(build, []Val{run.prog, run.gates, VBool{known: true}}, nil, st, build.Pos()) {
				if o.panicked {
					R.check(false, key+" builder", R.P.pos(o.pos), "the gates of a program are refused: "+o.msg+" ("+c.name+")", o.st)
					continue
				}
				r, keys := A.readR1Keys(o.st, o.rets[0], build.Signature.Results().At(0).Type(), sparse)
				ok, refused := R.solved(A, fn, r.val, A.inputArgs(o.st, in), o.st, key, c.name)
				for _, x := range ok {
					if x.st.unsolved {
						continue
					}
					R.systemHolds(A, r, x, key, where, c.name)
					if len(x.w) != r.wl {
						continue
					}
					for n, t := range w.val {
						j, is := keys[n]
						R.check(is && A.zeroIn(x.st, T.sub(x.w[j], t)), key+" values", where, "a wire does not carry the value of its gate ("+c.name+")", x.st)
					}
					for _, t := range w.checks {
						R.check(A.zeroIn(x.st, t), key+" accepted", where, "a witness is returned although an equality fails ("+c.name+")", x.st)
					}
				}
				for _, s := range refused {
					if s.unsolved {
						continue
					}
					w2 := &wires{A: A, st: s, val: map[string]*Term{}, bits: map[string]int{}}
					for _, i := range in {
						k, _ := valKey(str(i.name))
						w2.val[k] = i.v.t
					}
					stuck := w2.read(run.gates) != ""
					for _, d := range w2.divs {
						stuck = stuck || A.zeroIn(s, d)
					}
					for _, t := range w2.checks {
						stuck = stuck || !A.zeroIn(s, t)
					}
					R.check(stuck, key+" refused", where, "a satisfiable system is refused ("+c.name+")", s)
				}
			}
		}
	})
	R.counts["programs"]++
	R.operandEvents(A, key)
	R.absorb(A)
}

// readR1Keys reads a system whose wires may have computed names.
func (A *Analysis) readR1Keys(st *State, v Val, t types.Type, sparse bool) (*r1, map[string]int) {
	im, _ := A.fieldAt(st, v, t, "indexMap")
	keys := map[string]int{}
	if m, ok := im.(VMap); ok {
		mv := st.get(m.obj).val.(VMapV)
		for i, k := range mv.ks {
			keys[k] = A.intAt(mv.vals[i], "an index")
		}
	}
	r := A.readRows(st, v, t, sparse)
	return r, keys
}

// rowSpec is a system given by its rows: the wires of L, R, E and O. The wires
// a, b, c are inputs, u and v are not; coefficients are symbolic, of either sign.
type rowSpec struct {
	name string
	rows [][4]string
}

func directRows(thorough bool) (out []rowSpec) {
	known := []string{"", "a", "1 b", "c a b"}
	expos := []string{"", "b", "1 c"}
	n := 0
	for s, side := range []int{0, 1, 3} {
		for own, k := range known {
			for x, p := range known {
				for y, q := range known {
					for z, e := range expos {
						n++
						if !thorough && (own+2*x+3*y+z+s)%4 != 0 {
							continue
						}
						var r [4]string
						o := []int{0, 1, 3}
						o = append(o[:s:s], o[s+1:]...)
						r[side], r[o[0]], r[o[1]], r[2] = strings.TrimSpace("u "+k), p, q, e
						if n%3 == 0 {
							r[side] = strings.TrimSpace(k + " u")
						}
						out = append(out, rowSpec{fmt.Sprintf("row %d", n), [][4]string{r}})
					}
				}
			}
		}
	}
	// nothing unknown
	for x, p := range known {
		for y, q := range known {
			for z, e := range expos {
				if !thorough && (x+y+z)%2 != 0 {
					continue
				}
				out = append(out, rowSpec{fmt.Sprintf("check %d %d %d", x, y, z), [][4]string{{p, q, e, known[(x+2*y+1)%4]}}})
			}
		}
	}
	// two wires without value, the second of which a later row defines
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			r := [4]string{"a", "b 1", "c", "b"}
			r[i] += " u"
			if i != j {
				r[j] += " v"
			} else {
				r[i] = "v b a u"
			}
			out = append(out, rowSpec{fmt.Sprintf("two %d %d", i, j), [][4]string{r, {"a", "c", "", "v"}}},
				rowSpec{fmt.Sprintf("defined %d %d", i, j), [][4]string{{"a", "c", "", "v"}, r}},
				rowSpec{fmt.Sprintf("defined twice %d %d", i, j), [][4]string{{"a", "c", "", "v"}, r, {"u", "v", "", "a c"}}})
		}
		r := [4]string{"a", "b", "c", "1"}
		r[i] = "u"
		r[(i+1)%4] = "u b"
		out = append(out, rowSpec{fmt.Sprintf("same %d", i), [][4]string{r}})
	}
	return
}

// witnessRows decides a system given by rows.
func (R *Report) witnessRows(fn *ssa.Function, c rowSpec, sparse bool) {
	A := witnessAnalysis(R)
	if strings.HasSuffix(c.name, backwards) {
		A.mapOrder = 1
	}
	T := A.T
	key := "D04 " + funcKey(fn) + " " + c.name
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	what := fmt.Sprintf("%v", c.rows)
	R.guard(A, key, func() {
		st := A.newState()
		names := []string{"1", "c", "u", "a", "v", "b"}
		index := map[string]int{}
		var pos []Val
		for i, n := range names {
			index[n] = i
			pos = append(pos, VInt{c: int64(i)})
		}
		tn := "ER1CS"
		if sparse {
			tn = "ER1CSSparse"
		}
		t := A.typ(tn)
		r := &r1{typ: types.NewPointer(t), index: index, wl: len(names), n: len(c.rows)}
		f := map[string]Val{"WitnessLength": VInt{c: int64(r.wl)}, "NumberOfGates": VInt{c: int64(r.n)}}
		mt := t.Underlying().(*types.Struct).Field(fieldIndex(t, "indexMap")).Type()
		f["indexMap"] = A.mapOf(st, mt, names, pos)
		if k := fieldIndex(t, "splitmap"); k >= 0 {
			f["splitmap"] = A.mapOf(st, t.Underlying().(*types.Struct).Field(k).Type(), nil, nil)
		}
		n := 0
		for k, m := range []string{"L", "R", "E", "O"} {
			var rows []Val
			for _, row := range c.rows {
				got := map[int]*BigVal{}
				var ps []pair
				bs := make([]*BigVal, len(names))
				for i := range bs {
					bs[i] = A.bigConst(bigZero)
				}
				for _, w := range strings.Fields(row[k]) {
					n++
					b := A.coef(fmt.Sprintf("k%d", n))
					if n%3 == 1 {
						b = A.negRaw(fmt.Sprintf("k%d", n))
					}
					got[index[w]], bs[index[w]] = b, b
					ps = append(ps, pair{uint64(index[w]), b})
				}
				r.rows[k] = append(r.rows[k], got)
				if sparse {
					var tr Val
					tr, st = A.mkTree(st, ps, "operand constraint system")
					rows = append(rows, tr)
				} else {
					rows = append(rows, A.frozenBigs(st, "constraint system", bs))
				}
			}
			et := t.Underlying().(*types.Struct).Field(fieldIndex(t, m)).Type().Underlying().(*types.Slice).Elem()
			f[m] = A.sliceOf(st, et, rows)
		}
		r.val = A.buildStruct(st, t, "constraint system", f)
		var in []witInput
		val := map[string]*Term{"1": T.one}
		for _, i := range []string{"b", "a", "c"} {
			val[i] = T.atom("in:" + i)
			in = append(in, witInput{i, A.bigCanon(val[i])})
		}
		ok, refused := R.solved(A, fn, r.val, A.inputArgs(st, in), st, key, what)
		for _, w := range ok {
			if w.st.unsolved {
				continue
			}
			R.systemHolds(A, r, w, key, where, what)
			for i, t := range val {
				if len(w.w) == r.wl {
					R.check(A.zeroIn(w.st, T.sub(w.w[index[i]], t)), key+" inputs", where, "input "+i+" is not at its position ("+what+")", w.st)
				}
			}
		}
		for _, s := range refused {
			if !s.unsolved {
				R.check(r.stuck(A, s, val), key+" refused", where, "a satisfiable system is refused ("+what+")", s)
			}
		}
		if len(ok) == 0 {
			R.check(r.stuck(A, st, val), key+" outcome", where, "no path yields a witness ("+what+")", st)
		}
	})
	R.counts["systems"]++
	R.operandEvents(A, key)
	R.absorb(A)
}

// stuck tells that a row cannot be solved for its one unknown wire or does not
// hold, going through the rows in order.
func (r *r1) stuck(A *Analysis, st *State, in map[string]*Term) bool {
	T := A.T
	w := make([]*Term, r.wl)
	for n, t := range in {
		w[r.index[n]] = t
	}
	for j := 0; j < r.n; j++ {
		var part [4]*Term
		uk, us, n := 0, 0, 0
		for k := range r.rows {
			part[k] = T.zero
			for i, b := range r.rows[k][j] {
				if w[i] == nil {
					uk, us = i, k
					n++
					continue
				}
				part[k] = T.add(part[k], T.mul(b.t, w[i]))
			}
		}
		x := A.abscissa(st, part[2])
		switch {
		case n == 0:
			if !A.zeroIn(st, T.sub(T.add(T.mul(part[0], part[1]), x), part[3])) {
				return true
			}
		case n > 1 || us == 2:
			return true
		case us == 3:
			w[uk] = T.mul(T.sub(T.add(T.mul(part[0], part[1]), x), part[3]), T.inv(r.rows[3][j][uk].t))
		default:
			d := part[1-us]
			if A.zeroIn(st, d) {
				return true
			}
			w[uk] = T.mul(T.sub(T.mul(T.sub(part[3], x), T.inv(d)), part[us]), T.inv(r.rows[us][j][uk].t))
		}
	}
	return false
}

// witnessInputs decides missing, foreign and non-canonical inputs.
func (R *Report) witnessInputs(fn, build *ssa.Function, sparse bool) {
	A := witnessAnalysis(R)
	T := A.T
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	gs := []gate{
		{kind: "multiplicationGate", id: "71", left: []fac{A.fw("a", 1), A.fw("bb", 2)}, right: []fac{A.fw("c", 3)}, out: []fac{A.fone("71")}},
		{kind: "equalityGate", id: "72", left: []fac{A.fw("71", 4)}, right: []fac{A.fw("a", 5), A.fnum("3", 6)}, quiet: true},
	}
	raw := func(n string) *BigVal { return A.negRaw("in:" + n) }
	canon := func(n string) *BigVal { return A.bigCanon(T.atom("in:" + n)) }
	for _, c := range []struct {
		name string
		in   []witInput
	}{
		{"negative inputs", []witInput{{"a", raw("a")}, {"bb", raw("bb")}, {"c", raw("c")}}},
		{"missing a", []witInput{{"bb", canon("bb")}, {"c", canon("c")}}},
		{"missing bb", []witInput{{"a", canon("a")}, {"c", canon("c")}}},
		{"missing c", []witInput{{"a", canon("a")}, {"bb", canon("bb")}}},
		{"missing all", nil},
		{"foreign input", []witInput{{"a", canon("a")}, {"bb", canon("bb")}, {"c", canon("c")}, {"zz", canon("zz")}}},
		{"foreign input first", []witInput{{"zz", canon("zz")}, {"a", canon("a")}, {"bb", canon("bb")}, {"c", canon("c")}}},
		{"misspelt input", []witInput{{"a", canon("a")}, {"b", canon("bb")}, {"c", canon("c")}}},
		{"constant as input", []witInput{{"a", canon("a")}, {"bb", canon("bb")}, {"c", canon("c")}, {"1", canon("one")}}},
		{"constant one as input", []witInput{{"1", A.bigConst(one_)}, {"c", canon("c")}, {"a", canon("a")}, {"bb", canon("bb")}}},
	} {
		key := "D04 " + funcKey(fn) + " " + c.name
		R.guard(A, key, func() {
			st := A.newState()
			prog := A.program(st, []string{"1", "c"}, []string{"a", "bb", "c"})
			r, st := A.lowered(build, prog, A.gateList(st, gs), false, sparse, st)
			ok, refused := R.solved(A, fn, r.val, A.inputArgs(st, c.in), st, key, c.name)
			R.check(len(ok)+len(refused) > 0, key, where, "no outcome ("+c.name+")", st)
			if c.name == "constant one as input" || c.name == "negative inputs" {
				R.check(len(ok) > 0, key+" refused", where, "all assignments are refused ("+c.name+")", st)
			}
			for _, w := range ok {
				if w.st.unsolved {
					continue
				}
				R.systemHolds(A, r, w, key, where, c.name)
				for _, i := range c.in {
					j, is := r.index[i.name]
					if !is || len(w.w) != r.wl {
						R.check(is, key+" accepted", where, "a value for the unknown input "+i.name+" is accepted ("+c.name+")", w.st)
						continue
					}
					R.check(A.zeroIn(w.st, T.sub(w.w[j], i.v.t)), key+" inputs", where, "input "+i.name+" is not at its position ("+c.name+")", w.st)
				}
			}
		})
	}
	if sparse {
		R.combined(A)
	}
	R.operandEvents(A, "D04")
	R.absorb(A)
}

// combined decides the pairing of names with values.
func (R *Report) combined(A *Analysis) {
	fn := R.P.fn(cc, "CombineInputs")
	if fn == nil {
		return
	}
	key := "D04 " + funcKey(fn)
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	for n := 0; n <= 4; n++ {
		for m := 0; m <= 4; m++ {
			n, m := n, m
			R.guard(A, fmt.Sprint(key, n, m), func() {
				st := A.newState()
				var names, vals []Val
				for i := 0; i < n; i++ {
					names = append(names, str(fmt.Sprint("n", i)))
				}
				for i := 0; i < m; i++ {
					vals = append(vals, A.frozenBig(st, "input", A.bigCanon(A.T.atom(fmt.Sprint("v", i)))))
				}
				ps := fn.Signature.Params()
				args := []Val{A.sliceOf(st, ps.At(0).Type().Underlying().(*types.Slice).Elem(), names), A.sliceOf(st, ps.At(1).Type().Underlying().(*types.Slice).Elem(), vals)}
				for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
					if o.panicked || n != m {
						R.check(o.panicked == (n != m), key, where, fmt.Sprintf("%d names and %d values are combined or refused wrongly", n, m), o.st)
						continue
					}
					t := A.typ("InputArgument")
					es := A.sliceElems(o.st, o.rets[0])
					ok := len(es) == n
					for i, e := range es {
						s, is := e.(VStruct)
						ok = ok && is
						if !ok {
							break
						}
						id, _ := s.f[fieldIndex(t, "identifier")].(VStr)
						b := A.bigAt(o.st, s.f[fieldIndex(t, "value")], fn.Pos())
						ok = id.known && id.s == fmt.Sprint("n", i) && b != nil && A.zeroIn(o.st, A.T.sub(o.st.latest(b).t, A.T.atom(fmt.Sprint("v", i))))
					}
					R.check(ok, key, where, "names and values are not paired in order", o.st)
				}
			})
		}
	}
}
