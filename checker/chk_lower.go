package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D01: every gate becomes the constraint of its kind; D02: wire numbering.

type lowerCase struct {
	name      string
	public    []string // without the constant
	inputs    []string
	gates     func(A *Analysis) []gate
	randomize bool
}

type fl []fac

func (A *Analysis) fw(wire string, n int) fac {
	return fac{wire: wire, c: A.coef(fmt.Sprintf("c%d", n))}
}
func (A *Analysis) fone(wire string) fac { return fac{wire: wire, c: A.bigConst(one_)} }
func (A *Analysis) fneg(wire string, n int) fac {
	return fac{wire: wire, c: A.negRaw(fmt.Sprintf("c%d", n))}
}
func (A *Analysis) fnum(text string, n int) fac {
	return fac{text: text, c: A.coef(fmt.Sprintf("k%d", n))}
}

// sides are factor lists of up to three entries over the wires.
func (A *Analysis) sides(wires []string) (out [][]fac) {
	n := 0
	w := func(i int) fac { n++; return A.fw(wires[i%len(wires)], n) }
	num := func() fac { n++; return A.fnum(fmt.Sprint(100+n), n) }
	g := func(i int) fac { n++; return A.fneg(wires[i%len(wires)], n) }
	out = append(out,
		[]fac{w(0)}, []fac{num()}, []fac{A.fone(wires[1%len(wires)])}, []fac{g(2)},
		[]fac{w(0), w(1)}, []fac{num(), w(2)}, []fac{w(1), num()}, []fac{g(0), w(2)},
		[]fac{w(2), w(0), w(1)}, []fac{w(0), num(), g(1)}, []fac{num(), g(2), w(0)}, []fac{A.fone(wires[0]), w(2 % len(wires)), num()},
		// a number whose digits are the name of a wire
		[]fac{{text: wires[0], c: A.coef("k")}, w(1)}, []fac{w(0), {text: wires[0], c: A.coef("kk")}},
		[]fac{{wire: wires[0], c: A.bigConst(bigZero)}, w(1)})
	return
}

func lowerCases(thorough bool) (out []lowerCase) {
	in := []string{"a", "bb", "c", "4711471147114711"}
	self := func(A *Analysis, id string) []fac { return []fac{A.fone(id)} }
	add := func(name string, pub []string, rnd bool, g func(A *Analysis) []gate) {
		out = append(out, lowerCase{name, pub, in, g, rnd})
	}
	add("products", []string{"c"}, false, func(A *Analysis) (gs []gate) {
		s := A.sides(in)
		for i, l := range s {
			for j, r := range s {
				if !thorough && (i+2*j)%3 != 0 {
					continue
				}
				id := fmt.Sprintf("10%02d%02d", i, j)
				gs = append(gs, gate{kind: "multiplicationGate", id: id, left: l, right: r, out: self(A, id)})
			}
		}
		return
	})
	add("quotients", []string{"bb", "a"}, true, func(A *Analysis) (gs []gate) {
		s := A.sides(in)
		for i, l := range s {
			for j, r := range s {
				if !thorough && (i+j)%3 != 0 {
					continue
				}
				id := fmt.Sprintf("20%02d%02d", i, j)
				gs = append(gs, gate{kind: "multiplicationGate", id: id, left: self(A, id), right: r, out: l})
			}
		}
		return
	})
	add("equalities", []string{"a", "bb", "c"}, false, func(A *Analysis) (gs []gate) {
		s := A.sides(in)
		for i, l := range s {
			for j, r := range s {
				if !thorough && (2*i+j)%3 != 0 {
					continue
				}
				gs = append(gs, gate{kind: "equalityGate", id: fmt.Sprintf("30%02d%02d", i, j), left: l, right: r, quiet: true})
			}
		}
		return
	})
	add("sums", nil, true, func(A *Analysis) (gs []gate) {
		for i, l := range A.sides(in) {
			id := fmt.Sprintf("40%02d", i)
			gs = append(gs, gate{kind: "additionGate", id: id, left: l, out: self(A, id)})
		}
		return
	})
	add("exponentiations", []string{"bb"}, false, func(A *Analysis) (gs []gate) {
		for i, l := range A.sides(in) {
			gs = append(gs, gate{kind: "scalarBaseMultiplyGate", id: fmt.Sprintf("50%02d", i), expo: l})
		}
		return
	})
	bits := func(A *Analysis, of string, n int) (gs []gate) {
		var sum []fac
		for i := 0; i < n; i++ {
			id := fmt.Sprintf("%d%s", i, of)
			gs = append(gs, gate{kind: "zeroOrOneGate", id: id, rep: of})
			sum = append(sum, fac{wire: id, c: A.bigConst(new(big.Int).Lsh(one_, uint(i)))})
		}
		return append(gs, gate{kind: "sumCheckGate", id: "sum" + of, left: sum, rep: of, quiet: true})
	}
	add("splits", []string{"a"}, false, func(A *Analysis) (gs []gate) {
		gs = append(gs, bits(A, "a", 5)...)
		gs = append(gs, gate{kind: "multiplicationGate", id: "61", left: []fac{A.fw("3a", 1), A.fnum("7", 2)}, right: []fac{A.fneg("c", 3)}, out: self(A, "61")})
		gs = append(gs, bits(A, "61", 13)...)
		return append(gs, gate{kind: "additionGate", id: "62", left: []fac{A.fw("1061", 4), A.fw("0a", 5), A.fw("61", 6)}, out: self(A, "62")})
	})
	for _, rnd := range []bool{false, true} {
		for i, pub := range [][]string{nil, {"c"}, {"c", "a"}, {"bb", "c", "a", "4711471147114711"}} {
			add(fmt.Sprintf("chain %d", i), pub, rnd, func(A *Analysis) (gs []gate) {
				gs = append(gs, gate{kind: "multiplicationGate", id: "71", left: []fac{A.fw("a", 1), A.fw("c", 2)}, right: []fac{A.fw("bb", 3)}, out: self(A, "71")})
				gs = append(gs, gate{kind: "equalityGate", id: "72", left: []fac{A.fw("71", 4)}, right: []fac{A.fw("c", 5), A.fnum("71", 6), A.fneg("a", 7)}, quiet: true})
				gs = append(gs, gate{kind: "scalarBaseMultiplyGate", id: "73", expo: []fac{A.fneg("71", 8), A.fnum("9", 9)}})
				gs = append(gs, gate{kind: "multiplicationGate", id: "74", left: self(A, "74"), right: []fac{A.fw("73", 10), A.fw("71", 11)}, out: []fac{A.fw("bb", 12), A.fnum("1", 13)}})
				gs = append(gs, gate{kind: "additionGate", id: "75", left: []fac{A.fw("74", 14), A.fneg("73", 15)}, out: self(A, "75")})
				gs = append(gs, bits(A, "75", 4)...)
				return append(gs, gate{kind: "multiplicationGate", id: "76", left: []fac{A.fw("75", 16)}, right: []fac{A.fw("75", 17)}, out: self(A, "76")})
			})
		}
	}
	add("no gates", []string{"a"}, true, func(A *Analysis) []gate { return nil })
	return
}

// lowered interprets one builder on a gate list.
func (A *Analysis) lowered(fn *ssa.Function, prog, gates Val, rnd, sparse bool, st *State) (*r1, *State) {
	o := A.single(A.call(fn, []Val{prog, gates, VBool{known: true, b: rnd}}, nil, st, fn.Pos()), fn)
	return A.readR1(o.st, o.rets[0], fn.Signature.Results().At(0).Type(), sparse), o.st
}

// spec is the linear form of a factor list.
func (A *Analysis) form(l []fac, w map[string]*Term) *Term {
	t := A.T.zero
	for _, f := range l {
		x := w[""]
		if f.wire != "" {
			x = w[f.wire]
		}
		t = A.T.add(t, A.T.mul(f.c.t, x))
	}
	return t
}

func (A *Analysis) gateSpec(g gate, w map[string]*Term) (eq, e *Term) {
	T := A.T
	one := w[""]
	switch g.kind {
	case "multiplicationGate":
		return T.sub(T.mul(A.form(g.left, w), A.form(g.right, w)), A.form(g.out, w)), T.zero
	case "equalityGate":
		return T.mul(one, T.sub(A.form(g.left, w), A.form(g.right, w))), T.zero
	case "additionGate":
		return T.sub(T.mul(one, A.form(g.left, w)), A.form(g.out, w)), T.zero
	case "sumCheckGate":
		return T.sub(T.mul(one, A.form(g.left, w)), w[g.rep]), T.zero
	case "zeroOrOneGate":
		return T.mul(T.sub(w[g.id], one), w[g.id]), T.zero
	case "scalarBaseMultiplyGate":
		return T.neg(w[g.id]), A.form(g.expo, w)
	}
	panic(g.kind)
}

func checkLowering(R *Report) {
	R.rule = "Both constraint builders are interpreted on gate lists of every kind with symbolic coefficients. Each gate must yield exactly one row of L, R, E and O in gate order, whose constraint L*R + X(g^E) - O, as a polynomial in the wires, is the one that defines the gate; constants act on the constant-one wire; the randomiser adds its own row on wires of its own. Each row of the dense and of the sparse system is compared with the same definition, transposition keeps every entry, and coefficients are not modified."
	R.bounds = "factor lists of up to three entries (bit sums: up to 13) over numbers and wires with symbolic, negated, unit and zero coefficients, in lists of up to 225 gates."
	dense, sparse := R.P.builders()
	if dense == nil || sparse == nil {
		R.bad("D01/anchor", cc, "a constraint builder was not found", nil)
		return
	}
	A := langAnalysis(R)
	T := A.T
	for _, c := range lowerCases(R.thorough()) {
		gs := c.gates(A)
		var got [2]*r1
		st := A.newState()
		prog := A.program(st, append([]string{"1"}, c.public...), c.inputs)
		list := A.gateList(st, gs)
		for i, fn := range []*ssa.Function{dense, sparse} {
			where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
			key := "D01 " + funcKey(fn)
			ok := R.guard(A, key+" "+c.name, func() {
				got[i], st = A.lowered(fn, prog, list, c.randomize, i == 1, st)
				r := got[i]
				want := len(gs)
				if c.randomize {
					want++
				}
				if r.n != want || len(r.rows[0]) != want || len(r.rows[1]) != want || len(r.rows[2]) != want || len(r.rows[3]) != want {
					R.check(false, key, where, fmt.Sprintf("%d gates yield %d/%d/%d/%d rows and NumberOfGates %d (%s)", want, len(r.rows[0]), len(r.rows[1]), len(r.rows[2]), len(r.rows[3]), r.n, c.name), st)
					got[i] = nil
					return
				}
				// names of the wires
				w := make([]*Term, r.wl)
				names := map[string]*Term{}
				for j := range w {
					w[j] = T.atom(fmt.Sprintf("wire%d", j))
				}
				// the constant one
				w[0] = T.one
				names[""] = w[0]
				for n, j := range r.index {
					if j < 0 || j >= r.wl {
						R.check(false, key, where, fmt.Sprintf("wire %s has the index %d of %d", n, j, r.wl), st)
						got[i] = nil
						return
					}
					names[n] = w[j]
				}
				for j, g := range gs {
					for _, f := range append(append(append(append([]fac{{wire: g.id}, {wire: g.rep}}, g.left...), g.right...), g.expo...), g.out...) {
						if _, ok := names[f.wire]; !ok && !(g.quiet && f.wire == g.id) {
							R.check(false, key, where, fmt.Sprintf("the wire %s has no index (%s)", f.wire, c.name), st)
							got[i] = nil
							return
						}
					}
					eq, e := A.gateSpec(g, names)
					for k := range r.width {
						if r.width[k][j] >= 0 && r.width[k][j] != r.wl {
							R.check(false, key, where, fmt.Sprintf("a row of gate %d has length %d instead of %d", j, r.width[k][j], r.wl), st)
						}
					}
					gotEq := T.sub(T.mul(A.dot(r.rows[0][j], w), A.dot(r.rows[1][j], w)), A.dot(r.rows[3][j], w))
					gotE := A.dot(r.rows[2][j], w)
					ok := A.zeroIn(st, T.sub(gotEq, eq))
					if !ok && e == T.zero {
						ok = A.zeroIn(st, T.add(gotEq, eq))
					}
					R.check(ok && A.zeroIn(st, T.sub(gotE, e)), key+" "+g.kind, where, fmt.Sprintf("the row of a %s is not its constraint (%s, gate %d: left %s, right %s, expo %s, out %s)", g.kind, c.name, j, facStr(g.left), facStr(g.right), facStr(g.expo), facStr(g.out)), st)
				}
				if c.randomize {
					j := len(gs)
					named := map[int]bool{0: true}
					for _, n := range append(append([]string{}, c.public...), c.inputs...) {
						named[r.index[n]] = true
					}
					for _, g := range gs {
						if !g.quiet {
							named[r.index[g.id]] = true
						}
					}
					var rin, rout = -1, -1
					for k := range r.rows[2][j] {
						rin = k
					}
					for k := range r.rows[3][j] {
						rout = k
					}
					good := len(r.rows[2][j]) == 1 && len(r.rows[3][j]) == 1 && !named[rin] && !named[rout] && rin != rout && rin >= 0 && rin < r.wl && rout < r.wl
					if good {
						eq := T.sub(T.mul(w[rin], w[rin]), w[rout])
						gotEq := T.sub(T.mul(A.dot(r.rows[0][j], w), A.dot(r.rows[1][j], w)), A.dot(r.rows[3][j], w))
						good = A.zeroIn(st, T.sub(gotEq, eq)) && A.zeroIn(st, T.sub(A.dot(r.rows[2][j], w), w[rin]))
					}
					R.check(good, key+" randomiser", where, "the randomiser is not r*r + X(g^r) = s on two wires of its own ("+c.name+")", st)
				}
			})
			if !ok {
				got[i] = nil
			}
		}
		if got[0] != nil && got[1] != nil {
			same := got[0].wl == got[1].wl && got[0].n == got[1].n && len(got[0].index) == len(got[1].index)
			for n, j := range got[0].index {
				same = same && got[1].index[n] == j
			}
			R.check(same, "D01 agreement", R.P.pos(sparse.Pos())+" "+funcKey(sparse), "dense and sparse systems number their wires differently ("+c.name+")", st)
			for i, name := range []string{"Transpose", "TransposeSparse"} {
				tn := []string{"ER1CS", "ER1CSSparse"}[i]
				fn := R.P.method(cc, tn, name)
				if fn == nil {
					R.bad("D01/anchor "+name, cc, "the transposition "+name+" was not found", nil)
					continue
				}
				r := got[i]
				R.guard(A, "D01 "+funcKey(fn), func() {
					o := A.single(A.call(fn, []Val{r.val}, nil, st, fn.Pos()), fn)
					st = o.st
					t := A.readR1(o.st, o.rets[0], fn.Signature.Results().At(0).Type(), i == 1)
					same := t.n == r.n && t.wl == r.wl && len(t.index) == len(r.index)
					for n, j := range r.index {
						same = same && t.index[n] == j
					}
					// an empty dense system has no columns
					for k := 0; same && k < 4 && r.n > 0; k++ {
						if len(t.rows[k]) != r.wl {
							same = false
							break
						}
						for x := range t.rows[k] {
							cnt := 0
							for j := 0; j < r.n; j++ {
								a, ok := r.rows[k][j][x]
								b, ok2 := t.rows[k][x][j]
								if ok2 {
									cnt++
								}
								at, bt := T.zero, T.zero
								if ok {
									at = a.t
								}
								if ok2 {
									bt = b.t
								}
								same = same && A.zeroIn(st, T.sub(at, bt))
							}
							same = same && cnt == len(t.rows[k][x])
						}
					}
					R.check(same, "D01 "+funcKey(fn), R.P.pos(fn.Pos())+" "+funcKey(fn), "transposition changes the system ("+c.name+")", o.st)
				})
			}
		}
	}
	R.operandEvents(A, "D01")
	R.absorb(A)
}

func facStr(l []fac) string {
	var s []string
	for _, f := range l {
		w := f.wire
		if w == "" {
			w = "number " + f.text
		}
		s = append(s, fmt.Sprintf("%v*%s", f.c.t, w))
	}
	return "[" + strings.Join(s, " ") + "]"
}

func checkIndices(R *Report) {
	R.rule = "Both constraint builders are interpreted on gate lists and input declarations: the wire numbering must be a bijection onto 0..WitnessLength-1 with the constant one at 0, the public inputs next in the order of their declaration, then the other inputs in order, one index per gate that defines a wire, none for checks, two more for the randomiser only if requested; bits of a split value are listed in order. Two gates that define the same wire are refused."
	R.bounds = "up to 4 inputs with every public subset in several orders; up to 225 gates."
	dense, sparse := R.P.builders()
	if dense == nil || sparse == nil {
		R.bad("D02/anchor", cc, "a constraint builder was not found", nil)
		return
	}
	A := langAnalysis(R)
	for i, fn := range []*ssa.Function{dense, sparse} {
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := "D02 " + funcKey(fn)
		cases := lowerCases(R.thorough())
		// every ordered public subset of three inputs
		var perm func(pre, rest []string)
		perm = func(pre, rest []string) {
			pub := append([]string{}, pre...)
			for _, rnd := range []bool{false, true} {
				cases = append(cases, lowerCase{"publics " + strings.Join(pub, ","), pub, []string{"x", "yy", "z"}, func(A *Analysis) []gate {
					return []gate{{kind: "multiplicationGate", id: "81", left: []fac{A.fone("x")}, right: []fac{A.fone("yy")}, out: []fac{A.fone("81")}},
						{kind: "equalityGate", id: "82", left: []fac{A.fone("81")}, right: []fac{A.fone("z")}, quiet: true},
						{kind: "scalarBaseMultiplyGate", id: "83", expo: []fac{A.fone("z")}}}
				}, rnd})
			}
			for k := range rest {
				r := append(append([]string{}, rest[:k]...), rest[k+1:]...)
				perm(append(pub, rest[k]), r)
			}
		}
		perm(nil, []string{"x", "yy", "z"})
		for _, c := range cases {
			R.guard(A, key+" "+c.name, func() {
				gs := c.gates(A)
				st := A.newState()
				prog := A.program(st, append([]string{"1"}, c.public...), c.inputs)
				list := A.gateList(st, gs)
				r, st := A.lowered(fn, prog, list, c.randomize, i == 1, st)
				if cnt := R.P.method(cc, "Program", "GlobalInputCount"); cnt != nil {
					o := A.single(A.call(cnt, []Val{prog}, nil, st.fork(), cnt.Pos()), cnt)
					v, _ := o.rets[0].(VInt)
					R.check(v.sym == nil && int(v.c) == 1+len(c.public), "D02 "+funcKey(cnt), R.P.pos(cnt.Pos())+" "+funcKey(cnt), "the number of public wires is not that of the public inputs and the constant ("+c.name+")", o.st)
				}
				order := []string{"1"}
				seen := map[string]bool{"1": true}
				for _, n := range append(append([]string{}, c.public...), c.inputs...) {
					if !seen[n] {
						seen[n] = true
						order = append(order, n)
					}
				}
				for j, n := range order {
					x, ok := r.index[n]
					R.check(ok && x == j, key+" inputs", where, fmt.Sprintf("input %s has index %d instead of %d (%s)", n, x, j, c.name), st)
				}
				total := len(order)
				used := map[int]string{}
				for n, x := range r.index {
					if o, dup := used[x]; dup {
						R.check(false, key+" injective", where, fmt.Sprintf("wires %s and %s share index %d (%s)", o, n, x, c.name), st)
					}
					used[x] = n
				}
				split := map[string][]int{}
				for _, g := range gs {
					x, ok := r.index[g.id]
					if g.quiet {
						R.check(!ok, key+" checks", where, fmt.Sprintf("the check %s has a wire (%s)", g.id, c.name), st)
						continue
					}
					total++
					R.check(ok, key+" outputs", where, fmt.Sprintf("the output of gate %s has no index (%s)", g.id, c.name), st)
					if g.kind == "zeroOrOneGate" {
						split[g.rep] = append(split[g.rep], x)
					}
				}
				if c.randomize {
					total += 2
				}
				var xs []int
				for _, x := range r.index {
					xs = append(xs, x)
				}
				sort.Ints(xs)
				dense := len(xs) == total
				for j, x := range xs {
					dense = dense && x == j
				}
				R.check(dense && r.wl == total, key+" total", where, fmt.Sprintf("%d wires are numbered %v, WitnessLength %d (%s)", total, xs, r.wl, c.name), st)
				same := len(split) == len(r.split)
				for n, l := range split {
					same = same && fmt.Sprint(l) == fmt.Sprint(r.split[n])
				}
				R.check(same, key+" bits", where, fmt.Sprintf("the bits of split values are listed as %v instead of %v (%s)", r.split, split, c.name), st)
			})
		}
		// two definitions of one wire
		R.guard(A, key+" redefinition", func() {
			st := A.newState()
			prog := A.program(st, []string{"1"}, []string{"x"})
			g := gate{kind: "multiplicationGate", id: "91", left: []fac{A.fone("x")}, right: []fac{A.fone("x")}, out: []fac{A.fone("91")}}
			g2 := g
			g2.right = []fac{A.fw("x", 1)}
			for _, o := range A.call(fn, []Val{prog, A.gateList(st, []gate{g, g2}), VBool{known: true}}, nil, st, fn.Pos()) {
				R.check(o.panicked, key+" redefinition", where, "two gates with the same output are accepted", o.st)
			}
			st = A.newState()
			prog = A.program(st, []string{"1"}, []string{"x"})
			g.left = []fac{A.fone("unknown")}
			for _, o := range A.call(fn, []Val{prog, A.gateList(st, []gate{g}), VBool{known: true}}, nil, st, fn.Pos()) {
				R.check(o.panicked, key+" unknown wire", where, "a gate on a wire without definition is accepted", o.st)
			}
		})
	}
	R.absorb(A)
}
