package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D03: gates are merged only when they are the same operation on the same
// operands. D09: the algebra of factor lists.

// coefPool are the coefficients lists are made of.
func (A *Analysis) coefPool() []*BigVal {
	return []*BigVal{A.bigConst(one_), A.coef("k1"), A.coef("k2"), A.negRaw("k1")}
}

func (A *Analysis) number(n int64) fac {
	return fac{text: fmt.Sprint(n), c: A.bigConst(big.NewInt(n))}
}

// factorLists are lists without repeated wires.
func (A *Analysis) factorLists(thorough bool) (out [][]fac) {
	cs := A.coefPool()
	w := func(n string, i int) fac { return fac{wire: n, c: cs[i%len(cs)]} }
	for i := range cs {
		out = append(out, []fac{w("a", i)}, []fac{w("b", i)})
	}
	out = append(out, []fac{A.number(3)}, []fac{A.number(5)}, []fac{w("ab", 0)}, []fac{w("ab", 1)})
	for i := range cs {
		for j := range cs {
			if !thorough && (i+2*j)%3 == 2 {
				continue
			}
			out = append(out, []fac{w("a", i), w("b", j)})
			if i < 2 && j < 2 {
				out = append(out, []fac{w("b", j), w("a", i)})
			}
		}
		out = append(out, []fac{w("a", i), A.number(3)}, []fac{A.number(5), w("b", i)})
	}
	out = append(out, []fac{w("a", 0), w("b", 1), A.number(3)}, []fac{w("a", 1), w("b", 0), A.number(3)}, []fac{w("a", 0), w("b", 1), w("ab", 2)})
	if thorough {
		for i := range cs {
			for j := range cs {
				for k := range cs {
					out = append(out, []fac{w("a", i), w("b", j), w("ab", k)})
				}
			}
		}
	}
	return
}

func checkMerging(R *Report) {
	R.rule = "The name of a gate is computed for a family of gates of every kind on lists of symbolic operands (collisions of the hash itself excluded). Two gates that get the same name must be of one kind and define the same value (or state the same equality) as polynomials in the wires. The gate container keeps the first gate of every name, in order, and drops only gates whose name it has."
	R.bounds = "lists of up to three entries over three wires and two numbers with unit, two symbolic and negated coefficients; all pairs of about 1500 gates (quick)."
	id := R.P.method(cc, "Gate", "ID")
	if id == nil {
		R.bad("D03/anchor", cc, "the name of a gate was not found", nil)
		return
	}
	A := langAnalysis(R)
	A.idealNames = true
	A.strictFmt = true
	A.maxSteps = 60_000_000
	T := A.T
	ls := A.factorLists(false)
	key := "D03 " + funcKey(id)
	where := R.P.pos(id.Pos()) + " " + funcKey(id)
	type named struct {
		g     gate
		name  string
		class string
		t     *Term
		what  string
	}
	wires := map[string]*Term{"": T.one, "a": T.atom("a"), "b": T.atom("b"), "ab": T.atom("ab")}
	var all []named
	st := A.newState()
	add := func(g gate) {
		n := named{g: g}
		l, r, o, e := A.form(g.left, wires), A.form(g.right, wires), A.form(g.out, wires), A.form(g.expo, wires)
		switch {
		case g.kind == "equalityGate":
			n.class, n.t = "equality", T.sub(l, r)
		case g.kind == "additionGate":
			n.class, n.t = "value", l
		case g.kind == "scalarBaseMultiplyGate":
			n.class, n.t = "value", T.uf("abscissa", e)
		case len(g.out) > 0:
			n.class, n.t = "value", T.mul(o, T.inv(r))
		default:
			n.class, n.t = "value", T.mul(l, r)
		}
		n.what = fmt.Sprintf("%s %s %s %s %s", g.kind, facStr(g.left), facStr(g.right), facStr(g.expo), facStr(g.out))
		s := st.fork()
		p := A.gatePtr(s, g)
		o2 := A.single(A.call(id, []Val{p}, nil, s, id.Pos()), id)
		v, ok := o2.rets[0].(VStr)
		if !ok {
			A.fail(id.Pos(), "the name of a gate is no text")
		}
		if v.known {
			n.name = "s" + v.s
		} else {
			n.name = fmt.Sprint("S", A.rep(v.sym).id)
		}
		// the name does not change once it is given
		again := A.single(A.call(id, []Val{p}, nil, o2.st, id.Pos()), id)
		w, ok := again.rets[0].(VStr)
		eq, dec := A.strEq(v, w)
		R.check(ok && dec && eq, key+" stable", where, "the name of a gate changes when it is asked for again ("+n.what+")", again.st)
		all = append(all, n)
	}
	ok := R.guard(A, key, func() {
		for i, l := range ls {
			add(gate{kind: "additionGate", left: l})
			add(gate{kind: "scalarBaseMultiplyGate", expo: l})
			for j, r := range ls {
				if !R.thorough() && len(l)+len(r) > 2 && (i*7+j*3)%5 != 0 && i != j {
					continue
				}
				add(gate{kind: "multiplicationGate", left: l, right: r})
				add(gate{kind: "multiplicationGate", right: l, out: r})
				add(gate{kind: "equalityGate", left: l, right: r, quiet: true})
			}
		}
		by := map[string]int{}
		for i, n := range all {
			j, dup := by[n.name]
			if !dup {
				by[n.name] = i
				R.ok(key)
				continue
			}
			o := all[j]
			same := o.g.kind == n.g.kind && o.class == n.class && (A.zeroIn(st, T.sub(o.t, n.t)) || n.class == "equality" && A.zeroIn(st, T.add(o.t, n.t)))
			R.check(same, key+" merge", where, "two different gates get the same name: "+o.what+" and "+n.what, st)
		}
		R.counts["names"] += len(by)
	})
	R.counts["gates"] += len(all)
	if ok {
		R.gateContainer(A, ls)
	}
	R.operandEvents(A, "D03")
	R.absorb(A)
}

// gateContainer decides that the container keeps the first gate of every name.
func (R *Report) gateContainer(A *Analysis, ls [][]fac) {
	mk, add := R.P.fn(cc, "newGateContainer"), R.P.method(cc, "gateContainer", "Add")
	if mk == nil || add == nil {
		R.bad("D03/anchor", cc, "the gate container was not found", nil)
		return
	}
	key := "D03 " + funcKey(add)
	where := R.P.pos(add.Pos()) + " " + funcKey(add)
	R.guard(A, key, func() {
		st := A.newState()
		o := A.single(A.call(mk, nil, nil, st, mk.Pos()), mk)
		c, st := o.rets[0], o.st
		var want []string
		seen := map[string]bool{}
		ord := func(st *State) (l []string) {
			v, _ := A.fieldAt(st, c, mk.Signature.Results().At(0).Type(), "orderedmGates")
			for _, g := range A.sliceElems(st, v) {
				p, ok := g.(VPtr)
				if !ok {
					return nil
				}
				l = append(l, fmt.Sprint(p.obj))
			}
			return
		}
		want = ord(st)
		gs := []gate{}
		for i := 0; i < 12; i++ {
			l, r := ls[i*3%len(ls)], ls[(i*5+1)%len(ls)]
			gs = append(gs, gate{kind: "multiplicationGate", left: l, right: r}, gate{kind: "multiplicationGate", left: r, right: l},
				gate{kind: "multiplicationGate", left: l, right: r}, gate{kind: "equalityGate", left: l, right: r, quiet: true}, gate{kind: "multiplicationGate", right: l, out: r},
				gate{kind: "equalityGate", left: l, right: r, quiet: true}, gate{kind: "additionGate", left: l}, gate{kind: "scalarBaseMultiplyGate", expo: l}, gate{kind: "additionGate", left: r})
		}
		for _, g := range gs {
			p := A.gatePtr(st, g).(VPtr)
			o := A.single(A.call(add, []Val{c, p}, nil, st, add.Pos()), add)
			st = o.st
			idf := R.P.method(cc, "Gate", "ID")
			o = A.single(A.call(idf, []Val{p}, nil, st, add.Pos()), idf)
			st = o.st
			k, _ := valKey(o.rets[0])
			if v, ok := o.rets[0].(VStr); ok && !v.known {
				k = fmt.Sprint("S", A.rep(v.sym).id)
			}
			if !seen[k] {
				seen[k] = true
				want = append(want, fmt.Sprint(p.obj))
			}
			R.check(strings.Join(ord(st), " ") == strings.Join(want, " "), key, where, "after adding a gate the container does not hold the first gate of every name in order of arrival", st)
		}
	})
}

func checkFactors(R *Report) {
	R.rule = "The operations on factor lists are interpreted on lists with symbolic coefficients: sums, products with numbers, negation and inversion of numbers give lists with the value of the operation as polynomials in the wires, in which no wire occurs twice; extracting a common factor keeps the value; the product of two wires and other impossible operations are refused; the numbers of the operands are not modified, and shared constants never."
	R.bounds = "lists of up to three entries over three wires and numbers with unit, zero, symbolic and negated coefficients, all pairs."
	A := langAnalysis(R)
	A.idealNames = true
	A.maxSteps = 60_000_000
	A.zkContracts()
	T := A.T
	ls := A.factorLists(R.thorough())
	// numbers that stand for any number, also negative and zero
	num := func(b *BigVal) fac { return fac{text: "", c: b} }
	nums := [][]fac{{num(A.coef("n1"))}, {num(A.negRaw("n2"))}, {num(A.bigConst(one_))}, {num(A.bigConst(bigZero))}, {num(A.bigConst(big.NewInt(7)))}}
	zero := [][]fac{{{wire: "a", c: A.bigConst(bigZero)}, {wire: "b", c: A.coef("k2")}}, {{wire: "a", c: A.bigCanon(T.atom("any"))}}}
	wires := map[string]*Term{"": T.one, "a": T.atom("a"), "b": T.atom("b"), "ab": T.atom("ab")}
	globals := A.freezeGlobals()
	value := func(l []fac) *Term { return A.form(l, wires) }
	n := 0
	run := func(name string, fn *ssa.Function, args [][]fac, check func(st *State, rets []Val) string, refuse bool) {
		key := "D09 " + funcKey(fn)
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		n++
		R.guard(A, key+" "+name, func() {
			st := globals.fork()
			var vs []Val
			var what []string
			for _, l := range args {
				vs = append(vs, A.symFactors(st, l))
				what = append(what, facStr(l))
			}
			for _, o := range A.call(fn, vs, nil, st, fn.Pos()) {
				if o.panicked {
					R.check(refuse, key+" panic", where, "an operation on factors panics: "+o.msg+" ("+strings.Join(what, ", ")+")", o.st)
					continue
				}
				if o.st.unsolved {
					continue
				}
				if refuse {
					R.check(false, key+" refused", where, "an impossible operation is accepted ("+strings.Join(what, ", ")+")", o.st)
					continue
				}
				msg := check(o.st, o.rets)
				R.check(msg == "", key+" value", where, msg+" ("+strings.Join(what, ", ")+")", o.st)
			}
		})
	}
	read := func(st *State, v Val) (*Term, string) {
		w := &wires1{A: A, st: st, val: wires}
		return w.sum(v)
	}
	is := func(want *Term) func(st *State, rets []Val) string {
		return func(st *State, rets []Val) string {
			got, msg := read(st, rets[0])
			if msg != "" {
				return msg
			}
			if !A.zeroIn(st, T.sub(got, want)) {
				return "the value of the result is wrong"
			}
			return ""
		}
	}
	all := append(append(append([][]fac{}, ls...), nums...), zero...)
	found := 0
	have := func(name string) *ssa.Function {
		fn := R.P.fn(cc, name)
		if fn != nil {
			found++
		}
		return fn
	}
	if fn := have("addFactors"); fn != nil {
		for i, l := range all {
			for j, r := range all {
				if R.thorough() || (i+3*j)%4 == 0 || i == j || len(l) > 2 && len(r) > 2 {
					run(fmt.Sprint(i, " ", j), fn, [][]fac{l, r}, is(T.add(value(l), value(r))), false)
				}
			}
		}
	}
	if fn := have("mulFactors"); fn != nil {
		for i, l := range all {
			for j, r := range append(append([][]fac{}, nums...), []fac{A.number(3)}) {
				run(fmt.Sprint("left ", i, " ", j), fn, [][]fac{l, r}, is(T.mul(value(l), value(r))), false)
				run(fmt.Sprint("right ", i, " ", j), fn, [][]fac{r, l}, is(T.mul(value(l), value(r))), false)
			}
		}
		for i, l := range ls {
			for j, r := range ls {
				if (i+j)%7 == 0 && hasWire(l) && hasWire(r) && len(l) == 1 && len(r) == 1 {
					run(fmt.Sprint("wires ", i, " ", j), fn, [][]fac{l, r}, nil, true)
				}
			}
		}
	}
	if fn := have("negateFactors"); fn != nil {
		for i, l := range all {
			run(fmt.Sprint(i), fn, [][]fac{l}, is(T.neg(value(l))), false)
		}
	}
	if fn := have("invertFactors"); fn != nil {
		for i, l := range append(append([][]fac{}, nums[0], nums[1], nums[2], nums[4]), []fac{A.number(3)}) {
			run(fmt.Sprint(i), fn, [][]fac{l}, is(T.inv(value(l))), false)
		}
	}
	if fn := have("factorSignature"); fn != nil {
		for i, l := range all {
			want := value(l)
			run(fmt.Sprint(i), fn, [][]fac{l}, func(st *State, rets []Val) string {
				g := st.latest(A.bigAt(st, rets[0], fn.Pos()))
				got, msg := read(st, rets[1])
				if msg != "" {
					return msg
				}
				if !A.zeroIn(st, T.sub(T.mul(g.t, got), want)) {
					return "the common factor times the rest is not the list"
				}
				return ""
			}, false)
		}
	}
	if fn := have("extractConstant"); fn != nil {
		for i, l := range all {
			for j, r := range all {
				if !R.thorough() && (2*i+j)%6 != 0 && i != j {
					continue
				}
				want := T.mul(value(l), value(r))
				run(fmt.Sprint(i, " ", j), fn, [][]fac{l, r}, func(st *State, rets []Val) string {
					g := st.latest(A.bigAt(st, rets[0], fn.Pos()))
					x, m1 := read(st, rets[1])
					y, m2 := read(st, rets[2])
					if m1+m2 != "" {
						return m1 + m2
					}
					if !A.zeroIn(st, T.sub(T.mul(g.t, T.mul(x, y)), want)) {
						return "the common factor times the remaining lists is not the product"
					}
					return ""
				}, false)
			}
		}
	}
	if found < 3 {
		R.bad("D09/anchor", cc, "the operations on factor lists were not found", nil)
	}
	R.counts["operations"] += n
	for _, k := range A.evOrder {
		e := A.events[k]
		if e.kind == "mutates" && (strings.Contains(e.msg, "coefficient") || strings.Contains(e.msg, "package-level")) {
			R.bad("D09/mutates", R.P.pos(e.pos)+" in "+e.fn, e.msg, nil)
		}
	}
	R.absorb(A)
}

func hasWire(l []fac) bool {
	for _, f := range l {
		if f.wire != "" {
			return true
		}
	}
	return false
}

// symFactors is factors with numbers whose digits are those of the coefficient.
func (A *Analysis) symFactors(st *State, l []fac) Val {
	var e []Val
	for _, f := range l {
		tok := A.token("ARGUMENT", f.wire)
		if f.wire == "" {
			id := str(f.text)
			if f.c.k != nil {
				id = str(f.c.k.String())
			} else {
				id = A.decimal(f.c)
			}
			tok = A.structOf("Token", map[string]Val{"Type": A.enum("NumberToken"), "Identifier": id})
		}
		e = append(e, A.structOf("factor", map[string]Val{"typ": tok, "multiplicative": A.frozenBig(st, "coefficient", f.c)}))
	}
	return A.sliceOf(st, A.typ("factor"), e)
}

// freezeGlobals is a state in which nothing reachable from a package-level
// variable may be written.
func (A *Analysis) freezeGlobals() *State {
	st := A.newState()
	var ids []int
	names := map[int]string{}
	for g, id := range A.globals {
		ids = append(ids, id)
		names[id] = g.String()
	}
	sort.Ints(ids)
	seen := map[int]bool{}
	for _, id := range ids {
		A.freezeAll(st, VPtr{obj: id}, "package-level "+names[id], seen)
	}
	return st
}

// wires1 evaluates a factor list over known wires.
type wires1 struct {
	A   *Analysis
	st  *State
	val map[string]*Term
}

func (w *wires1) sum(v Val) (*Term, string) {
	A := w.A
	x := &wires{A: A, st: w.st, val: map[string]*Term{}}
	for n, t := range w.val {
		k, _ := valKey(str(n))
		x.val[k] = t
	}
	return x.sum(x.facs(v))
}
