package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A08: package-level parameters.

// frozenReachable lists package-level storage reachable from v.
func (A *Analysis) frozenReachable(st *State, v Val, path string, seen map[int]bool, out *[]string) {
	obj := func(id int) {
		o := st.get(id)
		if o == nil || seen[id] {
			return
		}
		seen[id] = true
		if o.frozen != "" {
			*out = append(*out, path+" ("+o.frozen+")")
			return
		}
		A.frozenReachable(st, o.val, path, seen, out)
	}
	switch x := v.(type) {
	case VPtr:
		obj(x.obj)
	case VSlice:
		obj(x.obj)
	case VMap:
		obj(x.obj)
	case VStruct:
		for i, f := range x.f {
			A.frozenReachable(st, f, path+"."+itoa(i), seen, out)
		}
	case VArr:
		for i, f := range x.e {
			A.frozenReachable(st, f, path+"["+itoa(i)+"]", seen, out)
		}
	case VTuple:
		for i, f := range x.v {
			A.frozenReachable(st, f, path+"#"+itoa(i), seen, out)
		}
	case VIface:
		A.frozenReachable(st, x.v, path, seen, out)
	}
}

// globalOf is the initial value of a package-level variable.
func (A *Analysis) globalOf(pkg, name string) (*ssa.Global, Val) {
	sp := A.P.pkgs[pkg]
	if sp == nil {
		return nil, nil
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil, nil
	}
	return g, A.base[A.globals[g]].val
}

func (A *Analysis) constLeaves(v Val) (out []*big.Int, ok bool) {
	l, ok := A.leaves(A.newState(), v)
	if !ok {
		return nil, false
	}
	for _, b := range l {
		if b.k == nil {
			return nil, false
		}
		out = append(out, b.k)
	}
	return out, true
}

func checkConstants(R *Report) {
	R.rule = "Package initialisers are evaluated by constant propagation; the resulting parameters are compared with the Barreto-Naehrig relations. Every operation of the pairing package is analysed with the initial heap marked immutable: no store or big.Int operation targets storage reachable from a package-level variable, no such storage is reachable from a result or receiver of an exported operation, and no operation keeps a reference to the storage of an operand."
	R.bounds = "exponents 0,1,5,6 for the ladders; slices of two points."
	A := pairingAnalysis(R)
	R.parameters(A)
	capture := func(o *Outcome, k, key string, fn *ssa.Function, args []Val) {
		var bad []string
		recv := fn.Signature.Recv() != nil
		if recv && len(args) > 0 {
			A.frozenReachable(o.st, args[0], "the receiver", map[int]bool{}, &bad)
		}
		for i, r := range o.rets {
			A.frozenReachable(o.st, r, fmt.Sprintf("result %d", i), map[int]bool{}, &bad)
		}
		where := R.P.pos(fn.Pos()) + " " + key
		R.check(len(bad) == 0, k, where, "package-level storage is handed out: "+strings.Join(bad, ", "), o.st)
		// operands keep their storage for themselves
		owner := map[int]int{}
		var shared []string
		for i, a := range args {
			if i == 0 && recv {
				continue
			}
			for _, id := range A.leafIDs(o.st, a) {
				owner[id] = i
			}
		}
		lim := A.callerMark
		see := func(what string, v Val, skip map[int]bool) {
			for _, id := range A.leafIDs(o.st, v) {
				if i, have := owner[id]; have && id <= lim && !skip[id] {
					shared = append(shared, fmt.Sprintf("%s and operand %d", what, i))
					return
				}
			}
		}
		if recv && len(args) > 0 {
			own := map[int]bool{}
			for i, a := range args[1:] {
				if samePtr(a, args[0]) {
					for _, id := range A.leafIDs(o.st, args[i+1]) {
						own[id] = true
					}
				}
			}
			see("the receiver", args[0], own)
			for i, r := range o.rets {
				if !samePtr(r, args[0]) {
					see(fmt.Sprintf("result %d", i), r, own)
				}
			}
		}
		R.check(len(shared) == 0, k, where, "storage is shared between "+strings.Join(shared, ", "), o.st)
	}
	R.summarise(A, true)
	n := R.drivePairing(A, nil, capture)
	R.eventsAs(A, "A08", "mutates", "mutates-map", "foreign-release")
	R.absorb(A)
	// the group operations themselves on the package-level points
	B := pairingAnalysis(R)
	R.summarise(B, false)
	m := R.driveGroup(B)
	R.eventsAs(B, "A08", "mutates", "mutates-map", "foreign-release")
	R.absorb(B)
	R.counts["operations"] = n
	R.counts["group_operations_on_package_points"] = m
	if n < 60 || m < 6 {
		R.bad("A08/anchors", "pairing", fmt.Sprintf("only %d operations and %d group operations analysed", n, m), nil)
	}
}

// driveGroup runs the public operations of G1 and G2 with the package-level
// points as operands; only field operations are summarised.
func (R *Report) driveGroup(A *Analysis) int {
	n := 0
	for _, fn := range R.P.funcs {
		if fn.Pkg == nil || fn.Pkg != R.P.pkgs["pairing"] || fn.Parent() != nil || fn.Signature.Recv() == nil || fn.Name() == "String" {
			continue
		}
		typ, point := "", ""
		for _, t := range [][2]string{{"G1", "curvePoint"}, {"G2", "twistPoint"}} {
			if isPtrTo(fn.Params[0].Type(), t[0]) {
				typ, point = t[0], t[1]
			}
		}
		if typ == "" || fn.Name() == "Unmarshal" {
			continue
		}
		var gen Val
		var gname string
		for g, id := range A.globals {
			if g.Pkg == R.P.pkgs["pairing"] && isPtrTo(g.Type().Underlying().(*types.Pointer).Elem(), point) && (gname == "" || g.Name() < gname) {
				gen, gname = A.base[id].val, g.Name()
			}
		}
		if gen == nil {
			R.bad("A08/anchors", "pairing", "no package-level "+point+" was found", nil)
			continue
		}
		for _, k := range []int64{0, 1, 2, 3} {
			st := A.newState()
			args := make([]Val, len(fn.Params))
			ok := true
			hasK := false
			for i, p := range fn.Params {
				switch {
				case i == 0 && len(fn.Params) > 1:
					et := p.Type().Underlying().(*types.Pointer).Elem()
					args[i] = VPtr{obj: A.alloc(st, &Obj{val: A.zeroVal(et), typ: et, tag: "receiver"})}
				case isPtrTo(p.Type(), typ):
					args[i] = A.wrapGroup(st, typ, gen)
				case isBigPtr(p.Type()):
					args[i] = A.newBig(st, A.bigConst(big.NewInt(k)), 0)
					hasK = true
				default:
					ok = false
				}
			}
			if !ok || k > 0 && !hasK || len(fn.Params) == 1 && fn.Name() != "Marshal" {
				break
			}
			if len(fn.Params) == 1 {
				// reading operations may normalise their own receiver
				break
			}
			n++
			key := fmt.Sprintf("%s on %s, scalar %d", funcKey(fn), gname, k)
			A.callerMark = A.nextObj
			R.guard(A, key, func() {
				for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
					if o.panicked {
						continue
					}
					var bad []string
					A.frozenReachable(o.st, args[0], "the receiver", map[int]bool{}, &bad)
					for i, r := range o.rets {
						A.frozenReachable(o.st, r, fmt.Sprintf("result %d", i), map[int]bool{}, &bad)
					}
					R.check(len(bad) == 0, key, R.P.pos(fn.Pos())+" "+funcKey(fn), "package-level storage is handed out: "+strings.Join(bad, ", "), o.st)
				}
			})
		}
	}
	return n
}

func (R *Report) parameters(A *Analysis) {
	at := func(g *ssa.Global) string { return R.P.pos(g.Pos()) + " " + g.Name() }
	eq := func(pkg, name string, required bool, want ...*big.Int) {
		g, v := A.globalOf(pkg, name)
		if g == nil {
			if required {
				R.bad("A08/"+name, pkg, "the package-level value "+name+" was not found", nil)
			} else {
				R.note("package-level value %s.%s was not found; its uses are judged by A01-A07", pkg, name)
			}
			return
		}
		l, ok := A.constLeaves(v)
		if !ok || len(l) != len(want) {
			R.bad("A08/"+name, at(g), "is not initialised to a constant", nil)
			return
		}
		for i := range l {
			R.check(l[i].Cmp(want[i]) == 0, "A08/"+name, at(g), fmt.Sprintf("component %d is %s instead of %s", i, l[i], want[i]), nil)
		}
	}
	n := bnPoly(36, 36, 18, 6, 1)
	eq("pairing", "P", true, bnPoly(36, 36, 24, 6, 1))
	eq("pairing", "Order", true, n)
	eq("pairing", "u", false, bnU)
	R.check(bnP.ProbablyPrime(20) && n.ProbablyPrime(20), "A08/primes", "pairing", "the field modulus and the group order are not both prime", nil)
	xi := func(e *big.Int) []*big.Int { c := xiPow(e); return []*big.Int{c.x, c.y} }
	re := func(e *big.Int) []*big.Int {
		c := xiPow(e)
		if c.x.Sign() != 0 {
			panic("specification: not in the prime field")
		}
		return []*big.Int{c.y}
	}
	eq("pairing", "xiToPMinus1Over6", false, xi(frac(pm1(), 6))...)
	eq("pairing", "xiToPMinus1Over3", false, xi(frac(pm1(), 3))...)
	eq("pairing", "xiToPMinus1Over2", false, xi(frac(pm1(), 2))...)
	eq("pairing", "xiTo2PMinus2Over3", false, xi(frac(new(big.Int).Lsh(pm1(), 1), 3))...)
	eq("pairing", "xiToPSquaredMinus1Over3", false, re(frac(p2m1(), 3))...)
	eq("pairing", "xiTo2PSquaredMinus2Over3", false, re(frac(new(big.Int).Lsh(p2m1(), 1), 3))...)
	eq("pairing", "xiToPSquaredMinus1Over6", false, re(frac(p2m1(), 6))...)
	eq("pairing", "curveB", false, big.NewInt(3))
	// twistB = 3/xi
	inv := xiPow(new(big.Int).Sub(p2m1(), one_))
	three := func(a *big.Int) *big.Int { return new(big.Int).Mod(new(big.Int).Mul(a, big.NewInt(3)), bnP) }
	tb := c2{three(inv.x), three(inv.y)}
	eq("pairing", "twistB", false, tb.x, tb.y)
	// generators and signed digit expansions, found by type
	var gs []*ssa.Global
	for g := range A.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
	pts, digs, fqs := 0, 0, 0
	for _, g := range gs {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		v := A.base[A.globals[g]].val
		switch {
		case isPtrTo(et, "curvePoint"), isPtrTo(et, "twistPoint"):
			d := 1
			b := c2{new(big.Int), big.NewInt(3)}
			if isPtrTo(et, "twistPoint") {
				d, b = 2, tb
			}
			l, ok := A.constLeaves(v)
			if !ok || len(l) != 4*d {
				R.bad("A08/"+g.Name(), at(g), "is not a constant point", nil)
				continue
			}
			pts++
			c := func(i int) c2 {
				if d == 1 {
					return c2{new(big.Int), l[i]}
				}
				return c2{l[2*i], l[2*i+1]}
			}
			x, y, z, t := c(0), c(1), c(2), c(3)
			eqc := func(a, b c2) bool { return a.x.Cmp(b.x) == 0 && a.y.Cmp(b.y) == 0 }
			onec := c2{new(big.Int), one_}
			R.check(eqc(z, onec) && eqc(t, onec), "A08/"+g.Name(), at(g), "the generator is not in affine form", nil)
			rhs := cmul2(cmul2(x, x, bnP), x, bnP)
			rhs = c2{new(big.Int).Mod(new(big.Int).Add(rhs.x, b.x), bnP), new(big.Int).Mod(new(big.Int).Add(rhs.y, b.y), bnP)}
			R.check(eqc(cmul2(y, y, bnP), rhs), "A08/"+g.Name(), at(g), "the generator is not on its curve", nil)
			for _, a := range l {
				R.check(a.Sign() >= 0 && a.Cmp(bnP) < 0, "A08/"+g.Name(), at(g), "a coordinate is not reduced", nil)
			}
			R.check(cOrderKills(x, y, n), "A08/"+g.Name(), at(g), "the generator does not have the group order", nil)
		case isInt8Slice(et):
			sl, ok := v.(VSlice)
			if !ok {
				R.bad("A08/"+g.Name(), at(g), "is not a constant digit list", nil)
				continue
			}
			st := A.newState()
			sum := new(big.Int)
			for i, e := range A.sliceElems(st, sl) {
				x, ok := e.(VInt)
				if !ok || x.sym != nil || x.cmp != nil {
					sum = nil
					break
				}
				R.check(x.c >= -1 && x.c <= 1, "A08/"+g.Name(), at(g), "a digit is outside -1,0,1", nil)
				sum.Add(sum, new(big.Int).Lsh(big.NewInt(x.c), uint(i)))
			}
			digs++
			R.check(sum != nil && sum.Cmp(bnPoly(6, 2)) == 0, "A08/"+g.Name(), at(g), "the digits do not sum to 6u+2", nil)
		default:
			A.moduli(v, et, 0, func(b *BigVal) {
				fqs++
				R.check(b != nil && b.k != nil && b.k.Cmp(n) == 0, "A08/"+g.Name(), at(g), "the modulus of a package-level field is not the group order", nil)
			})
		}
	}
	if pts < 2 {
		R.bad("A08/generators", "pairing", fmt.Sprintf("%d package-level points found", pts), nil)
	}
	if fqs == 0 {
		R.bad("A08/Field", "utils", "no package-level field was found", nil)
	}
	R.counts["package_fields"] = fqs
	R.counts["package_points"] = pts
	R.counts["digit_lists"] = digs
}

// moduli visits the big.Int members of every finite field below a value.
func (A *Analysis) moduli(v Val, t types.Type, depth int, f func(*BigVal)) {
	if depth > 4 {
		return
	}
	if p, ok := v.(VPtr); ok {
		if o := A.base[p.obj]; o != nil {
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				A.moduli(loadPath(o.val, p.path), pt.Elem(), depth+1, f)
			}
		}
		return
	}
	s, ok := v.(VStruct)
	st, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return
	}
	n, _ := t.(*types.Named)
	for i, x := range s.f {
		if n != nil && n.Obj().Name() == "Fq" && isBigPtr(st.Field(i).Type()) {
			var b *BigVal
			if p, ok := x.(VPtr); ok && A.base[p.obj] != nil {
				if vb, ok := A.base[p.obj].val.(VBig); ok {
					b = vb.b
				}
			}
			f(b)
			continue
		}
		A.moduli(x, st.Field(i).Type(), depth+1, f)
	}
}

func isInt8Slice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int8
}

// cOrderKills tells whether n times the affine point is infinity (a=0 curve).
func cOrderKills(x, y c2, n *big.Int) bool {
	p := bnP
	sub := func(a, b c2) c2 {
		return c2{new(big.Int).Mod(new(big.Int).Sub(a.x, b.x), p), new(big.Int).Mod(new(big.Int).Sub(a.y, b.y), p)}
	}
	inv := func(a c2) c2 { return cpow2(a, new(big.Int).Sub(p2m1(), one_), p) }
	zero := func(a c2) bool { return a.x.Sign() == 0 && a.y.Sign() == 0 }
	type pt struct {
		x, y c2
		inf  bool
	}
	var add func(a, b pt) pt
	add = func(a, b pt) pt {
		if a.inf {
			return b
		}
		if b.inf {
			return a
		}
		var l c2
		if zero(sub(a.x, b.x)) {
			if !zero(sub(a.y, b.y)) || zero(a.y) {
				return pt{inf: true}
			}
			xx := cmul2(a.x, a.x, p)
			num := sub(sub(sub(c2{new(big.Int), new(big.Int)}, xx), xx), xx)
			num = sub(c2{new(big.Int), new(big.Int)}, num)
			den := sub(a.y, sub(c2{new(big.Int), new(big.Int)}, a.y))
			l = cmul2(num, inv(den), p)
		} else {
			l = cmul2(sub(b.y, a.y), inv(sub(b.x, a.x)), p)
		}
		x3 := sub(sub(cmul2(l, l, p), a.x), b.x)
		return pt{x: x3, y: sub(cmul2(l, sub(a.x, x3), p), a.y)}
	}
	acc := pt{inf: true}
	base := pt{x: x, y: y}
	for i := n.BitLen() - 1; i >= 0; i-- {
		acc = add(acc, acc)
		if n.Bit(i) == 1 {
			acc = add(acc, base)
		}
	}
	return acc.inf
}
