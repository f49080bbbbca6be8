package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A04: ownership of scratch numbers.

// argVariants lists abstract arguments for a parameter type.
func (A *Analysis) mkArg(st *State, t types.Type, name string, variant int) (Val, bool) {
	leaf := func(path string) *BigVal {
		if strings.Contains(path, ".z") && !strings.Contains(path, "gf") {
			return A.exactNN(A.T.atom(path))
		}
		return A.bigAny(A.T.atom(path))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if isPtrTo(t, "bnPool") {
			return A.freshPool(st), true
		}
		if isBigInt(u.Elem()) {
			ks := []int64{6, 5, 1, 0}
			return A.newBig(st, A.bigConst(big.NewInt(ks[variant%len(ks)])), 0), true
		}
		n, ok := u.Elem().(*types.Named)
		if !ok {
			return nil, false
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			return nil, false
		}
		if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return nil, false
		}
		for i := 0; i < n.Underlying().(*types.Struct).NumFields(); i++ {
			if _, ok := n.Underlying().(*types.Struct).Field(i).Type().Underlying().(*types.Pointer); !ok {
				return nil, false
			}
		}
		return A.build(st, n, name, leaf), true
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			sizes := []int{64, 128, 384}
			n := sizes[variant%len(sizes)]
			id := A.alloc(st, &Obj{val: VOpaqueArr{name, n}, typ: types.NewArray(u.Elem(), int64(n)), tag: name})
			return VSlice{obj: id, len: n, cap: n}, true
		}
		var el []Val
		for i := 0; i < 2; i++ {
			v, ok := A.mkArg(st, u.Elem(), fmt.Sprintf("%s%d", name, i), variant)
			if !ok {
				return nil, false
			}
			el = append(el, v)
		}
		return A.sliceOf(st, u.Elem(), el), true
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return VStr{known: true, s: "17"}, true
		case u.Info()&types.IsInteger != 0:
			return VInt{c: int64(variant)}, true
		case u.Info()&types.IsBoolean != 0:
			return VBool{known: true, b: variant%2 == 0}, true
		}
	case *types.Interface:
		return VOpaque{"interface " + name}, true
	}
	return nil, false
}

// summaryOp: the operation overwrites its receiver with an unknown element,
// touching the storage of its operands.
func (A *Analysis) summaryOp(withRet bool) Contract {
	return func(A *Analysis, c *callCtx) []Outcome {
		if len(A.stack) == 0 {
			return nil // the function under analysis itself
		}
		// every operand is read, the receiver written
		for i := len(c.args) - 1; i >= 0; i-- {
			t := c.fn.Params[i].Type()
			if isPtrTo(t, "bnPool") {
				continue
			}
			ids := A.leafIDs(c.st, c.args[i])
			if ids == nil && i == 0 {
				return nil
			}
			for _, id := range ids {
				p := VPtr{obj: id}
				A.bigAt(c.st, p, c.pos)
				if i == 0 {
					A.setBig(c.st, p, A.bigAny(A.T.freshAtom("res")), c.pos)
				}
			}
		}
		if withRet {
			return one1(c.st, c.args[0])
		}
		return one1(c.st)
	}
}

func checkPool(R *Report) {
	R.rule = "Typestate of scratch numbers (taken, released) over every function of the group arithmetic package and every full-operand aliasing: no number is read, written or released again after its release, nothing owned by the caller or by a package-level constant is released, and nothing released is reachable from the receiver, the arguments or the results when the function returns; the pool itself never keeps a number it hands out and never holds one twice."
	R.bounds = "exponent ladders are analysed for the constant exponents 0,1,5,6 (every bit transition)."
	A := pairingAnalysis(R)
	summarised := R.summarise(A, true)
	n := R.drivePairing(A, nil, func(o *Outcome, k, key string, fn *ssa.Function, args []Val) {
		var bad []string
		for i, a := range args {
			A.releasedReachable(o.st, a, fmt.Sprintf("argument %d", i), map[int]bool{}, &bad)
		}
		for i, r := range o.rets {
			A.releasedReachable(o.st, r, fmt.Sprintf("result %d", i), map[int]bool{}, &bad)
		}
		if summarised[key] {
			ids := map[int]int{}
			for i, a := range args {
				for _, id := range A.leafIDs(o.st, a) {
					if j, have := ids[id]; have && !samePtr(args[j], a) {
						bad = append(bad, fmt.Sprintf("argument %d shares storage with argument %d", i, j))
					}
					ids[id] = i
				}
			}
			if fn.Signature.Recv() == nil {
				for _, r := range o.rets {
					for _, id := range A.leafIDs(o.st, r) {
						if _, have := ids[id]; have {
							bad = append(bad, "the result shares storage with an argument")
						}
					}
				}
			}
		}
		R.check(len(bad) == 0, k, R.P.pos(fn.Pos())+" "+key, "released scratch storage is still reachable: "+strings.Join(bad, ", "), o.st)
	})
	R.eventsAs(A, "A04", "use-after-release", "double-release", "foreign-release", "nil-release", "mutates")
	R.counts["functions"] = n
	R.counts["releases"] = A.poolPuts
	R.counts["acquisitions"] = A.poolGets
	if n < 60 || A.poolPuts == 0 {
		R.bad("A04/anchors", "pairing", fmt.Sprintf("only %d functions and %d releases analysed", n, A.poolPuts), nil)
	}
	R.checkPoolItself(A)
	R.absorb(A)
}

// summarise replaces called arithmetic by "reads its operands, overwrites its
// receiver"; the bodies are entries of the analysis themselves.
func (R *Report) summarise(A *Analysis, group bool) map[string]bool {
	// Assume-guarantee: inside other functions these operations are replaced by
	// "reads its operands, overwrites its receiver"; their own bodies are
	// entries of this analysis.
	summarised := map[string]bool{}
	for _, m := range [][2]string{{"curvePoint", "Mul"}, {"curvePoint", "Add"}, {"curvePoint", "Double"}, {"twistPoint", "Mul"}, {"twistPoint", "Add"}, {"twistPoint", "Double"},
		{"gfP12", "Exp"}, {"gfP12", "Mul"}, {"gfP12", "Square"}, {"gfP12", "Invert"}, {"gfP2", "Exp"}, {"gfP6", "Mul"}, {"gfP6", "Square"}, {"gfP6", "Invert"}, {"gfP2", "Mul"}, {"gfP2", "Square"}, {"gfP2", "Invert"}} {
		if !group && strings.HasSuffix(m[0], "Point") {
			continue
		}
		if fn := R.P.method("pairing", m[0], m[1]); fn != nil {
			A.contracts[funcKey(fn)] = A.summaryOp(fn.Signature.Results().Len() > 0)
			summarised[funcKey(fn)] = true
		}
	}
	for _, nm := range []string{"miller", "finalExponentiation"} {
		fn := R.P.fn("pairing", nm)
		if fn == nil {
			continue
		}
		rt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		summarised[funcKey(fn)] = true
		A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
			if len(A.stack) == 0 {
				return nil
			}
			for _, a := range c.args {
				for _, id := range A.leafIDs(c.st, a) {
					A.bigAt(c.st, VPtr{obj: id}, c.pos)
				}
			}
			p := A.build(c.st, rt, "result", func(string) *BigVal { return A.bigAny(A.T.freshAtom("res")) })
			for _, id := range A.leafIDs(c.st, p) {
				o := *c.st.get(id)
				o.pool = poolLive
				c.st.set(id, &o)
			}
			return one1(c.st, p)
		}
	}
	return summarised
}

// drivePairing analyses every operation of the package with abstract operands
// for every aliasing.
func (R *Report) drivePairing(A *Analysis, want func(*ssa.Function) bool, each func(o *Outcome, k, key string, fn *ssa.Function, args []Val)) int {
	internal := map[string]bool{"lineFunctionAdd": true, "lineFunctionDouble": true, "mulLine": true, "miller": true, "finalExponentiation": true, "optimalAte": true}
	n := 0
	for _, fn := range R.P.funcs {
		if fn.Pkg == nil || fn.Pkg != R.P.pkgs["pairing"] || fn.Parent() != nil || strings.HasPrefix(fn.Name(), "init") {
			continue
		}
		key := funcKey(fn)
		if strings.HasPrefix(key, "(*pairing.bnPool)") || fn.Name() == "String" || strings.Contains(key, "Random") {
			continue
		}
		// entries are the operations of the package; a helper that releases its
		// arguments is judged in the operations that call it
		if fn.Name() == "Put" || !(ast.IsExported(fn.Name()) || internal[fn.Name()]) {
			continue
		}
		if want != nil && !want(fn) {
			continue
		}
		// alias classes: parameters of the receiver's type
		var same []int
		for i, p := range fn.Params {
			if _, ok := p.Type().Underlying().(*types.Pointer); ok && !isPtrTo(p.Type(), "bnPool") && types.Identical(p.Type(), fn.Params[0].Type()) {
				same = append(same, i)
			}
		}
		variants := 1
		for _, p := range fn.Params {
			if isBigPtr(p.Type()) || p.Type().String() == "[]byte" {
				variants = 4
			}
		}
		pools := []bool{false}
		for _, p := range fn.Params {
			if isPtrTo(p.Type(), "bnPool") {
				pools = []bool{false, true}
			}
		}
		pats := partitions(len(same))
		handled := false
		for _, pat := range pats {
			for v := 0; v < variants; v++ {
				for _, nn := range [][2]bool{{false, false}, {true, false}, {false, true}} {
					nilRecv, nilPool := nn[0], nn[1]
					if nilPool && (len(pools) < 2 || v > 0) {
						continue
					}
					if nilRecv && !(len(fn.Params) > 0 && (isPtrTo(fn.Params[0].Type(), "G1") || isPtrTo(fn.Params[0].Type(), "G2") || isPtrTo(fn.Params[0].Type(), "GT")) && fn.Signature.Recv() != nil && firstOf(pat, 0) == 0 && !contains(pat[1:], 0)) {
						continue
					}
					st := A.newState()
					args := make([]Val, len(fn.Params))
					ok := true
					cls := map[int]Val{}
					for k, i := range same {
						if x, have := cls[pat[k]]; have {
							args[i] = x
							continue
						}
						x, good := A.mkArg(st, fn.Params[i].Type(), fmt.Sprintf("%s", fn.Params[i].Name()), v)
						if !good {
							ok = false
							break
						}
						cls[pat[k]] = x
						args[i] = x
					}
					for i, p := range fn.Params {
						if args[i] != nil || !ok {
							continue
						}
						args[i], ok = A.mkArg(st, p.Type(), p.Name(), v)
					}
					if !ok {
						continue
					}
					if nilRecv {
						et := fn.Params[0].Type().Underlying().(*types.Pointer).Elem()
						args[0] = VPtr{obj: A.alloc(st, &Obj{val: A.zeroVal(et), typ: et, tag: "receiver"})}
					}
					if nilPool {
						for i, p := range fn.Params {
							if isPtrTo(p.Type(), "bnPool") {
								args[i] = VNil{}
							}
						}
					}
					handled = true
					k := fmt.Sprintf("%s aliasing %v variant %d nil receiver %v nil pool %v", key, pat, v, nilRecv, nilPool)
					A.callerMark = A.nextObj
					R.guard(A, k, func() {
						for _, o := range A.call(fn, args, nil, st, fn.Pos()) {
							if o.panicked {
								continue
							}
							each(&o, k, key, fn, args)
						}
					})
				}
			}
		}
		if handled {
			n++
		} else {
			R.note("%s is not analysed (parameter types)", key)
		}
	}
	return n
}

func samePtr(a, b Val) bool {
	x, ok1 := a.(VPtr)
	y, ok2 := b.(VPtr)
	return ok1 && ok2 && x.obj == y.obj
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// bigsIn lists the big.Int objects held by a container, in order.
func (A *Analysis) bigsIn(st *State, v Val, seen map[int]bool) (out []int) {
	switch x := v.(type) {
	case VPtr:
		o := st.get(x.obj)
		if o == nil {
			return
		}
		if _, ok := o.val.(VBig); ok {
			return []int{x.obj}
		}
		if seen[x.obj] {
			return
		}
		seen[x.obj] = true
		return A.bigsIn(st, o.val, seen)
	case VStruct:
		for _, f := range x.f {
			out = append(out, A.bigsIn(st, f, seen)...)
		}
	case VSlice:
		for _, f := range A.sliceElems(st, x) {
			out = append(out, A.bigsIn(st, f, seen)...)
		}
	case VArr:
		for _, f := range x.e {
			out = append(out, A.bigsIn(st, f, seen)...)
		}
	case VMap:
		for _, f := range st.get(x.obj).val.(VMapV).vals {
			out = append(out, A.bigsIn(st, f, seen)...)
		}
	}
	return
}

func (R *Report) checkPoolItself(A *Analysis) {
	get, put := R.P.method("pairing", "bnPool", "Get"), R.P.method("pairing", "bnPool", "Put")
	if get == nil || put == nil {
		R.bad("A04/anchors", "pairing", "the scratch pool operations were not found", nil)
		return
	}
	delete(A.contracts, funcKey(get))
	delete(A.contracts, funcKey(put))
	run := func(fn *ssa.Function, st *State, args ...Val) *Outcome {
		outs := A.call(fn, args, nil, st, fn.Pos())
		if len(outs) != 1 || outs[0].panicked {
			R.bad("pool "+fn.Name(), R.P.pos(fn.Pos())+" "+funcKey(fn), fmt.Sprintf("%d outcomes or a panic", len(outs)), nil)
			return nil
		}
		return &outs[0]
	}
	// all sequences of up to four operations; out holds what is taken
	var rec func(st *State, pool Val, out []int, depth int, hist string)
	rec = func(st *State, pool Val, out []int, depth int, hist string) {
		if depth == 0 {
			return
		}
		{
			o := run(get, st.fork(), pool)
			if o != nil {
				where := R.P.pos(get.Pos()) + " " + funcKey(get)
				p, ok := o.rets[0].(VPtr)
				h := hist + " Get"
				R.check(ok, "pool sequence"+h, where, "a taken number is nil", o.st)
				if ok {
					held := A.bigsIn(o.st, pool, map[int]bool{})
					R.check(!contains(held, p.obj), "pool sequence"+h, where, "the pool keeps a number it handed out", o.st)
					R.check(!contains(out, p.obj), "pool sequence"+h, where, "a number already taken is handed out again", o.st)
					rec(o.st, pool, append(append([]int{}, out...), p.obj), depth-1, h)
				}
			}
		}
		if len(out) > 0 {
			for _, i := range []int{0, len(out) - 1} {
				o := run(put, st.fork(), pool, VPtr{obj: out[i]})
				if o == nil {
					continue
				}
				h := hist + " Put"
				held := A.bigsIn(o.st, pool, map[int]bool{})
				dup := false
				for a := range held {
					for b := 0; b < a; b++ {
						if held[a] == held[b] {
							dup = true
						}
					}
				}
				R.check(!dup, "pool sequence"+h, R.P.pos(put.Pos())+" "+funcKey(put), "the pool holds a number twice", o.st)
				rest := append(append([]int{}, out[:i]...), out[i+1:]...)
				rec(o.st, pool, rest, depth-1, h)
				if len(out) == 1 {
					break
				}
			}
		}
	}
	R.guard(A, "pool sequences", func() {
		st := A.newState()
		pool := A.freshPool(st)
		rec(st, pool, nil, 6, "")
		st2 := A.newState()
		if o := run(get, st2, VNil{}); o != nil {
			p, ok := o.rets[0].(VPtr)
			R.check(ok, "nil pool Get", R.P.pos(get.Pos()), "no number without a pool", o.st)
			if ok {
				run(put, o.st, VNil{}, p)
			}
		}
	})
}
