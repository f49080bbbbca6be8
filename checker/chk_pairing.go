package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A07: the optimal ate pairing is assembled from the right pieces.

// bySig finds package functions (no receiver) by parameter and result types.
func (P *Program) bySig(pkg, sig string) (out []*ssa.Function) {
	for _, fn := range P.funcs {
		if fn.Pkg == nil || fn.Pkg != P.pkgs[pkg] || fn.Parent() != nil || fn.Signature.Recv() != nil {
			continue
		}
		var l []string
		for i := 0; i < fn.Signature.Params().Len(); i++ {
			l = append(l, shortType(fn.Signature.Params().At(i).Type()))
		}
		l = append(l, "->")
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			l = append(l, shortType(fn.Signature.Results().At(i).Type()))
		}
		if strings.Join(l, " ") == sig {
			out = append(out, fn)
		}
	}
	return
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return "" })
}

func (P *Program) one(pkg, name, sig string) *ssa.Function {
	if fn := P.fn(pkg, name); fn != nil {
		return fn
	}
	if l := P.bySig(pkg, sig); len(l) == 1 {
		return l[0]
	}
	return nil
}

type pairingFns struct{ add, dbl, mul, miller, final, ate *ssa.Function }

func (P *Program) pairingFns() pairingFns {
	return pairingFns{
		add:    P.one("pairing", "lineFunctionAdd", "*twistPoint *twistPoint *curvePoint *gfP2 *bnPool -> *gfP2 *gfP2 *gfP2 *twistPoint"),
		dbl:    P.one("pairing", "lineFunctionDouble", "*twistPoint *curvePoint *bnPool -> *gfP2 *gfP2 *gfP2 *twistPoint"),
		mul:    P.one("pairing", "mulLine", "*gfP12 *gfP2 *gfP2 *gfP2 *bnPool ->"),
		miller: P.fn("pairing", "miller"),
		final:  P.one("pairing", "finalExponentiation", "*gfP12 *bnPool -> *gfP12"),
		ate:    P.fn("pairing", "optimalAte"),
	}
}

func checkPairing(R *Report) {
	R.rule = "Five layers. (1) Both line functions, as rational functions of symbolic coordinates: the new point is the chord/tangent sum with its squared z, and the returned coefficients are proportional to the line through the operands evaluated at the other point. (2) The sparse product equals the full product with that line. (3) The Miller loop in the divisor domain: every line adds (R)+(S)-(R+S), squarings double, and the accumulated divisor must be (6u+2)(Q)+(pi Q)-(pi^2 Q)-(remainder), where Frobenius images are recognised from their coordinates; independent of the addition chain. (4) The final exponentiation in the exponent ring modulo p^12-1 must be (p^12-1)/n. (5) Pair and PairingCheck in the logarithm domain, with infinite operands."
	R.bounds = "PairingCheck: lists of up to 3 pairs with every pattern of infinite points."
	f := R.P.pairingFns()
	for _, x := range []struct {
		n  string
		fn *ssa.Function
	}{{"line addition", f.add}, {"line doubling", f.dbl}, {"line product", f.mul}, {"Miller loop", f.miller}, {"final exponentiation", f.final}} {
		if x.fn == nil {
			R.bad("A07/anchor "+x.n, "pairing", "the "+x.n+" was not found", nil)
			return
		}
	}
	R.lineFunctions(f)
	R.millerLoop(f)
	R.finalExp(f)
	R.pairAPI(f)
}

func (A *Analysis) f2Cell(st *State, name string, t F2) Val {
	i := -1
	l := l2(t)
	return A.build(st, A.P.typ("pairing", "gfP2"), name, func(string) *BigVal { i++; return A.bigAny(l[i]) })
}

func (R *Report) lineFunctions(f pairingFns) {
	A := pairingAnalysis(R)
	k := Kd{A.T, 2}
	ptT, cT := R.P.typ("pairing", "twistPoint"), R.P.typ("pairing", "curvePoint")
	mk := func(st *State, affineR, isAdd bool) (r, p, q, r2 Val, ra, pa affine, xq, yq *Term, zr ke) {
		x, y, z := A.coords(k, "r")
		if affineR {
			z = k.konst(1)
		}
		zz := k.mul(z, z)
		c := [4][]*BigVal{}
		for i := 0; i < 2; i++ {
			c[0] = append(c[0], A.bigAny(x[i]))
			c[1] = append(c[1], A.bigAny(y[i]))
			c[2] = append(c[2], A.bigAny(z[i]))
			c[3] = append(c[3], A.bigAny(zz[i]))
		}
		r = A.putPoint(st, ptT, "r", c)
		ra = k.affineOf(x, y, z)
		zr = z
		px, py, _ := A.coords(k, "p")
		pc := [4][]*BigVal{}
		for i := 0; i < 2; i++ {
			pc[0] = append(pc[0], A.bigAny(px[i]))
			pc[1] = append(pc[1], A.bigAny(py[i]))
			pc[2] = append(pc[2], A.bigAny(k.konst(1)[i]))
			pc[3] = append(pc[3], A.bigAny(k.konst(1)[i]))
		}
		p = A.putPoint(st, ptT, "p", pc)
		pa = affine{x: px, y: py}
		yy := k.mul(py, py)
		r2 = A.f2Cell(st, "r2", F2{yy[0], yy[1]})
		xq, yq = A.T.atom("q.x"), A.T.atom("q.y")
		k1 := Kd{A.T, 1}
		q = A.putPoint(st, cT, "q", A.pointVals(k1, ke{xq}, ke{yq}, ke{A.T.one}, "q"))
		return
	}
	for _, isAdd := range []bool{true, false} {
		fn := f.dbl
		if isAdd {
			fn = f.add
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, aff := range []bool{false, true} {
			key := fmt.Sprintf("%s affine %v", funcKey(fn), aff)
			R.guard(A, key, func() {
				st := A.newState()
				r, p, q, r2, ra, pa, xq, yq, _ := mk(st, aff, isAdd)
				pool := A.freshPool(st)
				args := make([]Val, len(fn.Params))
				seenR := false
				for i, pr := range fn.Params {
					switch {
					case isPtrTo(pr.Type(), "twistPoint") && !seenR:
						args[i], seenR = r, true
					case isPtrTo(pr.Type(), "twistPoint"):
						args[i] = p
					case isPtrTo(pr.Type(), "curvePoint"):
						args[i] = q
					case isPtrTo(pr.Type(), "gfP2"):
						args[i] = r2
					default:
						args[i] = pool
					}
				}
				var lam ke
				var sum affine
				if isAdd {
					lam = k.mul(k.sub(ra.y, pa.y), k.inv(k.sub(ra.x, pa.x)))
					sum = k.addDistinct(ra, pa)
				} else {
					lam = k.mul(k.scale(k.mul(ra.x, ra.x), 3), k.inv(k.scale(ra.y, 2)))
					sum = k.dbl(ra)
				}
				outs := A.call(fn, args, nil, st, fn.Pos())
				R.check(len(outs) > 0, key, where, "never returns", nil)
				for _, o := range outs {
					if o.panicked || len(o.rets) != 4 {
						R.check(false, key, where, "panics or has no point", o.st)
						continue
					}
					get := func(i int) ke {
						l, ok := A.leaves(o.st, o.rets[i])
						if !ok || len(l) != 2 {
							A.fail(fn.Pos(), "incomplete line coefficient")
						}
						return ke(terms(l))
					}
					a, b, c := get(0), get(1), get(2)
					l, ok := A.leaves(o.st, o.rets[3])
					if !ok || len(l) != 8 {
						A.fail(fn.Pos(), "incomplete point")
					}
					x, y, z, t := ke(terms(l[0:2])), ke(terms(l[2:4])), ke(terms(l[4:6])), ke(terms(l[6:8]))
					z2 := k.mul(z, z)
					e := o.st.env
					R.check(!k.isZero(e, z) && k.eq(e, x, k.mul(sum.x, z2)), key, where, "the new point has a wrong abscissa", o.st)
					R.check(k.eq(e, y, k.mul(sum.y, k.mul(z2, z))), key, where, "the new point has a wrong ordinate", o.st)
					R.check(k.eq(e, t, z2), key, where, "the cached square of z of the new point is wrong", o.st)
					// line: y_q - lambda x_q w + (lambda x_r - y_r) w^3
					fx := func(s *Term, v ke) ke { return ke{A.T.mul(s, v[0]), A.T.mul(s, v[1])} }
					R.check(!k.isZero(e, c), key, where, "the constant coefficient of the line vanishes", o.st)
					R.check(k.eq(e, fx(yq, b), k.neg(fx(xq, k.mul(lam, c)))), key, where, "the slope coefficient of the line is wrong", o.st)
					R.check(k.eq(e, fx(yq, a), k.mul(k.sub(k.mul(lam, ra.x), ra.y), c)), key, where, "the intercept coefficient of the line is wrong", o.st)
					// operands
					for n, v := range map[string]Val{"r": r, "p": p} {
						l, _ := A.leaves(o.st, v)
						for i, bv := range l {
							R.check(o.st.env.eq(bv.t, A.initialTerm(st, v, i)), key, where, "operand "+n+" is modified", o.st)
						}
					}
				}
			})
		}
	}
	fn := f.mul
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	R.guard(A, funcKey(fn), func() {
		st := A.newState()
		w := Tower{A.T}
		var at []*Term
		ret := A.build(st, R.P.typ("pairing", "gfP12"), "ret", func(p string) *BigVal {
			t := A.T.atom(p)
			at = append(at, t)
			return A.bigAny(t)
		})
		var ab []F2
		var cells []Val
		for _, n := range []string{"a", "b", "c"} {
			v := F2{A.T.atom(n + ".x"), A.T.atom(n + ".y")}
			ab = append(ab, v)
			cells = append(cells, A.f2Cell(st, n, v))
		}
		args := make([]Val, len(fn.Params))
		ci := 0
		for i, pr := range fn.Params {
			switch {
			case isPtrTo(pr.Type(), "gfP12"):
				args[i] = ret
			case isPtrTo(pr.Type(), "gfP2") && ci < 3:
				args[i] = cells[ci]
				ci++
			default:
				args[i] = A.freshPool(st)
			}
		}
		z := w.zero2()
		line := F12{F6{z, ab[0], ab[1]}, F6{z, z, ab[2]}}
		want := l12(w.mul12(w.f12(at), line))
		outs := A.call(fn, args, nil, st, fn.Pos())
		for _, o := range outs {
			l, ok := A.leaves(o.st, ret)
			R.check(!o.panicked && ok && len(l) == 12, funcKey(fn), where, "panics or damages the accumulator", o.st)
			for i := range l {
				R.check(o.st.env.eq(l[i].t, want[i]), funcKey(fn), where, fmt.Sprintf("coordinate %d of the product with the line is wrong", i), o.st)
			}
		}
		R.check(len(outs) > 0, funcKey(fn), where, "never returns", nil)
	})
	R.absorb(A)
}

// initialTerm reads the i-th cell of v as it was built (cells are numbered
// deterministically and named by their position).
func (A *Analysis) initialTerm(st *State, v Val, i int) *Term {
	return A.built[A.leafIDs(st, v)[i]]
}

// ------------------------------------------------------------- Miller loop

type millerDom struct {
	A      *Analysis
	k      Kd
	Q, P   *Term
	pi, p2 *Term
}

func (d *millerDom) aff(e *Term, i int) *Term { return d.A.T.uf(fmt.Sprintf("g2a#%d", i), e) }

// div is the point divisor class of a multiple, odd in its argument.
func (d *millerDom) div(st *State, m *Term) *Term {
	T := d.A.T
	v := st.env.eval(m)
	half := new(big.Int).Rsh(T.mod, 1)
	if v.Cmp(half) > 0 {
		return T.neg(T.uf("D", T.neg(m)))
	}
	return T.uf("D", m)
}

// point recognises a multiple of Q from coordinates; aff tells whether z is
// one. The cached square of z matters only for the running point.
func (d *millerDom) point(st *State, v Val, running bool) (e *Term, aff bool) {
	A := d.A
	l, ok := A.leaves(st, v)
	if !ok || len(l) != 8 {
		A.fail(0, "incomplete point")
	}
	if g, ok := A.logOf(st, v, grpTwist); ok {
		// the cached square of z must belong to the same point
		for i := 6; i < 8; i++ {
			if running && !st.env.eq(l[i].t, grpTwist.leaf(A.T, g, i)) {
				return nil, false
			}
		}
		return g, false
	}
	one := d.k.konst(1)
	for j := 0; j < 2; j++ {
		if !st.env.eq(l[4+j].t, one[j]) || running && !st.env.eq(l[6+j].t, one[j]) {
			return nil, false
		}
	}
	x, y := ke(terms(l[0:2])), ke(terms(l[2:4]))
	T := A.T
	X := ke{d.aff(d.Q, 0), d.aff(d.Q, 1)}
	Y := ke{d.aff(d.Q, 2), d.aff(d.Q, 3)}
	w := Tower{T}
	conj := func(a ke) ke { return ke(l2(w.conj2(w.f2(a)))) }
	scale := func(a ke, e *big.Int) ke { return d.k.mul(a, ke(l2(w.kc2(xiPow(e))))) }
	type img struct {
		x, y ke
		e    *Term
	}
	imgs := []img{{X, Y, T.one},
		{scale(conj(X), frac(pm1(), 3)), scale(conj(Y), frac(pm1(), 2)), d.pi},
		{scale(X, frac(p2m1(), 3)), scale(Y, frac(p2m1(), 2)), d.p2}}
	for _, m := range imgs {
		if d.k.eq(st.env, x, m.x) {
			if d.k.eq(st.env, y, m.y) {
				return T.mul(d.Q, m.e), true
			}
			if d.k.eq(st.env, y, d.k.neg(m.y)) {
				return T.neg(T.mul(d.Q, m.e)), true
			}
		}
	}
	// affine form of a general multiple
	if x[0].op == OpUF && x[0].name == "g2a#0" {
		e := x[0].args[0]
		X := ke{d.aff(e, 0), d.aff(e, 1)}
		Y := ke{d.aff(e, 2), d.aff(e, 3)}
		if d.k.eq(st.env, x, X) {
			if d.k.eq(st.env, y, Y) {
				return e, true
			}
			if d.k.eq(st.env, y, d.k.neg(Y)) {
				return T.neg(e), true
			}
		}
	}
	return nil, false
}

func (d *millerDom) lineContract(isAdd bool) Contract {
	return func(A *Analysis, c *callCtx) []Outcome {
		if len(A.stack) == 0 {
			return nil
		}
		T := A.T
		var r, p, q, r2 Val
		for i, pr := range c.fn.Params {
			switch {
			case isPtrTo(pr.Type(), "twistPoint") && r == nil:
				r = c.args[i]
			case isPtrTo(pr.Type(), "twistPoint"):
				p = c.args[i]
			case isPtrTo(pr.Type(), "curvePoint"):
				q = c.args[i]
			case isPtrTo(pr.Type(), "gfP2"):
				r2 = c.args[i]
			}
		}
		er, _ := d.point(c.st, r, true)
		if er == nil {
			A.event(c.st, "miller", "the running point is not a known multiple with a matching squared z", c.pos)
			er = T.freshAtom("lost")
		}
		ql, ok := A.leaves(c.st, q)
		if !ok || len(ql) != 4 || !c.st.env.eq(ql[0].t, T.uf("g1a#0", d.P)) || !c.st.env.eq(ql[1].t, T.uf("g1a#1", d.P)) {
			A.event(c.st, "miller", "the line is not evaluated at the affine first argument", c.pos)
		}
		var sum, dv *Term
		if isAdd {
			ep, aff := d.point(c.st, p, false)
			if ep == nil || !aff {
				A.event(c.st, "miller", "the added point is not an affine Frobenius image or multiple of the second argument", c.pos)
				ep = T.freshAtom("lost")
			} else {
				pl, _ := A.leaves(c.st, p)
				y := ke(terms(pl[2:4]))
				rl, ok := A.leaves(c.st, r2)
				if !ok || len(rl) != 2 || !d.k.eq(c.st.env, ke(terms(rl)), d.k.mul(y, y)) {
					A.event(c.st, "miller", "the cached square is not the square of the ordinate of the added point", c.pos)
				}
			}
			sum = T.add(er, ep)
			dv = T.sub(T.add(d.div(c.st, er), d.div(c.st, ep)), d.div(c.st, sum))
		} else {
			sum = T.scale(er, 2)
			dv = T.sub(T.scale(d.div(c.st, er), 2), d.div(c.st, sum))
		}
		ret := make([]Val, 4)
		for i := 0; i < 3; i++ {
			ret[i] = A.f2Cell(c.st, "line", F2{T.uf(fmt.Sprintf("line#%d", 2*i), dv), T.uf(fmt.Sprintf("line#%d", 2*i+1), dv)})
		}
		ret[3] = A.newLog(c.st, grpTwist, "sum", sum)
		for _, v := range ret {
			for _, id := range A.leafIDs(c.st, v) {
				o := *c.st.get(id)
				o.pool = poolLive
				c.st.set(id, &o)
			}
		}
		return one1(c.st, ret...)
	}
}

func (R *Report) millerLoop(f pairingFns) {
	A := pairingAnalysis(R)
	d := &millerDom{A: A, k: Kd{A.T, 2}, Q: A.T.atomNZ("Q"), P: A.T.atomNZ("P"), pi: A.T.atom("frobenius"), p2: A.T.atom("frobenius squared")}
	T := A.T
	A.groupContracts(grpF12, "Mul", "Square")
	A.contracts[funcKey(f.add)] = d.lineContract(true)
	A.contracts[funcKey(f.dbl)] = d.lineContract(false)
	A.contracts[funcKey(f.mul)] = func(A *Analysis, c *callCtx) []Outcome {
		e, ok := A.logOf(c.st, c.args[0], grpF12)
		if !ok {
			A.event(c.st, "miller", "a line is multiplied into something else than the accumulator", c.pos)
			e = T.freshAtom("lost")
		}
		var dv *Term
		for i := 0; i < 3; i++ {
			l, ok := A.leaves(c.st, c.args[1+i])
			if !ok || len(l) != 2 {
				return nil
			}
			for j, b := range l {
				if b.t.op != OpUF || b.t.name != fmt.Sprintf("line#%d", 2*i+j) || dv != nil && !c.st.env.eq(dv, b.t.args[0]) {
					A.event(c.st, "miller", "the coefficients multiplied in do not form one line", c.pos)
					continue
				}
				dv = b.t.args[0]
			}
		}
		if dv == nil {
			dv = T.freshAtom("lost")
		}
		A.putLog(c.st, c.args[0], grpF12, T.add(e, dv))
		return one1(c.st)
	}
	mkAff := func(g GroupModel, pfx string) Contract {
		return func(A *Analysis, c *callCtx) []Outcome {
			e, ok := A.logOf(c.st, c.args[0], g)
			if !ok {
				A.event(c.st, "miller", "an unknown point is normalised", c.pos)
				e = T.freshAtom("lost")
			}
			w := g.n / 4
			for i, id := range A.leafIDs(c.st, c.args[0]) {
				var b *BigVal
				switch {
				case i < 2*w:
					b = A.bigCanon(T.uf(fmt.Sprintf("%s#%d", pfx, i), e))
				case i%w == w-1:
					b = A.bigConst(one_)
				default:
					b = A.bigConst(bigZero)
				}
				A.setBig(c.st, VPtr{obj: id}, b, c.pos)
			}
			if c.sig.Results().Len() > 0 {
				return one1(c.st, c.args[0])
			}
			return one1(c.st)
		}
	}
	if fn := R.P.method("pairing", "twistPoint", "MakeAffine"); fn != nil {
		A.contracts[funcKey(fn)] = mkAff(grpTwist, "g2a")
	}
	if fn := R.P.method("pairing", "curvePoint", "MakeAffine"); fn != nil {
		A.contracts[funcKey(fn)] = mkAff(grpCurve, "g1a")
	}
	fn := f.miller
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	R.guard(A, funcKey(fn), func() {
		st := A.newState()
		q, p := A.newLog(st, grpTwist, "q", d.Q), A.newLog(st, grpCurve, "p", d.P)
		args, ok := orderArgs(A, st, fn, q, p)
		if !ok {
			A.fail(fn.Pos(), "unexpected parameters")
		}
		six := new(big.Int).Add(new(big.Int).Mul(big.NewInt(6), bnU), big.NewInt(2))
		s := T.konst(six)
		outs := A.call(fn, args, nil, st, fn.Pos())
		R.check(len(outs) > 0, funcKey(fn), where, "never returns", nil)
		for _, o := range outs {
			if o.panicked {
				R.check(false, funcKey(fn), where, "panics: "+o.msg, o.st)
				continue
			}
			e, ok := A.logOf(o.st, o.rets[0], grpF12)
			if !ok {
				R.check(false, funcKey(fn), where, "the result is not the accumulated product of lines", o.st)
				continue
			}
			Q := d.Q
			sQ := T.mul(s, Q)
			want := T.mul(s, d.div(o.st, Q))
			want = T.add(want, d.div(o.st, T.mul(d.pi, Q)))
			want = T.sub(want, d.div(o.st, T.mul(d.p2, Q)))
			want = T.sub(want, d.div(o.st, T.sub(T.add(sQ, T.mul(d.pi, Q)), T.mul(d.p2, Q))))
			R.check(o.st.env.eq(e, want), funcKey(fn), where, "the product of lines is not the Miller function of 6u+2 with the two Frobenius lines", o.st)
			g, ok := A.logOf(o.st, q, grpTwist)
			R.check(ok && g == d.Q, funcKey(fn), where, "the second argument is modified", o.st)
			g, ok = A.logOf(o.st, p, grpCurve)
			R.check(ok && g == d.P, funcKey(fn), where, "the first argument is modified", o.st)
		}
	})
	R.eventsAs(A, "A07", "miller", "unknown-operand")
	R.absorb(A)
}

// orderArgs passes the twist point, the curve point and a pool by type.
func orderArgs(A *Analysis, st *State, fn *ssa.Function, q, p Val) ([]Val, bool) {
	args := make([]Val, len(fn.Params))
	for i, pr := range fn.Params {
		switch {
		case isPtrTo(pr.Type(), "twistPoint"):
			args[i] = q
		case isPtrTo(pr.Type(), "curvePoint"):
			args[i] = p
		case isPtrTo(pr.Type(), "bnPool"):
			args[i] = A.freshPool(st)
		default:
			return nil, false
		}
	}
	return args, true
}

// ------------------------------------------------------ final exponentiation

func (R *Report) finalExp(f pairingFns) {
	p12 := new(big.Int).Exp(bnP, big.NewInt(12), nil)
	mod := new(big.Int).Sub(p12, one_)
	A := newAnalysis(R.P, mod, R.seed)
	if err := A.initGlobals(); err != nil {
		R.bad("A07/init", "package initialisation", "cannot be established: "+err.Error(), nil)
		return
	}
	A.installPool()
	g := grpF12
	A.groupContracts(g, "Mul", "Square", "Invert", "Exp")
	T := A.T
	p6 := T.konst(new(big.Int).Exp(bnP, big.NewInt(6), nil))
	// the p^6 power map negates the upper half of the coordinates
	log := func(st *State, v Val) (*Term, bool) {
		if e, ok := A.logOf(st, v, g); ok {
			return e, true
		}
		l, ok := A.leaves(st, v)
		if !ok || len(l) != 12 {
			return nil, false
		}
		var e *Term
		for i, b := range l {
			t := b.t
			if i < 6 {
				if t.op != OpNeg {
					return nil, false
				}
				t = t.args[0]
			}
			if t.op != OpUF || t.name != fmt.Sprintf("gt#%d", i) || e != nil && e != t.args[0] {
				return nil, false
			}
			e = t.args[0]
		}
		return T.mul(e, p6), true
	}
	normal := map[string]Contract{}
	for _, op := range []string{"Mul", "Square", "Invert", "Exp"} {
		fn := R.P.method("pairing", "gfP12", op)
		if fn == nil {
			continue
		}
		inner := A.contracts[funcKey(fn)]
		normal[funcKey(fn)] = inner
		A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
			for i := 1; i < len(c.args); i++ {
				if !isPtrTo(c.fn.Params[i].Type(), "gfP12") {
					continue
				}
				if _, ok := A.logOf(c.st, c.args[i], g); !ok {
					if e, ok := log(c.st, c.args[i]); ok {
						A.putLog(c.st, c.args[i], g, e)
					}
				}
			}
			return inner(A, c)
		}
	}
	power := func(k *Term) Contract {
		return func(A *Analysis, c *callCtx) []Outcome {
			e, ok := log(c.st, c.args[1])
			if !ok {
				A.event(c.st, "unknown-operand", "the operand of "+c.key+" is not a power of the input", c.pos)
				e = T.freshAtom("lost")
			}
			A.putLog(c.st, c.args[0], g, T.mul(e, k))
			if c.sig.Results().Len() > 0 {
				return one1(c.st, c.args[0])
			}
			return one1(c.st)
		}
	}
	pT := T.konst(bnP)
	for n, k := range map[string]*Term{"Frobenius": pT, "FrobeniusP2": T.mul(pT, pT), "Conjugate": p6} {
		if fn := R.P.method("pairing", "gfP12", n); fn != nil {
			A.contracts[funcKey(fn)] = power(k)
		}
	}
	fn := f.final
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	R.guard(A, funcKey(fn), func() {
		st := A.newState()
		e0 := T.atomNZ("input")
		in := A.newLog(st, g, "in", e0)
		args := make([]Val, len(fn.Params))
		for i, pr := range fn.Params {
			if isPtrTo(pr.Type(), "gfP12") {
				args[i] = in
			} else {
				args[i] = A.freshPool(st)
			}
		}
		want := T.mul(e0, T.konst(new(big.Int).Div(mod, bnOrder)))
		outs := A.call(fn, args, nil, st, fn.Pos())
		R.check(len(outs) > 0, funcKey(fn), where, "never returns", nil)
		for _, o := range outs {
			if o.panicked {
				R.check(false, funcKey(fn), where, "panics: "+o.msg, o.st)
				continue
			}
			e, ok := log(o.st, o.rets[0])
			R.check(ok && o.st.env.eq(e, want), funcKey(fn), where, "the result is not the input to the power (p^12-1)/n", o.st)
			i, ok := A.logOf(o.st, in, g)
			R.check(ok && i == e0, funcKey(fn), where, "the input is modified", o.st)
		}
	})
	R.eventsAs(A, "A07", "unknown-operand")
	R.absorb(A)
}

// ------------------------------------------------------------------- the API

func (R *Report) pairAPI(f pairingFns) {
	A := newAnalysis(R.P, bnOrder, R.seed)
	if err := A.initGlobals(); err != nil {
		R.bad("A07/init", "package initialisation", "cannot be established: "+err.Error(), nil)
		return
	}
	A.installPool()
	T := A.T
	ml := GroupModel{"ml", "gfP12", 12, false} // before the final exponentiation
	A.groupContracts(grpTwist, "IsInfinity", "MakeAffine")
	A.groupContracts(grpCurve, "IsInfinity", "MakeAffine")
	get := func(st *State, v Val) (*Term, *GroupModel) {
		if e, ok := A.logOf(st, v, ml); ok {
			return e, &ml
		}
		if e, ok := A.logOf(st, v, grpF12); ok {
			return e, &grpF12
		}
		return nil, nil
	}
	A.contracts[funcKey(f.miller)] = func(A *Analysis, c *callCtx) []Outcome {
		var q, p *Term
		for i, pr := range c.fn.Params {
			if isPtrTo(pr.Type(), "twistPoint") {
				q, _ = A.logOf(c.st, c.args[i], grpTwist)
			}
			if isPtrTo(pr.Type(), "curvePoint") {
				p, _ = A.logOf(c.st, c.args[i], grpCurve)
			}
		}
		e := T.freshAtom("lost")
		if q != nil && p != nil && !q.isZero() && !p.isZero() {
			e = T.mul(q, p)
		}
		return one1(c.st, A.newLog(c.st, ml, "miller value", e))
	}
	A.contracts[funcKey(f.final)] = func(A *Analysis, c *callCtx) []Outcome {
		for i, pr := range c.fn.Params {
			if !isPtrTo(pr.Type(), "gfP12") {
				continue
			}
			e, g := get(c.st, c.args[i])
			if e == nil || g.tag != "ml" {
				A.event(c.st, "unknown-operand", "the final exponentiation is applied to something else than a product of Miller values", c.pos)
				e = T.freshAtom("lost")
			}
			if e.isZero() {
				g = &ml
			}
			return one1(c.st, A.newLog(c.st, grpF12, "pairing value", e))
		}
		return nil
	}
	for _, op := range []string{"Mul", "IsOne", "Square"} {
		op := op
		fn := R.P.method("pairing", "gfP12", op)
		if fn == nil {
			continue
		}
		A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
			if op == "IsOne" {
				e, g := get(c.st, c.args[0])
				if e == nil || g.tag != "gt" && !e.isZero() {
					return nil
				}
				if c.st.env.isZero(e) {
					return one1(c.st, VBool{known: true, b: true})
				}
				return one1(c.st, VBool{cond: &Cond{kind: "zero", t: e}})
			}
			a, ga := get(c.st, c.args[1])
			b, gb := a, ga
			if op == "Mul" {
				b, gb = get(c.st, c.args[2])
			}
			if a == nil || b == nil {
				return nil
			}
			g := ga
			if a.isZero() {
				g = gb
			}
			if ga.tag != gb.tag && !a.isZero() && !b.isZero() {
				return nil
			}
			A.putLog(c.st, c.args[0], *g, T.add(a, b))
			if c.sig.Results().Len() > 0 {
				return one1(c.st, c.args[0])
			}
			return one1(c.st)
		}
	}
	point := func(st *State, g GroupModel, wrap, name string, inf bool) (Val, *Term, Val) {
		e := T.atomNZ(name)
		v := A.newLog(st, g, name, e)
		if inf {
			e = T.zero
			for i, id := range A.leafIDs(st, v) {
				if g.isZ(i) {
					st.set(id, &Obj{val: VBig{A.bigConst(bigZero)}, typ: A.bigType(), tag: name})
				}
			}
		}
		return A.wrapGroup(st, wrap, v), e, v
	}
	if fn := R.P.fn("pairing", "Pair"); fn != nil {
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for c := 0; c < 4; c++ {
			key := fmt.Sprintf("%s first infinite %v second infinite %v", funcKey(fn), c&1 != 0, c&2 != 0)
			R.guard(A, key, func() {
				st := A.newState()
				p, pe, _ := point(st, grpCurve, "G1", "P", c&1 != 0)
				q, qe, _ := point(st, grpTwist, "G2", "Q", c&2 != 0)
				args := make([]Val, len(fn.Params))
				for i, pr := range fn.Params {
					if isPtrTo(pr.Type(), "G1") {
						args[i] = p
					} else {
						args[i] = q
					}
				}
				outs := A.call(fn, args, nil, st, fn.Pos())
				R.check(len(outs) > 0, key, where, "never returns", nil)
				for _, o := range outs {
					if o.panicked {
						R.check(false, key, where, "panics: "+o.msg, o.st)
						continue
					}
					e, g := get(o.st, A.unwrapGroup(o.st, o.rets[0]))
					R.check(e != nil && (e.isZero() || g.tag == "gt") && o.st.env.eq(e, T.mul(pe, qe)), key, where, "the pairing value is not the reduced pairing of the arguments (one when either is infinite)", o.st)
				}
			})
		}
	} else {
		R.bad("A07/anchor Pair", "pairing", "Pair was not found", nil)
	}
	if fn := R.P.fn("pairing", "PairingCheck"); fn != nil {
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for n := 0; n <= 3; n++ {
			for mask := 0; mask < 1<<(2*n); mask++ {
				if n == 3 && !R.thorough() && mask%5 != 0 {
					continue
				}
				key := fmt.Sprintf("%s %d pairs", funcKey(fn), n)
				R.guard(A, key, func() {
					st := A.newState()
					var ps, qs []Val
					sum := T.zero
					for i := 0; i < n; i++ {
						p, pe, _ := point(st, grpCurve, "G1", fmt.Sprintf("P%d", i), mask>>(2*i)&1 != 0)
						q, qe, _ := point(st, grpTwist, "G2", fmt.Sprintf("Q%d", i), mask>>(2*i+1)&1 != 0)
						ps, qs = append(ps, p), append(qs, q)
						sum = T.add(sum, T.mul(pe, qe))
					}
					args := []Val{A.sliceOf(st, fn.Params[0].Type().Underlying().(*types.Slice).Elem(), ps), A.sliceOf(st, fn.Params[1].Type().Underlying().(*types.Slice).Elem(), qs)}
					outs := A.call(fn, args, nil, st, fn.Pos())
					R.check(len(outs) > 0, key, where, "never returns", nil)
					for _, o := range outs {
						if o.panicked {
							R.check(false, key, where, "panics: "+o.msg, o.st)
							continue
						}
						for _, v := range A.splitBool(o.st, o.rets[0]) {
							if v.v.(VBool).b {
								R.check(A.zeroIn(v.st, sum), key, where, "accepts although the product of the pairings need not be one", v.st)
							} else {
								R.check(A.knownNonzero(v.st, sum), key, where, "rejects although the product of the pairings may be one", v.st)
							}
						}
					}
				})
			}
		}
	} else {
		R.note("PairingCheck is not present")
	}
	R.eventsAs(A, "A07", "unknown-operand")
	R.absorb(A)
}
