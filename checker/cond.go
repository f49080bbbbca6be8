package main

import (
	"go/token"
	"math/big"
	"sort"
)

func (c *Cond) not() *Cond {
	n := *c
	n.neg = !c.neg
	return &n
}

const (
	relLT = 1
	relEQ = 2
	relGT = 4
)

// cmpOp: comparison of a big.Int comparison result with a constant.
func (A *Analysis) cmpOp(st *State, op token.Token, a, b VInt) (Val, bool) {
	if b.sym != nil {
		return nil, false
	}
	if a.cmp.b == nil { // word of a big.Int: words[i] == c
		return A.wordOp(st, op, a, b)
	}
	set := 0
	for i, r := range []int64{-1, 0, 1} {
		ok := false
		switch op {
		case token.EQL:
			ok = r == b.c
		case token.NEQ:
			ok = r != b.c
		case token.LSS:
			ok = r < b.c
		case token.LEQ:
			ok = r <= b.c
		case token.GTR:
			ok = r > b.c
		case token.GEQ:
			ok = r >= b.c
		default:
			return nil, false
		}
		if ok {
			set |= 1 << i
		}
	}
	if set == 0 || set == 7 {
		return VBool{known: true, b: set == 7}, true
	}
	return VBool{cond: &Cond{kind: "cmp", cmp: a.cmp, set: set}}, true
}

func (A *Analysis) wordOp(st *State, op token.Token, a, b VInt) (Val, bool) {
	if a.cmp.unit != 0 {
		return A.lenOp(st, op, a, b)
	}
	if op != token.EQL && op != token.NEQ {
		return nil, false
	}
	x := st.latest(a.cmp.a)
	// only decided when the value has a single word
	if x.hi == nil || x.hi.BitLen() > 64 || x.lo == nil || x.lo.Sign() < 0 {
		return VBool{cond: &Cond{kind: "any", msg: "word of a big integer"}}, true
	}
	k := A.bigConst(new(big.Int).SetUint64(uint64(b.c)))
	set := relEQ
	if op == token.NEQ {
		set = relLT | relGT
	}
	return VBool{cond: &Cond{kind: "cmp", cmp: &CmpInfo{a: x, b: k}, set: set}}, true
}

// lenOp: the length of Bits() or Bytes() compared with a constant.
func (A *Analysis) lenOp(st *State, op token.Token, a, b VInt) (Val, bool) {
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return nil, false
	}
	x := st.latest(a.cmp.a)
	if x.lo == nil || x.lo.Sign() < 0 || b.c < 0 || b.c > 4096 {
		return VBool{cond: &Cond{kind: "any", msg: "length of a big integer"}}, true
	}
	// length <= n  iff  x < 2^(unit*n)
	top := func(n int64) *big.Int {
		r := new(big.Int).Lsh(big.NewInt(1), uint(a.cmp.unit)*uint(n))
		return r.Sub(r, big.NewInt(1))
	}
	c := &Cond{kind: "range", cmp: &CmpInfo{a: x}}
	switch op {
	case token.EQL, token.NEQ:
		c.hi = top(b.c)
		if b.c > 0 {
			c.lo = new(big.Int).Add(top(b.c-1), big.NewInt(1))
		}
		c.neg = op == token.NEQ
	case token.LEQ, token.GTR:
		c.hi = top(b.c)
		c.neg = op == token.GTR
	case token.LSS, token.GEQ:
		if b.c == 0 {
			return VBool{known: true, b: op == token.GEQ}, true
		}
		c.hi = top(b.c - 1)
		c.neg = op == token.GEQ
	default:
		return nil, false
	}
	return VBool{cond: c}, true
}

// current finds the refined version of a BigVal in this state (refinement
// replaces cells, so registers may hold an older pointer).
func (A *Analysis) refine(st *State, old, nw *BigVal) {
	if old == nw {
		return
	}
	st.ref[old] = nw
	rep := func(id int, o *Obj) {
		if v, ok := o.val.(VBig); ok && v.b == old {
			n := *o
			n.val = VBig{nw}
			st.set(id, &n)
		}
	}
	for id, o := range st.over {
		rep(id, o)
	}
}

func cmpLE(a, b *big.Int, inf bool) bool {
	if a == nil || b == nil {
		return inf
	}
	return a.Cmp(b) <= 0
}

// feasible relations between a and b in st.
func (A *Analysis) relations(st *State, a, b *BigVal) (rel int, diff *Term) {
	if a.k != nil && b.k != nil {
		switch a.k.Cmp(b.k) {
		case -1:
			return relLT, nil
		case 0:
			return relEQ, nil
		}
		return relGT, nil
	}
	if a == b {
		return relEQ, nil
	}
	// a<b possible iff a.lo < b.hi
	if a.lo == nil || b.hi == nil || a.lo.Cmp(b.hi) < 0 {
		rel |= relLT
	}
	if a.hi == nil || b.lo == nil || a.hi.Cmp(b.lo) > 0 {
		rel |= relGT
	}
	overlap := (a.lo == nil || b.hi == nil || a.lo.Cmp(b.hi) <= 0) && (a.hi == nil || b.lo == nil || a.hi.Cmp(b.lo) >= 0)
	diff = A.T.sub(a.t, b.t)
	if overlap {
		rel |= relEQ
	}
	zero := A.zeroIn(st, diff)
	if zero && A.exactDiff(a, b) {
		return relEQ, diff
	}
	if !zero && rel&relEQ != 0 && A.knownNonzero(st, diff) {
		rel &^= relEQ
	}
	return rel, diff
}

// exactDiff: the integers are equal iff the residues are.
func (A *Analysis) exactDiff(a, b *BigVal) bool {
	if a.exact && b.k != nil && b.k.Sign() == 0 {
		return true
	}
	if b.exact && a.k != nil && a.k.Sign() == 0 {
		return true
	}
	if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
		return false
	}
	m := A.T.mod
	up := new(big.Int).Sub(a.hi, b.lo)
	dn := new(big.Int).Sub(a.lo, b.hi)
	return up.Cmp(m) < 0 && dn.Cmp(new(big.Int).Neg(m)) > 0
}

func (A *Analysis) knownNonzero(st *State, t *Term) bool {
	switch t.op {
	case OpConst:
		return t.k.Sign() != 0
	case OpAtom:
		if t.nonzero {
			return true
		}
	case OpMul:
		if A.knownNonzero(st, t.args[0]) && A.knownNonzero(st, t.args[1]) {
			return true
		}
	case OpNeg:
		return A.knownNonzero(st, t.args[0])
	case OpInv:
		return true
	}
	v := st.env.eval(t)
	if v.Sign() == 0 {
		return false
	}
	facts := st.facts
	atoms := map[*Term]bool{}
	collectAtoms(t, atoms, map[*Term]bool{})
	var nz []*Term
	for a := range atoms {
		if a.nonzero {
			nz = append(nz, a)
		}
	}
	if len(nz) > 0 && len(nz) <= 12 {
		sort.Slice(nz, func(i, j int) bool { return nz[i].id < nz[j].id })
		facts = append(append([]*Term{}, facts...), nz...)
	}
	if len(facts) == 0 {
		return false
	}
	e2 := A.altEnv(st.env)
	if e2 == nil {
		return false
	}
	v2 := e2.eval(t)
	if v2.Sign() == 0 {
		return false
	}
	m := A.T.mod
	// t = c * product of at most two facts (with powers up to 2)
	var fv, fv2 []*big.Int
	for _, f := range facts {
		x, y := st.env.eval(f), e2.eval(f)
		if x.Sign() == 0 || y.Sign() == 0 {
			fv, fv2 = append(fv, nil), append(fv2, nil)
			continue
		}
		fv, fv2 = append(fv, x), append(fv2, y)
	}
	ratioConst := func(d, d2 *big.Int) bool {
		// v/d == v2/d2
		l := new(big.Int).Mul(v, d2)
		r := new(big.Int).Mul(v2, d)
		return l.Sub(l, r).Mod(l, m).Sign() == 0
	}
	one := big.NewInt(1)
	if ratioConst(one, one) {
		return true // a non-zero constant
	}
	for i := range fv {
		if fv[i] == nil {
			continue
		}
		if ratioConst(fv[i], fv2[i]) {
			return true
		}
		for j := i; j < len(fv); j++ {
			if fv[j] == nil {
				continue
			}
			d := new(big.Int).Mul(fv[i], fv[j])
			d2 := new(big.Int).Mul(fv2[i], fv2[j])
			d.Mod(d, m)
			d2.Mod(d2, m)
			if ratioConst(d, d2) {
				return true
			}
			for k := j; k < len(fv); k++ {
				if fv[k] == nil {
					continue
				}
				e := new(big.Int).Mul(d, fv[k])
				g := new(big.Int).Mul(d2, fv2[k])
				if ratioConst(e.Mod(e, m), g.Mod(g, m)) {
					return true
				}
			}
		}
	}
	return false
}

// altEnv is a second, independent evaluation point on the same variety.
func (A *Analysis) altEnv(e *Env) *Env {
	if e.alt != nil {
		return e.alt
	}
	T2 := *e.T
	T2.seed = e.T.seed + "/alt"
	b := &Env{T: &T2, ovr: e.ovr, memo: map[*Term]*big.Int{}, pins: map[*Term]*big.Int{}}
	pins, ok := b.realise(len(b.ovr), map[*Term]*big.Int{})
	if !ok {
		return nil
	}
	b.pins = pins
	e.alt = b
	return b
}

// decide splits a state on a condition; nil means infeasible.
func (A *Analysis) decide(c *Cond, st *State, pos token.Pos) (t, f *State) {
	A.stats.queries++
	if A.forkDecide != nil {
		if r, ok := A.forkDecide(c, st); ok {
			switch r {
			case 1:
				return st, nil
			case 0:
				return nil, st
			}
		}
	}
	if c.hook != nil {
		a := c.hook(st.fork(), !c.neg)
		b := c.hook(st.fork(), c.neg)
		return a, b
	}
	switch c.kind {
	case "range":
		b := st.latest(c.cmp.a)
		if b.k != nil {
			in := (c.lo == nil || b.k.Cmp(c.lo) >= 0) && (c.hi == nil || b.k.Cmp(c.hi) <= 0)
			if in != c.neg {
				return st, nil
			}
			return nil, st
		}
		one := big.NewInt(1)
		tr, fa := st.fork(), st
		nb := *b
		if c.lo != nil && (nb.lo == nil || nb.lo.Cmp(c.lo) < 0) {
			nb.lo = c.lo
		}
		if c.hi != nil && (nb.hi == nil || nb.hi.Cmp(c.hi) > 0) {
			nb.hi = c.hi
		}
		if nb.lo != nil && nb.hi != nil && nb.lo.Cmp(nb.hi) > 0 {
			tr = nil
		} else if nb.lo != b.lo || nb.hi != b.hi {
			if nb.lo != nil && nb.lo.Sign() > 0 && b.exact {
				tr.facts = append(tr.facts, b.t)
			}
			A.reexact(&nb)
			nb.exact = nb.exact || b.exact
			A.refine(tr, b, &nb)
		} else {
			fa = nil
		}
		if fa != nil {
			// cut the interval when the range covers one of its ends
			fb := *b
			if b.lo != nil && (c.lo == nil || c.lo.Cmp(b.lo) <= 0) && c.hi != nil {
				fb.lo = new(big.Int).Add(c.hi, one)
			} else if b.hi != nil && (c.hi == nil || c.hi.Cmp(b.hi) >= 0) && c.lo != nil {
				fb.hi = new(big.Int).Sub(c.lo, one)
			}
			if fb.lo != b.lo || fb.hi != b.hi {
				if fb.lo != nil && fb.lo.Sign() > 0 && b.exact {
					fa.facts = append(fa.facts, b.t)
				}
				A.reexact(&fb)
				A.refine(fa, b, &fb)
			}
		}
		if c.neg {
			return fa, tr
		}
		return tr, fa
	case "cmp":
		c = &Cond{kind: "cmp", cmp: &CmpInfo{a: st.latest(c.cmp.a), b: st.latest(c.cmp.b)}, set: c.set, neg: c.neg}
		set := c.set
		if c.neg {
			set = 7 &^ set
		}
		rel, diff := A.relations(st, c.cmp.a, c.cmp.b)
		unknowns := (A.idealNames || c.cmp.a.k == nil && c.cmp.b.k == nil) && A.isCanon(c.cmp.a) && A.isCanon(c.cmp.b)
		if st.rels != nil && A.isCanon(c.cmp.a) && A.isCanon(c.cmp.b) {
			rel &= st.relOf(c.cmp.a.t, c.cmp.b.t)
		}
		if rel&^set == 0 {
			if rel == 0 {
				return nil, nil
			}
			A.assume(st, c.cmp, rel&set, rel, diff, pos)
			return st, nil
		}
		if rel&set == 0 {
			A.assume(st, c.cmp, rel&^set, rel, diff, pos)
			return nil, st
		}
		t, f = st.fork(), st
		t = A.assume(t, c.cmp, rel&set, rel, diff, pos)
		f = A.assume(f, c.cmp, rel&^set, rel, diff, pos)
		if unknowns {
			t.relate(c.cmp, rel&set)
			f.relate(c.cmp, rel&^set)
		}
		if t != nil {
			t.note(pos, "true")
		}
		if f != nil {
			f.note(pos, "false")
		}
		return
	case "zero":
		z := A.zeroIn(st, c.t)
		var tr, fa *State
		if z {
			tr = st
		} else if A.knownNonzero(st, c.t) {
			fa = st
		} else {
			tr, fa = st.fork(), st
			tr = A.assumeZero(tr, c.t)
			fa.facts = append(fa.facts, c.t)
			if tr != nil {
				tr.note(pos, "zero")
			}
			fa.note(pos, "nonzero")
		}
		if c.neg {
			return fa, tr
		}
		return tr, fa
	case "any", "int":
		t, f = st.fork(), st
		t.note(pos, "true")
		f.note(pos, "false")
		return
	}
	A.fail(pos, "condition kind %s", c.kind)
	return nil, nil
}

// zeroIn: t vanishes in st.
func (A *Analysis) zeroIn(st *State, t *Term) bool {
	if st.env.isZero(t) {
		return true
	}
	if len(st.zeros) == 0 {
		return false
	}
	e2 := A.altEnv(st.env)
	if e2 == nil {
		return false
	}
	v, v2 := st.env.eval(t), e2.eval(t)
	for _, z := range st.zeros {
		if z == t {
			return true
		}
		// t = c * z for a constant c
		l := new(big.Int).Mul(v, e2.eval(z))
		r := new(big.Int).Mul(v2, st.env.eval(z))
		if l.Sub(l, r).Mod(l, A.T.mod).Sign() == 0 {
			return true
		}
	}
	return false
}

func (A *Analysis) assumeZero(st *State, t *Term) *State {
	ne := st.env.solve(t)
	if ne == nil {
		if A.multipleOfUnit(st, t) {
			return nil
		}
		st.unsolved = true
		st.zeros = append(st.zeros, t)
		return st
	}
	st.env = ne
	for _, f := range st.facts {
		if ne.isZero(f) {
			return nil
		}
	}
	return st
}

// relate records a comparison of two unknowns.
func (s *State) relate(c *CmpInfo, set int) {
	if s == nil || set == relEQ {
		return
	}
	n := 1
	if s.rels != nil {
		n = s.rels.n + 1
	}
	s.rels = &relFact{a: c.a.t, b: c.b.t, set: set, up: s.rels, n: n}
}

func (A *Analysis) assume(st *State, ci *CmpInfo, set, rel int, diff *Term, pos token.Pos) *State {
	a, b := ci.a, ci.b
	if set == relEQ && set != rel {
		if diff != nil && !st.env.isZero(diff) {
			if st = A.assumeZero(st, diff); st == nil {
				return nil
			}
		}
	}
	if set&relEQ == 0 && rel&relEQ != 0 && diff != nil && A.exactDiff(a, b) {
		st.facts = append(st.facts, diff)
	}
	na, nb := *a, *b
	one := big.NewInt(1)
	switch set {
	case relEQ:
		if b.k != nil {
			na = *A.bigConst(b.k)
		} else if a.k != nil {
			nb = *A.bigConst(a.k)
		}
	case relLT, relLT | relEQ:
		d := new(big.Int)
		if set == relLT {
			d = one
		}
		if b.hi != nil {
			h := new(big.Int).Sub(b.hi, d)
			if a.hi == nil || h.Cmp(a.hi) < 0 {
				na.hi = h
			}
		}
		if a.lo != nil {
			l := new(big.Int).Add(a.lo, d)
			if b.lo == nil || l.Cmp(b.lo) > 0 {
				nb.lo = l
			}
		}
	case relGT, relGT | relEQ:
		d := new(big.Int)
		if set == relGT {
			d = one
		}
		if b.lo != nil {
			l := new(big.Int).Add(b.lo, d)
			if a.lo == nil || l.Cmp(a.lo) > 0 {
				na.lo = l
			}
		}
		if a.hi != nil {
			h := new(big.Int).Sub(a.hi, d)
			if b.hi == nil || h.Cmp(b.hi) < 0 {
				nb.hi = h
			}
		}
	}
	A.reexact(&na)
	A.reexact(&nb)
	for _, n := range []*BigVal{&na, &nb} {
		// an interval of one integer determines the value
		if n.k != nil && n.t.op != OpConst {
			if d := A.T.sub(n.t, A.T.konst(n.k)); !st.env.isZero(d) {
				if st = A.assumeZero(st, d); st == nil {
					return nil
				}
			}
		}
	}
	if a.k == nil && (na.k != nil || na.lo != a.lo || na.hi != a.hi) {
		A.refine(st, a, &na)
	}
	if b.k == nil && (nb.k != nil || nb.lo != b.lo || nb.hi != b.hi) {
		A.refine(st, b, &nb)
	}
	return st
}

// reexact recomputes the exactness flag from the interval.
func (A *Analysis) reexact(b *BigVal) {
	if b.k != nil {
		b.exact = true
		return
	}
	m := A.T.mod
	if b.lo != nil && b.hi != nil && b.hi.Cmp(m) < 0 && new(big.Int).Neg(b.lo).Cmp(m) < 0 {
		b.exact = true
		if b.t.op == OpConst && b.lo.Sign() >= 0 && b.t.k.Cmp(b.lo) >= 0 && b.t.k.Cmp(b.hi) <= 0 {
			b.k, b.lo, b.hi = b.t.k, b.t.k, b.t.k
		}
	}
	if b.lo != nil && b.hi != nil && b.lo.Cmp(b.hi) == 0 && b.k == nil {
		// a single integer
		b.k = new(big.Int).Set(b.lo)
	}
}

// multipleOfUnit: t is a constant times one atom that does not vanish.
func (A *Analysis) multipleOfUnit(st *State, t *Term) bool {
	e2 := A.altEnv(st.env)
	if e2 == nil || st.env.isZero(t) {
		return false
	}
	atoms := map[*Term]bool{}
	collectAtoms(t, atoms, map[*Term]bool{})
	v, v2 := st.env.eval(t), e2.eval(t)
	for a := range atoms {
		if !a.nonzero {
			continue
		}
		l := new(big.Int).Mul(v, e2.eval(a))
		r := new(big.Int).Mul(v2, st.env.eval(a))
		if l.Sub(l, r).Mod(l, A.T.mod).Sign() == 0 {
			return true
		}
	}
	return false
}
