package main

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Symbolic text. Strings built from unknown numbers are terms; two of them are
// the same text iff the terms agree, hashes are injective and a text that
// contains an unknown is different from every known text (ideal names).

// rep is a canonical term among those that agree in general position.
func (A *Analysis) rep(t *Term) *Term {
	if A.reps == nil {
		A.reps = map[string]*Term{}
		A.repEnv = A.T.newEnv()
	}
	k := A.repEnv.eval(t).Text(62)
	if r, ok := A.reps[k]; ok {
		return r
	}
	A.reps[k] = t
	return t
}

func (A *Analysis) symStr(t *Term) VStr { return VStr{sym: A.rep(t)} }

// decimal is the text of an unknown number.
func (A *Analysis) decimal(b *BigVal) VStr {
	n := "decimal"
	if !A.isCanon(b) {
		n = "decimal of an unreduced number"
	}
	s := A.symStr(A.T.uf(n, b.t))
	if A.decVal == nil {
		A.decVal = map[*Term]*BigVal{}
	}
	if _, ok := A.decVal[s.sym]; !ok {
		A.decVal[s.sym] = b
	}
	return s
}

// strEq decides equality of texts when one of them is symbolic.
func (A *Analysis) strEq(a, b VStr) (eq, ok bool) {
	if !A.idealNames || !a.known && a.sym == nil || !b.known && b.sym == nil {
		return false, false
	}
	if a.known && b.known {
		return a.s == b.s, true
	}
	if a.known != b.known {
		return false, true
	}
	return A.rep(a.sym) == A.rep(b.sym), true
}

func (A *Analysis) strCompare(a, b VStr) (int, bool) {
	if a.known && b.known {
		switch {
		case a.s < b.s:
			return -1, true
		case a.s > b.s:
			return 1, true
		}
		return 0, true
	}
	if eq, ok := A.strEq(a, b); !ok {
		return 0, false
	} else if eq {
		return 0, true
	}
	// some fixed order of the unknown texts
	x, y := A.strTerm(a), A.strTerm(b)
	r := A.repEnv.eval(x).Cmp(A.repEnv.eval(y))
	if A.reverseNames {
		r = -r
	}
	return r, true
}

// gcd of two integers; forks on zero operands.
func (A *Analysis) bAbs(b *BigVal) *BigVal {
	switch {
	case b.k != nil:
		return A.bigConst(new(big.Int).Abs(b.k))
	case b.lo != nil && b.lo.Sign() >= 0:
		return b
	case b.hi != nil && b.hi.Sign() <= 0:
		return A.bNeg(b)
	}
	return &BigVal{t: A.T.uf("abs", b.t), lo: new(big.Int)}
}

func (A *Analysis) gcd(st *State, x, y *BigVal, pos token.Pos) (out []alt2) {
	abs := A.bAbs
	if x.k != nil && y.k != nil {
		return []alt2{{st, A.bigConst(new(big.Int).GCD(nil, nil, x.k, y.k))}}
	}
	zero := A.bigConst(new(big.Int))
	isZero := func(st *State, b *BigVal) (t, f *State) {
		return A.decide(&Cond{kind: "cmp", cmp: &CmpInfo{a: b, b: zero}, set: relEQ}, st, pos)
	}
	t, f := isZero(st, x)
	if t != nil {
		out = append(out, alt2{t, abs(t.latest(y))})
	}
	if f == nil {
		return
	}
	t, f = isZero(f, y)
	if t != nil {
		out = append(out, alt2{t, abs(t.latest(x))})
	}
	if f == nil {
		return
	}
	x, y = f.latest(x), f.latest(y)
	for _, b := range []*BigVal{x, y} {
		if b.k != nil && b.k.CmpAbs(big.NewInt(1)) == 0 {
			return append(out, alt2{f, A.bigConst(big.NewInt(1))})
		}
	}
	// divisors do not depend on the sign
	x, y = abs(x), abs(y)
	if x == y || A.isCanon(x) && A.isCanon(y) && A.rep(x.t) == A.rep(y.t) {
		return append(out, alt2{f, x})
	}
	rx, ry := A.rep(x.t), A.rep(y.t)
	if rx.id > ry.id {
		rx, ry = ry, rx
	}
	g := A.T.atomNZ("gcd(" + itoa(rx.id) + "," + itoa(ry.id) + ")")
	if A.gdiv == nil {
		A.gdiv = map[*Term]map[*Term]bool{}
	}
	d := map[*Term]bool{g: true}
	for _, t := range []*Term{rx, ry} {
		d[t] = true
		for k := range A.gdiv[t] {
			d[k] = true
		}
	}
	A.gdiv[g] = d
	r := &BigVal{t: g, lo: big.NewInt(1), exact: true}
	for _, b := range []*BigVal{x, y} {
		if a := abs(b); a.hi != nil && (r.hi == nil || a.hi.Cmp(r.hi) < 0) {
			r.hi = a.hi
		}
	}
	return append(out, alt2{f, r})
}

type alt2 struct {
	st *State
	b  *BigVal
}

// quotient is an exact integer division, if it is known to be one.
func (A *Analysis) quotient(x, y *BigVal) *BigVal {
	if y.k != nil && y.k.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	if x == y || A.isCanon(x) && A.isCanon(y) && x.t == y.t {
		return A.bigConst(big.NewInt(1))
	}
	if A.isCanon(x) && y.hi != nil && y.hi.Sign() < 0 && A.rep(x.t) == A.rep(A.T.neg(y.t)) || x.hi != nil && x.hi.Sign() < 0 && A.isCanon(y) && A.rep(y.t) == A.rep(A.T.neg(x.t)) {
		return A.bigConst(big.NewInt(-1))
	}
	if x.k != nil && x.k.Sign() == 0 {
		return x
	}
	if d := A.gdiv[y.t]; d == nil || !d[A.rep(A.bAbs(x).t)] {
		return nil
	}
	r := &BigVal{t: A.T.mul(x.t, A.T.inv(y.t)), exact: x.exact}
	switch {
	case x.lo != nil && x.lo.Sign() > 0:
		r.lo, r.hi = big.NewInt(1), x.hi
	case x.hi != nil && x.hi.Sign() < 0:
		r.lo, r.hi = x.lo, big.NewInt(-1)
	default:
		r.lo, r.hi = x.lo, x.hi
	}
	return r
}

// sortSort models sort.Sort on an implementation of sort.Interface.
func (A *Analysis) sortSort(c *callCtx) []Outcome {
	iv, ok := c.args[0].(VIface)
	if !ok || iv.t == nil {
		A.fail(c.pos, "sort of %T", c.args[0])
	}
	st := c.st
	m := func(name string, args ...Val) Val {
		sel := A.P.prog.MethodSets.MethodSet(iv.t).Lookup(nil, name)
		if sel == nil {
			A.fail(c.pos, "method %s of the sorted value was not found", name)
		}
		o := A.call(A.P.prog.MethodValue(sel), append([]Val{iv.v}, args...), nil, st, c.pos)
		if len(o) != 1 || o[0].panicked {
			A.fail(c.pos, "%s of the sorted value has %d outcomes", name, len(o))
		}
		st = o[0].st
		if len(o[0].rets) == 0 {
			return nil
		}
		return o[0].rets[0]
	}
	n, ok := m("Len").(VInt)
	if !ok || n.sym != nil {
		A.fail(c.pos, "sort of unknown length")
	}
	// an order that is no strict weak order must not send us in circles
	for i := int64(1); i < n.c; i++ {
		for j := i; j > 0; j-- {
			b, ok := m("Less", VInt{c: j}, VInt{c: j - 1}).(VBool)
			if !ok || !b.known {
				A.fail(c.pos, "sort comparison unknown")
			}
			if !b.b {
				break
			}
			m("Swap", VInt{c: j}, VInt{c: j - 1})
		}
	}
	return one1(st)
}

var hashType = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runningHash", nil), types.NewStruct(nil, nil), nil)

// newHash is a running hash (hash.Hash): the text written so far.
func (A *Analysis) newHash(st *State, kind string) Val {
	id := A.alloc(st, &Obj{val: VStr{known: true}, typ: types.Typ[types.String], tag: kind})
	return VIface{hashType, VPtr{obj: id}}
}

func (A *Analysis) hashMethod(st *State, method string, args []Val, pos token.Pos) ([]Outcome, bool) {
	iv, ok := args[0].(VIface)
	if !ok {
		return nil, false
	}
	p, ok := iv.v.(VPtr)
	if !ok {
		return nil, false
	}
	o := *st.get(p.obj)
	cur, ok := o.val.(VStr)
	if !ok || o.tag != "sha256" && o.tag != "md5" {
		return nil, false
	}
	switch method {
	case "Write":
		var add VStr
		switch x := args[1].(type) {
		case SymSlice:
			add, ok = st.get(x.obj).val.(VStr)
			if !ok {
				return nil, false
			}
		case VSlice, VNil:
			add = VStr{known: true}
			for _, e := range A.sliceElems(st, x) {
				i, ok := e.(VInt)
				if !ok || i.sym != nil {
					return nil, false
				}
				add.s += string([]byte{byte(i.c)})
			}
		default:
			return nil, false
		}
		o.val = A.concat(cur, add)
		st.set(p.obj, &o)
		return one1(st, VInt{c: int64(len(add.s))}, VNil{}), true
	case "Sum":
		s := A.symStr(A.T.uf(o.tag, A.strTerm(cur)))
		id := A.alloc(st, &Obj{val: s})
		if len(A.sliceElems(st, args[1])) != 0 {
			return nil, false
		}
		return one1(st, SymSlice{obj: id}), true
	case "Reset":
		o.val = VStr{known: true}
		st.set(p.obj, &o)
		return one1(st), true
	}
	return nil, false
}

// concat keeps the pieces of a text in order, so that equal concatenations of
// known and unknown parts are recognised however they were built.
func (A *Analysis) concat(a, b VStr) VStr {
	if a.known && a.s == "" {
		return b
	}
	if b.known && b.s == "" {
		return a
	}
	if a.known && b.known {
		return VStr{known: true, s: a.s + b.s}
	}
	if !a.known && a.sym == nil || !b.known && b.sym == nil {
		return VStr{}
	}
	// right-associated list of pieces; neighbouring known pieces are joined
	pieces := append(A.pieces(a), A.pieces(b)...)
	var l []VStr
	for _, p := range pieces {
		if n := len(l); n > 0 && l[n-1].known && p.known {
			l[n-1].s += p.s
			continue
		}
		l = append(l, p)
	}
	t := A.strTerm(l[len(l)-1])
	for i := len(l) - 2; i >= 0; i-- {
		t = A.T.uf("cat", A.strTerm(l[i]), t)
	}
	r := A.symStr(t)
	if A.parts == nil {
		A.parts = map[*Term][]VStr{}
	}
	A.parts[r.sym] = l
	return r
}

func (A *Analysis) pieces(s VStr) []VStr {
	if !s.known {
		if l, ok := A.parts[s.sym]; ok {
			return append([]VStr{}, l...)
		}
	}
	return []VStr{s}
}

// numOf is the number whose bytes are a symbolic text (SetBytes of a hash).
func (A *Analysis) numOf(t *Term) *BigVal {
	hi := new(big.Int).Lsh(big.NewInt(1), 256)
	return &BigVal{t: A.rep(A.T.uf("num", t)), lo: new(big.Int), hi: hi.Sub(hi, big.NewInt(1))}
}

// commutes builds a commutative function of two terms.
func (A *Analysis) commutes(name string, x, y *Term) *Term {
	l := []*Term{A.rep(x), A.rep(y)}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return A.T.uf(name, l...)
}

// selectRecv models a select over receives: queued values first, in the order
// of the cases, then closed channels. Senders have run to completion.
func (A *Analysis) selectRecv(p *part, v *ssa.Select) (Val, string) {
	st := p.st
	tt := v.Type().(*types.Tuple)
	vals := make([]Val, tt.Len())
	vals[0], vals[1] = VInt{c: -1}, VBool{known: true}
	for i := 2; i < tt.Len(); i++ {
		vals[i] = A.zeroVal(tt.At(i).Type())
	}
	for pass := 0; pass < 2; pass++ {
		slot := 2
		for i, s := range v.States {
			if s.Dir != types.RecvOnly {
				A.fail(v.Pos(), "select with a send")
			}
			ch, ok := A.operand(p, s.Chan).(VChan)
			if !ok {
				A.fail(v.Pos(), "select on an unknown channel")
			}
			o := *st.get(ch.obj)
			q := o.val.(VQueue)
			if pass == 0 && len(q.q) > 0 {
				vals[0], vals[1], vals[slot] = VInt{c: int64(i)}, VBool{known: true, b: true}, q.q[0]
				o.val = VQueue{q.q[1:], q.closed, q.cap}
				st.set(ch.obj, &o)
				A.received(st, ch.obj, len(q.q)-1, false)
				return VTuple{vals}, ""
			}
			if pass == 1 && len(q.q) == 0 && q.closed {
				vals[0] = VInt{c: int64(i)}
				A.received(st, ch.obj, 0, true)
				return VTuple{vals}, ""
			}
			slot++
		}
	}
	if !v.Blocking {
		return VTuple{vals}, ""
	}
	return nil, "blocked for ever in select"
}
