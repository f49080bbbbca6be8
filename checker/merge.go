package main

import (
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// merge joins partition q into p at a common program point.  It succeeds when
// the heaps are isomorphic and all value numbers agree - either under one
// environment, or with one state subsuming the other (its values, evaluated
// under the other's environment, are the other's values).
func (A *Analysis) merge(p, q *part, live map[ssa.Value]bool, watermark int) *part {
	if A.noMerge || len(p.defers) != len(q.defers) || p.st.log != q.st.log || !sameThreads(p.st.threads, q.st.threads) {
		return nil
	}
	switch {
	case q.st.env.extends(p.st.env):
	case p.st.env.extends(q.st.env):
		p, q = q, p
	default:
		return nil
	}
	m := &merger{A: A, p: p.st, q: q.st, env: q.st.env, fwd: map[int]int{}, bwd: map[int]int{}, nw: map[int]*Obj{}, wm: watermark}
	nregs := map[ssa.Value]Val{}
	for r := range live {
		a, ok1 := p.regs[r]
		b, ok2 := q.regs[r]
		if !ok1 || !ok2 {
			continue
		}
		v, ok := m.val(a, b)
		if !ok {
			return nil
		}
		nregs[r] = v
	}
	var nrets []Val
	if len(p.rets) != len(q.rets) {
		return nil
	}
	for i := range p.rets {
		v, ok := m.val(p.rets[i], q.rets[i])
		if !ok {
			return nil
		}
		nrets = append(nrets, v)
	}
	for k, a := range p.st.marks {
		b, ok := q.st.marks[k]
		if !ok || !m.env.eq(a, b) {
			return nil
		}
	}
	if len(p.st.marks) != len(q.st.marks) {
		return nil
	}
	// every object that existed before the call
	for id := range p.st.over {
		if id <= watermark {
			if !m.obj(id, id) {
				return nil
			}
		}
	}
	for id := range q.st.over {
		if id <= watermark {
			if !m.obj(id, id) {
				return nil
			}
		}
	}
	n := *p
	ns := *p.st
	n.st = &ns
	ns.over = make(map[int]*Obj, len(p.st.over))
	for k, v := range p.st.over {
		ns.over[k] = v
	}
	for id, o := range m.nw {
		if o != nil {
			ns.over[id] = o
		}
	}
	n.regs = map[ssa.Value]Val{}
	for k, v := range p.regs {
		n.regs[k] = v
	}
	for k, v := range nregs {
		n.regs[k] = v
	}
	n.rets = nrets
	if len(nrets) == 0 {
		n.rets = p.rets
	}
	// facts common to both
	var fs []*Term
	inq := map[*Term]bool{}
	for _, f := range q.st.facts {
		inq[f] = true
	}
	for _, f := range p.st.facts {
		if inq[f] {
			fs = append(fs, f)
		}
	}
	ns.facts = fs
	ns.ref = map[*BigVal]*BigVal{}
	for k, v := range p.st.ref {
		if q.st.ref[k] == v {
			ns.ref[k] = v
		}
	}
	ns.rels = A.commonRels(p.st, q.st)
	// equal values: a state whose environment satisfies its path covers the other
	ns.unsolved = p.st.unsolved && (q.st.unsolved || len(q.st.env.ovr) != len(p.st.env.ovr))
	ns.zeros = nil
	for _, z := range p.st.zeros {
		for _, y := range q.st.zeros {
			if z == y {
				ns.zeros = append(ns.zeros, z)
				break
			}
		}
	}
	if q.st.trace != nil && (ns.trace == nil || q.st.trace.n < ns.trace.n) && q.st.env == p.st.env {
		ns.trace = q.st.trace
	}
	return &n
}

// commonRels is what two paths know about the order of unknowns.
func (A *Analysis) commonRels(p, q *State) (res *relFact) {
	a, b := p.rels, q.rels
	for a != b {
		switch {
		case a == nil || b == nil:
			a, b = nil, nil
		case a.n >= b.n:
			a = a.up
		default:
			b = b.up
		}
	}
	res = a
	all := relLT | relEQ | relGT
	add := func(f *relFact, o *State) {
		set, _ := A.relations(o, A.canonIn(o, f.a), A.canonIn(o, f.b))
		set &= o.relOf(f.a, f.b)
		if set |= f.set; set == all {
			return
		}
		n := 1
		if res != nil {
			n = res.n + 1
		}
		res = &relFact{a: f.a, b: f.b, set: set, up: res, n: n}
	}
	for f := p.rels; f != a; f = f.up {
		add(f, q)
	}
	for f := q.rels; f != a; f = f.up {
		add(f, p)
	}
	return res
}

// canonIn is the integer below the modulus that t stands for, as far as o determines it.
func (A *Analysis) canonIn(o *State, t *Term) *BigVal {
	b := A.bigCanon(t)
	switch {
	case b.k != nil:
	case A.zeroIn(o, t):
		return A.bigConst(new(big.Int))
	case A.knownNonzero(o, t):
		n := *b
		n.lo = one_
		return &n
	}
	return b
}

type merger struct {
	A        *Analysis
	p, q     *State
	env      *Env
	fwd, bwd map[int]int
	nw       map[int]*Obj
	wm       int
}

// newer: the value holds a reference to an object made since the call.
func (m *merger) newer(v Val) bool {
	any := func(vs []Val) bool {
		for _, x := range vs {
			if m.newer(x) {
				return true
			}
		}
		return false
	}
	switch v := v.(type) {
	case nil, VInt, VBool, VStr, VBig, VNil:
		return false
	case VPtr:
		return v.obj > m.wm
	case VStruct:
		return any(v.f)
	case VArr:
		return any(v.e)
	case VTuple:
		return any(v.v)
	case VSlice:
		return v.obj > m.wm
	case VMap:
		return v.obj > m.wm
	case VChan:
		return v.obj > m.wm
	case VOpaqueArr, VBytes, VBits, VOpaque:
		return false
	}
	return true
}

func (m *merger) obj(i, j int) bool {
	if i == j && i <= m.wm {
		// untouched since the fork: its contents may point at changed objects. Older
		// ones are visited on their own, ones made since the call through the record
		if r := m.p.get(i); r == m.q.get(j) && (r == nil || !m.newer(r.val)) {
			return true
		}
	}
	if k, ok := m.fwd[i]; ok {
		return k == j
	}
	if k, ok := m.bwd[j]; ok {
		return k == i
	}
	if (i <= m.wm || j <= m.wm) && i != j {
		return false
	}
	m.fwd[i], m.bwd[j] = j, i
	a, b := m.p.get(i), m.q.get(j)
	if a == nil || b == nil {
		return false
	}
	if a == b {
		// shared record; inner pointers of newer objects need a visit
		v, ok := m.val(a.val, b.val)
		_ = v
		return ok
	}
	if a.pool != b.pool || a.frozen != b.frozen || a.tag != b.tag {
		return false
	}
	if (a.ghost == nil) != (b.ghost == nil) {
		return false
	}
	if a.ghost != nil && !a.ghost.sameAs(b.ghost, m.env) {
		return false
	}
	v, ok := m.val(a.val, b.val)
	if !ok {
		return false
	}
	n := *a
	n.val = v
	m.nw[i] = &n
	return true
}

func eqPath(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *merger) big(a, b *BigVal) (*BigVal, bool) {
	if a == b {
		return a, true
	}
	if !m.env.eq(a.t, b.t) {
		return nil, false
	}
	n := *a
	if a.lo == nil || b.lo == nil {
		n.lo = nil
	} else if b.lo.Cmp(a.lo) < 0 {
		n.lo = b.lo
	}
	if a.hi == nil || b.hi == nil {
		n.hi = nil
	} else if b.hi.Cmp(a.hi) > 0 {
		n.hi = b.hi
	}
	n.exact = a.exact && b.exact
	if a.k == nil || b.k == nil || a.k.Cmp(b.k) != 0 {
		n.k = nil
	}
	m.A.reexact(&n)
	return &n, true
}

func (m *merger) vals(a, b []Val) ([]Val, bool) {
	if len(a) != len(b) {
		return nil, false
	}
	r := make([]Val, len(a))
	for i := range a {
		v, ok := m.val(a[i], b[i])
		if !ok {
			return nil, false
		}
		r[i] = v
	}
	return r, true
}

func (m *merger) val(x, y Val) (Val, bool) {
	switch a := x.(type) {
	case VInt:
		b, ok := y.(VInt)
		if !ok {
			return nil, false
		}
		if a.sym == nil && b.sym == nil {
			return a, a.c == b.c
		}
		if a.cmp != nil || b.cmp != nil {
			return a, a.cmp != nil && b.cmp != nil && a.sym == b.sym
		}
		return a, m.env.eq(m.A.intTerm(a), m.A.intTerm(b))
	case VBool:
		b, ok := y.(VBool)
		if !ok || a.known != b.known {
			return nil, false
		}
		if a.known {
			return a, a.b == b.b
		}
		return a, a.cond == b.cond
	case VStr:
		b, ok := y.(VStr)
		if !ok || a.known != b.known {
			return nil, false
		}
		return a, a.s == b.s
	case VPtr:
		b, ok := y.(VPtr)
		if !ok || !eqPath(a.path, b.path) {
			return nil, false
		}
		return a, m.obj(a.obj, b.obj)
	case VNil:
		_, ok := y.(VNil)
		return a, ok
	case VBig:
		b, ok := y.(VBig)
		if !ok {
			return nil, false
		}
		v, ok := m.big(a.b, b.b)
		return VBig{v}, ok
	case VStruct:
		b, ok := y.(VStruct)
		if !ok {
			return nil, false
		}
		v, ok := m.vals(a.f, b.f)
		return VStruct{v}, ok
	case VArr:
		b, ok := y.(VArr)
		if !ok {
			return nil, false
		}
		v, ok := m.vals(a.e, b.e)
		return VArr{v}, ok
	case VTuple:
		b, ok := y.(VTuple)
		if !ok {
			return nil, false
		}
		v, ok := m.vals(a.v, b.v)
		return VTuple{v}, ok
	case VOpaqueArr:
		b, ok := y.(VOpaqueArr)
		return a, ok && a == b
	case VSlice:
		b, ok := y.(VSlice)
		if !ok || !eqPath(a.path, b.path) || a.off != b.off || a.len != b.len {
			return nil, false
		}
		if b.cap < a.cap {
			a.cap = b.cap
		}
		return a, m.obj(a.obj, b.obj)
	case VBytes:
		b, ok := y.(VBytes)
		if !ok {
			return nil, false
		}
		v, ok := m.big(a.b, b.b)
		return VBytes{v}, ok
	case VBits:
		b, ok := y.(VBits)
		if !ok {
			return nil, false
		}
		v, ok := m.big(a.b, b.b)
		return VBits{v}, ok
	case VMap:
		b, ok := y.(VMap)
		return a, ok && m.obj(a.obj, b.obj)
	case VChan:
		b, ok := y.(VChan)
		return a, ok && m.obj(a.obj, b.obj)
	case VIter:
		b, ok := y.(VIter)
		return a, ok && m.obj(a.obj, b.obj)
	case VQueue:
		b, ok := y.(VQueue)
		if !ok {
			return nil, false
		}
		v, ok := m.vals(a.q, b.q)
		return VQueue{v, a.closed, a.cap}, ok && a.closed == b.closed && a.cap == b.cap
	case VIterV:
		b, ok := y.(VIterV)
		if !ok || a.i != b.i || a.str != b.str {
			return nil, false
		}
		k, ok1 := m.vals(a.keys, b.keys)
		v, ok2 := m.vals(a.vals, b.vals)
		return VIterV{k, v, a.i, a.str}, ok1 && ok2
	case VMapV:
		b, ok := y.(VMapV)
		if !ok || len(a.ks) != len(b.ks) {
			return nil, false
		}
		nv := make([]Val, len(a.ks))
		for i, k := range a.ks {
			f := -1
			for j, l := range b.ks {
				if k == l {
					f = j
				}
			}
			if f < 0 {
				return nil, false
			}
			v, ok := m.val(a.vals[i], b.vals[f])
			if !ok {
				return nil, false
			}
			nv[i] = v
		}
		return VMapV{a.keys, a.ks, nv}, true
	case VIface:
		b, ok := y.(VIface)
		if !ok {
			return nil, false
		}
		if a.t == nil || b.t == nil {
			return a, a.t == nil && b.t == nil
		}
		if a.t.String() != b.t.String() {
			return nil, false
		}
		v, ok := m.val(a.v, b.v)
		return VIface{a.t, v}, ok
	case VFunc:
		b, ok := y.(VFunc)
		if !ok || a.fn != b.fn || a.bi != b.bi || a.sum != b.sum {
			return nil, false
		}
		v, ok := m.vals(a.bind, b.bind)
		return VFunc{a.fn, v, a.bi, a.sum}, ok
	case VOpaque:
		b, ok := y.(VOpaque)
		return a, ok && a.name == b.name
	}
	return nil, x == nil && y == nil
}

var _ = big.NewInt
