package main

import (
	"crypto/sha256"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Value numbers.  A Term is a hash-consed expression over a commutative ring
// (the field named by the analysis).  Two terms carry the same value number
// when their fingerprints - the residue of the expression at one secret point
// of the field - agree (Gulwani/Necula style global value numbering).

type Op uint8

const (
	OpConst Op = iota
	OpAtom
	OpAdd
	OpMul
	OpNeg
	OpInv
	OpUF
)

type Term struct {
	id      int
	op      Op
	args    []*Term
	k       *big.Int
	name    string
	nonzero bool // atoms only: assumed different from zero
}

type TermTable struct {
	mod   *big.Int
	seed  string
	tab   map[string]*Term
	n     int
	zero  *Term
	one   *Term
	fresh int
	bits  int // width of split values: bits multiply and recombine as such
}

func newTermTable(mod *big.Int, seed string) *TermTable {
	T := &TermTable{mod: mod, seed: seed, tab: map[string]*Term{}}
	T.zero = T.constI(0)
	T.one = T.constI(1)
	return T
}

func (T *TermTable) mk(op Op, name string, k *big.Int, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", op, name)
	if k != nil {
		sb.WriteString(k.Text(62))
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	key := sb.String()
	if t, ok := T.tab[key]; ok {
		return t
	}
	T.n++
	t := &Term{id: T.n, op: op, args: args, k: k, name: name}
	T.tab[key] = t
	return t
}

func (T *TermTable) konst(k *big.Int) *Term {
	return T.mk(OpConst, "", new(big.Int).Mod(k, T.mod))
}
func (T *TermTable) constI(i int64) *Term { return T.konst(big.NewInt(i)) }
func (T *TermTable) atom(name string) *Term {
	return T.mk(OpAtom, name, nil)
}
func (T *TermTable) atomNZ(name string) *Term {
	t := T.mk(OpAtom, name, nil)
	t.nonzero = true
	return t
}
func (T *TermTable) freshAtom(pfx string) *Term {
	T.fresh++
	return T.atom(fmt.Sprintf("%s#%d", pfx, T.fresh))
}

func (t *Term) isZero() bool { return t.op == OpConst && t.k.Sign() == 0 }
func (t *Term) isOne() bool  { return t.op == OpConst && t.k.Cmp(big.NewInt(1)) == 0 }

func (T *TermTable) add(a, b *Term) *Term {
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	if a.op == OpConst && b.op == OpConst {
		return T.konst(new(big.Int).Add(a.k, b.k))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OpAdd, "", nil, a, b)
}
func (T *TermTable) neg(a *Term) *Term {
	if a.op == OpConst {
		return T.konst(new(big.Int).Neg(a.k))
	}
	if a.op == OpNeg {
		return a.args[0]
	}
	return T.mk(OpNeg, "", nil, a)
}
func (T *TermTable) sub(a, b *Term) *Term {
	if a == b {
		return T.zero
	}
	return T.add(a, T.neg(b))
}
func (T *TermTable) mul(a, b *Term) *Term {
	if a.isZero() || b.isZero() {
		return T.zero
	}
	if a.isOne() {
		return b
	}
	if b.isOne() {
		return a
	}
	if a.op == OpConst && b.op == OpConst {
		return T.konst(new(big.Int).Mul(a.k, b.k))
	}
	if T.bits > 0 {
		if r := T.bitMul(a, b); r != nil {
			return r
		}
		if r := T.bitMul(b, a); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OpMul, "", nil, a, b)
}

// bitMul distributes a bit over a small linear form it occurs in: b*b = b.
func (T *TermTable) bitMul(a, b *Term) *Term {
	if b.op != OpUF || b.name != "bit" || !T.occurs(b, a, 6) {
		return nil
	}
	switch a.op {
	case OpUF:
		return b
	case OpNeg:
		return T.neg(T.mul(a.args[0], b))
	case OpAdd:
		return T.add(T.mul(a.args[0], b), T.mul(a.args[1], b))
	case OpMul:
		for i, x := range a.args {
			if T.occurs(b, x, 5) {
				return T.mul(a.args[1-i], T.mul(x, b))
			}
		}
	}
	return nil
}

func (T *TermTable) occurs(b, a *Term, depth int) bool {
	if a == b {
		return true
	}
	if depth == 0 || a.op != OpAdd && a.op != OpMul && a.op != OpNeg {
		return false
	}
	for _, x := range a.args {
		if T.occurs(b, x, depth-1) {
			return true
		}
	}
	return false
}

func (T *TermTable) inv(a *Term) *Term {
	if a.op == OpConst && a.k.Sign() != 0 {
		return T.konst(new(big.Int).ModInverse(a.k, T.mod))
	}
	if a.op == OpInv {
		return a.args[0]
	}
	return T.mk(OpInv, "", nil, a)
}
func (T *TermTable) scale(a *Term, n int64) *Term { return T.mul(a, T.constI(n)) }
func (T *TermTable) pow(a *Term, n int) *Term {
	r := T.one
	for i := 0; i < n; i++ {
		r = T.mul(r, a)
	}
	return r
}
func (T *TermTable) uf(name string, args ...*Term) *Term {
	return T.mk(OpUF, name, nil, args...)
}
func (T *TermTable) sum(ts ...*Term) *Term {
	r := T.zero
	for _, t := range ts {
		r = T.add(r, t)
	}
	return r
}

func (T *TermTable) hash(parts ...string) *big.Int {
	r := new(big.Int)
	for i := 0; i < 2; i++ {
		h := sha256.Sum256([]byte(T.seed + "\x00" + fmt.Sprint(i) + "\x00" + strings.Join(parts, "\x00")))
		r.Lsh(r, 256)
		r.Add(r, new(big.Int).SetBytes(h[:]))
	}
	return r.Mod(r, T.mod)
}

// Env is an evaluation point: the generic random point, moved onto the variety
// described by the override list (each override makes one term vanish).
type Env struct {
	T    *TermTable
	ovr  []override
	pins map[*Term]*big.Int
	alt  *Env
	memo map[*Term]*big.Int
}

type override struct {
	v *Term // eliminated atom
	t *Term // term that vanishes
}

func (T *TermTable) newEnv() *Env {
	return &Env{T: T, pins: map[*Term]*big.Int{}, memo: map[*Term]*big.Int{}}
}

func (e *Env) eval(t *Term) *big.Int {
	if t.op == OpConst {
		return t.k
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	// iterative post-order to survive deep terms
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OpConst {
			stack = stack[:len(stack)-1]
			continue
		}
		if _, ok := e.memo[x]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.args {
			if a.op == OpConst {
				continue
			}
			if _, ok := e.memo[a]; !ok {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		e.memo[x] = e.compute(x)
		stack = stack[:len(stack)-1]
	}
	return e.memo[t]
}

func (e *Env) get(a *Term) *big.Int {
	if a.op == OpConst {
		return a.k
	}
	return e.memo[a]
}

func (e *Env) compute(x *Term) *big.Int {
	m := e.T.mod
	switch x.op {
	case OpAtom:
		if v, ok := e.pins[x]; ok {
			return v
		}
		return e.T.hash("atom", x.name)
	case OpAdd:
		r := new(big.Int).Add(e.get(x.args[0]), e.get(x.args[1]))
		if r.Cmp(m) >= 0 {
			r.Sub(r, m)
		}
		return r
	case OpMul:
		r := new(big.Int).Mul(e.get(x.args[0]), e.get(x.args[1]))
		return r.Mod(r, m)
	case OpNeg:
		r := new(big.Int).Neg(e.get(x.args[0]))
		return r.Mod(r, m)
	case OpInv:
		a := e.get(x.args[0])
		if a.Sign() == 0 {
			return e.T.hash("inv0")
		}
		return new(big.Int).ModInverse(a, m)
	case OpUF:
		if e.T.bits > 0 && x.name == "bit" && x.args[1].op == OpConst {
			// the bits of a canonical value recombine to it
			n := x.args[1].k.Int64()
			if n >= int64(e.T.bits) {
				return new(big.Int)
			}
			if n == 0 {
				v := e.get(x.args[0])
				r := new(big.Int).Set(v)
				for i := int64(1); i < int64(e.T.bits); i++ {
					b := e.T.hash("uf", x.name, v.Text(62), big.NewInt(i).Text(62))
					r.Sub(r, b.Lsh(b, uint(i)))
				}
				return r.Mod(r, m)
			}
		}
		parts := []string{"uf", x.name}
		for _, a := range x.args {
			parts = append(parts, e.get(a).Text(62))
		}
		return e.T.hash(parts...)
	}
	panic("term op")
}

func (e *Env) isZero(t *Term) bool { return e.eval(t).Sign() == 0 }
func (e *Env) eq(a, b *Term) bool  { return a == b || e.eval(a).Cmp(e.eval(b)) == 0 }
func (e *Env) evalAt(t *Term, pins map[*Term]*big.Int) *big.Int {
	f := &Env{T: e.T, pins: pins, memo: map[*Term]*big.Int{}}
	return f.eval(t)
}

func collectAtoms(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x.op == OpAtom {
			out[x] = true
		}
		stack = append(stack, x.args...)
	}
}

// inUF reports the atoms that occur below an uninterpreted function or inverse.
func opaqueAtoms(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.op == OpUF {
			for _, a := range x.args {
				collectAtoms(a, out, map[*Term]bool{})
			}
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// rootOf finds the numeric value of atom v that makes t vanish, with the
// remaining pins fixed and the first n overrides of e active; t must be affine in v.
func (e *Env) rootOf(v, t *Term, n int, pins map[*Term]*big.Int) (*big.Int, bool) {
	if t == v {
		return new(big.Int), true
	}
	m := e.T.mod
	at := func(x *big.Int) (*big.Int, bool) {
		p := map[*Term]*big.Int{}
		for k, w := range pins {
			p[k] = w
		}
		p[v] = x
		p, ok := e.realise(n, p)
		if !ok {
			return nil, false
		}
		return e.evalAt(t, p), true
	}
	// an affine function is known from two points; none is zero, where inverses are not defined
	p0 := e.T.hash("root0", fmt.Sprint(v.id))
	r0 := e.T.hash("root", fmt.Sprint(v.id))
	f0, ok0 := at(p0)
	f1, ok1 := at(new(big.Int).Mod(new(big.Int).Add(p0, one_), m))
	fr, okr := at(new(big.Int).Mod(new(big.Int).Add(p0, r0), m))
	if !ok0 || !ok1 || !okr {
		return nil, false
	}
	d := new(big.Int).Sub(f1, f0)
	d.Mod(d, m)
	if d.Sign() == 0 {
		return nil, false
	}
	chk := new(big.Int).Mul(d, r0)
	chk.Add(chk, f0).Mod(chk, m)
	if chk.Cmp(fr) != 0 {
		return nil, false
	}
	inv := new(big.Int).ModInverse(d, m)
	r := new(big.Int).Neg(f0)
	r.Mul(r, inv).Add(r, p0).Mod(r, m)
	return r, true
}

// realise computes pins for the first n overrides, last one first.
func (e *Env) realise(n int, pins map[*Term]*big.Int) (map[*Term]*big.Int, bool) {
	for k := n - 1; k >= 0; k-- {
		o := e.ovr[k]
		if _, done := pins[o.v]; done {
			continue
		}
		r, ok := e.rootOf(o.v, o.t, k, pins)
		if !ok {
			return nil, false
		}
		p := map[*Term]*big.Int{}
		for a, w := range pins {
			p[a] = w
		}
		p[o.v] = r
		pins = p
	}
	return pins, true
}

// solve returns the environment moved onto t = 0, or nil when no atom can be eliminated.
func (e *Env) solve(t *Term) *Env {
	if e.isZero(t) {
		return e
	}
	atoms := map[*Term]bool{}
	collectAtoms(t, atoms, map[*Term]bool{})
	// atoms below earlier overrides take part as well
	for i := len(e.ovr) - 1; i >= 0; i-- {
		if atoms[e.ovr[i].v] {
			collectAtoms(e.ovr[i].t, atoms, map[*Term]bool{})
		}
	}
	var list []*Term
	for a := range atoms {
		if _, over := e.pins[a]; over {
			continue
		}
		list = append(list, a)
	}
	sort.Slice(list, func(i, j int) bool {
		if list[i].nonzero != list[j].nonzero {
			return !list[i].nonzero
		}
		return list[i].id > list[j].id
	})
	try := func(v, t *Term) *Env {
		ne := &Env{T: e.T, memo: map[*Term]*big.Int{}}
		ne.ovr = append(append([]override{}, e.ovr...), override{v, t})
		pins, ok := ne.realise(len(ne.ovr), map[*Term]*big.Int{})
		if !ok {
			return nil
		}
		if v.nonzero && pins[v].Sign() == 0 {
			return nil
		}
		ne.pins = pins
		for _, o := range ne.ovr {
			if !ne.isZero(o.t) {
				return nil
			}
		}
		return ne
	}
	for _, v := range list {
		if t != v && opaqueAtoms(t)[v] {
			continue
		}
		if ne := try(v, t); ne != nil {
			return ne
		}
	}
	// a multiple by a power of a non-zero atom may be affine in it
	for _, v := range list {
		if !v.nonzero {
			continue
		}
		for _, m := range []*Term{e.T.mul(t, v), e.T.mul(t, e.T.inv(v))} {
			if ne := try(v, m); ne != nil {
				return ne
			}
		}
	}
	return nil
}

// extends reports whether e was obtained from o by adding overrides.
func (e *Env) extends(o *Env) bool {
	if len(e.ovr) < len(o.ovr) {
		return false
	}
	for i := range o.ovr {
		if e.ovr[i] != o.ovr[i] {
			return false
		}
	}
	return true
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	switch t.op {
	case OpConst:
		s := t.k.String()
		if len(s) > 12 {
			s = s[:6] + "…" + s[len(s)-4:]
		}
		return s
	case OpAtom:
		return t.name
	case OpAdd:
		return "(" + t.args[0].str(d+1) + "+" + t.args[1].str(d+1) + ")"
	case OpMul:
		return t.args[0].str(d+1) + "*" + t.args[1].str(d+1)
	case OpNeg:
		return "-" + t.args[0].str(d+1)
	case OpInv:
		return "1/" + t.args[0].str(d+1)
	case OpUF:
		var s []string
		for _, a := range t.args {
			s = append(s, a.str(d+1))
		}
		return t.name + "(" + strings.Join(s, ",") + ")"
	}
	return "?"
}
