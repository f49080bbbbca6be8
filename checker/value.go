package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type VInt struct {
	c   int64
	sym *Term    // symbolic when non-nil
	cmp *CmpInfo // result of a big.Int comparison
}
type VBool struct {
	known, b bool
	cond     *Cond
}
type VStr struct {
	known bool
	s     string
	sym   *Term
}
type VPtr struct {
	obj  int
	path []int
}
type VNil struct{}
type VBig struct{ b *BigVal }
type VStruct struct{ f []Val }
type VArr struct{ e []Val }
type VOpaqueArr struct { // byte array of known length and unknown content
	name string
	n    int
}
type VSlice struct {
	obj           int
	path          []int
	off, len, cap int
}
type VBytes struct{ b *BigVal } // result of (*big.Int).Bytes
type VBits struct{ b *BigVal }
type VMap struct{ obj int }
type VMapV struct {
	keys []Val
	ks   []string
	vals []Val
}
type VIface struct {
	t types.Type
	v Val
}
type VFunc struct {
	fn   *ssa.Function
	bind []Val
	bi   *ssa.Builtin
	sum  bool // an accumulation callback supplied by a check: returns a fresh sum
}
type VTuple struct{ v []Val }
type VChan struct{ obj int }
type VQueue struct {
	q      []Val
	closed bool
	cap    int // -1: unknown
}
type VOpaque struct{ name string }
type VIter struct {
	obj int // object holding VIterV
}
type VIterV struct {
	keys []Val
	vals []Val
	i    int
	str  bool
}

// BigVal is the abstract content of a big.Int: a value number (residue), an
// enclosing integer interval, and whether "is the integer zero" is decided by
// "is the residue zero".
type BigVal struct {
	t      *Term
	lo, hi *big.Int
	exact  bool
	k      *big.Int
}

type CmpInfo struct {
	a, b *BigVal
	unit int // with b nil: 0 a word of a, otherwise the length of a in units of that many bits
}

// Cond is an undecided condition.
type Cond struct {
	kind   string // "cmp", "zero" (residue term), "any"
	cmp    *CmpInfo
	set    int      // allowed relations: 1 '<', 2 '=', 4 '>'
	lo, hi *big.Int // "range": lo <= a <= hi
	t      *Term
	neg    bool
	msg    string
	hook   func(st *State, truth bool) *State
}

const (
	poolNone = iota
	poolLive
	poolReleased
)

type Obj struct {
	val    Val
	typ    types.Type
	pool   int
	frozen string // non-empty: writes are reported
	site   token.Pos
	ghost  Ghost
	tag    string
}

type Ghost interface {
	sameAs(o Ghost, env *Env) bool
	String() string
}

type Trace struct {
	prev *Trace
	pos  token.Pos
	what string
	n    int
}

type State struct {
	base     map[int]*Obj
	over     map[int]*Obj
	env      *Env
	facts    []*Term // known non-zero
	zeros    []*Term // known zero, beyond what env expresses
	trace    *Trace
	unsolved bool
	marks    map[string]*Term    // analysis specific accumulators
	ref      map[*BigVal]*BigVal // refinements made on this path
	rels     *relFact            // comparisons of two unknowns made on this path
	log      *threadLog          // accesses of the goroutine that is being interpreted (conc.go)
	threads  []threadRef         // goroutines that may still be running
}

type relFact struct {
	a, b *Term
	set  int
	up   *relFact
	n    int
}

func flipRel(set int) int {
	r := set & relEQ
	if set&relLT != 0 {
		r |= relGT
	}
	if set&relGT != 0 {
		r |= relLT
	}
	return r
}

// relOf is what is known about two integers below the modulus.
func (s *State) relOf(a, b *Term) int {
	set := relLT | relEQ | relGT
	for f := s.rels; f != nil; f = f.up {
		if s.env.eq(f.a, a) && s.env.eq(f.b, b) {
			set &= f.set
		}
		if s.env.eq(f.a, b) && s.env.eq(f.b, a) {
			set &= flipRel(f.set)
		}
	}
	return set
}

// latest follows the refinements of b made on this path.
func (s *State) latest(b *BigVal) *BigVal {
	for {
		n, ok := s.ref[b]
		if !ok || n == b {
			return b
		}
		b = n
	}
}

func (s *State) fork() *State {
	n := *s
	n.over = make(map[int]*Obj, len(s.over)+8)
	for k, v := range s.over {
		n.over[k] = v
	}
	n.facts = append([]*Term{}, s.facts...)
	n.zeros = append([]*Term{}, s.zeros...)
	n.ref = make(map[*BigVal]*BigVal, len(s.ref))
	for k, v := range s.ref {
		n.ref[k] = v
	}
	n.marks = make(map[string]*Term, len(s.marks))
	for k, v := range s.marks {
		n.marks[k] = v
	}
	return &n
}

func (s *State) get(id int) *Obj {
	if o, ok := s.over[id]; ok {
		return o
	}
	return s.base[id]
}
func (s *State) set(id int, o *Obj) { s.over[id] = o }

func (s *State) note(pos token.Pos, what string) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &Trace{s.trace, pos, what, n}
}

func loadPath(v Val, path []int) Val {
	for _, p := range path {
		switch x := v.(type) {
		case VStruct:
			v = x.f[p]
		case VArr:
			if p < 0 || p >= len(x.e) {
				return nil
			}
			v = x.e[p]
		case VOpaqueArr:
			v = VInt{sym: nil, c: -1}
			return VOpaque{fmt.Sprintf("%s[%d]", x.name, p)}
		default:
			return nil
		}
	}
	return v
}

func storePath(v Val, path []int, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case VStruct:
		f := append([]Val{}, x.f...)
		f[path[0]] = storePath(f[path[0]], path[1:], nv)
		return VStruct{f}
	case VArr:
		e := append([]Val{}, x.e...)
		e[path[0]] = storePath(e[path[0]], path[1:], nv)
		return VArr{e}
	}
	return nil
}

func isBigInt(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (A *Analysis) zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return VBig{A.bigConst(new(big.Int))}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{known: true}
		case u.Info()&types.IsInteger != 0:
			return VInt{}
		case u.Info()&types.IsString != 0:
			return VStr{known: true}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return VNil{}
		default:
			return VOpaque{"zero"}
		}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return VOpaque{typeName(t)}
		}
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = A.zeroVal(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = A.zeroVal(u.Elem())
		}
		return VArr{e}
	case *types.Tuple:
		return VTuple{}
	}
	return VNil{}
}

func (A *Analysis) bigConst(k *big.Int) *BigVal {
	k = new(big.Int).Set(k)
	return &BigVal{t: A.T.konst(k), lo: k, hi: k, exact: true, k: k}
}

// bigAny: an arbitrary integer with the given residue.
func (A *Analysis) bigAny(t *Term) *BigVal { return &BigVal{t: t} }

// bigCanon: the canonical representative in [0,mod).
func (A *Analysis) bigCanon(t *Term) *BigVal {
	if t.op == OpConst {
		return A.bigConst(t.k)
	}
	return &BigVal{t: t, lo: new(big.Int), hi: new(big.Int).Sub(A.T.mod, big.NewInt(1)), exact: true}
}

func (b *BigVal) String() string {
	f := func(x *big.Int) string {
		if x == nil {
			return "?"
		}
		s := x.String()
		if len(s) > 10 {
			return fmt.Sprintf("~2^%d", x.BitLen())
		}
		return s
	}
	return fmt.Sprintf("%v in [%s,%s]", b.t, f(b.lo), f(b.hi))
}
