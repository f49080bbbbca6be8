package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Z01-Z05: the argument system. Group elements are abstracted to their
// discrete logarithm, so keys and proofs become polynomials in the secrets.

// zkContracts installs the group interface of package pairing (decided by
// A02, A03 and A07) in the logarithm domain.
func (A *Analysis) zkContracts() {
	T := A.T
	for _, d := range []struct {
		typ string
		g   GroupModel
	}{{"G1", grpCurve}, {"G2", grpTwist}, {"GT", grpF12}} {
		d := d
		get := func(c *callCtx, i int) *Term {
			if e, ok := A.wrappedLog(c.st, c.args[i], d.g); ok {
				return e
			}
			A.event(c.st, "unknown-operand", fmt.Sprintf("operand %d of %s is not a group element computed from the inputs", i, c.key), c.pos)
			return T.freshAtom("lost")
		}
		put := func(c *callCtx, e *Term) []Outcome {
			p, ok := c.args[0].(VPtr)
			if !ok {
				return []Outcome{{st: c.st, panicked: true, msg: "nil receiver", pos: c.pos}}
			}
			in := A.newLog(c.st, d.g, "group element", e)
			if m := A.store(c.st, p, VStruct{[]Val{in}}, c.pos); m != "" {
				return []Outcome{{st: c.st, panicked: true, msg: m, pos: c.pos}}
			}
			return one1(c.st, c.args[0])
		}
		scalar := func(c *callCtx, i int) *Term {
			b := c.st.latest(A.bigAt(c.st, c.args[i], c.pos))
			if b.lo == nil || b.lo.Sign() < 0 {
				A.event(c.st, "negative-scalar", "the scalar may be negative", c.pos)
			}
			return b.t
		}
		for _, op := range []string{"ScalarBaseMult", "ScalarMult", "Add", "Neg", "X", "Marshal", "String"} {
			op := op
			fn := A.P.method("pairing", d.typ, op)
			if fn == nil {
				continue
			}
			A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
				for _, a := range c.args {
					if _, isnil := a.(VNil); isnil {
						return []Outcome{{st: c.st, panicked: true, msg: "nil operand", pos: c.pos}}
					}
				}
				switch op {
				case "ScalarBaseMult":
					return put(c, scalar(c, 1))
				case "ScalarMult":
					return put(c, T.mul(get(c, 1), scalar(c, 2)))
				case "Add":
					return put(c, T.add(get(c, 1), get(c, 2)))
				case "Neg":
					return put(c, T.neg(get(c, 1)))
				case "X":
					return one1(c.st, A.newBig(c.st, A.xcoord(c.st, get(c, 0)), c.pos))
				case "Marshal":
					if d.typ == "GT" {
						return one1(c.st, GTBytes{get(c, 0)})
					}
				case "String":
					return one1(c.st, VStr{sym: T.uf("text "+d.typ, get(c, 0))})
				}
				return nil
			}
		}
	}
	if fn := A.P.fn("pairing", "Pair"); fn != nil {
		A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
			var a, b *Term
			for i := range c.args {
				if _, isnil := c.args[i].(VNil); isnil {
					return []Outcome{{st: c.st, panicked: true, msg: "nil operand", pos: c.pos}}
				}
				if isPtrTo(c.fn.Params[i].Type(), "G1") {
					a, _ = A.wrappedLog(c.st, c.args[i], grpCurve)
				} else {
					b, _ = A.wrappedLog(c.st, c.args[i], grpTwist)
				}
			}
			if a == nil || b == nil {
				A.event(c.st, "unknown-operand", "an operand of Pair is not a group element computed from the inputs", c.pos)
				return one1(c.st, A.wrapGroup(c.st, "GT", A.newLog(c.st, grpF12, "pairing", T.freshAtom("lost"))))
			}
			return one1(c.st, A.wrapGroup(c.st, "GT", A.newLog(c.st, grpF12, "pairing", T.mul(a, b))))
		}
	}
	if fn := A.P.fn("pairing", "PairingCheck"); fn != nil {
		A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
			la, lb := A.sliceElems(c.st, c.args[0]), A.sliceElems(c.st, c.args[1])
			if len(la) != len(lb) {
				return nil
			}
			s := T.zero
			for i := range la {
				a, ok := A.wrappedLog(c.st, la[i], grpCurve)
				b, ok2 := A.wrappedLog(c.st, lb[i], grpTwist)
				if !ok || !ok2 {
					A.event(c.st, "unknown-operand", "an operand of PairingCheck is not a group element computed from the inputs", c.pos)
					return one1(c.st, VBool{cond: &Cond{kind: "any"}})
				}
				s = T.add(s, T.mul(a, b))
			}
			return one1(c.st, VBool{cond: &Cond{kind: "zero", t: s}})
		}
	}
	A.groupContracts(grpCurve, "IsInfinity", "MakeAffine")
	A.groupContracts(grpTwist, "IsInfinity", "MakeAffine")
}

// xcoord is the abscissa used by the exponentiation gates: an uninterpreted
// function of the logarithm, zero for the neutral element.
func (A *Analysis) xcoord(st *State, e *Term) *BigVal {
	if A.zeroIn(st, e) {
		return A.bigConst(bigZero)
	}
	return &BigVal{t: A.T.uf("abscissa", e), lo: new(big.Int), hi: new(big.Int).Sub(bnP, one_)}
}

func (A *Analysis) wrappedLog(st *State, v Val, g GroupModel) (*Term, bool) {
	p, ok := v.(VPtr)
	if !ok {
		return nil, false
	}
	s, ok := loadPath(st.get(p.obj).val, p.path).(VStruct)
	if !ok || len(s.f) != 1 {
		return nil, false
	}
	if _, ok := s.f[0].(VPtr); !ok {
		return nil, false
	}
	return A.logOf(st, s.f[0], g)
}

// generic decides every test on a symbolic residue as for values in general
// position: a term that does not vanish identically is taken to be non-zero.
func (A *Analysis) generic() {
	A.forkDecide = func(c *Cond, st *State) (int, bool) {
		b2i := func(b bool) int {
			if b {
				return 1
			}
			return 0
		}
		switch c.kind {
		case "zero":
			return b2i(A.zeroIn(st, c.t) != c.neg), true
		case "cmp":
			a, b := st.latest(c.cmp.a), st.latest(c.cmp.b)
			if a.k != nil && b.k != nil {
				return 0, false
			}
			rel, diff := A.relations(st, a, b)
			if rel&relEQ != 0 && rel != relEQ && diff != nil && !A.zeroIn(st, diff) {
				rel &^= relEQ
			}
			set := c.set
			if c.neg {
				set = 7 &^ set
			}
			if rel&^set == 0 {
				return 1, true
			}
			if rel&set == 0 {
				return 0, true
			}
		}
		return 0, false
	}
}

// draws makes the random source observable: every draw is a new unknown.
type drawLog struct {
	atoms []*Term
	fails int
}

func (A *Analysis) installRand(d *drawLog, mayFail bool) {
	A.contracts["crypto/rand.Int"] = func(A *Analysis, c *callCtx) []Outcome {
		m := A.bigAt(c.st, c.args[1], c.pos)
		rd := c.args[0]
		if x, ok := rd.(VIface); ok {
			rd = x.v
		}
		if o, ok := rd.(VOpaque); !ok || !strings.Contains(o.name, "crypto/rand.Reader") && !strings.Contains(o.name, "caller's reader") {
			A.event(c.st, "randomness", fmt.Sprintf("the random source is %v", rd), c.pos)
		}
		if m.k == nil || m.k.Cmp(bnOrder) != 0 {
			A.event(c.st, "randomness", "the range of a random value is not the group order", c.pos)
		}
		a := A.T.freshAtom("secret")
		d.atoms = append(d.atoms, a)
		b := A.bigCanon(a)
		out := []Outcome{}
		if mayFail {
			bad := c.st.fork()
			bad.note(c.pos, "the random source fails")
			bad.marks["rand failed"] = A.T.one
			out = append(out, Outcome{st: bad, rets: []Val{VNil{}, A.errVal("rand")}})
		}
		r := A.newBig(c.st, b, c.pos)
		return append(out, Outcome{st: c.st, rets: []Val{r, VNil{}}})
	}
}

// ---------------------------------------------------------------- structures

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// field follows exported field names from a pointer.
func (A *Analysis) fieldAt(st *State, v Val, t types.Type, names ...string) (Val, types.Type) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		pv, ok := v.(VPtr)
		if !ok {
			A.fail(0, "no structure to read %v from", names)
		}
		v = loadPath(st.get(pv.obj).val, pv.path)
	}
	for _, n := range names {
		i := fieldIndex(t, n)
		s, ok := v.(VStruct)
		if i < 0 || !ok {
			A.fail(0, "field %s of %s was not found", n, typeName(t))
		}
		v, t = s.f[i], t.Underlying().(*types.Struct).Field(i).Type()
	}
	return v, t
}

type r1shape struct {
	m, n, p int
	zero    func(mat, wire, gate int) bool
	tag     string
	k       func(mat, wire, gate int) int64 // constant entries
}

// wireMats are the wire-major entries of L, R, E, O; nil means zero.
type wireMats [4][][]*BigVal

func (A *Analysis) symMats(s r1shape) (out wireMats) {
	for k := 0; k < 4; k++ {
		out[k] = make([][]*BigVal, s.m)
		for i := range out[k] {
			out[k][i] = make([]*BigVal, s.n)
			for j := range out[k][i] {
				if s.zero != nil && s.zero(k, i, j) {
					continue
				}
				if s.k != nil {
					x := big.NewInt(s.k(k, i, j))
					out[k][i][j] = A.bigConst(x.Mod(x, bnOrder))
					continue
				}
				b := A.bigCanon(A.T.atomNZ(fmt.Sprintf("%c[%d,%d]", "LREO"[k], i, j)))
				b.lo = one_
				out[k][i][j] = b
			}
		}
	}
	return
}

func (A *Analysis) entry(b *BigVal) *Term {
	if b == nil {
		return A.T.zero
	}
	return b.t
}

// buildStruct allocates a struct of the named type with the given fields.
func (A *Analysis) buildStruct(st *State, t types.Type, what string, fields map[string]Val) Val {
	v, ok := A.zeroVal(t).(VStruct)
	if !ok {
		A.fail(0, "%s is not a struct", typeName(t))
	}
	for n, x := range fields {
		i := fieldIndex(t, n)
		if i < 0 {
			A.fail(0, "field %s of %s was not found", n, typeName(t))
		}
		v.f[i] = x
	}
	return VPtr{obj: A.alloc(st, &Obj{val: v, typ: t, tag: what, frozen: "operand " + what})}
}

// system builds the transposed constraint system argument.
func (A *Analysis) system(st *State, sparse bool, s r1shape, mats wireMats) (Val, *State) {
	name := "ER1CSTransposed"
	if sparse {
		name = "ER1CSsPARSETransposed"
	}
	t := A.P.typ("circuitcompiler", name)
	if t == nil {
		A.fail(0, "type %s was not found", name)
	}
	f := map[string]Val{"WitnessLength": VInt{c: int64(s.m)}, "NumberOfGates": VInt{c: int64(s.n)}}
	for k, n := range []string{"L", "R", "E", "O"} {
		var rows []Val
		for i := 0; i < s.m; i++ {
			if sparse {
				var ps []pair
				for j, b := range mats[k][i] {
					if b != nil {
						ps = append(ps, pair{uint64(j), b})
					}
				}
				var tr Val
				tr, st = A.mkTree(st, ps, "operand constraint system")
				rows = append(rows, tr)
				continue
			}
			var bs []*BigVal
			for _, b := range mats[k][i] {
				if b == nil {
					b = A.bigConst(bigZero)
				}
				bs = append(bs, b)
			}
			rows = append(rows, A.frozenBigs(st, "constraint system", bs))
		}
		fi := fieldIndex(t, n)
		if fi < 0 {
			A.fail(0, "field %s of %s was not found", n, name)
		}
		et := t.Underlying().(*types.Struct).Field(fi).Type().Underlying().(*types.Slice).Elem()
		sl := A.sliceOf(st, et, rows)
		o := *st.get(sl.obj)
		o.frozen = "operand constraint system"
		st.set(sl.obj, &o)
		f[n] = sl
	}
	return A.buildStruct(st, t, "constraint system", f), st
}

// lagrange evaluates the interpolant of the values on 0..n-1 at x.
func (A *Analysis) lagrange(vals []*Term, x *Term) *Term {
	T := A.T
	r := T.zero
	for j, v := range vals {
		num, den := T.one, big.NewInt(1)
		for k := range vals {
			if k != j {
				num = T.mul(num, T.sub(x, T.constI(int64(k))))
				den.Mul(den, big.NewInt(int64(j-k)))
			}
		}
		den.Mod(den, T.mod)
		den.ModInverse(den, T.mod)
		r = T.add(r, T.mul(v, T.mul(num, T.konst(den))))
	}
	return r
}

func (A *Analysis) vanishing(n int, x *Term) *Term {
	r := A.T.one
	for k := 0; k < n; k++ {
		r = A.T.mul(r, A.T.sub(x, A.T.constI(int64(k))))
	}
	return r
}

// columnsAt are L_i(x), R_i(x), E_i(x), O_i(x).
func (A *Analysis) columnsAt(s r1shape, mats wireMats, x *Term) (c [4][]*Term) {
	for k := range c {
		for i := 0; i < s.m; i++ {
			var v []*Term
			for _, b := range mats[k][i] {
				v = append(v, A.entry(b))
			}
			c[k] = append(c[k], A.lagrange(v, x))
		}
	}
	return
}

type zkFns struct {
	setup, combine, prove *ssa.Function
	verify                *ssa.Function
}

func (P *Program) zkFns(sparse bool) zkFns {
	v := P.one("zkSNARK", "VerifyProof", "*Pk *Proof []*Int bool -> bool")
	if sparse {
		return zkFns{
			P.one("zkSNARK", "GenerateTrustedSetupSparse", "int *ER1CSsPARSETransposed -> *Setup error"),
			P.one("zkSNARK", "CombineSparsePolynomials", "[]*Int *ER1CSsPARSETransposed -> *AvlTree"),
			P.one("zkSNARK", "GenerateProof_Sparse", "int *Pk []*Int *AvlTree -> *Proof error"), v}
	}
	return zkFns{
		P.one("zkSNARK", "GenerateTrustedSetup", "int *ER1CSTransposed -> *Setup error"),
		P.one("zkSNARK", "CombinePolynomials2", "[]*Int *ER1CSTransposed -> []*Int"),
		P.one("zkSNARK", "GenerateProofs", "int *Pk []*Int []*Int -> *Proof error"), v}
}

func kindName(sparse bool) string {
	if sparse {
		return "sparse"
	}
	return "dense"
}

// zkKey is a key produced by the setup, with its secrets.
type zkKey struct {
	st                           *State
	setup, pk                    Val
	pkT                          types.Type
	x, alpha, beta, gamma, delta *Term
	draws                        []*Term
	s                            r1shape
	mats                         wireMats
}

func zkAnalysis(R *Report, d *drawLog, mayFail bool) *Analysis {
	A := scalarAnalysis(R)
	A.zkContracts()
	A.installRand(d, mayFail)
	if fn := A.P.method("utils", "Fq", "Rand"); fn != nil {
		// decided by Z04
		draw := A.contracts["crypto/rand.Int"]
		A.contracts[funcKey(fn)] = func(A *Analysis, c *callCtx) []Outcome {
			m := *c
			m.args = []Val{VOpaque{"crypto/rand.Reader"}, A.newBig(c.st, A.bigConst(bnOrder), c.pos)}
			return draw(A, &m)
		}
	}
	A.generic()
	A.maxSteps *= 20
	return A
}

// logList reads a slice of group elements.
func (A *Analysis) logList(st *State, v Val, g GroupModel) ([]*Term, bool) {
	var out []*Term
	if _, isnil := v.(VNil); isnil {
		return nil, true
	}
	if _, ok := v.(VSlice); !ok {
		return nil, false
	}
	for _, e := range A.sliceElems(st, v) {
		l, ok := A.wrappedLog(st, e, g)
		if !ok {
			return nil, false
		}
		out = append(out, l)
	}
	return out, true
}

func groupOf(t types.Type) (GroupModel, bool) {
	switch {
	case isPtrTo(t, "G1"):
		return grpCurve, true
	case isPtrTo(t, "G2"):
		return grpTwist, true
	case isPtrTo(t, "GT"):
		return grpF12, true
	}
	return GroupModel{}, false
}

func (A *Analysis) pkLogs(k *zkKey, names ...string) []*Term {
	v, t := A.fieldAt(k.st, k.pk, types.NewPointer(k.pkT), names...)
	if g, ok := groupOf(t); ok {
		e, ok := A.wrappedLog(k.st, v, g)
		if !ok {
			A.fail(0, "%v of the key is not a group element", names)
		}
		return []*Term{e}
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		A.fail(0, "%v of the key has an unknown type", names)
	}
	g, ok := groupOf(sl.Elem())
	if !ok {
		A.fail(0, "%v of the key has an unknown type", names)
	}
	l, ok := A.logList(k.st, v, g)
	if !ok {
		A.fail(0, "%v of the key holds something else than group elements", names)
	}
	return l
}

// runSetup interprets the setup for the shape; the single successful outcome
// is the key.
func (R *Report) runSetup(A *Analysis, d *drawLog, sparse bool, s r1shape, mats wireMats, st *State) (keys []*zkKey, ok bool) {
	fn := A.P.zkFns(sparse).setup
	if fn == nil {
		A.fail(0, "the %s setup was not found", kindName(sparse))
	}
	sys, st := A.system(st, sparse, s, mats)
	n0 := len(d.atoms)
	outs := A.call(fn, []Val{VInt{c: int64(s.p)}, sys}, nil, st, fn.Pos())
	where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
	for _, o := range outs {
		if o.panicked {
			R.check(o.st.marks["rand failed"] != nil, R.prop+" "+funcKey(fn)+" succeeds", where, "panics for "+s.tag+": "+o.msg, o.st)
			continue
		}
		_, isnil := o.rets[0].(VNil)
		_, noerr := o.rets[1].(VNil)
		if isnil || !noerr {
			R.check(o.st.marks["rand failed"] != nil, R.prop+" "+funcKey(fn)+" succeeds", where, "returns an error for "+s.tag, o.st)
			continue
		}
		if o.st.marks["rand failed"] != nil {
			R.check(false, R.prop+" "+funcKey(fn)+" random failure", where, "a setup is returned although the random source failed", o.st)
			continue
		}
		k := &zkKey{st: o.st, setup: o.rets[0], s: s, mats: mats, draws: append([]*Term{}, d.atoms[n0:]...)}
		k.pkT = R.P.typ("zkSNARK", "Pk")
		sp := o.rets[0].(VPtr)
		i := fieldIndex(R.P.typ("zkSNARK", "Setup"), "Pk")
		if i < 0 || k.pkT == nil {
			A.fail(0, "the key was not found in the setup")
		}
		k.pk = VPtr{sp.obj, append(append([]int{}, sp.path...), i)}
		keys = append(keys, k)
	}
	R.check(len(keys) == 1, R.prop+" "+funcKey(fn)+" result", where, fmt.Sprintf("%d successful outcomes for %s", len(keys), s.tag), nil)
	return keys, len(keys) == 1
}

// secrets reads the secrets off the key: α, β, γ, δ are published as single
// group elements, x is the first power.
func (R *Report) secrets(A *Analysis, k *zkKey, key, where string) bool {
	one := func(names ...string) *Term {
		l := A.pkLogs(k, names...)
		if len(l) != 1 {
			A.fail(0, "%v is not a single element", names)
		}
		return l[0]
	}
	k.alpha, k.beta, k.gamma, k.delta = one("G1", "Alpha"), one("G2", "Beta"), one("G2", "Gamma"), one("G2", "Delta")
	used := map[*Term]bool{}
	find := func(t *Term) *Term {
		for _, a := range k.draws {
			if A.zeroIn(k.st, A.T.sub(a, t)) {
				return a
			}
		}
		return nil
	}
	okAll := true
	for _, x := range []struct {
		n string
		t **Term
	}{{"alpha", &k.alpha}, {"beta", &k.beta}, {"gamma", &k.gamma}, {"delta", &k.delta}} {
		a := find(*x.t)
		good := a != nil && !used[a]
		R.check(good, key+" "+x.n, where, x.n+" of the key is not the group element of a fresh random secret of its own", k.st)
		if !good {
			okAll = false
			continue
		}
		used[a] = true
		*x.t = a
	}
	var rest []*Term
	for _, a := range k.draws {
		if !used[a] {
			rest = append(rest, a)
		}
	}
	if k.s.n >= 2 {
		if p := A.pkLogs(k, "G1", "PowersX"); len(p) > 1 {
			k.x = find(p[1])
		}
	} else if len(rest) > 0 {
		k.x = rest[0]
	}
	good := k.x != nil && !used[k.x]
	R.check(good, key+" x", where, "the evaluation point is not a fresh random secret of its own", k.st)
	return okAll && good
}

func zkShapes(thorough bool) (out []r1shape) {
	add := func(m, n, p int, tag string, z func(mat, wire, gate int) bool) {
		if tag != "" {
			tag = ", " + tag
		}
		out = append(out, r1shape{m: m, n: n, p: p, zero: z, tag: fmt.Sprintf("%d wires, %d gates, %d public%s", m, n, p, tag)})
	}
	cols := func(k, i, j int) bool { return (i+k)%2 == 1 }
	diag := func(k, i, j int) bool { return (i+j+k)%3 != 0 }
	add(2, 1, 1, "", nil)
	add(2, 2, 1, "", nil)
	add(3, 2, 2, "", nil)
	add(3, 3, 1, "", nil)
	add(4, 3, 2, "empty columns", cols)
	add(4, 2, 3, "sparse", diag)
	add(5, 4, 2, "sparse", diag)
	add(4, 3, 2, "entries 1 and -1", diag)
	out[len(out)-1].k = func(k, i, j int) int64 { return []int64{1, -1}[(k+i+2*j)%2] }
	// many more gates than wires
	corner := func(k, i, j int) bool { return (2*i+j+3*k)%7 != 0 }
	add(2, 6, 1, "sparse", corner)
	add(2, 9, 1, "sparse", corner)
	if thorough {
		for m := 2; m <= 6; m++ {
			for n := 1; n <= 5; n++ {
				for p := 1; p < m; p++ {
					add(m, n, p, "sparse", diag)
					if m*n <= 12 {
						add(m, n, p, "", nil)
					}
				}
			}
		}
	}
	return
}

func checkSetup(R *Report) {
	R.rule = "Abstract interpretation of both setups with symbolic constraint systems and symbolic secrets; group elements are abstracted to their discrete logarithm. Every element of the key must have exactly the defined logarithm, as an identity of rational functions in the secrets and the matrix entries; the constraint system is immutable; requests the system cannot satisfy never yield a key."
	R.bounds = "systems of up to 5 wires and 4 gates (thorough: 6 and 5) with arbitrary non-zero entries at enumerated positions, every count of public inputs covered in the thorough tier; secrets in general position (no vanishing sum)."
	for _, sparse := range []bool{false, true} {
		d := &drawLog{}
		A := zkAnalysis(R, d, false)
		fn := R.P.zkFns(sparse).setup
		if fn == nil {
			R.bad("Z01/anchor "+kindName(sparse), "zkSNARK", "the setup was not found", nil)
			continue
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		for _, s := range zkShapes(R.thorough()) {
			key := "Z01 " + funcKey(fn)
			R.guard(A, key+" "+s.tag, func() {
				mats := A.symMats(s)
				ks, ok := R.runSetup(A, d, sparse, s, mats, A.newState())
				if !ok {
					return
				}
				k := ks[0]
				if !R.secrets(A, k, key, where) {
					return
				}
				R.keyContents(A, k, key, where)
			})
			for _, p := range []int{s.m, s.m + 1} {
				R.guard(A, key+" count", func() {
					st := A.newState()
					sys, st := A.system(st, sparse, s, A.symMats(s))
					for _, o := range A.call(fn, []Val{VInt{c: int64(p)}, sys}, nil, st, fn.Pos()) {
						good := o.panicked
						if !good {
							_, noerr := o.rets[1].(VNil)
							good = !noerr
						}
						R.check(good, key+" count", where, fmt.Sprintf("%d public inputs are accepted for a system of %d wires", p, s.m), o.st)
					}
				})
			}
		}
		R.eventsAs(A, "Z01", "unknown-operand", "negative-scalar")
		R.operandEvents(A, "Z01")
		R.absorb(A)
	}
}

// operandEvents reports stores into operands.
func (R *Report) operandEvents(A *Analysis, key string) {
	for _, k := range A.evOrder {
		e := A.events[k]
		if e.kind == "mutates" && strings.Contains(e.msg, "operand ") {
			R.bad(key+"/mutates", R.P.pos(e.pos)+" in "+e.fn, e.msg, nil)
		}
	}
}

func (R *Report) keyContents(A *Analysis, k *zkKey, key, where string) {
	T := A.T
	s := k.s
	eq := func(got *Term, want *Term, what string) {
		R.check(A.zeroIn(k.st, T.sub(got, want)), key+" "+what, where, what+" of the key is wrong for "+s.tag, k.st)
	}
	list := func(want []*Term, min int, names ...string) {
		got := A.pkLogs(k, names...)
		what := strings.Join(names, ".")
		if len(got) < min || len(got) > len(want) {
			R.check(false, key+" "+what, where, fmt.Sprintf("%s of the key has %d elements instead of %d for %s", what, len(got), len(want), s.tag), k.st)
			return
		}
		for i, g := range got {
			eq(g, want[i], what)
		}
	}
	c := A.columnsAt(s, k.mats, k.x)
	D := A.vanishing(s.n, k.x)
	dv, _ := A.fieldAt(k.st, k.pk, types.NewPointer(k.pkT), "Domain")
	dom, ok := A.bigList(k.st, dv)
	if !ok {
		A.fail(0, "Domain of the key is not a polynomial")
	}
	y := T.atom("y")
	eq(A.polyEval(terms(dom), y), A.vanishing(s.n, y), "Domain")
	eq(A.pkLogs(k, "G1", "Alpha")[0], k.alpha, "G1.Alpha")
	eq(A.pkLogs(k, "G1", "Beta")[0], k.beta, "G1.Beta")
	eq(A.pkLogs(k, "G1", "Delta")[0], k.delta, "G1.Delta")
	eq(A.pkLogs(k, "G2", "Beta")[0], k.beta, "G2.Beta")
	eq(A.pkLogs(k, "G2", "Gamma")[0], k.gamma, "G2.Gamma")
	eq(A.pkLogs(k, "G2", "Delta")[0], k.delta, "G2.Delta")
	id, ig := T.inv(k.delta), T.inv(k.gamma)
	var px, pd, le, ex, rx, rg, rd []*Term
	for i := 0; i < s.n; i++ {
		px = append(px, T.pow(k.x, i))
		pd = append(pd, T.mul(T.mul(T.pow(k.x, i), D), id))
	}
	for i := 0; i < s.m; i++ {
		le = append(le, T.add(c[0][i], c[2][i]))
		ex = append(ex, c[2][i])
		rx = append(rx, c[1][i])
		t := T.sum(T.mul(k.alpha, c[1][i]), T.mul(k.beta, T.add(c[0][i], c[2][i])), c[3][i])
		if i < s.p {
			rg = append(rg, T.mul(t, ig))
		} else {
			rd = append(rd, T.mul(t, id))
		}
	}
	list(px, 1, "G1", "PowersX")
	list(px, 1, "G2", "PowersX")
	list(pd, s.n-1, "G1", "PowersX_Domain_Delta")
	list(le, s.m, "G1", "Lx_plus_Ex")
	list(ex, s.m, "G1", "Ex")
	list(rx, s.m, "G2", "Rx")
	list(rg, s.p, "G1", "RLEO_Gamma")
	list(rd, s.m-s.p, "G1", "RLEO_Delta")
	for n, want := range map[string]*Term{"eGH": T.one, "eGHalphaBeta": T.mul(k.alpha, k.beta)} {
		if fieldIndex(k.pkT, n) >= 0 {
			eq(A.pkLogs(k, n)[0], want, n)
		}
	}
}

// ------------------------------------------------------------------ the proof

// polyArg builds the combined polynomial argument.
func (A *Analysis) polyArg(st *State, sparse bool, coef []*Term) (Val, *State) {
	if !sparse {
		var bs []*BigVal
		for _, t := range coef {
			bs = append(bs, A.bigCanon(t))
		}
		return A.frozenBigs(st, "polynomial", bs), st
	}
	var ps []pair
	for i, t := range coef {
		if A.zeroIn(st, t) {
			continue
		}
		ps = append(ps, pair{uint64(i), A.bigCanon(t)})
	}
	return A.mkTree(st, ps, "operand polynomial")
}

func (A *Analysis) domainCoefs(n int) []*Term {
	r := []*Term{A.T.one}
	for k := 0; k < n; k++ {
		r = A.polyMul(r, []*Term{A.T.constI(int64(-k)), A.T.one})
	}
	return r
}

// freezeAll makes everything reachable immutable.
func (A *Analysis) freezeAll(st *State, v Val, what string, seen map[int]bool) {
	var walk func(v Val)
	visit := func(id int) {
		if seen[id] {
			return
		}
		seen[id] = true
		o := st.get(id)
		if o == nil {
			return
		}
		n := *o
		if n.frozen == "" {
			n.frozen = what
			st.set(id, &n)
		}
		walk(o.val)
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case VPtr:
			visit(x.obj)
		case VSlice:
			visit(x.obj)
		case VMap:
			visit(x.obj)
		case VStruct:
			for _, f := range x.f {
				walk(f)
			}
		case VArr:
			for _, f := range x.e {
				walk(f)
			}
		case VIface:
			walk(x.v)
		case VMapV:
			for _, f := range x.vals {
				walk(f)
			}
		}
	}
	walk(v)
}

// witnessArg is a symbolic witness; variant v > 0 fixes one entry to zero,
// one or minus one.
func (A *Analysis) witnessArg(st *State, m, v int) (Val, []*Term) {
	var bs []*BigVal
	var ts []*Term
	for i := 0; i < m; i++ {
		t := A.T.atom(fmt.Sprintf("w%d", i))
		if v > 0 && (v-1)%m == i {
			t = A.T.constI([]int64{0, 1, -1}[(v-1)/m%3])
		}
		ts = append(ts, t)
		bs = append(bs, A.bigCanon(t))
	}
	return A.frozenBigs(st, "witness", bs), ts
}

// proofLogs reads the four elements of a proof.
func (A *Analysis) proofLogs(st *State, v Val) (a, b, c, f *Term, ok bool) {
	t := A.P.typ("zkSNARK", "Proof")
	if t == nil {
		A.fail(0, "the proof type was not found")
	}
	rd := func(n string) *Term {
		x, ft := A.fieldAt(st, v, types.NewPointer(t), n)
		g, isg := groupOf(ft)
		if !isg {
			A.fail(0, "field %s of the proof is not a group element", n)
		}
		e, k := A.wrappedLog(st, x, g)
		if !k {
			ok = false
			return A.T.zero
		}
		return e
	}
	ok = true
	a, b, c, f = rd("PiA"), rd("PiB"), rd("PiC"), rd("PiF")
	return
}

func checkProver(R *Report) {
	R.rule = "Abstract interpretation of both provers on the keys the setups produce, with a symbolic witness and a combined polynomial H*D (+ remainder): the four proof elements must have the defined logarithms for every witness, key, witness and polynomial stay unmodified, and no proof is returned when the polynomial is not a multiple of the domain polynomial."
	R.bounds = "the systems of Z01; quotients of every degree the system allows and the zero polynomial; remainders at every position; values in general position."
	for _, sparse := range []bool{false, true} {
		d := &drawLog{}
		A := zkAnalysis(R, d, false)
		T := A.T
		fns := R.P.zkFns(sparse)
		fn := fns.prove
		if fn == nil {
			R.bad("Z02/anchor "+kindName(sparse), "zkSNARK", "the prover was not found", nil)
			continue
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := "Z02 " + funcKey(fn)
		for _, s := range zkShapes(R.thorough()) {
			R.guard(A, key+" "+s.tag, func() {
				ks, ok := R.runSetup(A, d, sparse, s, A.symMats(s), A.newState())
				if !ok {
					return
				}
				k := ks[0]
				alpha, pd := A.pkLogs(k, "G1", "Alpha")[0], A.pkLogs(k, "G1", "PowersX_Domain_Delta")
				A.freezeAll(k.st, k.pk, "operand key", map[int]bool{})
				le, rx, ex := A.pkLogs(k, "G1", "Lx_plus_Ex"), A.pkLogs(k, "G2", "Rx"), A.pkLogs(k, "G1", "Ex")
				rd := A.pkLogs(k, "G1", "RLEO_Delta")
				if len(le) < s.m || len(rx) < s.m || len(ex) < s.m || len(rd) < s.m-s.p || len(pd) < s.n-1 {
					R.check(false, key, where, "the key is incomplete for "+s.tag, k.st)
					return
				}
				for deg := -1; deg <= s.n-2; deg++ {
					for rem := -1; rem < s.n+3*s.m; rem++ {
						if rem >= 0 && deg >= 0 && deg != s.n-2 {
							continue
						}
						// past the remainders: witnesses with a fixed entry
						rem, wv := rem, 0
						if rem >= s.n {
							rem, wv = -1, rem-s.n+1
						}
						st := k.st.fork()
						w, wt := A.witnessArg(st, s.m, wv)
						var h []*Term
						for i := 0; i <= deg; i++ {
							h = append(h, T.atomNZ(fmt.Sprintf("h%d", i)))
						}
						px := A.polyMul(h, A.domainCoefs(s.n))
						if len(px) == 0 {
							px = []*Term{T.zero}
						}
						if rem >= 0 {
							r := make([]*Term, rem+1)
							for i := range r {
								r[i] = T.zero
							}
							r[rem] = T.atomNZ("r")
							px = A.polyAdd(px, r, 1)
						}
						pv, st := A.polyArg(st, sparse, px)
						what := fmt.Sprintf(" (%s, quotient of degree %d, remainder at %d)", s.tag, deg, rem)
						for _, o := range A.call(fn, []Val{VInt{c: int64(s.p)}, k.pk, w, pv}, nil, st, fn.Pos()) {
							failed := o.panicked
							if !failed {
								_, noerr := o.rets[1].(VNil)
								failed = !noerr
							}
							if rem >= 0 {
								R.check(failed, key+" refuses", where, "a proof is returned although the polynomial is not divisible"+what, o.st)
								continue
							}
							R.check(!failed, key+" succeeds", where, "no proof is returned for a divisible polynomial"+what+": "+o.msg, o.st)
							if failed {
								continue
							}
							a, b, c, f, ok := A.proofLogs(o.st, o.rets[0])
							R.check(ok, key+" result", where, "an element of the proof is not computed from the key"+what, o.st)
							if !ok {
								continue
							}
							wa, wb, wc, wf := alpha, T.zero, T.zero, T.zero
							for i := 0; i < s.m; i++ {
								wa = T.add(wa, T.mul(le[i], wt[i]))
								wb = T.add(wb, T.mul(rx[i], wt[i]))
								wf = T.add(wf, T.mul(ex[i], wt[i]))
								if i >= s.p {
									wc = T.add(wc, T.mul(rd[i-s.p], wt[i]))
								}
							}
							for i, c := range h {
								wc = T.add(wc, T.mul(c, pd[i]))
							}
							for _, x := range []struct {
								n        string
								got, exp *Term
							}{{"PiA", a, wa}, {"PiB", b, wb}, {"PiC", c, wc}, {"PiF", f, wf}} {
								R.check(A.zeroIn(o.st, T.sub(x.got, x.exp)), key+" "+x.n, where, x.n+" is not the defined combination of the key"+what, o.st)
							}
						}
					}
				}
			})
		}
		R.eventsAs(A, "Z02", "unknown-operand", "negative-scalar")
		R.operandEvents(A, "Z02")
		R.absorb(A)
	}
}

// --------------------------------------------------------------- verification

func (A *Analysis) proofArg(st *State) (Val, [4]*Term) {
	t := A.P.typ("zkSNARK", "Proof")
	if t == nil {
		A.fail(0, "the proof type was not found")
	}
	var l [4]*Term
	f := map[string]Val{}
	for i, n := range []string{"PiA", "PiB", "PiC", "PiF"} {
		l[i] = A.T.atom("proof." + n)
		fi := fieldIndex(t, n)
		if fi < 0 {
			A.fail(0, "field %s of the proof was not found", n)
		}
		g, ok := groupOf(t.Underlying().(*types.Struct).Field(fi).Type())
		if !ok {
			A.fail(0, "field %s of the proof is not a group element", n)
		}
		wrap := "G1"
		if g.tag == "g2" {
			wrap = "G2"
		}
		f[n] = A.wrapGroup(st, wrap, A.newLog(st, g, n, l[i]))
	}
	p := A.buildStruct(st, t, "proof", f)
	A.freezeAll(st, p, "operand proof", map[int]bool{})
	return p, l
}

func checkVerifier(R *Report) {
	R.rule = "Abstract interpretation of the verifier on the keys both setups produce, with four unrelated symbolic proof elements and symbolic public values: it answers true exactly under the condition e(A, B·Bβ)·e(g,h)^X(F) = e(α,β)·e(IC,γ)·e(C,δ)·e(F,B) and false otherwise, answers false for every other number of public values, and modifies neither key, proof nor values."
	R.bounds = "keys of the systems of Z01 (1 to 5 public values); counts from zero to two above the expected one; no assumption on the proof."
	for _, sparse := range []bool{false, true} {
		d := &drawLog{}
		A := zkAnalysis(R, d, false)
		gen := A.forkDecide
		T := A.T
		fn := R.P.zkFns(sparse).verify
		if fn == nil {
			R.bad("Z03/anchor", "zkSNARK", "the verifier was not found", nil)
			return
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := "Z03 " + funcKey(fn)
		seen := map[int]bool{}
		for _, s := range zkShapes(R.thorough()) {
			if seen[s.p] && !R.thorough() {
				continue
			}
			seen[s.p] = true
			R.guard(A, key+" "+s.tag, func() {
				A.forkDecide = gen
				ks, ok := R.runSetup(A, d, sparse, s, A.symMats(s), A.newState())
				if !ok {
					return
				}
				A.forkDecide = nil
				k := ks[0]
				beta, gamma, delta := A.pkLogs(k, "G2", "Beta")[0], A.pkLogs(k, "G2", "Gamma")[0], A.pkLogs(k, "G2", "Delta")[0]
				gh, ab, rg := T.one, T.mul(A.pkLogs(k, "G1", "Alpha")[0], beta), A.pkLogs(k, "G1", "RLEO_Gamma")
				if len(rg) != s.p {
					R.check(false, key, where, "the key is incomplete for "+s.tag, k.st)
					return
				}
				if fieldIndex(k.pkT, "eGH") >= 0 && fieldIndex(k.pkT, "eGHalphaBeta") >= 0 {
					gh, ab = A.pkLogs(k, "eGH")[0], A.pkLogs(k, "eGHalphaBeta")[0]
				}
				A.freezeAll(k.st, k.pk, "operand key", map[int]bool{})
				for n := 0; n <= s.p+2; n++ {
					for dbg := 0; dbg < 2; dbg++ {
						st := k.st.fork()
						pr, l := A.proofArg(st)
						var bs []*BigVal
						ic := T.zero
						for i := 0; i < n; i++ {
							t := T.atom(fmt.Sprintf("public%d", i))
							bs = append(bs, &BigVal{t: t, lo: new(big.Int)})
							if i < s.p {
								ic = T.add(ic, T.mul(t, rg[i]))
							}
						}
						pv := A.frozenBigs(st, "public values", bs)
						outs := A.call(fn, []Val{k.pk, pr, pv, VBool{known: true, b: dbg == 1}}, nil, st, fn.Pos())
						R.check(len(outs) > 0, key, where, "never returns", nil)
						for _, o := range outs {
							if o.panicked {
								R.check(false, key+" panic", where, fmt.Sprintf("panics for %d public values where %d are expected: %s", n, s.p, o.msg), o.st)
								continue
							}
							if n != s.p {
								tr, _ := A.boolOf(o.st.fork(), o.rets[0])
								R.check(tr == nil, key+" count", where, fmt.Sprintf("may accept %d public values where %d are expected", n, s.p), o.st)
								continue
							}
							xf := A.xcoord(o.st, l[3])
							lhs := T.add(T.mul(l[0], T.add(l[1], beta)), T.mul(gh, xf.t))
							rhs := T.sum(ab, T.mul(ic, gamma), T.mul(l[2], delta), T.mul(l[3], l[1]))
							R.equalityTest(A, o.st, o.rets[0], T.sub(lhs, rhs), key+" equation", where, "the verification equation for "+s.tag)
						}
					}
				}
			})
			A.forkDecide = gen
		}
		R.eventsAs(A, "Z03", "unknown-operand", "negative-scalar")
		R.operandEvents(A, "Z03")
		R.absorb(A)
	}
}

// ------------------------------------------------------------- whole protocol

type circ struct {
	name string
	n, m int
	p    int
	// rows[gate] = L, R, E, O as wire -> coefficient
	rows []([4]map[int]int64)
	// wit computes the witness from its free values
	wit func(A *Analysis, st *State, f func(int) *Term) []*Term
	// broken: wires that are made unrelated, one at a time
	breakable []int
}

func zkCircuits(thorough bool) []circ {
	type r = [4]map[int]int64
	type c = map[int]int64
	x := func(A *Analysis, st *State, e *Term) *Term { return A.xcoord(st, e).t }
	out := []circ{
		{"w1*w2=w3", 1, 4, 2, []r{{c{1: 1}, c{2: 1}, nil, c{3: 1}}}, func(A *Analysis, st *State, f func(int) *Term) []*Term {
			return []*Term{A.T.one, f(1), f(2), A.T.mul(f(1), f(2))}
		}, []int{3}},
		{"w1*w2=w3; (w3+2)*w1=w4", 2, 5, 2, []r{{c{1: 1}, c{2: 1}, nil, c{3: 1}}, {c{3: 1, 0: 2}, c{1: 1}, nil, c{4: 1}}}, func(A *Analysis, st *State, f func(int) *Term) []*Term {
			p := A.T.mul(f(1), f(2))
			return []*Term{A.T.one, f(1), f(2), p, A.T.mul(A.T.add(p, A.T.constI(2)), f(1))}
		}, []int{3, 4}},
		{"X(g^w1)=w2; w2*w1=w3", 2, 4, 2, []r{{nil, nil, c{1: 1}, c{2: 1}}, {c{2: 1}, c{1: 1}, nil, c{3: 1}}}, func(A *Analysis, st *State, f func(int) *Term) []*Term {
			w2 := x(A, st, f(1))
			return []*Term{A.T.one, f(1), w2, A.T.mul(w2, f(1))}
		}, []int{3, 2}},
		{"w1*w1+X(g^w1)=w2; 3w2*(w1-1)=5w3; X(g^(w3+1))=w4", 3, 5, 3, []r{{c{1: 1}, c{1: 1}, c{1: 1}, c{2: 1}}, {c{2: 3}, c{1: 1, 0: -1}, nil, c{3: 5}}, {nil, nil, c{3: 1, 0: 1}, c{4: 1}}}, func(A *Analysis, st *State, f func(int) *Term) []*Term {
			T := A.T
			w2 := T.add(T.mul(f(1), f(1)), x(A, st, f(1)))
			w3 := T.mul(T.mul(T.scale(w2, 3), T.sub(f(1), T.one)), T.inv(T.constI(5)))
			return []*Term{T.one, f(1), w2, w3, x(A, st, T.add(w3, T.one))}
		}, []int{2, 3, 4}},
	}
	out = append(out, circ{"inverse and linear gates", 4, 7, 3, []r{
		{c{3: 1}, c{1: 1}, nil, c{0: 1}}, {c{3: 2, 1: -1, 0: 9}, c{0: 1}, nil, c{4: 1}}, {c{4: 1}, c{4: 1, 2: 6}, nil, c{5: 3}}, {c{5: 1, 4: 1}, c{3: 1}, nil, c{6: 1}}}, func(A *Analysis, st *State, f func(int) *Term) []*Term {
		T := A.T
		w3 := T.inv(f(1))
		w4 := T.add(T.sub(T.scale(w3, 2), f(1)), T.constI(9))
		w5 := T.mul(T.mul(w4, T.add(w4, T.scale(f(2), 6))), T.inv(T.constI(3)))
		return []*Term{T.one, f(1), f(2), w3, w4, w5, T.mul(T.add(w5, w4), w3)}
	}, []int{3, 5, 6}})
	if thorough {
		out = append(out, circ{"chain of products and exponentiations", 5, 8, 3, []r{
			{c{1: 1}, c{2: 1}, nil, c{3: 1}}, {c{3: 1}, c{3: 1}, c{2: 1}, c{4: 1}}, {c{4: 2, 0: 7}, c{0: 1}, nil, c{5: 1}},
			{nil, nil, c{5: 1, 1: 3}, c{6: 1}}, {c{6: 1}, c{5: 1, 2: -4}, c{6: 1}, c{7: 1}}}, func(A *Analysis, st *State, f func(int) *Term) []*Term {
			T := A.T
			w3 := T.mul(f(1), f(2))
			w4 := T.add(T.mul(w3, w3), x(A, st, f(2)))
			w5 := T.add(T.scale(w4, 2), T.constI(7))
			w6 := x(A, st, T.add(w5, T.scale(f(1), 3)))
			w7 := T.add(T.mul(w6, T.sub(w5, T.scale(f(2), 4))), x(A, st, w6))
			return []*Term{T.one, f(1), f(2), w3, w4, w5, w6, w7}
		}, []int{3, 5, 7}})
	}
	return out
}

func (c circ) expo() bool {
	for _, r := range c.rows {
		if len(r[2]) > 0 {
			return true
		}
	}
	return false
}

func checkProtocol(R *Report) {
	R.rule = "The whole protocol is interpreted abstractly: combined polynomial, setup, prover and verifier on circuits with a symbolic witness. The combined polynomial must be L*R + X(g^E) - O of the interpolated matrices for arbitrary witnesses; a witness that satisfies all gates must be accepted for all secrets; a witness with one unrelated wire must not yield a proof."
	R.bounds = "the systems of Z01 for the polynomial; four circuits (thorough: five) of up to 3 gates (5) for the composition, in the dense and the sparse representation; values in general position."
	for _, sparse := range []bool{false, true} {
		d := &drawLog{}
		A := zkAnalysis(R, d, false)
		T := A.T
		fns := R.P.zkFns(sparse)
		if fns.combine == nil || fns.prove == nil || fns.verify == nil || fns.setup == nil {
			R.bad("Z05/anchor "+kindName(sparse), "zkSNARK", "a protocol function was not found", nil)
			continue
		}
		where := R.P.pos(fns.combine.Pos()) + " " + funcKey(fns.combine)
		key := "Z05 " + funcKey(fns.combine)
		coefs := func(st *State, v Val) ([]*Term, []uint64, string) {
			if !sparse {
				bs, ok := A.bigList(st, v)
				if !ok {
					return nil, nil, "the result is not a polynomial"
				}
				return terms(bs), nil, ""
			}
			es, bad := A.treeEntries(st, v)
			var ts []*Term
			var ks []uint64
			for _, e := range es {
				ts, ks = append(ts, e.val.t), append(ks, e.key)
			}
			return ts, ks, bad
		}
		evalAt := func(ts []*Term, ks []uint64, y *Term) *Term {
			if !sparse {
				return A.polyEval(ts, y)
			}
			r := T.zero
			for i, t := range ts {
				r = T.add(r, T.mul(t, T.pow(y, int(ks[i]))))
			}
			return r
		}
		for _, s := range zkShapes(R.thorough()) {
			R.guard(A, key+" "+s.tag, func() {
				mats := A.symMats(s)
				for wv := 0; wv <= 3*s.m; wv++ {
					st := A.newState()
					sys, st := A.system(st, sparse, s, mats)
					w, wt := A.witnessArg(st, s.m, wv)
					o := A.single(A.call(fns.combine, []Val{w, sys}, nil, st, fns.combine.Pos()), fns.combine)
					ts, kk, bad := coefs(o.st, o.rets[0])
					if bad != "" {
						R.check(false, key, where, bad, o.st)
						return
					}
					y := T.atom("y")
					var v [4][]*Term
					for k := range v {
						for j := 0; j < s.n; j++ {
							e := T.zero
							for i := 0; i < s.m; i++ {
								e = T.add(e, T.mul(A.entry(mats[k][i][j]), wt[i]))
							}
							if k == 2 {
								e = A.xcoord(o.st, e).t
							}
							v[k] = append(v[k], e)
						}
					}
					want := T.sub(T.add(T.mul(A.lagrange(v[0], y), A.lagrange(v[1], y)), A.lagrange(v[2], y)), A.lagrange(v[3], y))
					R.check(A.zeroIn(o.st, T.sub(evalAt(ts, kk, y), want)), key, where, "the combined polynomial is not L*R+X(g^E)-O for "+s.tag, o.st)
				}
			})
		}
		for _, c := range zkCircuits(R.thorough()) {
			s := r1shape{m: c.m, n: c.n, p: c.p, tag: "the circuit " + c.name}
			mats := A.constMats(c)
			for _, brk := range append([]int{-1}, c.breakable...) {
				k2 := fmt.Sprintf("Z05 %s %s", kindName(sparse), c.name)
				R.guard(A, k2, func() {
					st := A.newState()
					free := func(i int) *Term { return T.atomNZ(fmt.Sprintf("w%d", i)) }
					wt := c.wit(A, st, free)
					if brk >= 0 {
						wt[brk] = T.add(wt[brk], T.atomNZ("deviation"))
					}
					var bs []*BigVal
					for _, t := range wt {
						bs = append(bs, A.bigCanon(t))
					}
					w := A.frozenBigs(st, "witness", bs)
					sys, st := A.system(st, sparse, s, mats)
					o := A.single(A.call(fns.combine, []Val{w, sys}, nil, st, fns.combine.Pos()), fns.combine)
					px := o.rets[0]
					ks, ok := R.runSetup(A, d, sparse, s, mats, o.st)
					if !ok {
						return
					}
					wp := R.P.pos(fns.prove.Pos()) + " " + funcKey(fns.prove)
					for _, o := range A.call(fns.prove, []Val{VInt{c: int64(s.p)}, ks[0].pk, w, px}, nil, ks[0].st, fns.prove.Pos()) {
						failed := o.panicked
						if !failed {
							_, noerr := o.rets[1].(VNil)
							failed = !noerr
						}
						if brk >= 0 {
							R.check(failed, k2+" refuses", wp, fmt.Sprintf("a proof is returned for %s although wire %d is wrong", c.name, brk), o.st)
							continue
						}
						R.check(!failed, k2+" proves", wp, "no proof is returned for a satisfying witness: "+o.msg, o.st)
						if failed {
							continue
						}
						wv := R.P.pos(fns.verify.Pos()) + " " + funcKey(fns.verify)
						for _, n := range []int{c.p} {
							pub := A.frozenBigs(o.st, "public values", bs[:n])
							for _, v := range A.call(fns.verify, []Val{ks[0].pk, o.rets[0], pub, VBool{known: true}}, nil, o.st.fork(), fns.verify.Pos()) {
								if v.panicked {
									R.check(false, k2+" verifies", wv, "the verifier panics for an honest proof", v.st)
									continue
								}
								tr, fa := A.boolOf(v.st, v.rets[0])
								vk := k2 + " verifies"
								if c.expo() {
									vk = "Z05/exponentiation-gates/" + kindName(sparse) + "/" + strings.ReplaceAll(c.name, " ", "")
								}
								R.check(tr != nil && fa == nil, vk, wv, "an honest proof is not accepted for "+c.name, v.st)
							}
						}
						// other public values
						for i := 1; i < c.p; i++ {
							pb := append([]*BigVal{}, bs[:c.p]...)
							st := o.st.fork()
							pb[i] = A.bigCanon(T.atom("other"))
							pub := A.frozenBigs(st, "public values", pb)
							for _, v := range A.call(fns.verify, []Val{ks[0].pk, o.rets[0], pub, VBool{known: true}}, nil, st, fns.verify.Pos()) {
								tr, fa := A.boolOf(v.st, v.rets[0])
								R.check(fa != nil && tr == nil, k2+" public value", wv, fmt.Sprintf("the answer does not depend on public value %d", i), v.st)
							}
						}
					}
				})
			}
		}
		R.eventsAs(A, "Z05", "unknown-operand", "negative-scalar")
		R.operandEvents(A, "Z05")
		R.absorb(A)
	}
}

func (A *Analysis) constMats(c circ) (out wireMats) {
	for k := range out {
		out[k] = make([][]*BigVal, c.m)
		for i := range out[k] {
			out[k][i] = make([]*BigVal, c.n)
		}
		for j, r := range c.rows {
			for i, v := range r[k] {
				x := big.NewInt(v)
				out[k][i][j] = A.bigConst(x.Mod(x, bnOrder))
			}
		}
	}
	return
}

var _ = sort.Ints

// ------------------------------------------------------------------- secrets

// exposes lists the given unknowns a term depends on other than through a
// group element.
func exposes(t *Term, secret map[*Term]bool, seen map[*Term]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if secret[t] {
		return true
	}
	if t.op == OpUF && (strings.Contains(t.name, "#") || t.name == "abscissa" || strings.HasPrefix(t.name, "text ")) {
		return false
	}
	for _, a := range t.args {
		if exposes(a, secret, seen) {
			return true
		}
	}
	return false
}

// termsIn visits every residue reachable from v.
func (A *Analysis) termsIn(st *State, v Val, path string, seen map[int]bool, f func(path string, t *Term)) {
	visit := func(id int, p string) {
		if seen[id] {
			return
		}
		seen[id] = true
		if o := st.get(id); o != nil {
			A.termsIn(st, o.val, p, seen, f)
		}
	}
	switch x := v.(type) {
	case VPtr:
		visit(x.obj, path)
	case VSlice:
		visit(x.obj, path+"[]")
	case VMap:
		visit(x.obj, path+"[]")
	case VStruct:
		for i, e := range x.f {
			A.termsIn(st, e, fmt.Sprintf("%s.%d", path, i), seen, f)
		}
	case VArr:
		for _, e := range x.e {
			A.termsIn(st, e, path, seen, f)
		}
	case VMapV:
		for _, e := range append(append([]Val{}, x.keys...), x.vals...) {
			A.termsIn(st, e, path, seen, f)
		}
	case VIface:
		A.termsIn(st, x.v, path, seen, f)
	case VBig:
		f(path, x.b.t)
	case VBytes:
		f(path, x.b.t)
	case VBits:
		f(path, x.b.t)
	case GTBytes:
		f(path, x.t)
	case VStr:
		if x.sym != nil {
			f(path, x.sym)
		}
	case VInt:
		if x.sym != nil {
			f(path, x.sym)
		}
		if x.cmp != nil && x.cmp.a != nil {
			f(path, x.cmp.a.t)
		}
	}
}

// structFields visits the fields of the struct at v with their names.
func (A *Analysis) structFields(st *State, v Val, t types.Type, f func(name string, x Val, xt types.Type)) {
	p, ok := v.(VPtr)
	if !ok {
		return
	}
	s, ok := loadPath(st.get(p.obj).val, p.path).(VStruct)
	u, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return
	}
	for i, x := range s.f {
		f(u.Field(i).Name(), x, u.Field(i).Type())
	}
}

func checkSecrets(R *Report) {
	R.rule = "Both setups and the public random generators are interpreted with every call of the random source made observable: five draws over the whole scalar field from crypto/rand, one per secret, none derived from another; when any draw fails no setup is returned; drawn values reach the published key, the proof and the standard output only as exponents of group elements."
	R.bounds = "systems of up to 4 wires and 3 gates; every prefix of draws failing."
	for _, sparse := range []bool{false, true} {
		d := &drawLog{}
		A := zkAnalysis(R, d, true)
		secret := map[*Term]bool{}
		printed := func(st *State, args []Val, where string) {
			for _, t := range d.atoms {
				secret[t] = true
			}
			for _, a := range args {
				A.termsIn(st, a, "argument", map[int]bool{}, func(p string, t *Term) {
					if exposes(t, secret, map[*Term]bool{}) {
						A.event(st, "leak", "a secret is printed", 0)
						R.bad("Z04 printed", where, "a value computed from a secret is printed", nil)
					}
				})
			}
		}
		A.onPrint = func(c *callCtx) { printed(c.st, c.args, R.P.pos(c.pos)) }
		fn := R.P.zkFns(sparse).setup
		if fn == nil {
			R.bad("Z04/anchor "+kindName(sparse), "zkSNARK", "the setup was not found", nil)
			continue
		}
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := "Z04 " + funcKey(fn)
		for _, s := range zkShapes(false) {
			if s.m > 4 {
				continue
			}
			R.guard(A, key+" "+s.tag, func() {
				n0 := len(d.atoms)
				ks, ok := R.runSetup(A, d, sparse, s, A.symMats(s), A.newState())
				if !ok || !R.secrets(A, ks[0], key+" secret", where) {
					return
				}
				k := ks[0]
				R.check(len(k.draws) == len(d.atoms)-n0, key+" draws", where, "draws are lost", k.st)
				for _, t := range k.draws {
					secret[t] = true
				}
				// the key
				A.structFields(k.st, k.pk, k.pkT, func(name string, x Val, xt types.Type) {
					bad := ""
					A.termsIn(k.st, x, name, map[int]bool{}, func(p string, t *Term) {
						if exposes(t, secret, map[*Term]bool{}) {
							bad = p
						}
					})
					R.check(bad == "", key+" key "+name, where, "field "+name+" of the key holds a secret in the clear", k.st)
				})
				// package-level storage
				var gs []*ssa.Global
				for g := range A.globals {
					gs = append(gs, g)
				}
				sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
				for _, g := range gs {
					bad := false
					A.termsIn(k.st, VPtr{obj: A.globals[g]}, g.Name(), map[int]bool{}, func(p string, t *Term) {
						bad = bad || exposes(t, secret, map[*Term]bool{})
					})
					R.check(!bad, key+" global "+g.Name(), where, "package-level "+g.Name()+" holds a value computed from a secret", k.st)
				}
			})
		}
		R.eventsAs(A, "Z04", "randomness", "unknown-operand")
		R.absorb(A)
	}
	// the public generators
	for _, g := range []struct {
		name, typ string
		m         GroupModel
	}{{"RandomG1", "G1", grpCurve}, {"RandomG2", "G2", grpTwist}} {
		fn := R.anchor("pairing", "", g.name)
		if fn == nil {
			continue
		}
		A := scalarAnalysis(R)
		A.zkContracts()
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := "Z04 " + funcKey(fn)
		d := &drawLog{}
		A.installRand(d, true)
		A.capDraws(d, 3)
		R.guard(A, key, func() {
			st := A.newState()
			rd := VIface{types.Universe.Lookup("error").Type(), VOpaque{"caller's reader"}}
			outs := A.call(fn, []Val{rd}, nil, st, fn.Pos())
			good := 0
			for _, o := range outs {
				if o.panicked {
					R.check(false, key, where, "panics: "+o.msg, o.st)
					continue
				}
				if _, noerr := o.rets[2].(VNil); !noerr {
					R.check(o.st.marks["rand failed"] != nil, key+" error", where, "returns an error although the random source works", o.st)
					continue
				}
				R.check(o.st.marks["rand failed"] == nil, key+" failure", where, "returns an element although the random source failed", o.st)
				if o.st.marks["rand failed"] != nil {
					continue
				}
				good++
				if _, isp := o.rets[0].(VPtr); !isp {
					R.check(false, key, where, "no scalar is returned", o.st)
					continue
				}
				b := o.st.latest(A.bigAt(o.st, o.rets[0], 0))
				e, ok := A.wrappedLog(o.st, o.rets[1], g.m)
				R.check(ok && A.zeroIn(o.st, A.T.sub(e, b.t)), key+" relation", where, "the element is not the multiple of the generator by the returned scalar", o.st)
				R.check(contains2(d.atoms, b.t), key+" uniform", where, "the scalar is not a value drawn from the reader", o.st)
				R.check(b.lo != nil && b.lo.Sign() > 0 || A.knownNonzero(o.st, b.t), key+" nonzero", where, "the scalar may be zero", o.st)
			}
			R.check(good > 0, key, where, "never returns an element", nil)
		})
		R.eventsAs(A, "Z04", "randomness", "unknown-operand", "negative-scalar")
		R.absorb(A)
	}
	// the field
	if fn := R.anchor("utils", "Fq", "Rand"); fn != nil {
		A := scalarAnalysis(R)
		d := &drawLog{}
		A.installRand(d, true)
		A.capDraws(d, 3)
		where := R.P.pos(fn.Pos()) + " " + funcKey(fn)
		key := "Z04 " + funcKey(fn)
		R.guard(A, key, func() {
			st := A.newState()
			for _, o := range A.call(fn, []Val{A.fqVal(st)}, nil, st, fn.Pos()) {
				if o.panicked {
					R.check(false, key, where, "panics", o.st)
					continue
				}
				_, noerr := o.rets[1].(VNil)
				if o.st.marks["rand failed"] != nil {
					R.check(!noerr, key+" failure", where, "a failure of the random source is not reported", o.st)
					continue
				}
				R.check(noerr, key+" error", where, "an error is reported although the random source works", o.st)
				b := o.st.latest(A.bigAt(o.st, o.rets[0], 0))
				R.check(contains2(d.atoms, b.t) && A.isCanon(b), key+" uniform", where, "the value is not a draw over the whole field", o.st)
			}
		})
		R.eventsAs(A, "Z04", "randomness")
		R.absorb(A)
	}
}

func contains2(l []*Term, t *Term) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

// capDraws ends the paths on which unwanted values are drawn again and again.
func (A *Analysis) capDraws(d *drawLog, n int) {
	inner := A.contracts["crypto/rand.Int"]
	A.contracts["crypto/rand.Int"] = func(A *Analysis, c *callCtx) []Outcome {
		if len(d.atoms) >= n {
			return []Outcome{}
		}
		return inner(A, c)
	}
}
