package main

import (
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Builders for the data structures of package circuitcompiler.

const cc = "circuitcompiler"

// enum is the value of an integer constant of the package.
func (P *Program) enum(name string) (int64, bool) {
	sp := P.pkgs[cc]
	if sp == nil {
		return 0, false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return 0, false
	}
	return constant.Int64Val(constant.ToInt(c.Val()))
}

func (A *Analysis) enum(name string) Val {
	v, ok := A.P.enum(name)
	if !ok {
		A.fail(0, "constant %s was not found", name)
	}
	return VInt{c: v}
}

func (A *Analysis) typ(name string) types.Type {
	t := A.P.typ(cc, name)
	if t == nil {
		A.fail(0, "type %s was not found", name)
	}
	return t
}

// structOf is a struct value of the named type.
func (A *Analysis) structOf(name string, fields map[string]Val) Val {
	t := A.typ(name)
	v, ok := A.zeroVal(t).(VStruct)
	if !ok {
		A.fail(0, "%s is not a struct", name)
	}
	v = VStruct{append([]Val{}, v.f...)}
	for n, x := range fields {
		i := fieldIndex(t, n)
		if i < 0 {
			A.fail(0, "field %s of %s was not found", n, name)
		}
		v.f[i] = x
	}
	return v
}

func (A *Analysis) ptrTo(st *State, v Val, t types.Type, tag string) Val {
	return VPtr{obj: A.alloc(st, &Obj{val: v, typ: t, tag: tag})}
}

func str(s string) VStr { return VStr{known: true, s: s} }

func (A *Analysis) strSlice(st *State, l []string) Val {
	var e []Val
	for _, s := range l {
		e = append(e, str(s))
	}
	return A.sliceOf(st, types.Typ[types.String], e)
}

func (A *Analysis) mapOf(st *State, t types.Type, keys []string, vals []Val) Val {
	var m VMapV
	for i, k := range keys {
		m.keys = append(m.keys, str(k))
		kk, _ := valKey(str(k))
		m.ks = append(m.ks, kk)
		m.vals = append(m.vals, vals[i])
	}
	return VMap{A.alloc(st, &Obj{val: m, typ: t})}
}

// fac is one summand of a factor list: coefficient times wire, or a number.
type fac struct {
	wire string // "" for a number
	text string // digits of a number
	c    *BigVal
}

func (A *Analysis) token(kind, id string) Val {
	return A.structOf("Token", map[string]Val{"Type": A.enum(kind), "Identifier": str(id)})
}

func (A *Analysis) factors(st *State, l []fac) Val {
	if l == nil {
		return VNil{}
	}
	var e []Val
	for _, f := range l {
		tok := A.token("ARGUMENT", f.wire)
		if f.wire == "" {
			tok = A.token("NumberToken", f.text)
		}
		e = append(e, A.structOf("factor", map[string]Val{"typ": tok, "multiplicative": A.frozenBig(st, "coefficient", f.c)}))
	}
	return A.sliceOf(st, A.typ("factor"), e)
}

// gate is the specification side of a Gate.
type gate struct {
	kind                   string
	id                     string
	left, right, expo, out []fac
	rep                    string
	quiet                  bool
}

func (A *Analysis) gatePtr(st *State, g gate) Val {
	f := map[string]Val{
		"gateType": A.enum(g.kind), "identifier": str(g.id),
		"leftIns": A.factors(st, g.left), "rightIns": A.factors(st, g.right), "expoIns": A.factors(st, g.expo), "outIns": A.factors(st, g.out),
		"noNewOutput": VBool{known: true, b: g.quiet},
	}
	if g.rep != "" {
		f["arithmeticRepresentatnt"] = A.token("ARGUMENT", g.rep)
	}
	return A.ptrTo(st, A.structOf("Gate", f), A.typ("Gate"), "gate")
}

func (A *Analysis) gateList(st *State, gs []gate) Val {
	var e []Val
	for _, g := range gs {
		e = append(e, A.gatePtr(st, g))
	}
	return A.sliceOf(st, types.NewPointer(A.typ("Gate")), e)
}

// program is a *Program with the given public names and main inputs.
func (A *Analysis) program(st *State, public, inputs []string) Val {
	ft := A.typ("function")
	main := A.ptrTo(st, A.structOf("function", map[string]Val{"Name": str("main"), "Inputs": A.strSlice(st, inputs)}), ft, "main function")
	mt := ft.Underlying().(*types.Struct).Field(fieldIndex(ft, "functions")).Type()
	glob := A.ptrTo(st, A.structOf("function", map[string]Val{"Name": str("global"), "functions": A.mapOf(st, mt, []string{"main"}, []Val{main})}), ft, "global function")
	return A.ptrTo(st, A.structOf("Program", map[string]Val{"globalFunction": glob, "PublicInputs": A.strSlice(st, public)}), A.typ("Program"), "program")
}

// r1 is a constraint system read back from the code, gate-major.
type r1 struct {
	val   Val
	typ   types.Type
	index map[string]int
	names []string
	split map[string][]int
	wl, n int
	rows  [4][]map[int]*BigVal // L, R, E, O
	width [4][]int             // dense row lengths
}

func (A *Analysis) intAt(v Val, what string) int {
	i, ok := v.(VInt)
	if !ok || i.sym != nil {
		A.fail(0, "%s is not a known number", what)
	}
	return int(i.c)
}

func (A *Analysis) strMap(st *State, v Val, what string) (keys []string, vals []Val) {
	switch m := v.(type) {
	case VNil:
		return
	case VMap:
		mv := st.get(m.obj).val.(VMapV)
		for i, k := range mv.keys {
			s, ok := k.(VStr)
			if !ok || !s.known {
				A.fail(0, "%s has an unknown key", what)
			}
			keys = append(keys, s.s)
			vals = append(vals, mv.vals[i])
		}
		return
	}
	A.fail(0, "%s is not a map", what)
	return
}

// readR1 reads an ER1CS or ER1CSSparse (or a transposed one) from the heap.
func (A *Analysis) readR1(st *State, v Val, t types.Type, sparse bool) *r1 {
	r := A.readRows(st, v, t, sparse)
	im, _ := A.fieldAt(st, v, t, "indexMap")
	ks, vs := A.strMap(st, im, "indexMap")
	for i, k := range ks {
		r.index[k] = A.intAt(vs[i], "an index")
		r.names = append(r.names, k)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok && fieldIndex(p.Elem(), "splitmap") >= 0 {
		sm, _ := A.fieldAt(st, v, t, "splitmap")
		ks, vs = A.strMap(st, sm, "splitmap")
		for i, k := range ks {
			for _, e := range A.sliceElems(st, vs[i]) {
				r.split[k] = append(r.split[k], A.intAt(e, "a bit index"))
			}
		}
	}
	return r
}

// readRows reads the four matrices and the dimensions.
func (A *Analysis) readRows(st *State, v Val, t types.Type, sparse bool) *r1 {
	r := &r1{val: v, typ: t, index: map[string]int{}, split: map[string][]int{}}
	w, _ := A.fieldAt(st, v, t, "WitnessLength")
	n, _ := A.fieldAt(st, v, t, "NumberOfGates")
	r.wl, r.n = A.intAt(w, "WitnessLength"), A.intAt(n, "NumberOfGates")
	for k, f := range []string{"L", "R", "E", "O"} {
		m, _ := A.fieldAt(st, v, t, f)
		for _, row := range A.sliceElems(st, m) {
			out := map[int]*BigVal{}
			if sparse {
				es, bad := A.treeEntries(st, row)
				if bad != "" {
					A.fail(0, "a row of %s is not a tree: %s", f, bad)
				}
				for _, e := range es {
					out[int(e.key)] = e.val
				}
				r.width[k] = append(r.width[k], -1)
			} else {
				bs, ok := A.bigList(st, row)
				if !ok {
					A.fail(0, "a row of %s is not a vector", f)
				}
				for i, b := range bs {
					if b.k == nil || b.k.Sign() != 0 {
						out[i] = b
					}
				}
				r.width[k] = append(r.width[k], len(bs))
			}
			r.rows[k] = append(r.rows[k], out)
		}
	}
	return r
}

// dot is the linear form of a row over the given wires.
func (A *Analysis) dot(row map[int]*BigVal, w []*Term) *Term {
	t := A.T.zero
	for i := 0; i < len(w); i++ {
		if b, ok := row[i]; ok {
			t = A.T.add(t, A.T.mul(b.t, w[i]))
		}
	}
	return t
}

// negRaw is the negated, unreduced integer as negation in the compiler leaves it.
func (A *Analysis) negRaw(name string) *BigVal {
	q := new(big.Int).Sub(A.T.mod, big.NewInt(1))
	return &BigVal{t: A.T.neg(A.T.atomNZ(name)), lo: new(big.Int).Neg(q), hi: big.NewInt(-1), exact: true}
}

func (A *Analysis) coef(name string) *BigVal {
	b := A.bigCanon(A.T.atomNZ(name))
	b.lo = one_
	return b
}

func langAnalysis(R *Report) *Analysis {
	A := scalarAnalysis(R)
	return A
}

func (P *Program) builders() (dense, sparse *ssa.Function) {
	return P.method(cc, "Program", "GatesToR1CS"), P.method(cc, "Program", "GatesToSparseR1CS")
}

// abscissa is the value of an exponentiation gate.
func (A *Analysis) abscissa(st *State, t *Term) *Term {
	if A.zeroIn(st, t) {
		return A.T.zero
	}
	return A.T.uf("abscissa", t)
}
