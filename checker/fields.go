package main

import "go/types"

// fqVal is the scalar field as the package initialiser builds it.
func (A *Analysis) fqVal(st *State) Val {
	g := A.P.global("utils", "Field")
	if g == nil {
		A.fail(0, "the package-level field was not found")
	}
	v, po := A.load(st, VPtr{obj: A.globals[g]}, 0)
	if s, ok := v.(VStruct); ok && po == "" && len(s.f) == 2 {
		return s.f[0]
	}
	A.fail(0, "the package-level field has an unknown shape")
	return nil
}

func (A *Analysis) polyVal(st *State) Val {
	g := A.P.global("utils", "Field")
	if g == nil {
		A.fail(0, "the package-level field was not found")
	}
	v, po := A.load(st, VPtr{obj: A.globals[g]}, 0)
	if s, ok := v.(VStruct); ok && po == "" && len(s.f) == 2 {
		return s.f[1]
	}
	A.fail(0, "the package-level field has an unknown shape")
	return nil
}

// bigPtrType is *big.Int.
func (A *Analysis) bigPtrType() types.Type { return types.NewPointer(A.bigType()) }
