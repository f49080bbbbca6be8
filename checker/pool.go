package main

import (
	"go/types"
)

// Scratch pool contracts.  A number taken from a pool has arbitrary content;
// once released it must not be touched, and only numbers that were taken (or
// created) by the code under analysis may be released.

func (A *Analysis) installPool() {
	A.contracts["(*pairing.bnPool).Get"] = func(A *Analysis, c *callCtx) []Outcome {
		if _, isnil := c.args[0].(VNil); isnil {
			return one1(c.st, A.newBig(c.st, A.bigConst(bigZero), c.pos))
		}
		id := A.alloc(c.st, &Obj{val: VBig{A.bigAny(A.T.freshAtom("garbage"))}, typ: A.bigType(), pool: poolLive, site: c.pos})
		A.poolGets++
		return one1(c.st, VPtr{obj: id})
	}
	A.contracts["(*pairing.bnPool).Put"] = func(A *Analysis, c *callCtx) []Outcome {
		if _, isnil := c.args[0].(VNil); isnil {
			return one1(c.st)
		}
		A.poolPuts++
		p, ok := c.args[1].(VPtr)
		if !ok {
			A.event(c.st, "nil-release", "a nil number is released into the scratch pool", c.pos)
			return one1(c.st)
		}
		o := *c.st.get(p.obj)
		switch {
		case o.pool == poolReleased:
			A.event(c.st, "double-release", "a number is released into the scratch pool twice", c.pos)
		case o.frozen != "":
			A.event(c.st, "foreign-release", o.frozen+" is released into the scratch pool", c.pos)
		case o.pool == poolNone && p.obj <= A.callerMark:
			A.event(c.st, "foreign-release", "storage of the caller ("+o.tag+") is released into the scratch pool", c.pos)
		}
		o.pool = poolReleased
		c.st.set(p.obj, &o)
		return one1(c.st)
	}
}

// releasedReachable lists released numbers reachable from v.
func (A *Analysis) releasedReachable(st *State, v Val, path string, seen map[int]bool, out *[]string) {
	switch x := v.(type) {
	case VPtr:
		o := st.get(x.obj)
		if o == nil || seen[x.obj] {
			return
		}
		seen[x.obj] = true
		if o.pool == poolReleased {
			*out = append(*out, path)
		}
		A.releasedReachable(st, o.val, path, seen, out)
	case VStruct:
		for i, f := range x.f {
			A.releasedReachable(st, f, path+"."+itoa(i), seen, out)
		}
	case VArr:
		for i, f := range x.e {
			A.releasedReachable(st, f, path+"["+itoa(i)+"]", seen, out)
		}
	case VSlice:
		o := st.get(x.obj)
		if o == nil || seen[x.obj] {
			return
		}
		seen[x.obj] = true
		A.releasedReachable(st, o.val, path, seen, out)
	case VTuple:
		for i, f := range x.v {
			A.releasedReachable(st, f, path+"#"+itoa(i), seen, out)
		}
	case VIface:
		A.releasedReachable(st, x.v, path, seen, out)
	}
}

// build allocates a value of struct type t (pointer to it) with one big.Int
// cell per *big.Int field, named by its field path.
func (A *Analysis) build(st *State, t types.Type, name string, leaf func(path string) *BigVal) VPtr {
	if isBigInt(t) {
		b := leaf(name)
		id := A.alloc(st, &Obj{val: VBig{b}, typ: t, tag: name})
		A.built[id] = b.t
		return VPtr{obj: id}
	}
	s := t.Underlying().(*types.Struct)
	f := make([]Val, s.NumFields())
	for i := range f {
		ft := s.Field(i).Type()
		fn := name + "." + s.Field(i).Name()
		switch u := ft.Underlying().(type) {
		case *types.Pointer:
			f[i] = A.build(st, u.Elem(), fn, leaf)
		default:
			f[i] = A.zeroVal(ft)
		}
	}
	id := A.alloc(st, &Obj{val: VStruct{f}, typ: t, tag: name})
	return VPtr{obj: id}
}

// leaves reads the big.Int cells below a value in field order; ok is false
// when something on the way is nil.
func (A *Analysis) leaves(st *State, v Val) (out []*BigVal, ok bool) {
	p, isptr := v.(VPtr)
	if !isptr {
		return nil, false
	}
	o := st.get(p.obj)
	if o == nil {
		return nil, false
	}
	switch x := loadPath(o.val, p.path).(type) {
	case VBig:
		return []*BigVal{st.latest(x.b)}, true
	case VStruct:
		for _, f := range x.f {
			l, ok := A.leaves(st, f)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		}
		return out, true
	}
	return nil, false
}

// leafIDs lists the objects that hold the cells.
func (A *Analysis) leafIDs(st *State, v Val) (out []int) {
	p, isptr := v.(VPtr)
	if !isptr {
		return nil
	}
	o := st.get(p.obj)
	if o == nil {
		return nil
	}
	switch x := loadPath(o.val, p.path).(type) {
	case VBig:
		return []int{p.obj}
	case VStruct:
		for _, f := range x.f {
			out = append(out, A.leafIDs(st, f)...)
		}
	}
	return
}
