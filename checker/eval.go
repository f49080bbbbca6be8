package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	msgNil   = "nil dereference"
	msgIndex = "index out of range"
)

func (A *Analysis) load(st *State, addr Val, pos token.Pos) (Val, string) {
	switch a := addr.(type) {
	case VPtr:
		o := st.get(a.obj)
		if o == nil {
			A.fail(pos, "load from unknown object")
		}
		v := loadPath(o.val, a.path)
		if v == nil {
			A.fail(pos, "load path")
		}
		if st.log != nil || st.threads != nil {
			A.touch(st, pathLoc(a.obj, a.path), false, pos)
		}
		return v, ""
	case VNil:
		return nil, msgNil
	case VOpaque:
		if strings.HasPrefix(a.name, "global ") {
			return VOpaque{"value of " + a.name}, ""
		}
	}
	A.fail(pos, "load through %T", addr)
	return nil, ""
}

func (A *Analysis) store(st *State, addr, v Val, pos token.Pos) string {
	switch a := addr.(type) {
	case VPtr:
		o := st.get(a.obj)
		if o.frozen != "" {
			A.event(st, "mutates", "store into "+o.frozen, pos)
		}
		if o.pool == poolReleased {
			A.event(st, "use-after-release", "store into released storage", pos)
		}
		if st.log != nil || st.threads != nil {
			A.touch(st, pathLoc(a.obj, a.path), true, pos)
		}
		n := *o
		n.val = storePath(o.val, a.path, v)
		if n.val == nil {
			A.fail(pos, "store path")
		}
		st.set(a.obj, &n)
		return ""
	case VNil:
		return msgNil
	}
	A.fail(pos, "store through %T", addr)
	return ""
}

func (A *Analysis) eval(p *part, v ssa.Value) (Val, string) {
	st := p.st
	switch v := v.(type) {
	case *ssa.Alloc:
		et := v.Type().Underlying().(*types.Pointer).Elem()
		id := A.alloc(st, &Obj{val: A.zeroVal(et), typ: et, site: v.Pos()})
		return VPtr{obj: id}, ""
	case *ssa.BinOp:
		return A.binop(st, v.Op, A.operand(p, v.X), A.operand(p, v.Y), v.Type(), v.X.Type(), v.Pos())
	case *ssa.UnOp:
		x := A.operand(p, v.X)
		switch v.Op {
		case token.MUL:
			return A.load(st, x, v.Pos())
		case token.NOT:
			b, ok := x.(VBool)
			if !ok {
				A.fail(v.Pos(), "! of %T", x)
			}
			if b.known {
				return VBool{known: true, b: !b.b}, ""
			}
			return VBool{cond: b.cond.not()}, ""
		case token.SUB:
			if i, ok := x.(VInt); ok {
				if i.sym == nil {
					return VInt{c: -i.c}, ""
				}
				return VInt{sym: A.T.neg(i.sym)}, ""
			}
		case token.XOR:
			if i, ok := x.(VInt); ok && i.sym == nil {
				return VInt{c: ^i.c}, ""
			}
		case token.ARROW:
			return A.recv(st, x, v)
		}
		return VOpaque{"unop"}, ""
	case *ssa.Select:
		return A.selectRecv(p, v)
	case *ssa.ChangeInterface:
		return A.operand(p, v.X), ""
	case *ssa.ChangeType:
		return A.operand(p, v.X), ""
	case *ssa.MakeInterface:
		return VIface{v.X.Type(), A.operand(p, v.X)}, ""
	case *ssa.MakeClosure:
		var b []Val
		for _, x := range v.Bindings {
			b = append(b, A.operand(p, x))
		}
		return VFunc{fn: v.Fn.(*ssa.Function), bind: b}, ""
	case *ssa.MakeMap:
		id := A.alloc(st, &Obj{val: VMapV{}, typ: v.Type(), site: v.Pos()})
		return VMap{id}, ""
	case *ssa.MakeSlice:
		l, ok := A.operand(p, v.Len).(VInt)
		c, ok2 := A.operand(p, v.Cap).(VInt)
		if !ok || !ok2 || l.sym != nil || c.sym != nil {
			A.fail(v.Pos(), "make with symbolic length")
		}
		if l.c < 0 || c.c < l.c {
			return nil, "makeslice: len out of range"
		}
		et := v.Type().Underlying().(*types.Slice).Elem()
		return A.newSlice(st, et, int(l.c), int(c.c), v.Pos()), ""
	case *ssa.MakeChan:
		q := VQueue{cap: -1}
		if n, ok := A.operand(p, v.Size).(VInt); ok && n.sym == nil {
			q.cap = int(n.c)
		}
		id := A.alloc(st, &Obj{val: q, typ: v.Type(), site: v.Pos()})
		return VChan{id}, ""
	case *ssa.Convert:
		return A.convert(st, A.operand(p, v.X), v.X.Type(), v.Type(), v.Pos())
	case *ssa.FieldAddr:
		x := A.operand(p, v.X)
		switch x := x.(type) {
		case VPtr:
			return VPtr{x.obj, append(append([]int{}, x.path...), v.Field)}, ""
		case VNil:
			return nil, msgNil
		}
		A.fail(v.Pos(), "field address of %T", x)
	case *ssa.Field:
		x := A.operand(p, v.X)
		if s, ok := x.(VStruct); ok {
			return s.f[v.Field], ""
		}
		A.fail(v.Pos(), "field of %T", x)
	case *ssa.IndexAddr:
		return A.indexAddr(st, A.operand(p, v.X), A.operand(p, v.Index), v.Pos())
	case *ssa.Index:
		x := A.operand(p, v.X)
		i, ok := A.operand(p, v.Index).(VInt)
		if !ok || i.sym != nil {
			A.fail(v.Pos(), "symbolic index")
		}
		switch x := x.(type) {
		case VArr:
			if i.c < 0 || int(i.c) >= len(x.e) {
				return nil, msgIndex
			}
			return x.e[i.c], ""
		case VStr:
			if !x.known {
				A.fail(v.Pos(), "index of unknown string")
			}
			if i.c < 0 || int(i.c) >= len(x.s) {
				return nil, msgIndex
			}
			return VInt{c: int64(x.s[i.c])}, ""
		}
		A.fail(v.Pos(), "index of %T", x)
	case *ssa.Lookup:
		return A.lookup(st, A.operand(p, v.X), A.operand(p, v.Index), v.CommaOk, v.Type(), v.Pos())
	case *ssa.Extract:
		t, ok := A.operand(p, v.Tuple).(VTuple)
		if !ok || v.Index >= len(t.v) {
			A.fail(v.Pos(), "extract")
		}
		return t.v[v.Index], ""
	case *ssa.Slice:
		return A.slice(p, v)
	case *ssa.TypeAssert:
		x := A.operand(p, v.X)
		iv, ok := x.(VIface)
		match := false
		if ok && iv.t != nil {
			if types.IsInterface(v.AssertedType) {
				match = types.Implements(iv.t, v.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(iv.t, v.AssertedType)
			}
		} else if _, isnil := x.(VNil); !isnil {
			A.fail(v.Pos(), "type assertion on %T", x)
		}
		var r Val
		if match {
			r = iv.v
			if types.IsInterface(v.AssertedType) {
				r = iv
			}
		} else {
			r = A.zeroVal(v.AssertedType)
		}
		if v.CommaOk {
			return VTuple{[]Val{r, VBool{known: true, b: match}}}, ""
		}
		if !match {
			return nil, "type assertion failed"
		}
		return r, ""
	case *ssa.Range:
		x := A.operand(p, v.X)
		switch x := x.(type) {
		case VMap:
			m := st.get(x.obj).val.(VMapV)
			if st.log != nil || st.threads != nil {
				A.touch(st, loc{x.obj, wholeObj}, false, v.Pos())
			}
			it := VIterV{keys: m.keys, vals: m.vals}
			if A.mapOrder != 0 {
				it = VIterV{}
				for _, i := range permuted(A.mapOrder, len(m.keys)) {
					it.keys, it.vals = append(it.keys, m.keys[i]), append(it.vals, m.vals[i])
				}
			}
			id := A.alloc(st, &Obj{val: it})
			return VIter{id}, ""
		case VNil:
			id := A.alloc(st, &Obj{val: VIterV{}})
			return VIter{id}, ""
		case VStr:
			if !x.known {
				A.fail(v.Pos(), "range over unknown string")
			}
			it := VIterV{str: true}
			for i, r := range x.s {
				it.keys = append(it.keys, VInt{c: int64(i)})
				it.vals = append(it.vals, VInt{c: int64(r)})
			}
			id := A.alloc(st, &Obj{val: it})
			return VIter{id}, ""
		}
		A.fail(v.Pos(), "range over %T", x)
	case *ssa.Next:
		it := A.operand(p, v.Iter).(VIter)
		o := *st.get(it.obj)
		iv := o.val.(VIterV)
		if iv.i >= len(iv.keys) {
			tt := v.Type().(*types.Tuple)
			return VTuple{[]Val{VBool{known: true}, A.zeroOrNil(tt.At(1).Type()), A.zeroOrNil(tt.At(2).Type())}}, ""
		}
		r := VTuple{[]Val{VBool{known: true, b: true}, iv.keys[iv.i], iv.vals[iv.i]}}
		iv.i++
		o.val = iv
		st.set(it.obj, &o)
		return r, ""
	}
	A.fail(v.Pos(), "value %T", v)
	return nil, ""
}

func (A *Analysis) zeroOrNil(t types.Type) Val {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return VNil{}
	}
	return A.zeroVal(t)
}

func (A *Analysis) newSlice(st *State, et types.Type, l, c int, pos token.Pos) VSlice {
	if c > 1<<20 {
		A.fail(pos, "huge slice")
	}
	e := make([]Val, c)
	if c > 0 {
		z := A.zeroVal(et)
		for i := range e {
			e[i] = z
		}
	}
	id := A.alloc(st, &Obj{val: VArr{e}, typ: types.NewArray(et, int64(c)), site: pos})
	return VSlice{obj: id, len: l, cap: c}
}

func (A *Analysis) sliceOf(st *State, et types.Type, vals []Val) VSlice {
	id := A.alloc(st, &Obj{val: VArr{append([]Val{}, vals...)}, typ: types.NewArray(et, int64(len(vals)))})
	return VSlice{obj: id, len: len(vals), cap: len(vals)}
}

func (A *Analysis) sliceElems(st *State, v Val) []Val {
	switch s := v.(type) {
	case VNil:
		return nil
	case VSlice:
		if s.len == 0 {
			return nil
		}
		base := loadPath(st.get(s.obj).val, s.path)
		switch b := base.(type) {
		case VArr:
			return b.e[s.off : s.off+s.len]
		case VOpaqueArr:
			var r []Val
			for i := 0; i < s.len; i++ {
				r = append(r, VOpaque{fmt.Sprintf("%s[%d]", b.name, s.off+i)})
			}
			return r
		}
	}
	return nil
}

func (A *Analysis) indexAddr(st *State, x, iv Val, pos token.Pos) (Val, string) {
	i, ok := iv.(VInt)
	if !ok {
		A.fail(pos, "index %T", iv)
	}
	if i.sym != nil {
		A.fail(pos, "symbolic index %v", i.sym)
	}
	switch x := x.(type) {
	case VSlice:
		if i.c < 0 || int(i.c) >= x.len {
			return nil, msgIndex
		}
		return VPtr{x.obj, append(append([]int{}, x.path...), x.off+int(i.c))}, ""
	case VPtr:
		arr, ok := loadPath(st.get(x.obj).val, x.path).(VArr)
		if !ok {
			A.fail(pos, "index of pointer")
		}
		if i.c < 0 || int(i.c) >= len(arr.e) {
			return nil, msgIndex
		}
		return VPtr{x.obj, append(append([]int{}, x.path...), int(i.c))}, ""
	case VNil:
		return nil, msgIndex
	case VBits:
		id := A.alloc(st, &Obj{val: VInt{sym: A.T.uf("word", x.b.t, A.T.constI(i.c)), cmp: &CmpInfo{a: x.b}}})
		return VPtr{obj: id}, ""
	case VBytes:
		id := A.alloc(st, &Obj{val: VOpaque{"byte of big"}})
		return VPtr{obj: id}, ""
	}
	A.fail(pos, "index of %T", x)
	return nil, ""
}

func (A *Analysis) slice(p *part, v *ssa.Slice) (Val, string) {
	st := p.st
	x := A.operand(p, v.X)
	bound := func(o ssa.Value, def int) (int, *Term) {
		if o == nil {
			return def, nil
		}
		i, ok := A.operand(p, o).(VInt)
		if !ok {
			A.fail(v.Pos(), "slice bound")
		}
		return int(i.c), i.sym
	}
	switch x := x.(type) {
	case VStr:
		lo, s1 := bound(v.Low, 0)
		if !x.known && x.sym != nil && s1 == nil && v.High != nil {
			if hi, s2 := bound(v.High, 0); s2 == nil {
				return A.symStr(A.T.uf(fmt.Sprintf("slice:%d:%d", lo, hi), x.sym)), ""
			}
		}
		if !x.known || s1 != nil {
			return VStr{}, ""
		}
		hi, s2 := bound(v.High, len(x.s))
		if s2 != nil {
			return VStr{}, ""
		}
		if lo < 0 || hi > len(x.s) || lo > hi {
			return nil, "slice bounds out of range"
		}
		return VStr{known: true, s: x.s[lo:hi]}, ""
	case VNil:
		lo, _ := bound(v.Low, 0)
		hi, _ := bound(v.High, 0)
		if lo != 0 || hi != 0 {
			return nil, "slice bounds out of range"
		}
		return VNil{}, ""
	case VSlice:
		lo, s1 := bound(v.Low, 0)
		hi, s2 := bound(v.High, x.len)
		if s1 != nil || s2 != nil {
			return A.symSlice(st, x, lo, s1, hi, s2, v.Pos())
		}
		mx, _ := bound(v.Max, x.cap)
		if lo < 0 || hi > x.cap || lo > hi || mx > x.cap {
			return nil, "slice bounds out of range"
		}
		return VSlice{x.obj, x.path, x.off + lo, hi - lo, mx - lo}, ""
	case VPtr:
		arr, ok := loadPath(st.get(x.obj).val, x.path).(VArr)
		if !ok {
			A.fail(v.Pos(), "slice of pointer")
		}
		lo, s1 := bound(v.Low, 0)
		hi, s2 := bound(v.High, len(arr.e))
		if s1 != nil || s2 != nil {
			A.fail(v.Pos(), "symbolic slice bound")
		}
		if lo < 0 || hi > len(arr.e) || lo > hi {
			return nil, "slice bounds out of range"
		}
		return VSlice{x.obj, x.path, lo, hi - lo, len(arr.e) - lo}, ""
	case VBytes:
		return VOpaque{"bytes slice"}, ""
	}
	A.fail(v.Pos(), "slice of %T", x)
	return nil, ""
}

func valKey(v Val) (string, bool) {
	switch x := v.(type) {
	case VInt:
		if x.sym != nil {
			return "", false
		}
		return fmt.Sprintf("i%d", x.c), true
	case VBool:
		if !x.known {
			return "", false
		}
		return fmt.Sprint(x.b), true
	case VStr:
		if !x.known {
			if x.sym != nil {
				return fmt.Sprintf("S%d", x.sym.id), true
			}
			return "", false
		}
		return "s" + x.s, true
	case VPtr:
		return fmt.Sprintf("p%d%v", x.obj, x.path), true
	case VNil:
		return "nil", true
	case VStruct:
		s := "{"
		for _, f := range x.f {
			k, ok := valKey(f)
			if !ok {
				return "", false
			}
			s += k + "\x01"
		}
		return s + "}", true
	case VArr:
		s := "["
		for _, f := range x.e {
			k, ok := valKey(f)
			if !ok {
				return "", false
			}
			s += k + "\x01"
		}
		return s + "]", true
	case VIface:
		k, ok := valKey(x.v)
		if x.t == nil {
			return "inil", true
		}
		return x.t.String() + ":" + k, ok
	}
	return "", false
}

func (A *Analysis) lookup(st *State, x, k Val, commaOk bool, rt types.Type, pos token.Pos) (Val, string) {
	if s, ok := x.(VStr); ok {
		i := k.(VInt)
		if !s.known || i.sym != nil {
			A.fail(pos, "index of unknown string")
		}
		if i.c < 0 || int(i.c) >= len(s.s) {
			return nil, msgIndex
		}
		return VInt{c: int64(s.s[i.c])}, ""
	}
	et := rt
	if commaOk {
		et = rt.(*types.Tuple).At(0).Type()
	}
	if m, ok := x.(VMap); ok && (st.log != nil || st.threads != nil) {
		A.touch(st, loc{m.obj, wholeObj}, false, pos)
	}
	ret := func(v Val, ok bool) (Val, string) {
		if commaOk {
			return VTuple{[]Val{v, VBool{known: true, b: ok}}}, ""
		}
		return v, ""
	}
	switch m := x.(type) {
	case VNil:
		return ret(A.zeroVal(et), false)
	case VMap:
		key, ok := valKey(k)
		if !ok {
			A.fail(pos, "map lookup with an unknown key")
		}
		mv := st.get(m.obj).val.(VMapV)
		for i, s := range mv.ks {
			if s == key {
				return ret(mv.vals[i], true)
			}
		}
		return ret(A.zeroVal(et), false)
	}
	A.fail(pos, "lookup in %T", x)
	return nil, ""
}

func (A *Analysis) mapUpdate(st *State, x, k, v Val, pos token.Pos) string {
	m, ok := x.(VMap)
	if !ok {
		return "assignment to entry in nil map"
	}
	key, ok := valKey(k)
	if !ok {
		A.fail(pos, "map update with an unknown key")
	}
	if st.log != nil || st.threads != nil {
		A.touch(st, loc{m.obj, wholeObj}, true, pos)
	}
	o := *st.get(m.obj)
	if o.frozen != "" {
		A.event(st, "mutates-map", "map update of "+o.frozen, pos)
	}
	mv := o.val.(VMapV)
	for i, s := range mv.ks {
		if s == key {
			vals := append([]Val{}, mv.vals...)
			vals[i] = v
			o.val = VMapV{mv.keys, mv.ks, vals}
			st.set(m.obj, &o)
			return ""
		}
	}
	o.val = VMapV{append(append([]Val{}, mv.keys...), k), append(append([]string{}, mv.ks...), key), append(append([]Val{}, mv.vals...), v)}
	st.set(m.obj, &o)
	return ""
}

func (A *Analysis) mapDelete(st *State, x, k Val, pos token.Pos) {
	m, ok := x.(VMap)
	if !ok {
		return
	}
	key, ok := valKey(k)
	if !ok {
		A.fail(pos, "map delete with an unknown key")
	}
	o := *st.get(m.obj)
	if o.frozen != "" {
		A.event(st, "mutates-map", "map delete of "+o.frozen, pos)
	}
	mv := o.val.(VMapV)
	n := VMapV{}
	for i, s := range mv.ks {
		if s != key {
			n.keys, n.ks, n.vals = append(n.keys, mv.keys[i]), append(n.ks, s), append(n.vals, mv.vals[i])
		}
	}
	o.val = n
	st.set(m.obj, &o)
}

func intWidth(t types.Type) (bits int, unsigned bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, false
	case types.Int16:
		return 16, false
	case types.Int32:
		return 32, false
	case types.Uint8:
		return 8, true
	case types.Uint16:
		return 16, true
	case types.Uint32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true
	}
	return 64, false
}

func wrap(c int64, t types.Type) int64 {
	bits, uns := intWidth(t)
	if bits == 64 {
		return c
	}
	sh := uint(64 - bits)
	if uns {
		return int64(uint64(c) << sh >> sh)
	}
	return c << sh >> sh
}

func (A *Analysis) convert(st *State, x Val, from, to types.Type, pos token.Pos) (Val, string) {
	tb, _ := to.Underlying().(*types.Basic)
	switch x := x.(type) {
	case VInt:
		if tb != nil && tb.Info()&types.IsInteger != 0 {
			if x.sym != nil {
				return x, ""
			}
			return VInt{c: wrap(x.c, to)}, ""
		}
		if tb != nil && tb.Info()&types.IsString != 0 {
			if x.sym != nil {
				return VStr{}, ""
			}
			return VStr{known: true, s: string(rune(x.c))}, ""
		}
		return VOpaque{"convert"}, ""
	case VStr:
		if tb != nil && tb.Info()&types.IsString != 0 {
			return x, ""
		}
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if !x.known {
				if x.sym != nil {
					id := A.alloc(st, &Obj{val: x})
					return SymSlice{obj: id}, ""
				}
				return VOpaque{"bytes of unknown string"}, ""
			}
			var e []Val
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				for _, c := range []byte(x.s) {
					e = append(e, VInt{c: int64(c)})
				}
			} else {
				for _, c := range x.s {
					e = append(e, VInt{c: int64(c)})
				}
			}
			return A.sliceOf(st, sl.Elem(), e), ""
		}
	case VSlice, VNil:
		if tb != nil && tb.Info()&types.IsString != 0 {
			el := A.sliceElems(st, x)
			var bs []byte
			var rs []rune
			isByte := false
			if sl, ok := from.Underlying().(*types.Slice); ok {
				if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
					isByte = true
				}
			}
			for _, e := range el {
				i, ok := e.(VInt)
				if !ok || i.sym != nil {
					return VStr{}, ""
				}
				bs = append(bs, byte(i.c))
				rs = append(rs, rune(i.c))
			}
			if isByte {
				return VStr{known: true, s: string(bs)}, ""
			}
			return VStr{known: true, s: string(rs)}, ""
		}
		return x, ""
	case SymSlice:
		if s, ok := st.get(x.obj).val.(VStr); ok && tb != nil && tb.Info()&types.IsString != 0 {
			return s, ""
		}
	}
	return VOpaque{"convert"}, ""
}

func (A *Analysis) recv(st *State, x Val, v *ssa.UnOp) (Val, string) {
	ch, ok := x.(VChan)
	if !ok {
		A.fail(v.Pos(), "receive from %T", x)
	}
	o := *st.get(ch.obj)
	q, ok := o.val.(VQueue)
	if !ok {
		A.fail(v.Pos(), "receive")
	}
	et := v.X.Type().Underlying().(*types.Chan).Elem()
	if len(q.q) == 0 {
		if !q.closed {
			A.fail(v.Pos(), "receive from a channel that nobody sends on any more")
		}
		A.received(st, ch.obj, 0, true)
		z := A.zeroVal(et)
		if v.CommaOk {
			return VTuple{[]Val{z, VBool{known: true}}}, ""
		}
		return z, ""
	}
	h := q.q[0]
	o.val = VQueue{q.q[1:], q.closed, q.cap}
	st.set(ch.obj, &o)
	A.received(st, ch.obj, len(q.q)-1, false)
	if v.CommaOk {
		return VTuple{[]Val{h, VBool{known: true, b: true}}}, ""
	}
	return h, ""
}

func (A *Analysis) intTerm(i VInt) *Term {
	if i.sym != nil {
		return i.sym
	}
	return A.T.konst(big.NewInt(i.c))
}

func (A *Analysis) binop(st *State, op token.Token, x, y Val, rt, xt types.Type, pos token.Pos) (Val, string) {
	switch a := x.(type) {
	case VInt:
		b, ok := y.(VInt)
		if !ok {
			A.fail(pos, "binop int/%T", y)
		}
		if a.cmp != nil && a.sym != nil {
			if r, ok := A.cmpOp(st, op, a, b); ok {
				return r, ""
			}
		}
		if b.cmp != nil && b.sym != nil {
			if r, ok := A.cmpOp(st, flip(op), b, a); ok {
				return r, ""
			}
		}
		if a.sym == nil && b.sym == nil {
			return A.intOp(op, a.c, b.c, rt, xt, pos)
		}
		ta, tb := A.intTerm(a), A.intTerm(b)
		switch op {
		case token.ADD:
			return A.symInt(st, A.T.add(ta, tb)), ""
		case token.SUB:
			return A.symInt(st, A.T.sub(ta, tb)), ""
		case token.MUL:
			return A.symInt(st, A.T.mul(ta, tb)), ""
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			d := A.T.sub(ta, tb)
			if st.env.isZero(d) {
				return VBool{known: true, b: op == token.EQL || op == token.LEQ || op == token.GEQ}, ""
			}
			return VBool{cond: &Cond{kind: "int", t: d, msg: op.String()}}, ""
		}
		return VInt{sym: A.T.uf("op"+op.String(), ta, tb)}, ""
	case VBool:
		b, ok := y.(VBool)
		if ok && a.known && b.known {
			switch op {
			case token.EQL:
				return VBool{known: true, b: a.b == b.b}, ""
			case token.NEQ:
				return VBool{known: true, b: a.b != b.b}, ""
			}
		}
		if ok && (a.known || b.known) {
			if a.known {
				a, b = b, a
			}
			if b.b == (op == token.EQL) {
				return a, ""
			}
			return VBool{cond: a.cond.not()}, ""
		}
	case VStr:
		b, ok := y.(VStr)
		if !ok {
			break
		}
		if a.known && b.known {
			switch op {
			case token.ADD:
				return VStr{known: true, s: a.s + b.s}, ""
			case token.EQL:
				return VBool{known: true, b: a.s == b.s}, ""
			case token.NEQ:
				return VBool{known: true, b: a.s != b.s}, ""
			case token.LSS:
				return VBool{known: true, b: a.s < b.s}, ""
			case token.GTR:
				return VBool{known: true, b: a.s > b.s}, ""
			case token.LEQ:
				return VBool{known: true, b: a.s <= b.s}, ""
			case token.GEQ:
				return VBool{known: true, b: a.s >= b.s}, ""
			}
		}
		if op == token.ADD {
			return A.concat(a, b), ""
		}
		if op == token.LSS || op == token.GTR || op == token.LEQ || op == token.GEQ {
			if r, ok := A.strCompare(a, b); ok {
				return VBool{known: true, b: op == token.LSS && r < 0 || op == token.GTR && r > 0 || op == token.LEQ && r <= 0 || op == token.GEQ && r >= 0}, ""
			}
		}
		if op == token.EQL || op == token.NEQ {
			if eq, ok := A.strEq(a, b); ok {
				return VBool{known: true, b: eq == (op == token.EQL)}, ""
			}
		}
		return VBool{cond: &Cond{kind: "any", msg: "string comparison"}}, ""
	}
	if op == token.EQL || op == token.NEQ {
		if r, known := A.identical(st, x, y); known {
			return VBool{known: true, b: r == (op == token.EQL)}, ""
		}
		return VBool{cond: &Cond{kind: "any", msg: "comparison"}}, ""
	}
	A.fail(pos, "operator %s on %T and %T", op, x, y)
	return nil, ""
}

func (A *Analysis) symInt(st *State, t *Term) VInt {
	if t.op == OpConst {
		// small constants only
		k := new(big.Int).Set(t.k)
		half := new(big.Int).Rsh(A.T.mod, 1)
		if k.Cmp(half) > 0 {
			k.Sub(k, A.T.mod)
		}
		if k.IsInt64() {
			return VInt{c: k.Int64()}
		}
	}
	return VInt{sym: t}
}

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (A *Analysis) intOp(op token.Token, a, b int64, rt, xt types.Type, pos token.Pos) (Val, string) {
	_, uns := intWidth(xt)
	cmp := func(t bool) (Val, string) { return VBool{known: true, b: t}, "" }
	switch op {
	case token.ADD:
		return VInt{c: wrap(a+b, rt)}, ""
	case token.SUB:
		return VInt{c: wrap(a-b, rt)}, ""
	case token.MUL:
		return VInt{c: wrap(a*b, rt)}, ""
	case token.QUO, token.REM:
		if b == 0 {
			return nil, "integer divide by zero"
		}
		if uns {
			if op == token.QUO {
				return VInt{c: int64(uint64(a) / uint64(b))}, ""
			}
			return VInt{c: int64(uint64(a) % uint64(b))}, ""
		}
		if op == token.QUO {
			return VInt{c: a / b}, ""
		}
		return VInt{c: a % b}, ""
	case token.AND:
		return VInt{c: a & b}, ""
	case token.OR:
		return VInt{c: a | b}, ""
	case token.XOR:
		return VInt{c: a ^ b}, ""
	case token.AND_NOT:
		return VInt{c: a &^ b}, ""
	case token.SHL:
		if b < 0 || b >= 64 {
			return VInt{c: 0}, ""
		}
		return VInt{c: wrap(a<<uint(b), rt)}, ""
	case token.SHR:
		if b < 0 || b >= 64 {
			if !uns && a < 0 {
				return VInt{c: -1}, ""
			}
			return VInt{c: 0}, ""
		}
		if uns {
			return VInt{c: int64(uint64(a) >> uint(b))}, ""
		}
		return VInt{c: a >> uint(b)}, ""
	case token.EQL:
		return cmp(a == b)
	case token.NEQ:
		return cmp(a != b)
	}
	less := a < b
	if uns {
		less = uint64(a) < uint64(b)
	}
	switch op {
	case token.LSS:
		return cmp(less)
	case token.LEQ:
		return cmp(less || a == b)
	case token.GTR:
		return cmp(!less && a != b)
	case token.GEQ:
		return cmp(!less)
	}
	A.fail(pos, "int op %s", op)
	return nil, ""
}

func (A *Analysis) identical(st *State, x, y Val) (bool, bool) {
	switch a := x.(type) {
	case VNil:
		switch b := y.(type) {
		case VNil:
			return true, true
		case VIface:
			return b.t == nil, true
		case VOpaque:
			return false, false
		default:
			return false, true
		}
	case VPtr:
		switch b := y.(type) {
		case VPtr:
			if a.obj != b.obj || len(a.path) != len(b.path) {
				return false, true
			}
			for i := range a.path {
				if a.path[i] != b.path[i] {
					return false, true
				}
			}
			return true, true
		case VNil:
			return false, true
		}
	case VIface:
		switch b := y.(type) {
		case VNil:
			return a.t == nil, true
		case VIface:
			if a.t == nil || b.t == nil {
				return a.t == nil && b.t == nil, true
			}
			if !types.Identical(a.t, b.t) {
				return false, true
			}
			return A.identical(st, a.v, b.v)
		}
	case VSlice, VMap, VChan, VFunc, VBits, VBytes:
		if _, ok := y.(VNil); ok {
			return false, true
		}
	case VOpaque:
		if b, ok := y.(VOpaque); ok && a.name == b.name && a.name != "" {
			return true, true
		}
	case VInt:
		if b, ok := y.(VInt); ok && a.sym == nil && b.sym == nil {
			return a.c == b.c, true
		}
	case VStr:
		if b, ok := y.(VStr); ok {
			if a.known && b.known {
				return a.s == b.s, true
			}
			if eq, ok := A.strEq(a, b); ok {
				return eq, true
			}
		}
	case VBool:
		if b, ok := y.(VBool); ok && a.known && b.known {
			return a.b == b.b, true
		}
	case VStruct:
		b, ok := y.(VStruct)
		if !ok {
			return false, false
		}
		all := true
		for i := range a.f {
			e, k := A.identical(st, a.f[i], b.f[i])
			if k && !e {
				return false, true
			}
			if !k {
				all = false
			}
		}
		return all, all
	case VArr:
		b, ok := y.(VArr)
		if !ok {
			return false, false
		}
		all := true
		for i := range a.e {
			e, k := A.identical(st, a.e[i], b.e[i])
			if k && !e {
				return false, true
			}
			if !k {
				all = false
			}
		}
		return all, all
	}
	if _, ok := y.(VNil); ok {
		if _, op := x.(VOpaque); !op {
			return false, true
		}
	}
	return false, false
}
