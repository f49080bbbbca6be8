package main

import (
	"fmt"
	"go/token"
	"math/big"
)

// SymSlice is a byte slice whose start is symbolic: base[k - len(Bytes(b)) : hi].
type SymSlice struct {
	obj   int
	path  []int
	off   int // absolute offset of the slot end the start is counted back from
	back  *BigVal
	end   int // absolute end
	len   int
	other *Term
}

// ByteSlot marks bytes of an array that together hold the big-endian,
// left-padded encoding of a big integer.
type ByteSlot struct {
	b     *BigVal
	width int
	idx   int
}

// symSlice handles ret[k-len(x.Bytes()):...] .
func (A *Analysis) symSlice(st *State, x VSlice, lo int, s1 *Term, hi int, s2 *Term, pos token.Pos) (Val, string) {
	if s2 != nil || s1 == nil {
		A.fail(pos, "symbolic slice bound")
	}
	// s1 must be  k - bytelen(t)
	for k := 0; k <= x.cap; k++ {
		d := A.T.sub(A.T.constI(int64(k)), s1)
		if t := A.asUF(d, "bytelen"); t != nil {
			return SymSlice{obj: x.obj, path: x.path, off: x.off + k, back: nil, end: x.off + hi, other: t}, ""
		}
	}
	A.fail(pos, "symbolic slice bound %v", s1)
	return nil, ""
}

func (A *Analysis) asUF(d *Term, name string) *Term {
	// d is 0 + uf or a sum that equals the uf
	var find func(t *Term) []*Term
	seen := map[*Term]bool{}
	find = func(t *Term) []*Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.op == OpUF {
			if t.name == name {
				return []*Term{t}
			}
			return nil
		}
		var r []*Term
		for _, a := range t.args {
			r = append(r, find(a)...)
		}
		return r
	}
	e := A.T.newEnv()
	for _, u := range find(d) {
		if e.eq(u, d) {
			return u
		}
	}
	return nil
}

func (A *Analysis) writeSlot(st *State, obj int, path []int, start, width int, b *BigVal, pos token.Pos) {
	o := *st.get(obj)
	if o.frozen != "" {
		A.event(st, "mutates", "copy into "+o.frozen, pos)
	}
	arr := append([]Val{}, loadPath(o.val, path).(VArr).e...)
	for i := 0; i < width; i++ {
		arr[start+i] = ByteSlot{b, width, i}
	}
	o.val = storePath(o.val, path, VArr{arr})
	st.set(obj, &o)
}

func (A *Analysis) copyB(st *State, args []Val, pos token.Pos) []Outcome {
	switch d := args[0].(type) {
	case SymSlice:
		src, ok := args[1].(VBytes)
		if !ok {
			A.fail(pos, "copy of %T to a computed offset", args[1])
		}
		if !st.env.eq(d.other, A.T.uf("bytelen", src.b.t)) || d.end < d.off {
			A.event(st, "byte-layout", "the copied value and the padding belong to different values", pos)
			return one1(st, VInt{sym: d.other})
		}
		// bytes [off-len, off) hold the value; what precedes must be zero
		b := src.b
		if b.lo == nil || b.hi == nil || b.lo.Sign() < 0 {
			A.event(st, "byte-layout", "the encoded value is not reduced", pos)
			return one1(st, VInt{sym: d.other})
		}
		maxLen := (b.hi.BitLen() + 7) / 8
		arr := loadPath(st.get(d.obj).val, d.path).(VArr)
		width := 0
		for w := d.off - 1; w >= 0; w-- {
			i, ok := arr.e[w].(VInt)
			if !ok || i.sym != nil || i.c != 0 {
				break
			}
			width++
			if width == 32 {
				break
			}
		}
		if d.off > len(arr.e) || maxLen > d.off {
			return []Outcome{{st: st, panicked: true, msg: "slice bounds out of range", pos: pos}}
		}
		if width < maxLen {
			A.event(st, "byte-layout", "the encoding overlaps bytes written before", pos)
			width = maxLen
		}
		A.writeSlot(st, d.obj, d.path, d.off-width, width, b, pos)
		return one1(st, VInt{sym: d.other})
	case VSlice:
		switch s := args[1].(type) {
		case VSlice, VNil, VStr:
			var el []Val
			if str, ok := s.(VStr); ok {
				if !str.known {
					A.fail(pos, "copy of unknown string")
				}
				for _, c := range []byte(str.s) {
					el = append(el, VInt{c: int64(c)})
				}
			} else {
				el = append([]Val{}, A.sliceElems(st, s)...)
			}
			n := len(el)
			if d.len < n {
				n = d.len
			}
			o := *st.get(d.obj)
			if o.frozen != "" && n > 0 {
				A.event(st, "mutates", "copy into "+o.frozen, pos)
			}
			arr := append([]Val{}, loadPath(o.val, d.path).(VArr).e...)
			copy(arr[d.off:d.off+n], el[:n])
			o.val = storePath(o.val, d.path, VArr{arr})
			st.set(d.obj, &o)
			return one1(st, VInt{c: int64(n)})
		case VBytes:
			A.event(st, "byte-layout", "a value is copied without left padding", pos)
			return one1(st, VInt{sym: A.T.uf("bytelen", s.b.t)})
		}
	case VNil:
		return one1(st, VInt{})
	}
	A.fail(pos, "copy to %T", args[0])
	return nil
}

func (A *Analysis) fillBytes(c *callCtx, b *BigVal) []Outcome {
	s, ok := c.args[1].(VSlice)
	if !ok {
		A.fail(c.pos, "FillBytes into %T", c.args[1])
	}
	if b.lo == nil || b.hi == nil || b.lo.Sign() < 0 {
		A.event(c.st, "byte-layout", "the encoded value is not reduced", c.pos)
	} else if (b.hi.BitLen()+7)/8 > s.len {
		return []Outcome{{st: c.st, panicked: true, msg: "FillBytes: buffer too small", pos: c.pos}}
	}
	A.writeSlot(c.st, s.obj, s.path, s.off, s.len, b, c.pos)
	return one1(c.st, s)
}

// fromBytes models SetBytes.
func (A *Analysis) fromBytes(st *State, v Val, pos token.Pos) *BigVal {
	switch x := v.(type) {
	case VNil:
		return A.bigConst(new(big.Int))
	case VBytes:
		return x.b
	case SymSlice:
		if s, ok := st.get(x.obj).val.(VStr); ok {
			return A.numOf(A.strTerm(s))
		}
	case VSlice:
		base := loadPath(st.get(x.obj).val, x.path)
		switch b := base.(type) {
		case VOpaqueArr:
			hi := new(big.Int).Lsh(big.NewInt(1), uint(8*x.len))
			hi.Sub(hi, big.NewInt(1))
			r := &BigVal{t: A.T.atom(fmt.Sprintf("%s[%d:%d]", b.name, x.off, x.off+x.len)), lo: new(big.Int), hi: hi}
			A.reexact(r)
			return r
		case VArr:
			el := b.e[x.off : x.off+x.len]
			if len(el) > 0 {
				if s, ok := el[0].(ByteSlot); ok && s.idx == 0 && s.width == len(el) {
					whole := true
					for i, e := range el {
						t, ok := e.(ByteSlot)
						if !ok || t.b != s.b || t.idx != i {
							whole = false
						}
					}
					if whole {
						return s.b
					}
				}
			}
			var bs []byte
			for _, e := range el {
				i, ok := e.(VInt)
				if !ok || i.sym != nil {
					if ok && A.idealNames {
						return A.numOf(A.bytesTerm(st, x, pos))
					}
					return &BigVal{t: A.T.freshAtom("bytes"), lo: new(big.Int)}
				}
				bs = append(bs, byte(i.c))
			}
			return A.bigConst(new(big.Int).SetBytes(bs))
		}
	}
	A.fail(pos, "SetBytes of %T", v)
	return nil
}

func (A *Analysis) asBig(st *State, v Val) *BigVal {
	switch x := v.(type) {
	case VBytes:
		return x.b
	case VNil:
		return A.bigConst(new(big.Int))
	}
	return nil
}

func (A *Analysis) bytesEqual(c *callCtx) []Outcome {
	a, b := c.args[0], c.args[1]
	if x, y := A.asBig(c.st, a), A.asBig(c.st, b); x != nil && y != nil {
		// Bytes() is the absolute value
		abs := func(z *BigVal) *BigVal {
			if z.lo != nil && z.lo.Sign() >= 0 || z.k != nil && z.k.Sign() >= 0 {
				return z
			}
			return nil
		}
		isz := func(z *BigVal) bool { return z.k != nil && z.k.Sign() == 0 }
		if (abs(x) != nil && abs(y) != nil) || isz(x) || isz(y) {
			if x.k != nil && y.k != nil {
				return one1(c.st, VBool{known: true, b: x.k.Cmp(y.k) == 0})
			}
			return one1(c.st, VBool{cond: &Cond{kind: "cmp", cmp: &CmpInfo{a: x, b: y}, set: relEQ}})
		}
		return one1(c.st, VBool{cond: &Cond{kind: "any", msg: "comparison of byte strings that drop the sign"}})
	}
	if x, ok := a.(GTBytes); ok {
		if y, ok := b.(GTBytes); ok {
			return one1(c.st, VBool{cond: &Cond{kind: "zero", t: A.T.sub(x.t, y.t)}})
		}
	}
	ea, eb := A.sliceElems(c.st, a), A.sliceElems(c.st, b)
	if len(ea) != len(eb) {
		return one1(c.st, VBool{known: true})
	}
	all, eq := true, true
	for i := range ea {
		r, known := A.identical(c.st, ea[i], eb[i])
		if !known {
			all = false
		} else if !r {
			eq = false
		}
	}
	if !eq {
		return one1(c.st, VBool{known: true})
	}
	if all {
		return one1(c.st, VBool{known: true, b: true})
	}
	return one1(c.st, VBool{cond: &Cond{kind: "any", msg: "bytes.Equal"}})
}

// GTBytes is the canonical encoding of a target group element, known by its discrete logarithm.
type GTBytes struct{ t *Term }
