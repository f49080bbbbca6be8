package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

func one1(st *State, v ...Val) []Outcome { return []Outcome{{st: st, rets: v}} }

func (A *Analysis) bigAt(st *State, v Val, pos token.Pos) *BigVal {
	p, ok := v.(VPtr)
	if !ok {
		if _, isnil := v.(VNil); isnil {
			return nil
		}
		A.fail(pos, "big.Int operand %T", v)
	}
	o := st.get(p.obj)
	if o == nil {
		A.fail(pos, "big.Int operand without object")
	}
	if o.pool == poolReleased {
		A.event(st, "use-after-release", "read of a released big.Int", pos)
	}
	if st.log != nil || st.threads != nil {
		A.touch(st, pathLoc(p.obj, p.path), false, pos)
	}
	b, ok := loadPath(o.val, p.path).(VBig)
	if !ok {
		A.fail(pos, "big.Int operand is %T", loadPath(o.val, p.path))
	}
	return b.b
}

func (A *Analysis) setBig(st *State, v Val, b *BigVal, pos token.Pos) {
	p := v.(VPtr)
	o := st.get(p.obj)
	if o.pool == poolReleased {
		A.event(st, "use-after-release", "write to a released big.Int", pos)
	}
	if o.frozen != "" {
		A.event(st, "mutates", "modifies "+o.frozen, pos)
	}
	if st.log != nil || st.threads != nil {
		A.touch(st, pathLoc(p.obj, p.path), true, pos)
	}
	n := *o
	n.val = storePath(o.val, p.path, VBig{b})
	st.set(p.obj, &n)
	A.stats.bigOps++
}

func (A *Analysis) newBig(st *State, b *BigVal, pos token.Pos) VPtr {
	return VPtr{obj: A.alloc(st, &Obj{val: VBig{b}, typ: A.bigType(), site: pos})}
}

func (A *Analysis) bigType() types.Type {
	for _, p := range A.P.ppkgs {
		for _, imp := range p.Types.Imports() {
			if imp.Path() == "math/big" {
				return imp.Scope().Lookup("Int").Type()
			}
		}
	}
	return nil
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}
func negB(a *big.Int) *big.Int {
	if a == nil {
		return nil
	}
	return new(big.Int).Neg(a)
}

func (A *Analysis) bAdd(a, b *BigVal) *BigVal {
	if a.k != nil && b.k != nil {
		return A.bigConst(new(big.Int).Add(a.k, b.k))
	}
	r := &BigVal{t: A.T.add(a.t, b.t), lo: addB(a.lo, b.lo), hi: addB(a.hi, b.hi)}
	if a == b {
		r.exact = a.exact
	}
	if a.k != nil && a.k.Sign() == 0 {
		return b
	}
	if b.k != nil && b.k.Sign() == 0 {
		return a
	}
	A.reexact(r)
	return r
}

func (A *Analysis) bNeg(a *BigVal) *BigVal {
	if a.k != nil {
		return A.bigConst(new(big.Int).Neg(a.k))
	}
	return &BigVal{t: A.T.neg(a.t), lo: negB(a.hi), hi: negB(a.lo), exact: a.exact}
}

func (A *Analysis) bSub(a, b *BigVal) *BigVal {
	if a == b {
		return A.bigConst(new(big.Int))
	}
	if a.k != nil && b.k != nil {
		return A.bigConst(new(big.Int).Sub(a.k, b.k))
	}
	if b.k != nil && b.k.Sign() == 0 {
		return a
	}
	n := A.bNeg(b)
	if a.k != nil && a.k.Sign() == 0 {
		return n
	}
	r := &BigVal{t: A.T.sub(a.t, b.t), lo: addB(a.lo, n.lo), hi: addB(a.hi, n.hi)}
	A.reexact(r)
	return r
}

func (A *Analysis) bMul(a, b *BigVal) *BigVal {
	if a.k != nil && b.k != nil {
		return A.bigConst(new(big.Int).Mul(a.k, b.k))
	}
	r := &BigVal{t: A.T.mul(a.t, b.t), exact: a.exact && b.exact}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		var c []*big.Int
		for _, x := range []*big.Int{a.lo, a.hi} {
			for _, y := range []*big.Int{b.lo, b.hi} {
				c = append(c, new(big.Int).Mul(x, y))
			}
		}
		r.lo, r.hi = c[0], c[0]
		for _, x := range c[1:] {
			if x.Cmp(r.lo) < 0 {
				r.lo = x
			}
			if x.Cmp(r.hi) > 0 {
				r.hi = x
			}
		}
	}
	if a.k != nil && a.k.Sign() == 0 || b.k != nil && b.k.Sign() == 0 {
		return A.bigConst(new(big.Int))
	}
	A.reexact(r)
	return r
}

// bMod models Euclidean reduction by a constant modulus.
func (A *Analysis) bMod(a, m *BigVal) *BigVal {
	if m.k == nil || m.k.Sign() == 0 {
		r := &BigVal{t: A.T.uf("mod", a.t, m.t), lo: new(big.Int)}
		return r
	}
	if a.k != nil {
		return A.bigConst(new(big.Int).Mod(a.k, m.k))
	}
	mk := new(big.Int).Abs(m.k)
	top := new(big.Int).Sub(mk, big.NewInt(1))
	if a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(mk) < 0 {
		return a
	}
	if mk.Cmp(A.T.mod) == 0 {
		return A.bigCanon(a.t)
	}
	r := &BigVal{lo: new(big.Int), hi: top}
	if new(big.Int).Mod(mk, A.T.mod).Sign() == 0 {
		r.t = a.t // reduction by a multiple of the modulus keeps the residue
		return r
	}
	r.t = A.T.uf("mod", a.t, m.t)
	if mk.Cmp(A.T.mod) < 0 {
		r.exact = true
	}
	return r
}

func (A *Analysis) isCanon(b *BigVal) bool {
	return b.lo != nil && b.hi != nil && b.lo.Sign() >= 0 && b.hi.Cmp(A.T.mod) < 0
}

// bigMethod models the methods of *math/big.Int.
func (A *Analysis) bigMethod(c *callCtx, name string) []Outcome {
	st, a, pos := c.st, c.args, c.pos
	for i, x := range a {
		if _, ok := x.(VNil); ok && i < 3 && (i == 0 || c.sig.Params().At(i-1).Type().String() == "*math/big.Int") {
			if name == "Exp" && i == 3 || name == "GCD" && i > 0 {
				continue
			}
			return []Outcome{{st: st, panicked: true, msg: msgNil, pos: pos}}
		}
	}
	switch name {
	case "Rem", "Quo", "Div", "Mod", "DivMod", "QuoRem":
		y := A.bigAt(st, a[2], pos)
		if y.k != nil && y.k.Sign() != 0 || y.lo != nil && y.lo.Sign() > 0 || y.hi != nil && y.hi.Sign() < 0 {
			break
		}
		t, f := A.decide(&Cond{kind: "cmp", cmp: &CmpInfo{a: y, b: A.bigConst(new(big.Int))}, set: relEQ}, st, pos)
		var outs []Outcome
		if t != nil {
			outs = append(outs, Outcome{st: t, panicked: true, msg: "division by zero", pos: pos})
		}
		if f == nil {
			return outs
		}
		nc := *c
		nc.st = f
		return append(outs, A.bigArith(&nc, name)...)
	}
	return A.bigArith(c, name)
}

// bPart is a quotient or remainder of integers.
func (A *Analysis) bPart(name string, x, y *BigVal) *BigVal {
	if x.k != nil && y.k != nil && y.k.Sign() != 0 {
		r := new(big.Int)
		switch name {
		case "Rem":
			r.Rem(x.k, y.k)
		case "Quo":
			r.Quo(x.k, y.k)
		case "Div":
			r.Div(x.k, y.k)
		}
		return A.bigConst(r)
	}
	if name != "Rem" {
		if q := A.quotient(x, y); q != nil {
			return q
		}
	}
	if name == "Rem" && x.lo != nil && x.lo.Sign() >= 0 {
		return A.bMod(x, y)
	}
	if name == "Rem" && y.k != nil && y.k.Cmp(A.T.mod) == 0 {
		top := new(big.Int).Sub(A.T.mod, big.NewInt(1))
		return &BigVal{t: x.t, lo: negB(top), hi: top, exact: true}
	}
	return &BigVal{t: A.T.uf(name, x.t, y.t)}
}

// bigArith models the methods whose operands are valid.
func (A *Analysis) bigArith(c *callCtx, name string) []Outcome {
	st, a, pos := c.st, c.args, c.pos
	rd := func(i int) *BigVal { return A.bigAt(st, a[i], pos) }
	wr := func(b *BigVal) []Outcome {
		A.setBig(st, a[0], b, pos)
		return one1(st, a[0])
	}
	T := A.T
	switch name {
	case "Set":
		return wr(rd(1))
	case "SetInt64", "SetUint64":
		i := a[1].(VInt)
		if i.sym != nil {
			return wr(&BigVal{t: i.sym})
		}
		k := big.NewInt(i.c)
		if name == "SetUint64" {
			k = new(big.Int).SetUint64(uint64(i.c))
		}
		return wr(A.bigConst(k))
	case "Add":
		return wr(A.bAdd(rd(1), rd(2)))
	case "Sub":
		return wr(A.bSub(rd(1), rd(2)))
	case "Mul":
		return wr(A.bMul(rd(1), rd(2)))
	case "Neg":
		return wr(A.bNeg(rd(1)))
	case "Abs":
		return wr(A.bAbs(rd(1)))
	case "Mod":
		return wr(A.bMod(rd(1), rd(2)))
	case "GCD":
		if _, ok := a[1].(VNil); !ok {
			A.fail(pos, "extended GCD is not modelled")
		}
		if _, ok := a[2].(VNil); !ok {
			A.fail(pos, "extended GCD is not modelled")
		}
		var outs []Outcome
		for _, r := range A.gcd(st, rd(3), rd(4), pos) {
			A.setBig(r.st, a[0], r.b, pos)
			outs = append(outs, Outcome{st: r.st, rets: []Val{a[0]}})
		}
		return outs
	case "Xor":
		x, y := rd(1), rd(2)
		if x.k != nil && y.k != nil {
			return wr(A.bigConst(new(big.Int).Xor(x.k, y.k)))
		}
		if x == y || x.t == y.t && (x.exact && y.exact || x.t.op == OpUF && x.t.name == "num") {
			return wr(A.bigConst(new(big.Int)))
		}
		for i, b := range []*BigVal{x, y} {
			if b.k != nil && b.k.Sign() == 0 {
				return wr([]*BigVal{y, x}[i])
			}
		}
		return wr(&BigVal{t: A.commutes("xor", x.t, y.t)})
	case "Rem", "Quo", "Div":
		return wr(A.bPart(name, rd(1), rd(2)))
	case "DivMod", "QuoRem":
		x, y := rd(1), rd(2)
		q, r := A.bPart("Div", x, y), A.bMod(x, y)
		if name == "QuoRem" {
			q, r = A.bPart("Quo", x, y), A.bPart("Rem", x, y)
		}
		if x.k == nil && A.quotient(x, y) != nil {
			r = A.bigConst(new(big.Int))
		}
		A.setBig(st, a[3], r, pos)
		A.setBig(st, a[0], q, pos)
		return one1(st, a[0], a[3])
	case "Lsh":
		b, n := rd(1), a[2].(VInt)
		if n.sym != nil {
			return wr(&BigVal{t: T.uf("lsh", b.t, n.sym), exact: b.exact})
		}
		p := new(big.Int).Lsh(big.NewInt(1), uint(n.c))
		r := A.bMul(b, A.bigConst(p))
		return wr(r)
	case "Rsh":
		b, n := rd(1), a[2].(VInt)
		if b.k != nil && n.sym == nil {
			return wr(A.bigConst(new(big.Int).Rsh(b.k, uint(n.c))))
		}
		if n.sym == nil && n.c == 0 {
			return wr(b)
		}
		r := &BigVal{t: T.uf("rsh", b.t, A.intTerm(n)), lo: b.lo, hi: b.hi}
		if n.sym == nil && b.hi != nil && b.lo != nil && b.lo.Sign() >= 0 {
			r.lo, r.hi = new(big.Int).Rsh(b.lo, uint(n.c)), new(big.Int).Rsh(b.hi, uint(n.c))
		} else if b.lo == nil || b.lo.Sign() < 0 {
			r.lo, r.hi = nil, nil
		}
		A.reexact(r)
		return wr(r)
	case "ModInverse":
		x, m := rd(1), rd(2)
		if m.k != nil && m.k.Cmp(T.mod) == 0 {
			if x.k != nil {
				if inv := new(big.Int).ModInverse(x.k, m.k); inv != nil {
					return wr(A.bigConst(inv))
				}
				return one1(st, VNil{})
			}
			if st.env.isZero(x.t) {
				// not invertible: receiver unchanged, nil result
				return one1(st, VNil{})
			}
			return wr(A.bigCanon(T.inv(x.t)))
		}
		return wr(&BigVal{t: T.uf("modinverse", x.t, m.t), lo: new(big.Int), hi: m.hi})
	case "Exp":
		x, y := rd(1), rd(2)
		var m *BigVal
		if _, isnil := a[3].(VNil); !isnil {
			m = rd(3)
		}
		if y.k != nil && y.k.Sign() >= 0 && (m == nil || m.k != nil && (m.k.Cmp(T.mod) == 0 || m.k.Sign() == 0)) {
			if x.k != nil {
				var mk *big.Int
				if m != nil {
					mk = m.k
				}
				return wr(A.bigConst(new(big.Int).Exp(x.k, y.k, mk)))
			}
			// square and multiply on terms
			r, b := T.one, x.t
			for i := 0; i < y.k.BitLen(); i++ {
				if y.k.Bit(i) == 1 {
					r = T.mul(r, b)
				}
				b = T.mul(b, b)
			}
			if m == nil || m.k.Sign() == 0 {
				return wr(&BigVal{t: r, exact: x.exact})
			}
			return wr(A.bigCanon(r))
		}
		var mt *Term = T.zero
		if m != nil {
			mt = m.t
		}
		r := &BigVal{t: T.uf("exp", x.t, y.t, mt)}
		if m != nil && m.k != nil && m.k.Sign() > 0 {
			r.lo, r.hi = new(big.Int), new(big.Int).Sub(m.k, big.NewInt(1))
			A.reexact(r)
		}
		return wr(r)
	case "SetString":
		s, ok := a[1].(VStr)
		b, ok2 := a[2].(VInt)
		if ok && ok2 && b.sym == nil && b.c == 10 {
			if v := A.literals[s.s]; v != nil && s.known {
				A.setBig(st, a[0], v, pos)
				return one1(st, a[0], VBool{known: true, b: true})
			}
			if v := A.decVal[s.sym]; v != nil && !s.known {
				A.setBig(st, a[0], v, pos)
				return one1(st, a[0], VBool{known: true, b: true})
			}
		}
		if ok && ok2 && s.known && b.sym == nil {
			k, good := new(big.Int).SetString(s.s, int(b.c))
			if !good {
				return one1(st, VNil{}, VBool{known: true})
			}
			A.setBig(st, a[0], A.bigConst(k), pos)
			return one1(st, a[0], VBool{known: true, b: true})
		}
		// unknown text: either a number or rejected
		bad := st.fork()
		bad.note(pos, "not a number")
		A.setBig(st, a[0], &BigVal{t: T.freshAtom("parsed")}, pos)
		st.note(pos, "a number")
		return []Outcome{{st: st, rets: []Val{a[0], VBool{known: true, b: true}}}, {st: bad, rets: []Val{VNil{}, VBool{known: true}}}}
	case "SetBytes":
		return wr(A.fromBytes(st, a[1], pos))
	case "Sign":
		b := rd(0)
		z := A.bigConst(new(big.Int))
		if b.k != nil {
			return one1(st, VInt{c: int64(b.k.Sign())})
		}
		return one1(st, VInt{sym: T.uf("sign", b.t), cmp: &CmpInfo{a: b, b: z}})
	case "Cmp":
		x, y := rd(0), rd(1)
		if x.k != nil && y.k != nil {
			return one1(st, VInt{c: int64(x.k.Cmp(y.k))})
		}
		return one1(st, VInt{sym: T.uf("cmp", x.t, y.t), cmp: &CmpInfo{a: x, b: y}})
	case "CmpAbs":
		x, y := rd(0), rd(1)
		if x.k != nil && y.k != nil {
			return one1(st, VInt{c: int64(x.k.CmpAbs(y.k))})
		}
		if x.lo != nil && x.lo.Sign() >= 0 && y.lo != nil && y.lo.Sign() >= 0 {
			return one1(st, VInt{sym: T.uf("cmp", x.t, y.t), cmp: &CmpInfo{a: x, b: y}})
		}
		return one1(st, VInt{sym: T.uf("cmpabs", x.t, y.t)})
	case "BitLen":
		b := rd(0)
		if b.k != nil {
			return one1(st, VInt{c: int64(b.k.BitLen())})
		}
		return one1(st, VInt{sym: T.uf("bitlen", b.t)})
	case "Bit":
		b, i := rd(0), a[1].(VInt)
		if b.k != nil && i.sym == nil {
			return one1(st, VInt{c: int64(b.k.Bit(int(i.c)))})
		}
		if b.exact && A.zeroIn(st, b.t) {
			return one1(st, VInt{})
		}
		return one1(st, VInt{sym: T.uf("bit", b.t, A.intTerm(i))})
	case "Bits":
		b := rd(0)
		return one1(st, VBits{b})
	case "Bytes":
		return one1(st, VBytes{A.bAbs(rd(0))})
	case "FillBytes":
		return A.fillBytes(c, rd(0))
	case "Int64", "Uint64":
		b := rd(0)
		if b.k != nil {
			if name == "Int64" {
				return one1(st, VInt{c: b.k.Int64()})
			}
			return one1(st, VInt{c: int64(b.k.Uint64())})
		}
		if b.lo != nil && b.hi != nil && b.lo.IsInt64() && b.hi.IsInt64() {
			return one1(st, VInt{sym: b.t})
		}
		return one1(st, VInt{sym: T.uf("int64", b.t)})
	case "IsInt64", "IsUint64":
		b := rd(0)
		if b.k != nil {
			return one1(st, VBool{known: true, b: b.k.IsInt64()})
		}
		return one1(st, VBool{cond: &Cond{kind: "any", msg: name}})
	case "String", "Text":
		b := rd(0)
		if b.k != nil {
			return one1(st, VStr{known: true, s: b.k.String()})
		}
		return one1(st, A.decimal(b))
	}
	if xs, ns, ok := A.knownArgs(c, name); ok {
		if r, i, isInt, ok := bigKnown(name, xs, ns); ok {
			if isInt {
				return one1(st, VInt{c: i})
			}
			return wr(A.bigConst(r))
		}
	}
	// anything else: arbitrary effect on the receiver, arbitrary results
	if strings.HasPrefix(name, "Set") || c.sig.Results().Len() == 1 && c.sig.Results().At(0).Type().String() == "*math/big.Int" {
		return wr(&BigVal{t: T.freshAtom(name)})
	}
	A.fail(pos, "big.Int method %s is not modelled", name)
	return nil
}
