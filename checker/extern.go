package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// builtin models the predeclared functions.
func (A *Analysis) builtin(st *State, b *ssa.Builtin, args []Val, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case VNil:
			return one1(st, VInt{})
		case VSlice:
			if b.Name() == "cap" {
				return one1(st, VInt{c: int64(x.cap)})
			}
			return one1(st, VInt{c: int64(x.len)})
		case VStr:
			if x.known {
				return one1(st, VInt{c: int64(len(x.s))})
			}
			return one1(st, VInt{sym: A.T.freshAtom("strlen")})
		case VMap:
			return one1(st, VInt{c: int64(len(st.get(x.obj).val.(VMapV).keys))})
		case VArr:
			return one1(st, VInt{c: int64(len(x.e))})
		case VPtr:
			if a, ok := loadPath(st.get(x.obj).val, x.path).(VArr); ok {
				return one1(st, VInt{c: int64(len(a.e))})
			}
		case VBytes:
			return one1(st, A.lenVal(x.b, 8))
		case VBits:
			return one1(st, A.lenVal(x.b, 64))
		case SymSlice:
			return one1(st, VInt{c: int64(x.len)})
		}
		A.fail(pos, "len of %T", args[0])
	case "append":
		return A.appendB(st, b, args, pos)
	case "copy":
		return A.copyB(st, args, pos)
	case "delete":
		A.mapDelete(st, args[0], args[1], pos)
		return one1(st)
	case "close":
		if ch, ok := args[0].(VChan); ok {
			o := *st.get(ch.obj)
			if q, ok := o.val.(VQueue); ok {
				if q.closed {
					return []Outcome{{st: st, panicked: true, msg: "close of closed channel", pos: pos}}
				}
				o.val = VQueue{q.q, true, q.cap}
				st.set(ch.obj, &o)
				A.sends(st, ch.obj, true, pos)
			}
		}
		return one1(st)
	case "clear":
		switch x := args[0].(type) {
		case VNil:
			return one1(st)
		case VMap:
			o := *st.get(x.obj)
			o.val = VMapV{}
			st.set(x.obj, &o)
			return one1(st)
		}
		A.fail(pos, "clear of %T", args[0])
	case "print", "println":
		return one1(st)
	case "recover":
		return one1(st, VNil{})
	case "min", "max":
		r := args[0].(VInt)
		for _, a := range args[1:] {
			i := a.(VInt)
			if i.sym != nil || r.sym != nil {
				A.fail(pos, "min/max of symbolic")
			}
			if (b.Name() == "min") == (i.c < r.c) {
				r = i
			}
		}
		return one1(st, r)
	case "ssa:wrapnilchk":
		return one1(st, args[0])
	}
	A.fail(pos, "builtin %s", b.Name())
	return nil
}

// lenVal is the length of Bytes() or Bits().
func (A *Analysis) lenVal(b *BigVal, unit int) VInt {
	if b.k != nil {
		return VInt{c: int64((b.k.BitLen() + unit - 1) / unit)}
	}
	n := "bytelen"
	if unit == 64 {
		n = "wordlen"
	}
	return VInt{sym: A.T.uf(n, b.t), cmp: &CmpInfo{a: b, unit: unit}}
}

func (A *Analysis) appendB(st *State, b *ssa.Builtin, args []Val, pos token.Pos) []Outcome {
	sig := b.Type().(*types.Signature)
	et := types.Type(nil)
	if sl, ok := sig.Params().At(0).Type().Underlying().(*types.Slice); ok {
		et = sl.Elem()
	}
	if s, ok := args[1].(VStr); ok {
		if !s.known {
			A.fail(pos, "append of unknown string")
		}
		var e []Val
		for _, c := range []byte(s.s) {
			e = append(e, VInt{c: int64(c)})
		}
		args[1] = A.sliceOf(st, et, e)
	}
	add := A.sliceElems(st, args[1])
	switch args[1].(type) {
	case VSlice, VNil:
	default:
		A.fail(pos, "append of %T", args[1])
	}
	switch s := args[0].(type) {
	case VNil:
		if len(add) == 0 {
			return one1(st, args[0])
		}
		return one1(st, A.sliceOf(st, et, add))
	case VSlice:
		if len(add) == 0 {
			return one1(st, s)
		}
		if s.len+len(add) <= s.cap {
			o := *st.get(s.obj)
			arr := loadPath(o.val, s.path).(VArr)
			if o.frozen != "" {
				A.event(st, "mutates", "append into "+o.frozen, pos)
			}
			e := append([]Val{}, arr.e...)
			for i, v := range add {
				e[s.off+s.len+i] = v
			}
			o.val = storePath(o.val, s.path, VArr{e})
			st.set(s.obj, &o)
			return one1(st, VSlice{s.obj, s.path, s.off, s.len + len(add), s.cap})
		}
		old := A.sliceElems(st, s)
		n := append(append([]Val{}, old...), add...)
		// the runtime over-allocates; later appends may share the new array
		r := A.sliceOf(st, et, n)
		spare := len(n) // capacity 2n
		o := *st.get(r.obj)
		e := append([]Val{}, n...)
		z := A.zeroVal(et)
		for i := 0; i < spare; i++ {
			e = append(e, z)
		}
		o.val = VArr{e}
		st.set(r.obj, &o)
		r.cap = len(e)
		return one1(st, r)
	}
	A.fail(pos, "append to %T", args[0])
	return nil
}

func (A *Analysis) errVal(name string) Val {
	return VIface{types.Universe.Lookup("error").Type(), VOpaque{"error:" + name}}
}

var zeroRet = map[string]bool{}

func (A *Analysis) external(c *callCtx) []Outcome {
	st, key, a := c.st, c.key, c.args
	if strings.HasPrefix(key, "(*math/big.Int).") {
		return A.bigMethod(c, strings.TrimPrefix(key, "(*math/big.Int)."))
	}
	if o := A.pureCall(c); o != nil {
		return o
	}
	str := func(i int) (string, bool) {
		s, ok := a[i].(VStr)
		return s.s, ok && s.known
	}
	bl := func(b bool) []Outcome { return one1(st, VBool{known: true, b: b}) }
	in := func(i int) []Outcome { return one1(st, VInt{c: int64(i)}) }
	sv := func(s string) []Outcome { return one1(st, VStr{known: true, s: s}) }
	switch key {
	case "math/big.NewInt":
		i := a[0].(VInt)
		if i.sym != nil {
			return one1(st, A.newBig(st, &BigVal{t: i.sym}, c.pos))
		}
		return one1(st, A.newBig(st, A.bigConst(big.NewInt(i.c)), c.pos))
	case "crypto/rand.Int":
		m := A.bigAt(st, a[1], c.pos)
		bad := st.fork()
		bad.note(c.pos, "random source fails")
		b := &BigVal{t: A.T.freshAtom("rand"), lo: new(big.Int)}
		if m.hi != nil {
			b.hi = new(big.Int).Sub(m.hi, big.NewInt(1))
		}
		A.reexact(b)
		r := A.newBig(st, b, c.pos)
		return []Outcome{{st: st, rets: []Val{r, VNil{}}}, {st: bad, rets: []Val{VNil{}, A.errVal("rand")}}}
	case "bytes.Equal":
		return A.bytesEqual(c)
	case "errors.New":
		n := "?"
		if s, ok := str(0); ok {
			n = s
		}
		return one1(st, A.errVal(n))
	case "fmt.Errorf":
		return one1(st, A.errVal("errorf"))
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return one1(st, A.sprintf(c))
	case "strings.Contains":
		x, ok1 := str(0)
		y, ok2 := str(1)
		if ok1 && ok2 {
			return bl(strings.Contains(x, y))
		}
		return one1(st, VBool{cond: &Cond{kind: "any", msg: "strings.Contains"}})
	case "strings.HasPrefix", "strings.HasSuffix", "strings.EqualFold", "strings.ContainsAny":
		x, ok1 := str(0)
		y, ok2 := str(1)
		if ok1 && ok2 {
			switch key {
			case "strings.HasPrefix":
				return bl(strings.HasPrefix(x, y))
			case "strings.HasSuffix":
				return bl(strings.HasSuffix(x, y))
			case "strings.EqualFold":
				return bl(strings.EqualFold(x, y))
			}
			return bl(strings.ContainsAny(x, y))
		}
		return one1(st, VBool{cond: &Cond{kind: "any", msg: key}})
	case "strings.Index", "strings.Count", "strings.Compare", "strings.LastIndex":
		x, ok1 := str(0)
		y, ok2 := str(1)
		if ok1 && ok2 {
			switch key {
			case "strings.Index":
				return in(strings.Index(x, y))
			case "strings.Count":
				return in(strings.Count(x, y))
			case "strings.LastIndex":
				return in(strings.LastIndex(x, y))
			}
			return in(strings.Compare(x, y))
		}
		if key == "strings.Compare" {
			if r, ok := A.strCompare(a[0].(VStr), a[1].(VStr)); ok {
				return in(r)
			}
		}
	case "strings.ContainsRune":
		x, ok := str(0)
		if r, ok2 := a[1].(VInt); ok && ok2 && r.sym == nil {
			return bl(strings.ContainsRune(x, rune(r.c)))
		}
	case "strings.IndexByte":
		x, ok := str(0)
		if r, ok2 := a[1].(VInt); ok && ok2 && r.sym == nil {
			return in(strings.IndexByte(x, byte(r.c)))
		}
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		if x, ok := str(0); ok {
			switch key {
			case "strings.TrimSpace":
				return sv(strings.TrimSpace(x))
			case "strings.ToLower":
				return sv(strings.ToLower(x))
			}
			return sv(strings.ToUpper(x))
		}
		return one1(st, VStr{})
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.Trim":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 {
			switch key {
			case "strings.TrimPrefix":
				return sv(strings.TrimPrefix(x, y))
			case "strings.TrimSuffix":
				return sv(strings.TrimSuffix(x, y))
			}
			return sv(strings.Trim(x, y))
		}
		return one1(st, VStr{})
	case "strings.Repeat":
		if x, ok := str(0); ok {
			if n, ok := a[1].(VInt); ok && n.sym == nil && n.c >= 0 && n.c < 10000 {
				return sv(strings.Repeat(x, int(n.c)))
			}
		}
		return one1(st, VStr{})
	case "strings.ReplaceAll":
		x, ok := str(0)
		y, ok2 := str(1)
		z, ok3 := str(2)
		if ok && ok2 && ok3 {
			return sv(strings.ReplaceAll(x, y, z))
		}
		return one1(st, VStr{})
	case "strings.Join":
		sep, ok := str(1)
		var parts []string
		for _, e := range A.sliceElems(st, a[0]) {
			s, k := e.(VStr)
			if !k || !s.known {
				ok = false
				break
			}
			parts = append(parts, s.s)
		}
		if ok {
			return sv(strings.Join(parts, sep))
		}
		return one1(st, VStr{})
	case "strings.Split":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 {
			var e []Val
			for _, s := range strings.Split(x, y) {
				e = append(e, VStr{known: true, s: s})
			}
			return one1(st, A.sliceOf(st, types.Typ[types.String], e))
		}
	case "strconv.Itoa":
		if i, ok := a[0].(VInt); ok && i.sym == nil {
			return sv(strconv.Itoa(int(i.c)))
		}
		return one1(st, VStr{})
	case "strconv.Atoi":
		if x, ok := str(0); ok {
			n, err := strconv.Atoi(x)
			if err != nil {
				return one1(st, VInt{}, A.errVal("atoi"))
			}
			return one1(st, VInt{c: int64(n)}, VNil{})
		}
		bad := st.fork()
		return []Outcome{{st: st, rets: []Val{VInt{sym: A.T.freshAtom("atoi")}, VNil{}}}, {st: bad, rets: []Val{VInt{}, A.errVal("atoi")}}}
	case "strconv.ParseInt":
		if x, ok := str(0); ok {
			b, ok1 := a[1].(VInt)
			s, ok2 := a[2].(VInt)
			if ok1 && ok2 && b.sym == nil && s.sym == nil {
				n, err := strconv.ParseInt(x, int(b.c), int(s.c))
				if err != nil {
					return one1(st, VInt{c: n}, A.errVal("parseint"))
				}
				return one1(st, VInt{c: n}, VNil{})
			}
		}
	case "unicode.IsDigit", "unicode.IsLetter", "unicode.IsSpace", "unicode.IsUpper", "unicode.IsLower":
		if r, ok := a[0].(VInt); ok && r.sym == nil {
			switch key {
			case "unicode.IsDigit":
				return bl(unicode.IsDigit(rune(r.c)))
			case "unicode.IsLetter":
				return bl(unicode.IsLetter(rune(r.c)))
			case "unicode.IsUpper":
				return bl(unicode.IsUpper(rune(r.c)))
			case "unicode.IsLower":
				return bl(unicode.IsLower(rune(r.c)))
			}
			return bl(unicode.IsSpace(rune(r.c)))
		}
		return one1(st, VBool{cond: &Cond{kind: "any", msg: key}})
	case "unicode/utf8.DecodeRuneInString":
		if x, ok := str(0); ok {
			r, n := decodeRune(x)
			return one1(st, VInt{c: int64(r)}, VInt{c: int64(n)})
		}
	case "unicode/utf8.DecodeLastRuneInString":
		if x, ok := str(0); ok {
			r, n := utf8.DecodeLastRuneInString(x)
			return one1(st, VInt{c: int64(r)}, VInt{c: int64(n)})
		}
	case "time.Now", "time.Since", "(time.Time).Sub", "(time.Duration).String", "(time.Duration).Seconds", "(time.Duration).Milliseconds":
		return one1(st, VOpaque{"time"})
	case "crypto/sha256.New":
		return one1(st, A.newHash(st, "sha256"))
	case "crypto/md5.New":
		return one1(st, A.newHash(st, "md5"))
	case "sort.Sort", "sort.Stable":
		return A.sortSort(c)
	case "crypto/sha256.Sum256", "crypto/md5.Sum", "crypto/sha1.Sum", "crypto/sha512.Sum512":
		return A.hashSum(c)
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable":
		return A.sortCall(c)
	case "encoding/hex.EncodeToString":
		return one1(st, VStr{sym: A.T.freshAtom("hex")})
	case "os.Exit":
		return nil2()
	case "runtime.Gosched", "runtime.GC":
		return one1(st)
	}
	switch {
	case strings.HasPrefix(key, "fmt.Print"), strings.HasPrefix(key, "fmt.Fprint"):
		if A.onPrint != nil {
			A.onPrint(c)
		}
		var r []Val
		for i := 0; i < c.sig.Results().Len(); i++ {
			r = append(r, A.zeroVal(c.sig.Results().At(i).Type()))
		}
		return one1(st, r...)
	case strings.HasPrefix(key, "(*sync.RWMutex)."), strings.HasPrefix(key, "(*sync.Mutex)."):
		if _, isnil := a[0].(VNil); isnil {
			return []Outcome{{st: st, panicked: true, msg: "nil lock", pos: c.pos}}
		}
		return one1(st)
	case strings.HasPrefix(key, "log."):
		return one1(st)
	case strings.HasPrefix(key, "(*strings.Builder)."), strings.HasPrefix(key, "(*bytes.Buffer)."):
		return A.builder(c)
	case strings.HasSuffix(key, ".init"):
		return one1(st)
	case strings.HasPrefix(key, "(error).Error"), strings.HasSuffix(key, ").Error"):
		return one1(st, VStr{})
	}
	if c.fn != nil && c.fn.Blocks != nil && A.P.isLibrary(fnPkg(c.fn)) && len(A.stack) < 220 {
		// library code written in Go is interpreted like the repository's
		A.stack = append(A.stack, c.fn)
		defer func() { A.stack = A.stack[:len(A.stack)-1] }()
		return A.exec(c.fn, c.args, c.bind, st)
	}
	A.fail(c.pos, "call of %s is not modelled", key)
	return nil
}

func nil2() []Outcome { return []Outcome{} }

func decodeRune(s string) (rune, int) {
	for _, r := range s {
		n := len(string(r))
		if r == unicode.ReplacementChar {
			n = 1
		}
		return r, n
	}
	return unicode.ReplacementChar, 0
}

// builder models strings.Builder and bytes.Buffer as an accumulated string.
func (A *Analysis) builder(c *callCtx) []Outcome {
	st := c.st
	p, ok := c.args[0].(VPtr)
	if !ok {
		return []Outcome{{st: st, panicked: true, msg: msgNil, pos: c.pos}}
	}
	o := *st.get(p.obj)
	cur := loadPath(o.val, p.path)
	s, isStr := cur.(VStr)
	if !isStr {
		s = VStr{known: true}
	}
	put := func(n VStr) {
		o.val = storePath(o.val, p.path, n)
		st.set(p.obj, &o)
	}
	name := c.key[strings.LastIndex(c.key, ".")+1:]
	switch name {
	case "WriteString", "WriteByte", "WriteRune", "Write":
		var add VStr
		switch x := c.args[1].(type) {
		case VStr:
			add = x
		case VInt:
			if x.sym == nil {
				if name == "WriteByte" {
					add = VStr{known: true, s: string([]byte{byte(x.c)})}
				} else {
					add = VStr{known: true, s: string(rune(x.c))}
				}
			}
		case VSlice:
			add = VStr{known: true}
			for _, e := range A.sliceElems(st, x) {
				i, ok := e.(VInt)
				if !ok || i.sym != nil {
					add = VStr{}
					break
				}
				add.s += string([]byte{byte(i.c)})
			}
		case VBytes:
			add = VStr{sym: A.T.uf("bytes", x.b.t)}
		case VNil:
			add = VStr{known: true}
		}
		if s.known && add.known {
			put(VStr{known: true, s: s.s + add.s})
		} else {
			put(VStr{sym: A.T.uf("cat", A.strTerm(s), A.strTerm(add))})
		}
		var r []Val
		for i := 0; i < c.sig.Results().Len(); i++ {
			r = append(r, A.zeroVal(c.sig.Results().At(i).Type()))
		}
		return one1(st, r...)
	case "String":
		return one1(st, s)
	case "Bytes":
		if s.known {
			var e []Val
			for _, b := range []byte(s.s) {
				e = append(e, VInt{c: int64(b)})
			}
			return one1(st, A.sliceOf(st, types.Typ[types.Uint8], e))
		}
		id := A.alloc(st, &Obj{val: VStr{sym: s.sym}})
		return one1(st, SymSlice{obj: id})
	case "Len":
		if s.known {
			return one1(st, VInt{c: int64(len(s.s))})
		}
	case "Reset":
		put(VStr{known: true})
		return one1(st)
	case "Grow":
		return one1(st)
	}
	A.fail(c.pos, "%s is not modelled", c.key)
	return nil
}

func (A *Analysis) strTerm(s VStr) *Term {
	if s.known {
		return A.T.konst(A.T.hash("str", s.s))
	}
	if s.sym == nil {
		return A.T.freshAtom("str")
	}
	return s.sym
}

// lossyVerb matches the verbs which do not show all of their operand.
var lossyVerb = regexp.MustCompile(`%[-+# 0]*[0-9]*(\.[0-9]+[svqxXdgefGEF]|[cUtTp])`)

func (A *Analysis) sprintf(c *callCtx) VStr {
	st := c.st
	isF := c.key == "fmt.Sprintf"
	format := ""
	rest := c.args[0]
	if isF {
		s, ok := c.args[0].(VStr)
		if !ok || !s.known {
			return VStr{}
		}
		format = s.s
		rest = c.args[1]
	}
	var vals []any
	symbolic := false
	var ts []*Term
	for _, e := range A.sliceElems(st, rest) {
		v, ok := A.goValue(st, e)
		if !ok {
			symbolic = true
			if iv, ok := e.(VIface); ok {
				if s, ok := iv.v.(VStr); ok {
					ts = append(ts, A.strTerm(s))
					continue
				}
				if i, ok := iv.v.(VInt); ok {
					ts = append(ts, A.intTerm(i))
					continue
				}
				if p, ok := iv.v.(VPtr); ok {
					if b, ok := loadPath(st.get(p.obj).val, p.path).(VBig); ok {
						ts = append(ts, A.decimal(b.b).sym)
						continue
					}
				}
				if b, ok := iv.v.(VBytes); ok {
					ts = append(ts, A.T.uf("bytes", A.decimal(b.b).sym))
					continue
				}
			}
			if A.strictFmt {
				t, ok := A.fmtTerm(st, e)
				if !ok {
					A.fail(c.pos, "a formatted operand is not modelled")
				}
				ts = append(ts, t)
				continue
			}
			ts = append(ts, A.T.freshAtom("fmtarg"))
			continue
		}
		ts = append(ts, A.T.konst(A.T.hash("str", fmt.Sprint(v))))
		vals = append(vals, v)
	}
	if symbolic {
		if A.strictFmt && lossyVerb.MatchString(format) {
			A.fail(c.pos, "a format that does not show its whole operand is not modelled")
		}
		return A.symStr(A.T.uf("fmt:"+format, ts...))
	}
	if isF {
		return VStr{known: true, s: fmt.Sprintf(format, vals...)}
	}
	if c.key == "fmt.Sprintln" {
		return VStr{known: true, s: fmt.Sprintln(vals...)}
	}
	return VStr{known: true, s: fmt.Sprint(vals...)}
}

// fmtTerm is the text that a formatted operand leaves, as a term.
func (A *Analysis) fmtTerm(st *State, v Val) (*Term, bool) {
	if x, ok := v.(VIface); ok && x.t != nil {
		_, isS := x.v.(VStruct)
		_, isL := x.v.(VSlice)
		if fn := A.stringMethod(x.t); fn != nil && (isS || isL) {
			outs := A.call(fn, []Val{x.v}, nil, st.fork(), token.NoPos)
			if len(outs) != 1 || outs[0].panicked {
				return nil, false
			}
			s, ok := outs[0].rets[0].(VStr)
			return A.strTerm(s), ok
		}
		if l, ok := x.t.Underlying().(*types.Slice); ok && isL {
			var ts []*Term
			for _, e := range A.sliceElems(st, x.v) {
				t, ok := A.fmtTerm(st, VIface{t: l.Elem(), v: e})
				if !ok {
					return nil, false
				}
				ts = append(ts, t)
			}
			return A.T.uf("fmt list", ts...), true
		}
		if l, ok := x.t.Underlying().(*types.Struct); ok && isS {
			var ts []*Term
			for i, e := range x.v.(VStruct).f {
				t, ok := A.fmtTerm(st, VIface{t: l.Field(i).Type(), v: e})
				if !ok {
					return nil, false
				}
				ts = append(ts, t)
			}
			return A.T.uf("fmt struct", ts...), true
		}
		return A.fmtTerm(st, x.v)
	}
	switch x := v.(type) {
	case VStr:
		return A.strTerm(x), true
	case VInt:
		return A.intTerm(x), true
	case VBytes:
		return A.T.uf("bytes", A.decimal(x.b).sym), true
	case VPtr:
		if b, ok := loadPath(st.get(x.obj).val, x.path).(VBig); ok {
			return A.decimal(b.b).sym, true
		}
	}
	if g, ok := A.goValue(st, v); ok {
		return A.T.konst(A.T.hash("str", fmt.Sprint(g))), true
	}
	return nil, false
}

// goValue converts a fully known abstract value to a Go value for formatting.
func (A *Analysis) goValue(st *State, v Val) (any, bool) {
	switch x := v.(type) {
	case VIface:
		if x.t == nil {
			return nil, true
		}
		if i, ok := x.v.(VInt); ok && i.sym == nil {
			// named integer types with a String method
			if fn := A.stringMethod(x.t); fn != nil {
				outs := A.call(fn, []Val{x.v}, nil, st.fork(), token.NoPos)
				if len(outs) == 1 && !outs[0].panicked {
					if s, ok := outs[0].rets[0].(VStr); ok && s.known {
						return s.s, true
					}
				}
				return nil, false
			}
			if b, ok := x.t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				return uint64(i.c), true
			}
			return i.c, true
		}
		if _, ok := x.v.(VStruct); ok {
			if fn := A.stringMethod(x.t); fn != nil {
				outs := A.call(fn, []Val{x.v}, nil, st.fork(), token.NoPos)
				if len(outs) == 1 && !outs[0].panicked {
					if s, ok := outs[0].rets[0].(VStr); ok && s.known {
						return s.s, true
					}
				}
			}
			return nil, false
		}
		return A.goValue(st, x.v)
	case VInt:
		if x.sym == nil {
			return x.c, true
		}
	case VStr:
		if x.known {
			return x.s, true
		}
	case VBool:
		if x.known {
			return x.b, true
		}
	case VNil:
		return nil, true
	case VPtr:
		o := st.get(x.obj)
		if o != nil {
			if b, ok := loadPath(o.val, x.path).(VBig); ok && b.b.k != nil {
				return b.b.k, true
			}
		}
	}
	return nil, false
}

func (A *Analysis) stringMethod(t types.Type) *ssa.Function {
	if n, ok := t.(*types.Named); !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		return nil
	}
	sel := A.P.prog.MethodSets.MethodSet(t).Lookup(nil, "String")
	if sel == nil {
		return nil
	}
	return A.P.prog.MethodValue(sel)
}

// hashSum models a cryptographic hash as an injective function of its input.
func (A *Analysis) hashSum(c *callCtx) []Outcome {
	n := c.sig.Results().At(0).Type().Underlying().(*types.Array).Len()
	t := A.bytesTerm(c.st, c.args[0], c.pos)
	e := make([]Val, n)
	for i := range e {
		e[i] = VInt{sym: A.T.uf(fmt.Sprintf("%s[%d]", c.key, i), t)}
		if t.op == OpConst {
			// concrete input: a concrete, collision free value
			h := A.T.hash("hash", c.key, t.k.String(), fmt.Sprint(i))
			e[i] = VInt{c: int64(new(big.Int).And(h, big.NewInt(255)).Int64())}
		}
	}
	return one1(c.st, VArr{e})
}

func (A *Analysis) bytesTerm(st *State, v Val, pos token.Pos) *Term {
	switch x := v.(type) {
	case VNil:
		return A.T.konst(A.T.hash("str", ""))
	case VBytes:
		return A.T.uf("bytes", x.b.t)
	case SymSlice:
		if s, ok := st.get(x.obj).val.(VStr); ok {
			return A.strTerm(s)
		}
	case VSlice:
		var bs []byte
		var ts []*Term
		known := true
		for _, e := range A.sliceElems(st, x) {
			i, ok := e.(VInt)
			if !ok {
				A.fail(pos, "hash of unknown bytes")
			}
			if i.sym != nil {
				known = false
			}
			bs = append(bs, byte(i.c))
			ts = append(ts, A.intTerm(i))
		}
		if known {
			return A.T.konst(A.T.hash("str", string(bs)))
		}
		return A.T.uf("bytes", ts...)
	}
	A.fail(pos, "bytes of %T", v)
	return nil
}

func (A *Analysis) sortCall(c *callCtx) []Outcome {
	st := c.st
	s, ok := c.args[0].(VSlice)
	if !ok {
		if iv, ok2 := c.args[0].(VIface); ok2 {
			s, ok = iv.v.(VSlice)
			if _, isnil := iv.v.(VNil); isnil {
				return one1(st)
			}
		}
	}
	if !ok {
		if _, isnil := c.args[0].(VNil); isnil {
			return one1(st)
		}
		A.fail(c.pos, "sort of %T", c.args[0])
	}
	el := append([]Val{}, A.sliceElems(st, s)...)
	var less func(i, j int) bool
	write := func() {
		o := *st.get(s.obj)
		arr := append([]Val{}, loadPath(o.val, s.path).(VArr).e...)
		copy(arr[s.off:], el)
		o.val = storePath(o.val, s.path, VArr{arr})
		st.set(s.obj, &o)
	}
	if c.key == "sort.Slice" || c.key == "sort.SliceStable" {
		less = func(i, j int) bool {
			write()
			outs := A.invoke(st, c.args[1], []Val{VInt{c: int64(i)}, VInt{c: int64(j)}}, c.pos)
			if len(outs) != 1 || outs[0].panicked {
				A.fail(c.pos, "sort comparison splits")
			}
			b, ok := outs[0].rets[0].(VBool)
			if !ok || !b.known {
				A.fail(c.pos, "sort comparison unknown")
			}
			return b.b
		}
	} else {
		less = func(i, j int) bool {
			switch x := el[i].(type) {
			case VStr:
				y := el[j].(VStr)
				if x.known && y.known {
					return x.s < y.s
				}
			case VInt:
				y := el[j].(VInt)
				if x.sym == nil && y.sym == nil {
					return x.c < y.c
				}
			}
			A.fail(c.pos, "sort of unknown values")
			return false
		}
	}
	for i := 1; i < len(el); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			el[j], el[j-1] = el[j-1], el[j]
		}
	}
	write()
	return one1(st)
}
