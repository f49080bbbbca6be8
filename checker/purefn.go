package main

import (
	"math/big"
	"math/bits"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"go/types"
)

// pureFuncs are library functions without effects; on known arguments their
// value is taken from the library itself.
var pureFuncs = map[string]any{
	"strings.Contains": strings.Contains, "strings.ContainsAny": strings.ContainsAny, "strings.ContainsRune": strings.ContainsRune,
	"strings.Count": strings.Count, "strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
	"strings.Index": strings.Index, "strings.IndexAny": strings.IndexAny, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexAny": strings.LastIndexAny, "strings.LastIndexByte": strings.LastIndexByte,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Split": strings.Split, "strings.SplitAfter": strings.SplitAfter,
	"strings.SplitN": strings.SplitN, "strings.Title": strings.Title, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimSpace": strings.TrimSpace, "strings.Compare": strings.Compare, "strings.Join": strings.Join,
	"strings.ToTitle": strings.ToTitle, "strings.Clone": strings.Clone,
	"strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote, "strconv.FormatBool": strconv.FormatBool,
	"strconv.Itoa":    strconv.Itoa,
	"unicode.IsDigit": unicode.IsDigit, "unicode.IsLetter": unicode.IsLetter, "unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper,
	"unicode.IsLower": unicode.IsLower, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl,
	"unicode.IsSymbol": unicode.IsSymbol, "unicode.IsPrint": unicode.IsPrint, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
	"unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString,
	"unicode/utf8.ValidRune": utf8.ValidRune, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.FullRuneInString": utf8.FullRuneInString,
	"math/bits.Len":                 bits.Len, "math/bits.Len64": bits.Len64, "math/bits.Len32": bits.Len32, "math/bits.TrailingZeros": bits.TrailingZeros,
	"math/bits.TrailingZeros64": bits.TrailingZeros64, "math/bits.LeadingZeros": bits.LeadingZeros, "math/bits.LeadingZeros64": bits.LeadingZeros64,
	"math/bits.OnesCount": bits.OnesCount, "math/bits.OnesCount64": bits.OnesCount64, "math/bits.Reverse64": bits.Reverse64,
}

// pureCall evaluates a pure library function on known arguments.
func (A *Analysis) pureCall(c *callCtx) []Outcome {
	f, ok := pureFuncs[c.key]
	if !ok {
		return nil
	}
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(c.args) {
		return nil
	}
	in := make([]reflect.Value, len(c.args))
	for i, a := range c.args {
		t := ft.In(i)
		switch t.Kind() {
		case reflect.String:
			s, ok := a.(VStr)
			if !ok || !s.known {
				return nil
			}
			in[i] = reflect.ValueOf(s.s)
		case reflect.Bool:
			b, ok := a.(VBool)
			if !ok || !b.known {
				return nil
			}
			in[i] = reflect.ValueOf(b.b)
		case reflect.Slice:
			switch a.(type) {
			case VSlice, VNil:
			default:
				return nil
			}
			var l []string
			for _, e := range A.sliceElems(c.st, a) {
				s, ok := e.(VStr)
				if !ok || !s.known {
					return nil
				}
				l = append(l, s.s)
			}
			in[i] = reflect.ValueOf(l)
		default:
			n, ok := a.(VInt)
			if !ok || n.sym != nil || n.cmp != nil {
				return nil
			}
			in[i] = reflect.ValueOf(n.c).Convert(t)
		}
	}
	var rets []Val
	for _, r := range fv.Call(in) {
		switch r.Kind() {
		case reflect.String:
			rets = append(rets, VStr{known: true, s: r.String()})
		case reflect.Bool:
			rets = append(rets, VBool{known: true, b: r.Bool()})
		case reflect.Slice:
			var e []Val
			for i := 0; i < r.Len(); i++ {
				e = append(e, VStr{known: true, s: r.Index(i).String()})
			}
			rets = append(rets, A.sliceOf(c.st, types.Typ[types.String], e))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			rets = append(rets, VInt{c: int64(r.Uint())})
		default:
			rets = append(rets, VInt{c: r.Int()})
		}
	}
	return one1(c.st, rets...)
}

// bigKnown evaluates the remaining methods of *big.Int on known numbers.
func bigKnown(name string, x []*big.Int, n []int64) (r *big.Int, i int64, isInt, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	z := new(big.Int)
	switch {
	case name == "And" && len(x) == 2:
		return z.And(x[0], x[1]), 0, false, true
	case name == "Or" && len(x) == 2:
		return z.Or(x[0], x[1]), 0, false, true
	case name == "AndNot" && len(x) == 2:
		return z.AndNot(x[0], x[1]), 0, false, true
	case name == "Not" && len(x) == 1:
		return z.Not(x[0]), 0, false, true
	case name == "Sqrt" && len(x) == 1:
		return z.Sqrt(x[0]), 0, false, true
	case name == "SetBit" && len(x) == 1 && len(n) == 2:
		return z.SetBit(x[0], int(n[0]), uint(n[1])), 0, false, true
	case name == "MulRange" && len(n) == 2:
		return z.MulRange(n[0], n[1]), 0, false, true
	case name == "TrailingZeroBits" && len(x) == 1:
		return nil, int64(x[0].TrailingZeroBits()), true, true
	}
	return nil, 0, false, false
}

// knownArgs are the arguments of a big.Int method when all are known numbers.
func (A *Analysis) knownArgs(c *callCtx, name string) (xs []*big.Int, ns []int64, ok bool) {
	for i, a := range c.args {
		if i == 0 && name != "TrailingZeroBits" {
			continue
		}
		switch a := a.(type) {
		case VInt:
			if a.sym != nil || a.cmp != nil {
				return nil, nil, false
			}
			ns = append(ns, a.c)
		default:
			b := A.bigAt(c.st, a, c.pos)
			if b == nil || c.st.latest(b).k == nil {
				return nil, nil, false
			}
			xs = append(xs, c.st.latest(b).k)
		}
	}
	return xs, ns, true
}
