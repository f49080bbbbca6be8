package main

import (
	"fmt"
	"go/constant"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// D07: lexing ends, and the tokens are the text.

type ltok struct{ kind, text string }

var lexKeywords = map[string]string{"return": "RETURN", "var": "VARIABLE_DECLARE", "if": "IF", "else": "ELSE", "for": "FOR",
	"func": "FUNCTION_DEFINE", "import": "IMPORT", "public": "PUBLIC"}
var lexOperators = map[string]string{}

func init() {
	for k, ops := range map[string]string{"AssignmentOperatorToken": "= -= += *= /=", "ArithmeticOperatorToken": "- + * /", "BooleanOperatorToken": "|| &&",
		"BitOperatorToken": ">> <<", "BinaryComperatorToken": "== != > >= < <="} {
		for _, o := range strings.Fields(ops) {
			lexOperators[o] = k
		}
	}
}

// lexRef is the reference: the tokens of a text, or false when the text is refused.
func lexRef(s string) (out []ltok, ok bool) {
	word := func(b byte) bool {
		return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	emit := func(k, t string) { out = append(out, ltok{k, t}) }
	i := 0
	for i < len(s) {
		c := s[i]
		j := i
		switch {
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c >= '0' && c <= '9':
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			emit("NumberToken", s[i:j])
			i = j
		case strings.IndexByte("():,;\n{}[]", c) >= 0:
			emit("SyntaxToken", s[i:i+1])
			i++
		case c == '"':
			k := strings.IndexByte(s[i+1:], '"')
			if k < 0 {
				return out, false
			}
			emit("IDENTIFIER_VARIABLE", s[i+1:i+1+k])
			i += k + 2
		case i+2 <= len(s) && lexOperators[s[i:i+2]] != "":
			emit(lexOperators[s[i:i+2]], s[i:i+2])
			i += 2
		case lexOperators[s[i:i+1]] != "":
			emit(lexOperators[s[i:i+1]], s[i:i+1])
			i++
		case c == '#':
			for j < len(s) && s[j] != '\n' {
				j++
			}
			emit("CommentToken", s[i:j])
			i = j
		case word(c):
			for j < len(s) && word(s[j]) {
				j++
			}
			w := s[i:j]
			switch {
			case lexKeywords[w] != "":
				emit(lexKeywords[w], w)
			case j < len(s) && s[j] == '(':
				emit("FUNCTION_CALL", w)
			default:
				emit("IDENTIFIER_VARIABLE", w)
			}
			i = j
		default:
			return out, false
		}
	}
	return out, true
}

// collapse: of consecutive line breaks the consumer sees the first one.
func collapse(in []ltok) (out []ltok) {
	nl := false
	for _, t := range in {
		if t.text == "\n" {
			if nl {
				continue
			}
			nl = true
		} else {
			nl = false
		}
		out = append(out, t)
	}
	return
}

// lexTexts are all sequences of classes of runes up to a length, and longer texts for every kind of token.
func lexTexts(thorough bool) (out []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	add("")
	var full []string
	for c := 0; c < 128; c++ {
		// letters and digits: the borders of their ranges, and some inside
		if c >= 'b' && c <= 'y' && c != 'i' && c != 'f' || c >= 'B' && c <= 'Y' && c != 'M' || c >= '2' && c <= '8' && c != '5' || c < 32 && c != 0 && c != 1 && c != 31 && (c < 8 || c > 14) {
			continue
		}
		full = append(full, string(rune(c)))
	}
	full = append(full, "é", "中", "😀", "\uFFFD", "\x80", "\xff", "\xc3", "\u00a0", "\u0663")
	for _, a := range full {
		add(a)
		for _, b := range full {
			add(a + b)
		}
	}
	few := []string{"a", "9", "_", " ", "\n", "\t", "(", "}", "=", "-", "!", "&", "<", "\"", "#", "é", "\xff", "\r", ";"}
	// inside of every kind of token, every class may come next and must not change what follows
	for _, a := range []string{"a", "9", "#", "\"", " ", "(", "<", "="} {
		for _, b := range full {
			for _, c := range []string{"a", "1", " ", "\n", "\"", "=", "\r"} {
				add(a + b + c)
			}
		}
	}
	if thorough {
		few = append(few, "Z", "0", "+", "*", "/", ">", "|", "$", "if", "for")
	}
	for _, a := range few {
		for _, b := range few {
			for _, c := range few {
				add(a + b + c)
			}
		}
	}
	{
		four := []string{"a", " ", "\n", "=", "\"", "#", "\r"}
		if thorough {
			four = append(four, "9", "(", "&", "é", "\xff")
		}
		for _, a := range four {
			for _, b := range four {
				for _, c := range four {
					for _, d := range four {
						add(a + b + c + d)
					}
				}
			}
		}
	}
	var ws []string
	for k := range lexKeywords {
		ws = append(ws, k)
	}
	sort.Strings(ws)
	for _, k := range ws {
		for _, f := range []string{"", "(", " (", "x", "1", "_", "\n", "é", "\xff", "\"", "=", "#"} {
			add(k + f)
			add("x" + k + f)
			add(strings.ToUpper(k[:1]) + k[1:] + f)
			add(k[:len(k)-1] + f)
		}
	}
	long := strings.Repeat("0123456789", 9)
	name := strings.Repeat("aZ_9", 20)
	for _, s := range []string{long, name, name + "(", "#" + name + " é \xff #\n" + long, "\"" + name + " \n \xff é\"" + long, "\"" + name + "\n", "#" + long, "##\n\n#", strings.Repeat("\n", 9) + "a" + strings.Repeat("\n ", 5) + "b",
		strings.Repeat(" \t\r", 9) + "a", strings.Repeat("()", 12), strings.Repeat("=", 9), strings.Repeat("<", 7) + strings.Repeat(">=", 5), strings.Repeat("-", 5) + strings.Repeat("+=", 3) + "=",
		"a&&b||c", "a&b", "a|b", "a!b", "a!=b", "!", "a=>b", "a=<b", "a<-b", "1a1", "1_1", "_1", "a.b", "a\\b", "'a'", "a\x00b", "x é y", "x = \xff", "x#é\ny", "\"é\"", "\"\"", "\"\"\"", "\"\"\"\"", "a\"b\"c", "\"a\"(", "f(x)(y)", "f (x)", "if(", "if (", "func(a){return a}",
		"func main(x,public y){\nvar a[2]={1,x}\nfor(i=0;i<2;i+=1){a[i]*=x>>3}\n#c\nreturn a[1]/y\n}"} {
		add(s)
	}
	return out
}

func checkLexer(R *Report) {
	R.rule = "For a source text, the lexer is interpreted from New over StartSync, and over Start with NextToken as consumer. Every path must end: with the token channel closed and exactly the tokens of the reference (numbers and words of maximal length, two-character operators before one-character ones, keywords, words before a bracket as calls, quoted text, comments up to the end of the line, blanks skipped, of consecutive line breaks one), each with the text at its place; or with a refusal exactly where the reference finds no token. Without a consumer no token may exceed the capacity of the channel."
	R.bounds = "all texts of up to two runes over all classes of runes that the lexer distinguishes (all borders of ranges, every ASCII symbol, multi-byte runes, invalid bytes), all texts of three runes over 19 classes (thorough: 29), of three runes with any class in the middle of every kind of token, of four runes over 7 classes (thorough: 12), keywords with every class of neighbour, long tokens. The lexer looks at most two runes ahead and starts afresh after every token."
	newFn := R.P.fn(cc, "New")
	sync, start, next := R.P.method(cc, "Lexer", "StartSync"), R.P.method(cc, "Lexer", "Start"), R.P.method(cc, "Lexer", "NextToken")
	var first *ssa.Function
	for _, n := range []string{"ProbablyWhitespaceState", "IdentState"} {
		if first == nil {
			first = R.P.fn(cc, n)
		}
	}
	if newFn == nil || sync == nil || start == nil || next == nil || first == nil {
		R.bad("D07/anchors", "-", "New, StartSync, Start, NextToken or the initial state of the lexer was not found", nil)
		return
	}
	kinds := map[int64]string{}
	for _, k := range []string{"NumberToken", "SyntaxToken", "CommentToken", "AssignmentOperatorToken", "ArithmeticOperatorToken", "BooleanOperatorToken", "BitOperatorToken", "BinaryComperatorToken",
		"IDENTIFIER_VARIABLE", "FUNCTION_CALL", "RETURN", "VARIABLE_DECLARE", "IF", "ELSE", "FOR", "FUNCTION_DEFINE", "IMPORT", "PUBLIC"} {
		c, ok := R.P.pkgs[cc].Members[k].(*ssa.NamedConst)
		if !ok {
			R.bad("D07/anchors", "-", "the token type "+k+" was not found", nil)
			return
		}
		n, _ := constant.Int64Val(c.Value.Value)
		kinds[n] = k
	}
	texts := lexTexts(R.thorough())
	const group = 64
	n := (len(texts) + group - 1) / group
	R.parallel(n, func(g int, S *Report) {
		var A *Analysis
		fresh := func() {
			A = langAnalysis(S)
			A.maxSteps = 400_000
		}
		fresh()
		for i, s := range texts[g*group : min(len(texts), (g+1)*group)] {
			A.maxSteps = A.steps + 400_000
			if i%16 == 15 {
				S.absorb(A)
				fresh()
			}
			key := fmt.Sprintf("D07/%q", s)
			S.guard(A, key, func() { S.lexText(A, key, s, newFn, first, sync, start, next, kinds) })
		}
		S.absorb(A)
	})
	R.counts["texts"] = len(texts)
}

func (R *Report) lexText(A *Analysis, key, s string, newFn, first, sync, start, next *ssa.Function, kinds map[int64]string) {
	want, valid := lexRef(s)
	tokType := A.typ("Token")
	read := func(st *State, v Val) ltok {
		t, ok := v.(VStruct)
		if !ok {
			A.fail(next.Pos(), "a token is %T", v)
		}
		k, ok1 := t.f[fieldIndex(tokType, "Type")].(VInt)
		x, ok2 := t.f[fieldIndex(tokType, "Identifier")].(VStr)
		if !ok1 || !ok2 || !x.known || k.sym != nil {
			A.fail(next.Pos(), "the type or text of a token is not determined")
		}
		return ltok{kinds[k.c], x.s}
	}
	show := func(l []ltok) string {
		var p []string
		for _, t := range l {
			p = append(p, fmt.Sprintf("%s %q", t.kind, t.text))
		}
		return "[" + strings.Join(p, ", ") + "]"
	}
	same := func(a, b []ltok) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	drive := func(name string, fn *ssa.Function) {
		k := key + "/" + name
		for _, o := range A.call(newFn, []Val{str(s), VFunc{fn: first}}, nil, A.newState(), newFn.Pos()) {
			if o.panicked {
				R.bad(k, A.P.pos(o.pos), fmt.Sprintf("creating a lexer for %q panics: %s", s, o.msg), R.trace(o.st))
				continue
			}
			lx := o.rets[0]
			for _, q := range A.call(fn, []Val{lx}, nil, o.st, fn.Pos()) {
				if q.panicked {
					R.check(!valid, k, A.P.pos(q.pos), fmt.Sprintf("the valid text %q is refused: %s", s, q.msg), q.st)
					continue
				}
				if !valid {
					R.bad(k, A.P.pos(fn.Pos()), fmt.Sprintf("the text %q is accepted although it is no sequence of tokens", s), R.trace(q.st))
					continue
				}
				if name == "sync" {
					for _, f := range A.queues(q.st, lx) {
						if f.cap >= 0 && len(f.q) > f.cap {
							R.bad(k, A.P.pos(fn.Pos()), fmt.Sprintf("blocks for ever on %q: %d tokens do not fit in the channel of capacity %d, and nobody receives", s, len(f.q), f.cap), R.trace(q.st))
						}
						R.check(f.closed, k, A.P.pos(fn.Pos()), fmt.Sprintf("the token channel is not closed after %q", s), q.st)
					}
				}
				st := q.st
				var got []ltok
				for n := 0; ; n++ {
					if n > len(want)+2 {
						R.bad(k, A.P.pos(next.Pos()), fmt.Sprintf("%q gives more tokens than the text has: %s", s, show(got)), R.trace(st))
						break
					}
					outs := A.call(next, []Val{lx}, nil, st, next.Pos())
					if len(outs) != 1 || outs[0].panicked {
						R.bad(k, A.P.pos(next.Pos()), fmt.Sprintf("NextToken does not return on %q", s), R.trace(st))
						break
					}
					st = outs[0].st
					done, ok := outs[0].rets[1].(VBool)
					if !ok || !done.known {
						A.fail(next.Pos(), "the end of the tokens is not determined")
					}
					if done.b {
						w := collapse(want)
						R.check(same(got, w), k, A.P.pos(next.Pos()), fmt.Sprintf("the tokens of %q are %s, want %s", s, show(got), show(w)), st)
						break
					}
					p, ok := outs[0].rets[0].(VPtr)
					if !ok {
						R.bad(k, A.P.pos(next.Pos()), "NextToken returns no token", R.trace(st))
						break
					}
					got = append(got, read(st, loadPath(st.get(p.obj).val, p.path)))
				}
			}
		}
	}
	drive("sync", sync)
	if utf8.RuneCountInString(s) != 3 || strings.Contains(s, "\n") {
		drive("async", start)
	}
}

// queues are the channels that a structure holds.
func (A *Analysis) queues(st *State, v Val) (out []VQueue) {
	p, ok := v.(VPtr)
	if !ok {
		return nil
	}
	s, ok := loadPath(st.get(p.obj).val, p.path).(VStruct)
	if !ok {
		return nil
	}
	for _, f := range s.f {
		if c, ok := f.(VChan); ok && c.obj != 0 {
			if q, ok := st.get(c.obj).val.(VQueue); ok {
				out = append(out, q)
			}
		}
	}
	return
}
