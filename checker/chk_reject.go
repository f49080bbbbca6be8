package main

import (
	"fmt"
	"strings"
)

// D05: a program that says nothing definite is rejected, not compiled to something.
func checkReject(R *Report) {
	R.rule = "Parse and Execute are interpreted on malformed programs: a list of programs that break one rule of the language each (names, redeclarations, public inputs, calls, values, static conditions and indices, statement syntax, function syntax), and every program obtained from a valid program schema by removing one bracket or operator or by replacing one name by an undeclared one. Every path must end in a panic, unless the reference semantics gives the renamed program a meaning."
	cs := rejectCases(R.thorough())
	R.parallel(len(cs), func(i int, S *Report) { S.rejectCase(cs[i]) })
}

func rejectCases(thorough bool) (out []lcase) {
	for _, c := range rejectSchemas {
		c.src = strings.ReplaceAll(c.src, ";;", "\n")
		out = append(out, c)
	}
	n, stride := 0, 7
	if thorough {
		stride = 1
	}
	for _, c := range langSchemas {
		src := strings.ReplaceAll(c.src, ";;", "\n")
		if strings.ContainsAny(src, "#\"") || strings.Contains(src, "//") {
			continue
		}
		add := func(what string, i, skip int, put string) {
			if n++; n%stride == 0 {
				line := 1 + strings.Count(src[:i], "\n")
				out = append(out, lcase{fmt.Sprintf("%s without %s %d in line %d", c.name, what, i, line), src[:i] + put + src[i+skip:], c.lits})
			}
		}
		for i := 0; i < len(src); i++ {
			switch ch := src[i]; {
			case ident(ch) && (i == 0 || !ident(src[i-1])) && (ch < '0' || ch > '9'):
				k := i
				for k < len(src) && ident(src[k]) {
					k++
				}
				if !keywords[src[i:k]] {
					add("name "+src[i:k], i, k-i, "undeclared")
				}
				i = k - 1
			case strings.IndexByte("(){}[]", ch) >= 0:
				add("bracket "+string(ch), i, 1, " ")
			case strings.IndexByte("+-*/", ch) >= 0:
				add("operator "+string(ch), i, 1, " ")
			case strings.IndexByte("<>=!", ch) >= 0:
				k := 1
				if src[i+1] == '=' {
					k = 2
				}
				add("operator "+src[i:i+k], i, k, " ")
				i += k - 1
			}
		}
	}
	return
}

func ident(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

var keywords = map[string]bool{"func": true, "var": true, "if": true, "else": true, "for": true, "return": true, "public": true, "import": true, "equal": true, "SPLIT": true, "addGateConstraint": true, "scalarBaseMultiply": true}

func (R *Report) rejectCase(c lcase) {
	A := langEnv(R, c)
	key := R.prop + "/" + c.name
	R.guard(A, key, func() {
		parse := A.P.fn(cc, "Parse")
		runs, panics := A.compileText(c.src)
		if len(runs)+len(panics) == 0 {
			R.bad(key, R.P.pos(parse.Pos()), "compilation has no outcome", nil)
		}
		for _, r := range runs {
			if strings.Contains(c.name, " without name ") && A.meaningful(r, c) {
				R.ok(key)
				continue
			}
			w := &wires{A: A, st: r.st, val: map[string]*Term{}, bits: map[string]int{}}
			for _, i := range A.mainInputs(r) {
				k, _ := valKey(str(i))
				w.val[k] = A.T.atomNZ("in:" + i)
			}
			msg := w.read(r.gates)
			R.bad(key, R.P.pos(parse.Pos()), fmt.Sprintf("a malformed program is accepted (%d gates; %s)", w.n, msg), R.trace(r.st))
		}
		for range panics {
			R.ok(key)
		}
	})
	R.counts["programs"]++
	R.absorb(A)
}

// meaningful tells whether the reference semantics gives the program a meaning.
func (A *Analysis) meaningful(r langRun, c lcase) (yes bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(string); !ok {
				panic(e)
			}
			yes = false
		}
	}()
	L := &lref{A: A, e: r.st.env, st: r.st.fork(), lits: A.literals, bits: A.T.mod.BitLen()}
	L.run(c.src)
	return true
}
