package main

import (
	"fmt"
	"math/big"
	"strings"
)

// A reference semantics of the circuit language, written from the README: lexical
// scopes, functions as values, partial application, static branching. Every
// expression is bracketed (a chain of one associative operator is allowed).

type lnode struct {
	kind string // num var idx call bin cmp fn
	name string
	kids []*lnode
	fn   *lfunc
}

type lfunc struct {
	params []string
	body   []*lstmt
}

type lstmt struct {
	kind   string // var arr set func if for ret call public
	name   string
	target *lnode
	exprs  []*lnode
	bodies [][]*lstmt
	step   *lstmt
	fn     *lfunc
}

type lparse struct {
	toks []string
	i    int
}

func refTokens(src string) []string {
	var out []string
	for i := 0; i < len(src); {
		c := src[i]
		alnum := func(c byte) bool {
			return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		}
		switch {
		case c == ' ' || c == '\t':
			i++
		case c == '#':
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case alnum(c):
			j := i
			for j < len(src) && alnum(src[j]) {
				j++
			}
			out = append(out, src[i:j])
			i = j
		default:
			if i+1 < len(src) {
				switch src[i : i+2] {
				case "==", "!=", "<=", ">=":
					out = append(out, src[i:i+2])
					i += 2
					continue
				}
			}
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func (p *lparse) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}
func (p *lparse) next() string { t := p.peek(); p.i++; return t }
func (p *lparse) want(s string) {
	if t := p.next(); t != s {
		panic(fmt.Sprintf("schema: %q expected, got %q in %v", s, t, p.toks))
	}
}
func (p *lparse) nl() {
	for p.peek() == "\n" {
		p.i++
	}
}

func (p *lparse) block() []*lstmt {
	p.nl()
	p.want("{")
	var out []*lstmt
	for p.nl(); p.peek() != "}"; p.nl() {
		out = append(out, p.stmt())
	}
	p.next()
	return out
}

func (p *lparse) params() (out []string) {
	p.want("(")
	for p.peek() != ")" {
		n := p.next()
		var dims []int
		for p.peek() == "[" {
			p.next()
			d := 0
			fmt.Sscan(p.next(), &d)
			dims = append(dims, d)
			p.want("]")
		}
		names := []string{n}
		for _, d := range dims {
			var nn []string
			for _, m := range names {
				for i := 0; i < d; i++ {
					nn = append(nn, fmt.Sprintf("%s[%d]", m, i))
				}
			}
			names = nn
		}
		out = append(out, names...)
		if p.peek() == "," {
			p.next()
		}
	}
	p.next()
	return
}

func (p *lparse) stmt() *lstmt {
	switch t := p.peek(); t {
	case "var":
		p.next()
		n := p.next()
		if p.peek() == "[" {
			p.next()
			p.want("]")
			p.want("=")
			p.want("{")
			s := &lstmt{kind: "arr", name: n}
			for p.nl(); p.peek() != "}"; p.nl() {
				s.exprs = append(s.exprs, p.expr())
				if p.peek() == "," {
					p.next()
				}
			}
			p.next()
			return s
		}
		p.want("=")
		if p.peek() == "func" {
			p.next()
			f := &lfunc{params: p.params()}
			f.body = p.block()
			return &lstmt{kind: "func", name: n, fn: f}
		}
		return &lstmt{kind: "var", name: n, exprs: []*lnode{p.expr()}}
	case "func":
		p.next()
		n := p.next()
		f := &lfunc{params: p.params()}
		f.body = p.block()
		return &lstmt{kind: "func", name: n, fn: f}
	case "if":
		s := &lstmt{kind: "if"}
		p.next()
		s.exprs = append(s.exprs, p.cmp())
		s.bodies = append(s.bodies, p.block())
		for p.peek() == "else" {
			p.next()
			if p.peek() == "if" {
				p.next()
				s.exprs = append(s.exprs, p.cmp())
			}
			s.bodies = append(s.bodies, p.block())
		}
		return s
	case "for":
		p.next()
		p.want("(")
		s := &lstmt{kind: "for", exprs: []*lnode{p.cmp()}}
		p.want(";")
		s.step = p.stmt()
		p.want(")")
		s.bodies = [][]*lstmt{p.block()}
		return s
	case "return":
		p.next()
		s := &lstmt{kind: "ret"}
		if p.peek() != "\n" && p.peek() != "}" && p.peek() != "" {
			s.exprs = []*lnode{p.expr()}
		}
		return s
	case "public":
		p.next()
		p.want("{")
		s := &lstmt{kind: "public"}
		for p.nl(); p.peek() != "}"; p.nl() {
			s.exprs = append(s.exprs, p.expr())
			if p.peek() == "," {
				p.next()
			}
		}
		p.next()
		return s
	}
	e := p.prim()
	if e.kind == "call" {
		return &lstmt{kind: "call", exprs: []*lnode{e}}
	}
	p.want("=")
	return &lstmt{kind: "set", target: e, exprs: []*lnode{p.expr()}}
}

func (p *lparse) cmp() *lnode {
	brk := false
	if p.peek() == "(" {
		// a bracketed comparison or a bracketed operand
		d, j := 0, p.i
		for ; j < len(p.toks); j++ {
			if p.toks[j] == "(" {
				d++
			}
			if p.toks[j] == ")" {
				d--
				if d == 0 {
					break
				}
			}
		}
		if strings.ContainsAny(strings.Join(p.toks[p.i:j], " "), "<>=!") {
			brk = true
			p.next()
		}
	}
	l := p.expr()
	op := p.next()
	r := p.expr()
	if brk {
		p.want(")")
	}
	return &lnode{kind: "cmp", name: op, kids: []*lnode{l, r}}
}

func (p *lparse) expr() *lnode {
	l := p.prim()
	op := p.peek()
	switch op {
	case "+", "-", "*", "/":
	default:
		return l
	}
	p.next()
	r := p.prim()
	e := &lnode{kind: "bin", name: op, kids: []*lnode{l, r}}
	for p.peek() == op && (op == "+" || op == "*") {
		p.next()
		e = &lnode{kind: "bin", name: op, kids: []*lnode{e, p.prim()}}
	}
	switch p.peek() {
	case "+", "-", "*", "/":
		panic(fmt.Sprintf("schema: expression without brackets in %v", p.toks))
	}
	return e
}

func (p *lparse) prim() *lnode {
	t := p.next()
	if t == "(" {
		e := p.expr()
		p.want(")")
		return e
	}
	if t[0] >= '0' && t[0] <= '9' {
		return &lnode{kind: "num", name: t}
	}
	switch p.peek() {
	case "(":
		e := &lnode{kind: "call", name: t}
		p.next()
		for p.peek() != ")" {
			e.kids = append(e.kids, p.expr())
			if p.peek() == "," {
				p.next()
			}
		}
		p.next()
		return e
	case "[":
		e := &lnode{kind: "idx", name: t}
		for p.peek() == "[" {
			p.next()
			e.kids = append(e.kids, p.expr())
			p.want("]")
		}
		return e
	}
	return &lnode{kind: "var", name: t}
}

// ------------------------------------------------------------- evaluation

type lval struct {
	t    *Term
	n    *big.Int // the number, when it is a numeral of the program
	isNo bool     // built from numerals only
	b    *BigVal
	fn   *lclos
}

type lclos struct {
	f     *lfunc
	name  string
	env   *lscope
	bound []*lval
}

type lscope struct {
	vars map[string]*lval
	up   *lscope
}

func (s *lscope) find(n string) *lscope {
	for ; s != nil; s = s.up {
		if _, ok := s.vars[n]; ok {
			return s
		}
	}
	return nil
}

// lref evaluates a program text.
type lref struct {
	A      *Analysis
	e      *Env
	st     *State
	lits   map[string]*BigVal
	public []string
	inputs []string
	checks []*Term // must vanish
	splits []*Term
	divs   []*Term
	muls   int
	ret    *lval
	steps  int
	bits   int
}

// lundecided: the path does not determine a static condition.
type lundecided struct{ op string }

func parseRef(src string) []*lstmt {
	p := &lparse{toks: refTokens(src)}
	var out []*lstmt
	for p.nl(); p.i < len(p.toks); p.nl() {
		out = append(out, p.stmt())
	}
	return out
}

func (L *lref) run(src string) {
	L.public = []string{"1"}
	glob := &lscope{vars: map[string]*lval{}}
	prog := parseRef(src)
	// global definitions come first, wherever they stand
	for _, s := range prog {
		if s.kind == "func" {
			L.stmt(s, glob)
		}
	}
	for _, s := range prog {
		if s.kind != "func" {
			L.stmt(s, glob)
		}
	}
	main := glob.vars["main"].fn
	L.inputs = main.f.params
	sc := &lscope{vars: map[string]*lval{}, up: main.env}
	for _, n := range main.f.params {
		sc.vars[n] = &lval{t: L.A.T.atomNZ("in:" + n)}
	}
	L.ret = L.body(main.f.body, sc)
}

// body runs statements; nil means that no return was reached.
func (L *lref) body(b []*lstmt, sc *lscope) *lval {
	// named functions are visible in the whole scope
	for _, s := range b {
		if s.kind == "func" {
			L.stmt(s, sc)
		}
	}
	for _, s := range b {
		if r := L.stmt(s, sc); r != nil {
			return r
		}
	}
	return nil
}

func (L *lref) name(e *lnode, sc *lscope) string {
	n := e.name
	for _, k := range e.kids {
		v := L.eval(k, sc)
		if v.n == nil {
			panic("schema: dynamic index")
		}
		n += "[" + v.n.String() + "]"
	}
	return n
}

func (L *lref) stmt(s *lstmt, sc *lscope) *lval {
	if L.steps++; L.steps > 100000 {
		panic("schema: does not terminate")
	}
	switch s.kind {
	case "var":
		sc.vars[s.name] = L.eval(s.exprs[0], sc)
	case "arr":
		for i, e := range s.exprs {
			sc.vars[fmt.Sprintf("%s[%d]", s.name, i)] = L.eval(e, sc)
		}
	case "func":
		sc.vars[s.name] = &lval{fn: &lclos{f: s.fn, env: sc}}
	case "set":
		n := L.name(s.target, sc)
		v := L.eval(s.exprs[0], sc)
		t := sc.find(n)
		if t == nil {
			panic("schema: " + n + " is not declared")
		}
		t.vars[n] = v
	case "if":
		for i, b := range s.bodies {
			if i >= len(s.exprs) || L.cond(s.exprs[i], sc) {
				return L.body(b, &lscope{vars: map[string]*lval{}, up: sc})
			}
		}
	case "for":
		for L.cond(s.exprs[0], sc) {
			if r := L.body(s.bodies[0], &lscope{vars: map[string]*lval{}, up: sc}); r != nil {
				return r
			}
			L.stmt(s.step, sc)
		}
	case "ret":
		if len(s.exprs) == 0 {
			return &lval{t: L.A.T.one, n: one_, isNo: true}
		}
		return L.eval(s.exprs[0], sc)
	case "call":
		L.eval(s.exprs[0], sc)
	case "public":
		for _, e := range s.exprs {
			L.public = append(L.public, L.name(e, sc))
		}
	}
	return nil
}

func (L *lref) cond(c *lnode, sc *lscope) bool {
	a, b := L.eval(c.kids[0], sc), L.eval(c.kids[1], sc)
	set, ok := map[string]int{"==": relEQ, "!=": relLT | relGT, "<": relLT, "<=": relLT | relEQ, ">": relGT, ">=": relGT | relEQ}[c.name]
	if !ok {
		panic("schema: comparison " + c.name)
	}
	if !a.isNo || !b.isNo {
		panic("schema: dynamic condition")
	}
	val := func(v *lval) *BigVal {
		if v.n != nil {
			return L.A.bigConst(v.n)
		}
		if v.b != nil {
			return L.st.latest(v.b)
		}
		return L.A.canonIn(L.st, v.t)
	}
	t, f := L.A.decide(&Cond{kind: "cmp", cmp: &CmpInfo{a: val(a), b: val(b)}, set: set}, L.st.fork(), 0)
	if t != nil && f != nil {
		panic(lundecided{c.name})
	}
	return t != nil
}

func (L *lref) eval(e *lnode, sc *lscope) *lval {
	T := L.A.T
	if L.steps++; L.steps > 100000 {
		panic("schema: does not terminate")
	}
	switch e.kind {
	case "num":
		if b := L.lits[e.name]; b != nil {
			return &lval{t: b.t, b: b, isNo: true}
		}
		n, _ := new(big.Int).SetString(e.name, 10)
		n.Mod(n, T.mod)
		return &lval{t: T.konst(n), n: n, isNo: true}
	case "var", "idx":
		n := L.name(e, sc)
		t := sc.find(n)
		if t == nil {
			panic("schema: " + n + " is not declared")
		}
		return t.vars[n]
	case "bin":
		a, b := L.eval(e.kids[0], sc), L.eval(e.kids[1], sc)
		r := &lval{isNo: a.isNo && b.isNo}
		m := T.mod
		num := func(f func(z *big.Int)) {
			if a.n != nil && b.n != nil {
				r.n = new(big.Int)
				f(r.n)
				r.n.Mod(r.n, m)
			}
		}
		switch e.name {
		case "+":
			r.t = T.add(a.t, b.t)
			num(func(z *big.Int) { z.Add(a.n, b.n) })
		case "-":
			r.t = T.sub(a.t, b.t)
			num(func(z *big.Int) { z.Sub(a.n, b.n) })
		case "*":
			r.t = T.mul(a.t, b.t)
			num(func(z *big.Int) { z.Mul(a.n, b.n) })
			if !a.isNo && !b.isNo {
				L.muls++
			}
		case "/":
			L.divs = append(L.divs, b.t)
			r.t = T.mul(a.t, T.inv(b.t))
			num(func(z *big.Int) { z.Mul(a.n, new(big.Int).ModInverse(b.n, m)) })
		}
		return r
	case "call":
		var args []*lval
		for _, k := range e.kids {
			args = append(args, L.eval(k, sc))
		}
		switch e.name {
		case "equal":
			L.checks = append(L.checks, T.sub(args[0].t, args[1].t))
			return nil
		case "addGateConstraint":
			return &lval{t: T.add(args[0].t, args[1].t)}
		case "scalarBaseMultiply":
			return &lval{t: L.A.abscissa(L.st, args[0].t)}
		case "SPLIT":
			L.splits = append(L.splits, args[0].t)
			n := L.name(e.kids[0], sc)
			at := sc.find(n)
			for i := 0; i < L.bits; i++ {
				at.vars[fmt.Sprintf("%s[%d]", n, i)] = &lval{t: T.uf("bit", args[0].t, T.constI(int64(i)))}
			}
			return nil
		}
		t := sc.find(e.name)
		if t == nil || t.vars[e.name].fn == nil {
			panic("schema: " + e.name + " is no function")
		}
		c := t.vars[e.name].fn
		all := append(append([]*lval{}, c.bound...), args...)
		if len(all) < len(c.f.params) {
			return &lval{fn: &lclos{f: c.f, env: c.env, bound: all}}
		}
		in := &lscope{vars: map[string]*lval{}, up: c.env}
		for i, n := range c.f.params {
			in.vars[n] = all[i]
		}
		return L.body(c.f.body, in)
	}
	panic("schema: expression " + e.kind)
}
