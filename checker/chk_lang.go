package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// D10: the gates of a program compute exactly what the program says.

// wires is the meaning of a gate list: every gate defines a wire or states a fact.
type wires struct {
	A      *Analysis
	st     *State
	val    map[string]*Term
	bits   map[string]int // bits defined so far, per split wire
	checks []*Term
	splits []*Term
	divs   []*Term
	n      int
}

func (w *wires) tok(v Val) (kind int64, key string, name VStr) {
	A := w.A
	t := A.typ("Token")
	s, ok := v.(VStruct)
	if !ok {
		A.fail(0, "a token is %T", v)
	}
	k, ok1 := s.f[fieldIndex(t, "Type")].(VInt)
	id, ok2 := s.f[fieldIndex(t, "Identifier")].(VStr)
	if !ok1 || k.sym != nil || !ok2 {
		A.fail(0, "a token is unknown")
	}
	key, ok = valKey(id)
	if !ok {
		A.fail(0, "the name of a wire is unknown")
	}
	return k.c, key, id
}

type gfac struct {
	num  bool
	key  string
	name VStr
	c    *BigVal
}

func (w *wires) facs(v Val) (out []gfac) {
	A := w.A
	t := A.typ("factor")
	num, _ := A.P.enum("NumberToken")
	for _, e := range A.sliceElems(w.st, v) {
		s, ok := e.(VStruct)
		if !ok {
			A.fail(0, "a factor is %T", e)
		}
		k, key, name := w.tok(s.f[fieldIndex(t, "typ")])
		c := A.bigAt(w.st, s.f[fieldIndex(t, "multiplicative")], 0)
		if c == nil {
			A.fail(0, "a factor of a gate has no coefficient")
		}
		out = append(out, gfac{k == num, key, name, w.st.latest(c)})
	}
	return
}

// sum is the value of a factor list; bad names a wire that is not defined yet.
func (w *wires) sum(l []gfac) (t *Term, bad string) {
	t = w.A.T.zero
	seen := map[string]bool{}
	for _, f := range l {
		x := w.A.T.one
		if !f.num {
			x = w.val[f.key]
			if x == nil {
				return nil, "uses a wire that no earlier gate defines (" + f.key + ")"
			}
		}
		k := f.key
		if f.num {
			k = "#"
		}
		if seen[k] {
			// a coefficient is stored per wire: a second entry would replace the first
			return nil, "lists wire " + f.key + " twice"
		}
		seen[k] = true
		t = w.A.T.add(t, w.A.T.mul(f.c.t, x))
	}
	return t, ""
}

// read gives every gate of the list its meaning.
func (w *wires) read(gates Val) string {
	A, T := w.A, w.A.T
	gt := A.typ("Gate")
	kinds := map[int64]string{}
	for _, k := range []string{"multiplicationGate", "scalarBaseMultiplyGate", "equalityGate", "additionGate", "sumCheckGate", "zeroOrOneGate"} {
		v, ok := A.P.enum(k)
		if !ok {
			A.fail(0, "constant %s was not found", k)
		}
		kinds[v] = k
	}
	for _, gv := range A.sliceElems(w.st, gates) {
		w.n++
		p, ok := gv.(VPtr)
		if !ok {
			return "a gate is missing"
		}
		g, ok := loadPath(w.st.get(p.obj).val, p.path).(VStruct)
		if !ok {
			return "a gate is no gate"
		}
		f := func(n string) Val { return g.f[fieldIndex(gt, n)] }
		id, _ := f("identifier").(VStr)
		key, _ := valKey(id)
		ki, _ := f("gateType").(VInt)
		kind := kinds[ki.c]
		left, right, expo, out := w.facs(f("leftIns")), w.facs(f("rightIns")), w.facs(f("expoIns")), w.facs(f("outIns"))
		quiet, _ := f("noNewOutput").(VBool)
		at := fmt.Sprintf("gate %d (%s)", w.n, kind)
		define := func(t *Term) string {
			if quiet.b {
				return at + " does not define its wire"
			}
			if _, dup := w.val[key]; dup {
				return at + " defines a wire that exists already"
			}
			if key == "" || key == "s" {
				return at + " has no name"
			}
			w.val[key] = t
			return ""
		}
		self := func(l []gfac) bool {
			return len(l) == 1 && !l[0].num && l[0].key == key && l[0].c.k != nil && l[0].c.k.Cmp(one_) == 0
		}
		val := func(l []gfac) (*Term, string) {
			t, bad := w.sum(l)
			if bad != "" {
				return nil, at + " " + bad
			}
			return t, ""
		}
		var msg string
		switch kind {
		case "multiplicationGate":
			if len(expo) > 0 {
				return at + " has exponents"
			}
			switch {
			case self(out):
				l, m1 := val(left)
				r, m2 := val(right)
				if msg = m1 + m2; msg == "" {
					msg = define(T.mul(l, r))
				}
			case self(left) || self(right):
				d := right
				if self(right) && !self(left) {
					d = left
				}
				l, m1 := val(out)
				r, m2 := val(d)
				if msg = m1 + m2; msg == "" {
					w.divs = append(w.divs, r)
					msg = define(T.mul(l, T.inv(r)))
				}
			default:
				return at + " does not define its wire"
			}
		case "additionGate":
			if !self(out) || len(expo) > 0 || len(right) > 0 {
				return at + " does not define its wire as a sum"
			}
			l, m := val(left)
			if msg = m; msg == "" {
				msg = define(l)
			}
		case "scalarBaseMultiplyGate":
			if len(left) > 0 || len(right) > 0 || len(out) > 0 {
				return at + " has further operands"
			}
			l, m := val(expo)
			if msg = m; msg == "" {
				msg = define(w.A.abscissa(w.st, l))
			}
		case "equalityGate":
			if !quiet.b || len(out) > 0 || len(expo) > 0 {
				return at + " is no plain equality"
			}
			l, m1 := val(left)
			r, m2 := val(right)
			if msg = m1 + m2; msg == "" {
				w.checks = append(w.checks, T.sub(l, r))
			}
		case "zeroOrOneGate":
			_, rk, _ := w.tok(f("arithmeticRepresentatnt"))
			r := w.val[rk]
			if r == nil {
				return at + " belongs to a wire that no earlier gate defines"
			}
			i := w.bits[rk]
			w.bits[rk]++
			msg = define(T.uf("bit", r, T.constI(int64(i))))
		case "sumCheckGate":
			_, rk, _ := w.tok(f("arithmeticRepresentatnt"))
			r := w.val[rk]
			if r == nil || !quiet.b {
				return at + " is no plain bit sum"
			}
			if len(left) != w.bits[rk] || len(left) != T.mod.BitLen() {
				return at + fmt.Sprintf(" sums %d bits, %d were defined and an element has %d", len(left), w.bits[rk], T.mod.BitLen())
			}
			have := map[string]bool{}
			for _, x := range left {
				if x.num || x.c.k == nil || x.c.k.Sign() <= 0 {
					return at + " sums something else than bits"
				}
				i := x.c.k.BitLen() - 1
				v := w.val[x.key]
				if x.c.k.Cmp(new(big.Int).Lsh(one_, uint(i))) != 0 || v == nil || !w.st.env.eq(v, T.uf("bit", r, T.constI(int64(i)))) {
					return at + fmt.Sprintf(" gives bit %d a wrong weight", i)
				}
				have[fmt.Sprint(i)] = true
			}
			if len(have) != len(left) {
				return at + " uses a bit twice"
			}
			w.splits = append(w.splits, r)
		default:
			return at + " is of an unknown kind"
		}
		if msg != "" {
			return msg
		}
	}
	for k, n := range w.bits {
		found := false
		for _, s := range w.splits {
			found = found || s == w.val[k]
		}
		if !found {
			return fmt.Sprintf("%d bits are defined whose sum is not checked", n)
		}
	}
	return ""
}

// termSet compares two sets of terms up to sign.
func termSet(e *Env, l []*Term) map[string]bool {
	out := map[string]bool{}
	for _, t := range l {
		v := e.eval(t)
		n := new(big.Int).Sub(e.T.mod, v)
		if v.Sign() != 0 && n.Cmp(v) < 0 {
			v = n
		}
		out[v.Text(62)] = true
	}
	return out
}

func sameSet(a, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

type lcase struct {
	name string
	src  string
	lits string // numerals that stand for any non-zero number
}

func langEnv(R *Report, c lcase) *Analysis {
	A := langAnalysis(R)
	A.idealNames = true
	A.maxSteps = 15_000_000
	A.rep(A.T.one)
	A.literals = map[string]*BigVal{}
	for _, l := range strings.Fields(c.lits) {
		A.literals[l] = A.coef("number" + l)
	}
	return A
}

type langRun struct {
	st    *State
	prog  Val
	gates Val
}

// compileText interprets Parse and Execute on a text. Panics are returned.
func (A *Analysis) compileText(src string) (runs []langRun, panics []Outcome) {
	parse, exec := A.P.fn(cc, "Parse"), A.P.method(cc, "Program", "Execute")
	if parse == nil || exec == nil {
		A.fail(0, "Parse or Execute was not found")
	}
	for _, o := range A.call(parse, []Val{str(src), VBool{known: true, b: true}}, nil, A.newState(), parse.Pos()) {
		if o.panicked {
			panics = append(panics, o)
			continue
		}
		for _, q := range A.call(exec, []Val{o.rets[0]}, nil, o.st, exec.Pos()) {
			if q.panicked {
				panics = append(panics, q)
				continue
			}
			runs = append(runs, langRun{q.st, o.rets[0], q.rets[0]})
		}
	}
	return
}

func (A *Analysis) mainInputs(r langRun) []string {
	ft := A.typ("function")
	g, _ := A.fieldAt(r.st, r.prog, A.P.fn(cc, "Parse").Signature.Results().At(0).Type(), "globalFunction")
	fs, _ := A.fieldAt(r.st, g, types.NewPointer(ft), "functions")
	ks, vs := A.strMap(r.st, fs, "functions")
	for i, k := range ks {
		if k == "main" {
			in, _ := A.fieldAt(r.st, vs[i], types.NewPointer(ft), "Inputs")
			return A.strList(r.st, in)
		}
	}
	A.fail(0, "the program has no main function")
	return nil
}

func (A *Analysis) strList(st *State, v Val) (out []string) {
	for _, e := range A.sliceElems(st, v) {
		s, ok := e.(VStr)
		if !ok || !s.known {
			A.fail(0, "a name is unknown")
		}
		out = append(out, s.s)
	}
	return
}

func checkLanguage(R *Report) {
	R.rule = "Parse and Execute are interpreted on program texts in which chosen numerals stand for any non-zero number and the inputs are any field elements. The gates that come out are given their meaning gate by gate (each must define one new wire from defined ones, or state an equality or a bit sum), and compared as polynomials with a reference semantics of the language: the returned value is the value of a wire, the stated equalities are exactly those the program states, public names and main inputs are the declared ones, and no gate is left over without a definition."
	cs := langCases(R.thorough())
	R.parallel(len(cs), func(i int, S *Report) { S.langCase(cs[i]) })
}

// D06: static conditions decide like numbers, and one branch of a chain runs.
func checkConditions(R *Report) {
	R.rule = "Programs with static conditions on numerals that stand for any non-zero number are interpreted by Parse and Execute. On every path the comparisons made must determine every condition the language evaluates, and the gates must be those of the one branch (or the number of iterations) that the conditions select; conditions themselves leave no gate."
	cs := conditionCases(R.thorough())
	R.parallel(len(cs), func(i int, S *Report) { S.langCase(cs[i]) })
}

func conditionCases(thorough bool) (out []lcase) {
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	add := func(name, src, lits string) {
		out = append(out, lcase{name, strings.ReplaceAll(src, ";;", "\n"), lits})
	}
	main := "func main(x,y){;;"
	for _, op := range ops {
		for i, p := range [][2]string{{"3", "5"}, {"3", "8"}, {"0", "3"}, {"3", "3"}, {"2", "3"}, {"(3+5)", "5"}, {"(3-5)", "3"}, {"(3*5)", "7"}, {"4", "4"}, {"2", "4"}, {"9", "4"}, {"0", "0"}, {"(0-4)", "4"}, {"(4/2)", "2"}, {"(2-4)", "(0-2)"}} {
			c := p[0] + op + p[1]
			n := fmt.Sprintf("%s %d", op, i)
			add("plain "+n, main+"if "+c+" {;;return x*x;;};;return x*y;;}", "3 5 7")
			add("else "+n, main+"if "+c+" {;;x = x*x;;} else {;;x = x*y;;};;return x*y;;}", "3 5 7")
			for _, op2 := range []string{ops[(i+1)%6], ops[(i+4)%6]} {
				add("chain "+n+" "+op2, main+"if "+c+" {;;x = x*x;;} else if 5"+op2+"7 {;;x = (x+1)*x;;} else if 3<7 {;;x = x*(x+2);;} else {;;x = (x+4)*x;;};;return x*y;;}", "3 5 7")
			}
			add("nested "+n, main+"if 5<7 {;;if "+c+" {;;x = x*x;;};;x = (x+1)*x;;} else {;;if "+c+" {;;x = (x+4)*x;;} else {;;if 7==3 {;;x = x*(y+6);;} else {;;x = (x+4)*(x+9);;};;};;};;return x*y;;}", "3 5 7")
			add("returns "+n, main+"return f(x)*y;;};;func f(a){;;if "+c+" {;;return a*a;;} else if 5!=7 {;;return a*(a+1);;} else {;;return a*(a+2);;};;}", "3 5 7")
			add("variables "+n, "var k = "+p[0]+";;"+main+"return f(x,"+p[1]+")*y;;};;func f(a,b){;;var l = b;;if k"+op+"l {;;return a*a;;};;return a*(a+2);;}", "3 5 7")
		}
		// loops: the bound is known, the running variable steps up or down
		for i, l := range []string{"0|i<3|i+1", "5|i>2|i-1", "1|i<=3|i+1", "4|i>=2|i-1", "0|i!=4|i+2", "6|i==6|i+1", "3|i<3|i+1", "1|i<9|i*2", "0|3>i|i+1", "0|i<7|i+1", "200|i>170|i-3"} {
			p := strings.Split(l, "|")
			add(fmt.Sprintf("loop %s %d", op, i), main+"var i = "+p[0]+";;for ("+p[1]+";i="+p[2]+"){;;if i"+op+"2 {;;x = x*(x+8);;} else if i"+op+"3 {;;x = (x*y)+x;;} else {;;y = y*(x+i);;};;};;return x*y;;}", "")
		}
	}
	if thorough {
		leaf := []string{"0", "1", "2", "3", "5", "(3+5)", "(3-5)", "(0-3)", "(3*5)", "(3/5)", "(1-2)", "(2*3)", "(5-5)"}
		for _, op := range ops {
			for i, l := range leaf {
				for j, r := range leaf {
					add(fmt.Sprintf("pair %s %d %d", op, i, j), main+"if "+l+op+r+" {;;x = x*x;;} else {;;x = x*y;;};;return x*y;;}", "3 5 7")
				}
			}
		}
	}
	add("sum loop", main+"var i = 0;;var s = 3;;for (i<60;i=i+1){;;s = s+(x*i);;};;return s*y;;}", "")
	add("condition without gates", main+"if 3==5 {;;return f(x)*y;;};;if g(3)<7 {;;return x*x;;};;return x*y;;};;func f(a){;;return a*a;;};;func g(n){;;return n+5;;}", "3 5 7")
	return
}

func (R *Report) langCase(c lcase) {
	A := langEnv(R, c)
	key := R.prop + "/" + c.name
	R.guard(A, key, func() {
		defer func() {
			r := recover()
			if u, ok := r.(lundecided); ok {
				A.fail(0, "a branch is chosen without deciding a condition (%s)", u.op)
			}
			if e, ok := r.(string); ok {
				A.fail(0, "the program schema is unusable: %s", e)
			}
			if r != nil {
				panic(r)
			}
		}()
		runs, panics := A.compileText(c.src)
		parse := A.P.fn(cc, "Parse")
		ref := func(st *State) *lref {
			L := &lref{A: A, e: st.env, st: st, lits: A.literals, bits: A.T.mod.BitLen()}
			L.run(c.src)
			return L
		}
		degenerate := func(st *State, L *lref) bool {
			for _, d := range L.divs {
				if st.env.isZero(d) {
					return true
				}
			}
			return false
		}
		n := 0
		for _, o := range panics {
			if L := ref(o.st); degenerate(o.st, L) {
				continue
			}
			R.bad(key, R.P.pos(o.pos), "a valid program is rejected: "+o.msg, R.trace(o.st))
		}
		for _, r := range runs {
			L := ref(r.st)
			if r.st.unsolved || degenerate(r.st, L) {
				continue
			}
			n++
			e := r.st.env
			w := &wires{A: A, st: r.st, val: map[string]*Term{}, bits: map[string]int{}}
			in := A.mainInputs(r)
			if fmt.Sprint(in) != fmt.Sprint(L.inputs) {
				R.bad(key+"/inputs", R.P.pos(parse.Pos()), fmt.Sprintf("main has the inputs %v, the program declares %v", in, L.inputs), nil)
				continue
			}
			pub, _ := A.fieldAt(r.st, r.prog, parse.Signature.Results().At(0).Type(), "PublicInputs")
			if p := A.strList(r.st, pub); fmt.Sprint(p) != fmt.Sprint(L.public) {
				R.bad(key+"/public", R.P.pos(parse.Pos()), fmt.Sprintf("the public names are %v, the program declares %v", p, L.public), nil)
				continue
			}
			for _, i := range in {
				k, _ := valKey(str(i))
				w.val[k] = A.T.atomNZ("in:" + i)
			}
			exec := R.P.pos(A.P.method(cc, "Program", "Execute").Pos())
			if msg := w.read(r.gates); msg != "" {
				R.bad(key+"/gates", exec, msg, R.trace(r.st))
				continue
			}
			R.check(sameSet(termSet(e, w.checks), termSet(e, L.checks)), key+"/equalities", exec, fmt.Sprintf("the gates state %d equalities, which are not the %d the program states", len(w.checks), len(L.checks)), r.st)
			R.check(sameSet(termSet(e, w.splits), termSet(e, L.splits)), key+"/splits", exec, "the values that are split are not those the program splits", r.st)
			if L.ret != nil && L.ret.t != nil && !L.ret.isNo {
				found := false
				for _, v := range w.val {
					found = found || e.eq(v, L.ret.t)
				}
				R.check(found, key+"/value", exec, "no wire carries the value the program returns", r.st)
			} else {
				R.ok(key + "/value")
			}
			R.counts["gates"] += w.n
		}
		if n == 0 && len(panics) == 0 {
			R.bad(key, R.P.pos(parse.Pos()), "compilation has no outcome", nil)
		}
	})
	R.counts["programs"]++
	R.absorb(A)
}

func langCases(thorough bool) (out []lcase) {
	for _, c := range langSchemas {
		c.src = strings.ReplaceAll(c.src, ";;", "\n")
		out = append(out, c)
	}
	return append(out, expressionCases(thorough)...)
}

// expressionCases are programs that state one equality per bracketed expression.
func expressionCases(thorough bool) (out []lcase) {
	type ex struct {
		s string
		f func(v []*big.Int) *big.Int
	}
	q := bnOrder
	leaf := []ex{}
	names := []string{"x", "y", "3"}
	if thorough {
		names = append(names, "5")
	}
	for i, n := range names {
		leaf = append(leaf, ex{n, func(v []*big.Int) *big.Int { return v[i] }})
	}
	pt := []*big.Int{big.NewInt(1009), big.NewInt(2003), big.NewInt(3001), big.NewInt(4001)}
	join := func(op string, a, b ex) (ex, bool) {
		if op == "/" {
			if d := b.f(pt); d == nil || d.Sign() == 0 {
				return ex{}, false
			}
		}
		e := ex{"(" + a.s + op + b.s + ")", nil}
		e.f = func(v []*big.Int) *big.Int {
			x, y, r := a.f(v), b.f(v), new(big.Int)
			switch op {
			case "+":
				r.Add(x, y)
			case "-":
				r.Sub(x, y)
			case "*":
				r.Mul(x, y)
			case "/":
				r.Mul(x, new(big.Int).ModInverse(y, q))
			}
			return r.Mod(r, q)
		}
		return e, true
	}
	ops := []string{"+", "-", "*", "/"}
	var one, all []ex
	for _, op := range ops {
		for _, a := range leaf {
			for _, b := range leaf {
				if e, ok := join(op, a, b); ok {
					one = append(one, e)
				}
			}
		}
	}
	all = append(all, one...)
	n, stride := 0, 3
	five := func(s string) bool { return strings.Contains(s, "5") }
	if thorough {
		stride = 1
	}
	sub := append(append([]ex{}, leaf...), one...)
	for _, op := range ops {
		for _, a := range sub {
			for _, b := range sub {
				if len(a.s) == 1 && len(b.s) == 1 {
					continue
				}
				if n++; n%stride != 0 || (five(a.s) || five(b.s)) && n%5 != 0 {
					continue
				}
				if e, ok := join(op, a, b); ok {
					all = append(all, e)
				}
			}
		}
	}
	if thorough {
		// three levels: every 601st pair
		two := all
		for _, op := range ops {
			for i := range two {
				for j := range one {
					if n++; n%601 != 0 {
						continue
					}
					a, b := two[i], one[j]
					if n%2 == 0 {
						a, b = b, a
					}
					if e, ok := join(op, a, b); ok {
						all = append(all, e)
					}
				}
			}
		}
	}
	per := 10 // few per program: the degenerate paths of all of them multiply
	for i := 0; i < len(all); i += per {
		src := "func main(x,y,z){\n"
		for j := i; j < len(all) && j < i+per; j++ {
			src += "equal(" + all[j].s + ",z)\n"
		}
		out = append(out, lcase{fmt.Sprintf("expressions %d", i/per), src + "return\n}\n", "3 5"})
	}
	return
}
