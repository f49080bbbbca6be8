package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// D08: compilation is a function of the text.

// permuted is the i-th order of n map entries: a map may be traversed in any order.
func permuted(mode, n int) []int {
	p := make([]int, n)
	for i := range p {
		switch mode {
		case 1:
			p[i] = n - 1 - i
		case 2:
			p[i] = (i + n/2) % n
		case 3:
			// odd positions first
			if h := n / 2; i < h {
				p[i] = 2*i + 1
			} else {
				p[i] = 2 * (i - h)
			}
		default:
			p[i] = i
		}
	}
	return p
}

func (A *Analysis) nameKey(v Val) string {
	s, ok := v.(VStr)
	if !ok {
		A.fail(0, "a name is %T", v)
	}
	if s.known {
		return s.s
	}
	if s.sym == nil {
		A.fail(0, "a name is unknown")
	}
	return fmt.Sprint("$", A.rep(s.sym).id)
}

// gateText is a description of a gate list that does not depend on the heap.
func (A *Analysis) gateText(st *State, gates Val) string {
	gt := A.typ("Gate")
	w := &wires{A: A, st: st}
	var out []string
	for _, gv := range A.sliceElems(st, gates) {
		p, ok := gv.(VPtr)
		if !ok {
			return "no gate"
		}
		g, ok := loadPath(st.get(p.obj).val, p.path).(VStruct)
		if !ok {
			return "no gate"
		}
		f := func(n string) Val { return g.f[fieldIndex(gt, n)] }
		var l []string
		for _, n := range []string{"leftIns", "rightIns", "expoIns", "outIns"} {
			for _, x := range w.facs(f(n)) {
				l = append(l, fmt.Sprint(x.num, A.nameKey(x.name), "*", A.repEnv.eval(x.c.t).Text(62)))
			}
			l = append(l, ";")
		}
		k, _ := valKey(f("gateType"))
		q, _ := valKey(f("noNewOutput"))
		out = append(out, fmt.Sprint(k, q, A.nameKey(f("identifier")), " ", l))
	}
	return strings.Join(out, "\n")
}

// programText describes inputs and public names of a program.
func (A *Analysis) programText(r langRun) string {
	pub, _ := A.fieldAt(r.st, r.prog, A.P.fn(cc, "Parse").Signature.Results().At(0).Type(), "PublicInputs")
	return fmt.Sprint(A.mainInputs(r), A.strList(r.st, pub), "\n", A.gateText(r.st, r.gates))
}

// systemText describes a constraint system.
func (A *Analysis) systemText(st *State, v Val, fn *ssa.Function, sparse bool) string {
	t := fn.Signature.Results().At(0).Type()
	rows, keys := A.readR1Keys(st, v, t, sparse)
	var out []string
	for k, i := range keys {
		out = append(out, fmt.Sprint(k, "=", i))
	}
	sort.Strings(out)
	for _, m := range rows.rows {
		for _, row := range m {
			var js []int
			for j := range row {
				js = append(js, j)
			}
			sort.Ints(js)
			s := ""
			for _, j := range js {
				s += fmt.Sprint(j, ":", A.repEnv.eval(row[j].t).Text(62), " ")
			}
			out = append(out, s)
		}
	}
	return fmt.Sprint(rows.n, rows.wl, "\n", strings.Join(out, "\n"))
}

func checkDeterminism(R *Report) {
	R.rule = "Program schemas are compiled and turned into constraint systems once with maps traversed in insertion order, then with other traversal orders, after another program has been compiled in the same process, and a second time from the same program and the same gates. Every time the gates (kinds, names, operands, coefficients), inputs, public names, wire numbers and rows must be the same on every path. No package-level variable is written meanwhile."
	R.bounds = "the program schemas of the language check; reversed, rotated and interleaved traversal orders; one other program before."
	var cs []lcase
	for i, c := range langSchemas {
		c.src = strings.ReplaceAll(c.src, ";;", "\n")
		if strings.Contains(c.src, "SPLIT") && !R.thorough() && i%3 != 0 {
			continue
		}
		cs = append(cs, c)
	}
	R.parallel(len(cs), func(i int, S *Report) { S.determCase(cs[i], cs[(i+1)%len(cs)]) })
}

type compiled struct {
	text []string
	runs []langRun
}

func (R *Report) determCase(c, other lcase) {
	A := langEnv(R, c)
	A.maxSteps = 60_000_000
	key := "D08/" + c.name
	dense, sparse := R.P.builders()
	parse, exec := R.P.fn(cc, "Parse"), R.P.method(cc, "Program", "Execute")
	R.guard(A, key, func() {
		if parse == nil || exec == nil || dense == nil || sparse == nil {
			A.fail(0, "Parse, Execute or a builder was not found")
		}
		where := R.P.pos(exec.Pos()) + " " + funcKey(exec)
		globals := A.freezeGlobals()
		compile := func(st *State, src string) (c compiled) {
			for _, o := range A.call(parse, []Val{str(src), VBool{known: true, b: true}}, nil, st.fork(), parse.Pos()) {
				if o.panicked {
					c.text = append(c.text, "refused")
					continue
				}
				for _, q := range A.call(exec, []Val{o.rets[0]}, nil, o.st, exec.Pos()) {
					if q.panicked {
						c.text = append(c.text, "refused")
						continue
					}
					if q.st.unsolved {
						continue
					}
					r := langRun{q.st, o.rets[0], q.rets[0]}
					c.runs = append(c.runs, r)
					c.text = append(c.text, A.programText(r))
				}
			}
			return
		}
		same := func(a, b []string) bool {
			x, y := append([]string{}, a...), append([]string{}, b...)
			sort.Strings(x)
			sort.Strings(y)
			return strings.Join(uniq(x), "\n\n") == strings.Join(uniq(y), "\n\n")
		}
		// after further decisions only some of the paths remain
		within := func(a, b []string) bool {
			all := map[string]bool{}
			for _, t := range b {
				all[t] = true
			}
			for _, t := range a {
				if !all[t] {
					return false
				}
			}
			return true
		}
		base := compile(globals, c.src)
		if len(base.text) == 0 {
			R.bad(key, where, "compilation has no outcome", nil)
			return
		}
		build := func(r langRun, fn *ssa.Function) (out []string) {
			for _, o := range A.call(fn, []Val{r.prog, r.gates, VBool{known: true}}, nil, r.st.fork(), fn.Pos()) {
				if o.panicked {
					out = append(out, "refused")
				} else {
					out = append(out, A.systemText(o.st, o.rets[0], fn, fn == sparse))
				}
			}
			return
		}
		builders := []*ssa.Function{sparse}
		if !strings.Contains(c.src, "SPLIT") {
			builders = append(builders, dense)
		}
		var systems [][]string
		for _, r := range base.runs {
			for _, fn := range builders {
				systems = append(systems, build(r, fn))
			}
		}
		modes := []int{1, 2}
		if R.thorough() {
			modes = []int{1, 2, 3}
		}
		for _, m := range modes {
			A.mapOrder = m
			again := compile(globals, c.src)
			R.check(same(base.text, again.text), key+" map order", where, "the compiled program depends on the order in which a map is traversed ("+c.name+")", nil)
			n := 0
			for _, r := range base.runs {
				for _, fn := range builders {
					s := build(r, fn)
					R.check(same(systems[n], s), key+" system map order", R.P.pos(fn.Pos())+" "+funcKey(fn), "the constraint system depends on the order in which a map is traversed ("+c.name+")", nil)
					n++
				}
			}
			A.mapOrder = 0
		}
		// after another program
		lits := A.literals
		A.literals = map[string]*BigVal{}
		for _, l := range strings.Fields(other.lits) {
			A.literals[l] = A.coef("number" + l)
		}
		first := compile(globals, other.src)
		A.literals = lits
		for i, r := range first.runs {
			if i > 0 && !R.thorough() {
				break
			}
			again := compile(r.st, c.src)
			R.check(len(again.text) > 0 && within(again.text, base.text), key+" history", where, "the compiled program depends on what was compiled before ("+c.name+" after "+other.name+")", nil)
		}
		// the same program and the same gates once more
		n := 0
		for _, r := range base.runs {
			for _, fn := range builders {
				for _, o := range A.call(fn, []Val{r.prog, r.gates, VBool{known: true}}, nil, r.st.fork(), fn.Pos()) {
					if o.panicked {
						continue
					}
					s := build(langRun{o.st, r.prog, r.gates}, fn)
					R.check(len(s) > 0 && within(s, systems[n]), key+" again", R.P.pos(fn.Pos())+" "+funcKey(fn), "building the constraint system a second time gives another system ("+c.name+")", nil)
				}
				n++
			}
			var texts []string
			for _, q := range A.call(exec, []Val{r.prog}, nil, r.st.fork(), exec.Pos()) {
				if q.panicked {
					texts = append(texts, "refused: "+q.msg)
					continue
				}
				if q.st.unsolved {
					continue
				}
				texts = append(texts, A.programText(langRun{q.st, r.prog, q.rets[0]}))
			}
			R.check(len(texts) > 0 && within(texts, base.text), key+" executed again", where, "executing a program a second time gives other gates ("+c.name+")", nil)
		}
	})
	for _, k := range A.evOrder {
		e := A.events[k]
		if e.kind == "mutates" && strings.Contains(e.msg, "package-level") {
			R.bad("D08/mutates", R.P.pos(e.pos)+" in "+e.fn, e.msg+" while a program is compiled", nil)
		}
	}
	R.counts["programs"]++
	R.absorb(A)
}

func uniq(l []string) (out []string) {
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return
}
