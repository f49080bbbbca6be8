package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Analysis is one run of the value-numbering abstract interpreter.
type Analysis struct {
	P                  *Program
	T                  *TermTable
	base               map[int]*Obj
	nextObj            int
	globals            map[*ssa.Global]int
	contracts          map[string]Contract
	events             map[string]*Event
	evOrder            []string
	stats              *Stats
	maxParts           int
	steps              int
	maxSteps           int
	loopCap            int
	infos              map[*ssa.Function]*fnInfo
	stack              []*ssa.Function
	hooks              map[*ssa.BasicBlock]func(p *part) bool
	callerMark         int
	poolGets, poolPuts int
	noMerge            bool
	built              map[int]*Term // initial content of built cells
	onPrint            func(c *callCtx)
	forkDecide         func(c *Cond, st *State) (int, bool)

	// symbolic text (strings.go)
	reps         map[string]*Term
	repEnv       *Env
	decVal       map[*Term]*BigVal
	parts        map[*Term][]VStr
	gdiv         map[*Term]map[*Term]bool
	literals     map[string]*BigVal // numerals of the analysed text that stand for any number
	idealNames   bool
	strictFmt    bool // formatted operands have to be modelled
	reverseNames bool
	goroutines   int
	mapOrder     int // order in which maps are traversed (chk_determ.go)
}

type Stats struct {
	funcs   map[string]bool
	sites   map[string]bool
	instrs  int
	parts   int
	merges  int
	bigOps  int
	queries int
}

func newStats() *Stats { return &Stats{funcs: map[string]bool{}, sites: map[string]bool{}} }

type Event struct {
	kind, msg string
	pos       token.Pos
	fn        string
}

type Contract func(A *Analysis, c *callCtx) []Outcome

type callCtx struct {
	st   *State
	fn   *ssa.Function
	key  string
	args []Val
	bind []Val
	pos  token.Pos
	sig  *types.Signature
}

type Outcome struct {
	st       *State
	rets     []Val
	panicked bool
	msg      string
	pos      token.Pos
}

type undecided struct {
	msg string
	pos token.Pos
	fn  string
}

func newAnalysis(P *Program, mod *big.Int, seed string) *Analysis {
	A := &Analysis{P: P, built: map[int]*Term{}, T: newTermTable(mod, seed), base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, contracts: map[string]Contract{},
		events: map[string]*Event{}, stats: newStats(), maxParts: 3000, maxSteps: 60_000_000, loopCap: 100000, infos: map[*ssa.Function]*fnInfo{}, hooks: map[*ssa.BasicBlock]func(p *part) bool{}}
	return A
}

func funcKey(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.String(), modPath+"/", "")
}

func (A *Analysis) fail(pos token.Pos, f string, a ...any) {
	fn := ""
	if len(A.stack) > 0 {
		fn = funcKey(A.stack[len(A.stack)-1])
	}
	panic(undecided{fmt.Sprintf(f, a...), pos, fn})
}

func (A *Analysis) event(st *State, kind, msg string, pos token.Pos) {
	if st != nil && st.unsolved {
		return
	}
	fn := ""
	if len(A.stack) > 0 {
		fn = funcKey(A.stack[len(A.stack)-1])
	}
	key := kind + "|" + A.P.pos(pos) + "|" + msg
	if _, ok := A.events[key]; !ok {
		A.events[key] = &Event{kind, msg, pos, fn}
		A.evOrder = append(A.evOrder, key)
	}
}

func (A *Analysis) alloc(st *State, o *Obj) int {
	A.nextObj++
	st.set(A.nextObj, o)
	return A.nextObj
}

func (A *Analysis) newState() *State {
	return &State{base: A.base, over: map[int]*Obj{}, env: A.T.newEnv(), marks: map[string]*Term{}, ref: map[*BigVal]*BigVal{}}
}

// initGlobals evaluates the package initialisers (constant propagation) and
// makes the resulting heap the base of every later state.
func (A *Analysis) initGlobals() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = fmt.Errorf("package initialisation: %s (%s)", u.msg, A.P.pos(u.pos))
				return
			}
			panic(r)
		}
	}()
	st := A.newState()
	var names []string
	for n := range A.P.pkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var ms []string
		for m := range A.P.pkgs[n].Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if g, ok := A.P.pkgs[n].Members[m].(*ssa.Global); ok {
				et := g.Type().Underlying().(*types.Pointer).Elem()
				A.globals[g] = A.alloc(st, &Obj{val: A.zeroVal(et), typ: et, site: g.Pos(), tag: "global " + n + "." + m})
			}
		}
	}
	for _, n := range []string{"pairing", "utils", "testPrograms", "circuitcompiler", "zkSNARK"} {
		sp := A.P.pkgs[n]
		if sp == nil {
			continue
		}
		if in := sp.Func("init"); in != nil {
			outs := A.call(in, nil, nil, st, in.Pos())
			if len(outs) != 1 || outs[0].panicked {
				return fmt.Errorf("package %s: initialisation has %d outcomes", n, len(outs))
			}
			st = outs[0].st
		}
	}
	for id, o := range st.over {
		c := *o
		if c.tag == "" {
			c.tag = "package-level storage"
		}
		c.frozen = "package-level storage"
		if strings.HasPrefix(c.tag, "global ") {
			c.frozen = c.tag
		}
		A.base[id] = &c
	}
	// name what each global reaches
	for g, id := range A.globals {
		A.nameReach(id, strings.TrimPrefix(A.base[id].tag, "global "), map[int]bool{})
		_ = g
	}
	A.stats = newStats()
	return nil
}

func (A *Analysis) nameReach(id int, name string, seen map[int]bool) {
	if seen[id] {
		return
	}
	seen[id] = true
	o := A.base[id]
	if o == nil {
		return
	}
	if o.tag == "package-level storage" {
		o.tag = name
		o.frozen = "package-level " + name
	}
	var walk func(v Val, n string)
	walk = func(v Val, n string) {
		switch x := v.(type) {
		case VPtr:
			A.nameReach(x.obj, n, seen)
		case VStruct:
			for _, f := range x.f {
				walk(f, n)
			}
		case VArr:
			for _, f := range x.e {
				walk(f, n)
			}
		case VSlice:
			A.nameReach(x.obj, n, seen)
		case VMap:
			A.nameReach(x.obj, n, seen)
		case VMapV:
			for _, f := range x.vals {
				walk(f, n)
			}
		case VIface:
			walk(x.v, n)
		}
	}
	walk(o.val, name)
}

// ---------------------------------------------------------------- functions

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	depth  int
}

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock][]*loopInfo // outermost first
	livein map[*ssa.BasicBlock]map[ssa.Value]bool
	heads  map[*ssa.BasicBlock]*loopInfo
}

func (A *Analysis) info(fn *ssa.Function) *fnInfo {
	if fi, ok := A.infos[fn]; ok {
		return fi
	}
	fi := computeInfo(fn)
	A.infos[fn] = fi
	return fi
}

func computeInfo(fn *ssa.Function) *fnInfo {
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock][]*loopInfo{}, livein: map[*ssa.BasicBlock]map[ssa.Value]bool{}, heads: map[*ssa.BasicBlock]*loopInfo{}}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	n := len(order)
	for i, b := range order {
		fi.rpo[b] = n - 1 - i
	}
	// natural loops
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := fi.heads[s]
				if li == nil {
					li = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.heads[s] = li
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[x] {
						continue
					}
					li.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var ls []*loopInfo
	for _, li := range fi.heads {
		ls = append(ls, li)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return fi.rpo[ls[i].header] < fi.rpo[ls[j].header]
	})
	for _, li := range ls {
		for b := range li.blocks {
			fi.loops[b] = append(fi.loops[b], li)
		}
	}
	// a loop's blocks must sort before its exits: place them by header
	// liveness
	use := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	def := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range order {
		u, d := map[ssa.Value]bool{}, map[ssa.Value]bool{}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); !ok {
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil && trackable(*op) && !d[*op] {
						u[*op] = true
					}
				}
			}
			if v, ok := in.(ssa.Value); ok {
				d[v] = true
			}
		}
		use[b], def[b] = u, d
		fi.livein[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for _, b := range order { // post order
			li := fi.livein[b]
			add := func(v ssa.Value) {
				if !li[v] {
					li[v] = true
					changed = true
				}
			}
			for v := range use[b] {
				add(v)
			}
			for _, s := range b.Succs {
				for v := range fi.livein[s] {
					if !def[b][v] {
						add(v)
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for i, p := range s.Preds {
						if p == b && trackable(ph.Edges[i]) && !def[b][ph.Edges[i]] {
							add(ph.Edges[i])
						}
					}
				}
			}
		}
	}
	// the values of a block's own phis are set on entry
	for _, b := range order {
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for _, r := range *ph.Referrers() {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					fi.livein[b][ph] = true
				}
			}
		}
	}
	return fi
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
	pos  token.Pos
}

type part struct {
	st     *State
	regs   map[ssa.Value]Val
	block  *ssa.BasicBlock
	idx    int
	iters  map[*ssa.BasicBlock]int
	defers []deferred
	rets   []Val // for merging at function exit
}

func (p *part) forkWith(st *State) *part {
	n := *p
	n.st = st
	n.regs = make(map[ssa.Value]Val, len(p.regs)+4)
	for k, v := range p.regs {
		n.regs[k] = v
	}
	n.iters = make(map[*ssa.BasicBlock]int, len(p.iters))
	for k, v := range p.iters {
		n.iters[k] = v
	}
	n.defers = append([]deferred{}, p.defers...)
	return &n
}

func (fi *fnInfo) key(p *part) []int {
	var k []int
	for _, li := range fi.loops[p.block] {
		k = append(k, fi.rpo[li.header], p.iters[li.header])
	}
	return append(k, fi.rpo[p.block], p.idx)
}

func lessKey(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func eqKey(a, b []int) bool { return !lessKey(a, b) && !lessKey(b, a) }

// call interprets fn on the given arguments and returns every outcome.
func (A *Analysis) call(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) []Outcome {
	key := funcKey(fn)
	A.stats.sites[A.P.pos(pos)+">"+key] = true
	if c, ok := A.contracts[key]; ok {
		if outs := c(A, &callCtx{st: st, fn: fn, key: key, args: args, pos: pos, sig: fn.Signature}); outs != nil {
			return outs
		}
	}
	if fn.Blocks == nil || !A.P.isRepoPkg(fnPkg(fn)) {
		return A.external(&callCtx{st: st, fn: fn, key: key, args: args, bind: bind, pos: pos, sig: fn.Signature})
	}
	if len(A.stack) > 220 {
		A.fail(pos, "call depth exceeded in %s", key)
	}
	if fn.Name() != "init" {
		A.stats.funcs[key] = true
	}
	A.stack = append(A.stack, fn)
	defer func() { A.stack = A.stack[:len(A.stack)-1] }()
	outs := A.exec(fn, args, bind, st)
	if len(A.stack) == 1 {
		for _, o := range outs {
			if !o.panicked {
				A.abandoned(o.st, o.rets, fn.Pos())
			}
		}
	}
	return outs
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
	}
	// synthetic wrappers/bound methods
	if fn.Object() != nil && fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), modPath) {
		return fn.Prog.Package(fn.Object().Pkg())
	}
	return nil
}

func (A *Analysis) exec(fn *ssa.Function, args []Val, bind []Val, st *State) []Outcome {
	fi := A.info(fn)
	watermark := A.nextObj
	p0 := &part{st: st, regs: map[ssa.Value]Val{}, block: fn.Blocks[0], iters: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		A.fail(fn.Pos(), "argument count mismatch calling %s", funcKey(fn))
	}
	for i, pa := range fn.Params {
		p0.regs[pa] = args[i]
	}
	for i, fv := range fn.FreeVars {
		p0.regs[fv] = bind[i]
	}
	work := []*part{p0}
	var outs []Outcome
	var rets []*part
	for len(work) > 0 {
		// pick the least advanced partition
		bi := 0
		var bk []int
		for i, p := range work {
			k := fi.key(p)
			if bk == nil || lessKey(k, bk) {
				bk, bi = k, i
			}
		}
		p := work[bi]
		work = append(work[:bi], work[bi+1:]...)
		// merge with partitions waiting at the same point
		if p.idx == 0 && len(work) > 0 {
			var rest []*part
			for _, q := range work {
				if q.block == p.block && q.idx == 0 && eqKey(fi.key(q), bk) {
					if m := A.merge(p, q, fi.livein[p.block], watermark); m != nil {
						A.stats.merges++
						p = m
						continue
					}
				}
				rest = append(rest, q)
			}
			work = rest
			// a merge may make an earlier failure succeed; one more pass
			if len(work) > 0 {
				var rest2 []*part
				for _, q := range work {
					if q.block == p.block && q.idx == 0 && eqKey(fi.key(q), bk) {
						if m := A.merge(p, q, fi.livein[p.block], watermark); m != nil {
							A.stats.merges++
							p = m
							continue
						}
					}
					rest2 = append(rest2, q)
				}
				work = rest2
			}
		}
		if len(work) > A.maxParts {
			A.fail(fn.Pos(), "more than %d partitions in %s", A.maxParts, funcKey(fn))
		}
		next, done, ret := A.runBlock(fn, fi, p)
		work = append(work, next...)
		outs = append(outs, done...)
		rets = append(rets, ret...)
	}
	// merge the normal returns
	var kept []*part
	for _, r := range rets {
		merged := false
		for i, k := range kept {
			if m := A.merge(k, r, nil, watermark); m != nil {
				kept[i] = m
				merged = true
				A.stats.merges++
				break
			}
		}
		if !merged {
			kept = append(kept, r)
		}
	}
	for _, k := range kept {
		outs = append(outs, Outcome{st: k.st, rets: k.rets})
	}
	A.stats.parts += len(outs)
	return outs
}

func (A *Analysis) operand(p *part, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return A.constVal(v)
	case *ssa.Global:
		id, ok := A.globals[v]
		if !ok {
			return VOpaque{"global " + v.String()}
		}
		return VPtr{obj: id}
	case *ssa.Function:
		return VFunc{fn: v}
	case *ssa.Builtin:
		return VFunc{bi: v}
	}
	r, ok := p.regs[v]
	if !ok {
		A.fail(v.Pos(), "unset register %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (A *Analysis) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return A.zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VBool{known: true, b: constant.BoolVal(c.Value)}
	case constant.String:
		return VStr{known: true, s: constant.StringVal(c.Value)}
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			return VInt{c: i}
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return VInt{c: int64(u)}
		}
	case constant.Float:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			f, _ := constant.Float64Val(c.Value)
			return VInt{c: int64(f)}
		}
	}
	return VOpaque{"const " + c.Value.String()}
}

// enter moves partition p along the edge from -> to.
func (A *Analysis) enter(fi *fnInfo, p *part, from, to *ssa.BasicBlock) *part {
	var idx int = -1
	for i, pr := range to.Preds {
		if pr == from {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, A.operand(p, ph.Edges[idx]))
	}
	for i, ph := range phis {
		p.regs[ph] = vals[i]
	}
	if li := fi.heads[to]; li != nil {
		if li.blocks[from] {
			p.iters[to]++
			if p.iters[to] > A.loopCap {
				A.fail(to.Instrs[0].Pos(), "loop bound of %d exceeded in %s", A.loopCap, to.Parent())
			}
		} else {
			p.iters[to] = 0
		}
	}
	// leaving loops resets their counters
	for h, l := range fi.heads {
		if !l.blocks[to] {
			delete(p.iters, h)
		}
	}
	p.block, p.idx = to, 0
	return p
}

func (A *Analysis) runBlock(fn *ssa.Function, fi *fnInfo, p *part) (next []*part, done []Outcome, rets []*part) {
	if p.idx == 0 {
		if h := A.hooks[p.block]; h != nil {
			if !h(p) {
				return nil, nil, nil
			}
		}
	}
	b := p.block
	for i := p.idx; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		A.steps++
		A.stats.instrs++
		if A.steps > A.maxSteps {
			A.fail(in.Pos(), "step budget exhausted in %s", fn)
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			return append(next, A.enter(fi, p, b, b.Succs[0])), done, rets
		case *ssa.If:
			c := A.operand(p, in.Cond)
			vb, ok := c.(VBool)
			if !ok {
				A.fail(in.Pos(), "condition %T", c)
			}
			if vb.known {
				s := b.Succs[1]
				if vb.b {
					s = b.Succs[0]
				}
				return append(next, A.enter(fi, p, b, s)), done, rets
			}
			t, f := A.decide(vb.cond, p.st, in.Cond.Pos())
			if t != nil && f != nil {
				pt := p.forkWith(t)
				next = append(next, A.enter(fi, pt, b, b.Succs[0]))
				p.st = f
				next = append(next, A.enter(fi, p, b, b.Succs[1]))
			} else if t != nil {
				p.st = t
				next = append(next, A.enter(fi, p, b, b.Succs[0]))
			} else if f != nil {
				p.st = f
				next = append(next, A.enter(fi, p, b, b.Succs[1]))
			}
			return next, done, rets
		case *ssa.Return:
			var rv []Val
			for _, r := range in.Results {
				rv = append(rv, A.operand(p, r))
			}
			p.rets = rv
			rets = append(rets, p)
			return
		case *ssa.Panic:
			msg := "panic"
			if v, ok := A.operand(p, in.X).(VIface); ok {
				if s, ok := v.v.(VStr); ok && s.known {
					msg = s.s
				}
			}
			done = append(done, Outcome{st: p.st, panicked: true, msg: msg, pos: in.Pos()})
			return
		case *ssa.Defer:
			d := deferred{call: &in.Call, pos: in.Pos()}
			d.fn, d.args = A.callee(p, &in.Call)
			p.defers = append(p.defers, d)
		case *ssa.RunDefers:
			sts := []*State{p.st}
			for k := len(p.defers) - 1; k >= 0; k-- {
				d := p.defers[k]
				var ns []*State
				for _, s := range sts {
					for _, o := range A.invoke(s, d.fn, d.args, d.pos) {
						if o.panicked {
							done = append(done, o)
						} else {
							ns = append(ns, o.st)
						}
					}
				}
				sts = ns
			}
			p.defers = nil
			if len(sts) == 0 {
				return
			}
			for _, s := range sts[1:] {
				q := p.forkWith(s)
				q.idx = i + 1
				next = append(next, q)
			}
			p.st = sts[0]
		case *ssa.Send:
			ch, ok := A.operand(p, in.Chan).(VChan)
			if !ok {
				A.fail(in.Pos(), "send on an unknown channel")
			}
			o := *p.st.get(ch.obj)
			q, ok := o.val.(VQueue)
			if !ok {
				A.fail(in.Pos(), "send on an unknown channel")
			}
			if q.closed {
				done = append(done, Outcome{st: p.st, panicked: true, msg: "send on closed channel", pos: in.Pos()})
				return
			}
			o.val = VQueue{q: append(append([]Val{}, q.q...), A.operand(p, in.X)), cap: q.cap}
			p.st.set(ch.obj, &o)
			A.sends(p.st, ch.obj, false, in.Pos())
		case *ssa.Go:
			// The started function runs to completion at once; what it sends is
			// queued. Interleavings are covered by the traversal discipline (B05).
			f, args := A.callee(p, &in.Call)
			var sts []*State
			outer := p.st.log
			name := "started here"
			if fv, ok := f.(VFunc); ok && fv.fn != nil {
				name = funcKey(fv.fn)
			}
			p.st.log = &threadLog{}
			for _, o := range A.invoke(p.st, f, args, in.Pos()) {
				if o.panicked {
					done = append(done, o)
				} else {
					A.started(o.st, outer, name)
					sts = append(sts, o.st)
				}
			}
			if len(sts) == 0 {
				return
			}
			for _, s := range sts[1:] {
				q := p.forkWith(s)
				q.idx = i + 1
				next = append(next, q)
			}
			p.st = sts[0]
		case *ssa.Store:
			if po := A.store(p.st, A.operand(p, in.Addr), A.operand(p, in.Val), in.Pos()); po != "" {
				done = append(done, Outcome{st: p.st, panicked: true, msg: po, pos: in.Pos()})
				return
			}
		case *ssa.MapUpdate:
			if po := A.mapUpdate(p.st, A.operand(p, in.Map), A.operand(p, in.Key), A.operand(p, in.Value), in.Pos()); po != "" {
				done = append(done, Outcome{st: p.st, panicked: true, msg: po, pos: in.Pos()})
				return
			}
		case *ssa.Call:
			f, args := A.callee(p, &in.Call)
			os := A.invoke(p.st, f, args, in.Pos())
			first := true
			base := p
			var follow []*part
			for _, o := range os {
				if o.panicked {
					done = append(done, o)
					continue
				}
				q := base
				if !first {
					q = base.forkWith(o.st)
				}
				q2 := q
				q2.st = o.st
				setRet(q2, in, o.rets)
				if !first {
					q2.idx = i + 1
					follow = append(follow, q2)
				}
				first = false
			}
			next = append(next, follow...)
			if first {
				return // no normal outcome
			}
			if len(follow) > 0 {
				p.idx = i + 1
				next = append(next, p)
				return
			}
		default:
			v, ok := in.(ssa.Value)
			if !ok {
				A.fail(in.Pos(), "instruction %T", in)
			}
			r, po := A.eval(p, v)
			if po != "" {
				done = append(done, Outcome{st: p.st, panicked: true, msg: po, pos: in.Pos()})
				return
			}
			if ms, ok := r.(multi); ok {
				for k, m := range ms.alts {
					q := p
					if k > 0 {
						q = p.forkWith(m.st)
					}
					_ = q
				}
				for k := len(ms.alts) - 1; k >= 0; k-- {
					q := p.forkWith(ms.alts[k].st)
					q.regs[v] = ms.alts[k].v
					q.idx = i + 1
					next = append(next, q)
				}
				return
			}
			p.regs[v] = r
		}
	}
	A.fail(fn.Pos(), "block without terminator")
	return
}

type alt struct {
	st *State
	v  Val
}
type multi struct{ alts []alt }

func setRet(p *part, in *ssa.Call, rets []Val) {
	switch len(rets) {
	case 0:
		p.regs[in] = VTuple{}
	case 1:
		p.regs[in] = rets[0]
	default:
		p.regs[in] = VTuple{rets}
	}
}

func (A *Analysis) callee(p *part, c *ssa.CallCommon) (Val, []Val) {
	var args []Val
	if c.IsInvoke() {
		recv := A.operand(p, c.Value)
		for _, a := range c.Args {
			args = append(args, A.operand(p, a))
		}
		iv, ok := recv.(VIface)
		if !ok || iv.t == nil {
			return VOpaque{"invoke " + c.Method.FullName()}, append([]Val{recv}, args...)
		}
		ms := A.P.prog.MethodSets.MethodSet(iv.t)
		sel := ms.Lookup(c.Method.Pkg(), c.Method.Name())
		if iv.t == hashType {
			sel = nil
		}
		if sel == nil {
			return VOpaque{"invoke " + c.Method.FullName()}, append([]Val{recv}, args...)
		}
		m := A.P.prog.MethodValue(sel)
		if m == nil {
			return VOpaque{"invoke " + c.Method.FullName()}, append([]Val{recv}, args...)
		}
		return VFunc{fn: m}, append([]Val{iv.v}, args...)
	}
	for _, a := range c.Args {
		args = append(args, A.operand(p, a))
	}
	return A.operand(p, c.Value), args
}

func (A *Analysis) invoke(st *State, f Val, args []Val, pos token.Pos) []Outcome {
	switch f := f.(type) {
	case VFunc:
		if f.bi != nil {
			return A.builtin(st, f.bi, args, pos)
		}
		if f.sum {
			t := A.T.zero
			for _, a := range args {
				if b := A.bigAt(st, a, pos); b != nil {
					t = A.T.add(t, st.latest(b).t)
				}
			}
			id := A.alloc(st, &Obj{val: VBig{A.bigCanon(t)}, typ: A.bigType()})
			return []Outcome{{st: st, rets: []Val{VPtr{obj: id}}}}
		}
		return A.call(f.fn, args, f.bind, st, pos)
	case VNil:
		return []Outcome{{st: st, panicked: true, msg: "call of nil function", pos: pos}}
	case VOpaque:
		for _, m := range []string{"Write", "Sum", "Reset"} {
			if f.name == "invoke (io.Writer)."+m || f.name == "invoke (hash.Hash)."+m {
				if o, ok := A.hashMethod(st, m, args, pos); ok {
					return o
				}
			}
		}
		if _, none := args[0].(VNil); none && strings.HasPrefix(f.name, "invoke ") {
			return []Outcome{{st: st, panicked: true, msg: msgNil, pos: pos}}
		}
		if strings.HasPrefix(f.name, "invoke (error).Error") {
			return []Outcome{{st: st, rets: []Val{VStr{}}}}
		}
	}
	A.fail(pos, "call of unknown function value %v", f)
	return nil
}
