package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership of numbers, group elements, coefficient lists and trees (B02).
//
// Bottom-up summaries over the SSA form, no bound on shapes: every object that
// an instruction modifies is traced to where it comes from. Objects created by
// the function itself may be modified until they are handed out; modifying
// what a parameter refers to becomes an effect of the function, judged at its
// callers (and refused for exported functions); modifying anything else (loaded
// from a global, a structure that the function did not create, a channel, an
// unknown call) is a violation.

type okind int

const (
	oSite okind = iota
	oParam
	oDeep
	oShared
)

type oobj struct {
	kind    okind
	idx     int             // parameter number
	at      ssa.Instruction // site
	t       types.Type      // what it is: T for a *T, the type itself for slices and maps; nil: anything
	any     bool            // pointers to parts of it were stored
	content oset
	kept    bool // also kept outside of the function when it is returned
	dup     bool // several slots of a container may hold it
	id      int
}

type oset map[*oobj]bool

func (s oset) addAll(t oset) bool {
	ch := false
	for o := range t {
		if !s[o] {
			s[o] = true
			ch = true
		}
	}
	return ch
}

// oorigin describes an object from the outside of a function.
type oorigin struct {
	kind okind // oSite: created by the function
	idx  int
	t    string // for deep objects and sites: what it is
}

type osummary struct {
	rets    []map[oorigin]bool    // per result: what it refers to
	retDeep []map[oorigin]bool    // what is reachable from created results
	stores  []map[oorigin]bool    // per parameter: what is stored into it
	mod     map[oorigin]token.Pos // numbers, elements and lists modified (parameters only)
	tree    map[oorigin]token.Pos // trees modified
	capt    map[int]bool          // parameters kept somewhere else than in results
	what    map[oorigin]string    // description of the modification
}

type ownership struct {
	P      *Program
	R      *Report
	sums   map[*ssa.Function]*osummary
	fns    []*ssa.Function
	taken  map[*ssa.Function]token.Pos // functions used as values
	mods   int
	report bool
	types  map[string]types.Type
	reach  map[[2]string]bool
	held   map[string][]types.Type
}

// tkey names a type and remembers it.
func (O *ownership) tkey(t types.Type) string {
	if t == nil {
		return ""
	}
	k := types.TypeString(t, nil)
	O.types[k] = t
	return k
}

// pointee is the type of the object that a value of type t refers to.
func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return types.NewSlice(a.Elem())
		}
		return u.Elem()
	}
	return t
}

// typeReach: an object of type `from` may refer, in any number of steps, to one of type `to`.
func (O *ownership) typeReach(from, to types.Type) bool {
	if from == nil || to == nil {
		return true
	}
	k := [2]string{O.tkey(from), O.tkey(to)}
	if r, ok := O.reach[k]; ok {
		return r
	}
	seen := map[string]bool{}
	var walk func(t types.Type, first bool) bool
	walk = func(t types.Type, first bool) bool {
		if !first && types.Identical(t, to) {
			return true
		}
		if seen[O.tkey(t)] && !first {
			return false
		}
		seen[O.tkey(t)] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return walk(u.Elem(), false)
		case *types.Slice:
			return walk(u.Elem(), false)
		case *types.Array:
			return walk(u.Elem(), false)
		case *types.Chan:
			return walk(u.Elem(), false)
		case *types.Map:
			return walk(u.Key(), false) || walk(u.Elem(), false)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type(), false) {
					return true
				}
			}
		}
		return false
	}
	r := walk(from, true)
	O.reach[k] = r
	return r
}

type ofunc struct {
	O      *ownership
	f      *ssa.Function
	vals   map[ssa.Value]oset
	sites  map[ssa.Instruction]map[string]*oobj
	params []*oobj
	deeps  []map[string]*oobj
	shared map[string]*oobj
	ch     bool
	n      int
}

func isProtected(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	p := n.Obj().Pkg().Path()
	switch {
	case p == "math/big" && n.Obj().Name() == "Int":
		return "number"
	case strings.HasPrefix(p, modPath) && strings.HasSuffix(p, "/pairing") && n.Obj().Exported():
		if _, ok := n.Underlying().(*types.Struct); ok {
			return "group element"
		}
	case strings.HasPrefix(p, modPath) && strings.HasSuffix(p, "/utils") && (n.Obj().Name() == "AvlTree" || n.Obj().Name() == "AvlNode"):
		return "tree"
	}
	return ""
}

func protectedPtr(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return isProtected(p.Elem())
	}
	return ""
}

// listOf tells whether t is a slice (of slices) of pointers to numbers or group elements.
func listOf(t types.Type) bool {
	for {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			t = u.Elem()
			if k := protectedPtr(t); k == "number" || k == "group element" {
				return true
			}
		case *types.Pointer:
			a, ok := u.Elem().Underlying().(*types.Array)
			if !ok {
				return false
			}
			t = a.Elem()
			if k := protectedPtr(t); k == "number" || k == "group element" {
				return true
			}
		default:
			return false
		}
	}
}

var plain = map[types.Type]bool{}

// hasPointers: values of the type can refer to something that is judged here.
func hasPointers(t types.Type) bool {
	r, ok := plain[t]
	if !ok {
		r = refersTo(t, map[types.Type]bool{})
		plain[t] = r
	}
	return r
}

func refersTo(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if isProtected(t) != "" {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return refersTo(u.Elem(), seen)
	case *types.Slice:
		return refersTo(u.Elem(), seen)
	case *types.Array:
		return refersTo(u.Elem(), seen)
	case *types.Chan:
		return refersTo(u.Elem(), seen)
	case *types.Map:
		return refersTo(u.Key(), seen) || refersTo(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersTo(u.Field(i).Type(), seen) {
				return true
			}
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refersTo(u.At(i).Type(), seen) {
				return true
			}
		}
	case *types.Interface, *types.Signature:
		return true
	}
	return false
}

var bigReaders = map[string]bool{"Append": true, "BitLen": true, "Bit": true, "Bits": true, "Bytes": true, "Cmp": true, "CmpAbs": true,
	"FillBytes": true, "Float64": true, "Format": true, "GobEncode": true, "Int64": true, "IsInt64": true, "IsUint64": true,
	"MarshalJSON": true, "MarshalText": true, "ProbablyPrime": true, "Sign": true, "String": true, "Text": true, "TrailingZeroBits": true, "Uint64": true, "AppendText": true}

// modifies returns the indices of the arguments that an external or pairing function modifies.
func externalEffect(f *ssa.Function) (mods []int, receiver bool) {
	sig := f.Signature
	if sig.Recv() == nil {
		return nil, false
	}
	k := protectedPtr(sig.Recv().Type())
	if k == "" {
		return nil, false
	}
	if k == "number" {
		if bigReaders[f.Name()] {
			return nil, false
		}
		mods = []int{0}
		switch f.Name() {
		case "DivMod", "QuoRem":
			mods = append(mods, 3)
		case "GCD":
			mods = append(mods, 1, 2)
		}
	} else {
		same := false
		for i := 0; i < sig.Results().Len(); i++ {
			same = same || types.Identical(sig.Results().At(i).Type(), sig.Recv().Type())
		}
		if same || strings.HasPrefix(f.Name(), "Unmarshal") || strings.HasPrefix(f.Name(), "Set") {
			mods = []int{0}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		receiver = receiver || types.Identical(sig.Results().At(i).Type(), sig.Recv().Type())
	}
	return mods, receiver
}

func nparams(f *ssa.Function) int { return len(f.Params) + len(f.FreeVars) }

func (O *ownership) newFunc(f *ssa.Function) *ofunc {
	F := &ofunc{O: O, f: f, vals: map[ssa.Value]oset{}, sites: map[ssa.Instruction]map[string]*oobj{}}
	F.shared = map[string]*oobj{}
	var ts []types.Type
	for _, p := range f.Params {
		ts = append(ts, p.Type())
	}
	for _, p := range f.FreeVars {
		ts = append(ts, p.Type())
	}
	for i, t := range ts {
		F.params = append(F.params, F.obj(oParam, i, nil, pointee(t)))
		F.deeps = append(F.deeps, map[string]*oobj{})
	}
	return F
}

// param is what a parameter refers to; structures are passed by value.
func (F *ofunc) param(i int, t types.Type) oset {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		r := oset{}
		for _, l := range leaves(t) {
			r[F.deep(i, l)] = true
		}
		return r
	}
	return oset{F.params[i]: true}
}

func (F *ofunc) foreign(t types.Type) *oobj {
	k := F.O.tkey(t)
	if F.shared[k] == nil {
		F.shared[k] = F.obj(oShared, 0, nil, t)
		F.ch = true
	}
	return F.shared[k]
}

func (F *ofunc) foreigners(t types.Type) oset {
	r := oset{}
	for _, l := range leaves(t) {
		r[F.foreign(l)] = true
	}
	return r
}

func (F *ofunc) deep(i int, t types.Type) *oobj {
	k := F.O.tkey(t)
	if F.deeps[i][k] == nil {
		F.deeps[i][k] = F.obj(oDeep, i, nil, t)
		F.ch = true
	}
	return F.deeps[i][k]
}

// leaves are the types of the objects that a value of type t refers to directly.
func leaves(t types.Type) []types.Type {
	if !hasPointers(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return nil
	case *types.Struct:
		var r []types.Type
		for i := 0; i < u.NumFields(); i++ {
			r = append(r, leaves(u.Field(i).Type())...)
		}
		return r
	case *types.Array:
		return leaves(u.Elem())
	case *types.Tuple:
		var r []types.Type
		for i := 0; i < u.Len(); i++ {
			r = append(r, leaves(u.At(i).Type())...)
		}
		return r
	}
	return []types.Type{pointee(t)}
}

func fits(o *oobj, ls []types.Type) bool {
	if o.t == nil || o.any || types.IsInterface(o.t) {
		return len(ls) > 0
	}
	for _, l := range ls {
		if l == nil || types.IsInterface(l) || types.Identical(l, o.t) {
			return true
		}
	}
	return false
}

// pick keeps the objects that a value of type t can refer to.
func (F *ofunc) pick(s oset, t types.Type) oset {
	r := oset{}
	ls := leaves(t)
	for o := range s {
		if fits(o, ls) {
			r[o] = true
		}
	}
	return r
}

// load is what a value of type t read from the objects s refers to.
func (F *ofunc) load(s oset, t types.Type) oset {
	r := oset{}
	ls := leaves(t)
	for o := range s {
		for c := range o.content {
			if fits(c, ls) {
				r[c] = true
			}
		}
		for _, l := range ls {
			switch o.kind {
			case oParam, oDeep:
				r[F.deep(o.idx, l)] = true
			case oShared:
				r[F.foreign(l)] = true
			}
		}
	}
	return r
}

func (F *ofunc) obj(k okind, i int, at ssa.Instruction, t types.Type) *oobj {
	F.n++
	return &oobj{kind: k, idx: i, at: at, t: t, content: oset{}, id: F.n}
}

func (F *ofunc) site(in ssa.Instruction, tag string, t types.Type) *oobj {
	m := F.sites[in]
	if m == nil {
		m = map[string]*oobj{}
		F.sites[in] = m
	}
	if m[tag] == nil {
		m[tag] = F.obj(oSite, 0, in, t)
		F.ch = true
	}
	return m[tag]
}

func (F *ofunc) val(v ssa.Value) oset {
	if v == nil || !hasPointers(v.Type()) {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return oset{F.foreign(pointee(v.Type())): true}
	case *ssa.Parameter:
		for i, p := range F.f.Params {
			if p == v {
				return F.param(i, v.Type())
			}
		}
	case *ssa.FreeVar:
		for i, p := range F.f.FreeVars {
			if p == v {
				return oset{F.params[len(F.f.Params)+i]: true}
			}
		}
	}
	return F.vals[v]
}

func (F *ofunc) set(v ssa.Value, s oset) {
	if v == nil || !hasPointers(v.Type()) {
		return
	}
	if F.vals[v] == nil {
		F.vals[v] = oset{}
	}
	if F.vals[v].addAll(s) {
		F.ch = true
	}
}

// put stores the value v; pointers to parts of an object make it an object of any type.
func (F *ofunc) put(into oset, v ssa.Value) {
	s := F.val(v)
	if len(s) == 0 {
		return
	}
	ls := leaves(v.Type())
	for o := range s {
		if !fits(o, ls) {
			o.any = true
			F.ch = true
		}
	}
	F.store(into, s)
}

// holds are the types that an object of type t refers to directly (nil: anything).
func (O *ownership) holds(t types.Type) []types.Type {
	if t == nil {
		return []types.Type{nil}
	}
	k := O.tkey(t)
	if r, ok := O.held[k]; ok {
		return r
	}
	var r []types.Type
	switch u := t.Underlying().(type) {
	case *types.Slice:
		r = leaves(u.Elem())
	case *types.Chan:
		r = leaves(u.Elem())
	case *types.Map:
		r = append(leaves(u.Key()), leaves(u.Elem())...)
	default:
		r = leaves(t)
	}
	O.held[k] = r
	return r
}

// spread stores each object into those that can hold it.
func (F *ofunc) spread(into, what oset) {
	for o := range into {
		if o.kind == oShared {
			continue
		}
		hs := F.O.holds(o.t)
		for w := range what {
			if !o.content[w] && fits(w, hs) {
				o.content[w] = true
				F.ch = true
			}
		}
	}
}

func (F *ofunc) store(into, what oset) {
	for o := range into {
		if o.kind == oShared {
			continue
		}
		if o.content.addAll(what) {
			F.ch = true
		}
	}
}

// reachable are the objects of type t (nil: of any type) reachable from s in at least one step.
func (F *ofunc) reachable(s oset, t types.Type) oset {
	r, seen := oset{}, oset{}
	var walk func(s oset)
	walk = func(s oset) {
		for o := range s {
			if o.kind != oSite && t != nil && F.O.typeReach(o.t, t) {
				if o.kind == oShared {
					r[F.foreign(t)] = true
				} else {
					r[F.deep(o.idx, t)] = true
				}
			}
			for c := range o.content {
				if t == nil || c.t == nil || c.any || types.Identical(c.t, t) {
					r[c] = true
				}
				if !seen[c] {
					seen[c] = true
					walk(oset{c: true})
				}
			}
		}
	}
	walk(s)
	return r
}

func (F *ofunc) origins(s oset) map[oorigin]bool {
	r := map[oorigin]bool{}
	for o := range s {
		r[F.origin(o)] = true
	}
	return r
}

func (F *ofunc) origin(o *oobj) oorigin {
	if o.kind == oSite && (o.dup || o.kept) {
		return oorigin{oShared, 0, F.O.tkey(o.t)}
	}
	r := oorigin{o.kind, o.idx, ""}
	if o.kind != oParam {
		r.t = F.O.tkey(o.t)
	}
	return r
}

// inside translates an origin of a callee into objects of the caller.
func (F *ofunc) inside(call ssa.Instruction, o oorigin, args []oset, tag string) oset {
	switch o.kind {
	case oSite:
		return oset{F.site(call, tag+o.t, F.O.types[o.t]): true}
	case oParam:
		return args[o.idx]
	case oDeep:
		return F.reachable(args[o.idx], F.O.types[o.t])
	}
	return oset{F.foreign(F.O.types[o.t]): true}
}

func (F *ofunc) callee(c *ssa.CallCommon) (f *ssa.Function, args []ssa.Value) {
	if c.IsInvoke() {
		return nil, nil
	}
	switch v := c.Value.(type) {
	case *ssa.Function:
		return v, c.Args
	case *ssa.MakeClosure:
		g := v.Fn.(*ssa.Function)
		return g, append(append([]ssa.Value{}, c.Args...), v.Bindings...)
	}
	return nil, nil
}

func (F *ofunc) solve() {
	for {
		F.ch = false
		for _, b := range F.f.Blocks {
			for _, in := range b.Instrs {
				F.step(in)
			}
		}
		if !F.ch {
			return
		}
	}
}

func (F *ofunc) step(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan:
		v := in.(ssa.Value)
		F.set(v, oset{F.site(in, "", pointee(v.Type())): true})
	case *ssa.MakeClosure:
		o := F.site(in, "", nil)
		for _, b := range in.Bindings {
			F.put(oset{o: true}, b)
		}
		F.set(in, oset{o: true})
		// whoever gets the closure may call it: what it stores into its variables is there afterwards
		g := in.Fn.(*ssa.Function)
		if s := F.O.sums[g]; s != nil {
			args := make([]oset, nparams(g))
			for i := range g.Params {
				args[i] = F.foreigners(g.Params[i].Type())
			}
			for i, b := range in.Bindings {
				args[len(g.Params)+i] = F.val(b)
			}
			F.applyStores(in, s, args)
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			F.set(in, F.val(e))
		}
	case *ssa.FieldAddr:
		F.set(in, F.val(in.X))
	case *ssa.Field:
		F.set(in, F.pick(F.val(in.X), in.Type()))
	case *ssa.IndexAddr:
		F.set(in, F.val(in.X))
	case *ssa.Index:
		F.set(in, F.pick(F.val(in.X), in.Type()))
	case *ssa.Slice:
		F.set(in, F.val(in.X))
	case *ssa.ChangeType:
		F.set(in, F.val(in.X))
	case *ssa.Convert:
		F.set(in, F.val(in.X))
	case *ssa.ChangeInterface:
		F.set(in, F.val(in.X))
	case *ssa.MakeInterface:
		F.set(in, F.val(in.X))
	case *ssa.TypeAssert:
		F.set(in, F.pick(F.val(in.X), in.Type()))
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			F.set(in, F.result(c, in.Index))
		} else {
			F.set(in, F.pick(F.val(in.Tuple), in.Type()))
		}
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			F.set(in, F.load(F.val(in.X), in.Type()))
		case token.ARROW:
			s := F.load(F.val(in.X), in.Type())
			s.addAll(F.foreigners(in.Type()))
			F.set(in, s)
		}
	case *ssa.Store:
		F.put(F.val(in.Addr), in.Val)
	case *ssa.MapUpdate:
		F.put(F.val(in.Map), in.Key)
		F.put(F.val(in.Map), in.Value)
	case *ssa.Send:
		F.put(F.val(in.Chan), in.X)
	case *ssa.Lookup:
		F.set(in, F.load(F.val(in.X), in.Type()))
	case *ssa.Range:
		F.set(in, F.val(in.X))
	case *ssa.Next:
		F.set(in, F.load(F.val(in.Iter), in.Type()))
	case *ssa.Select:
		for _, s := range in.States {
			if s.Dir == types.RecvOnly {
				c := F.load(F.val(s.Chan), in.Type())
				c.addAll(F.foreigners(in.Type()))
				F.set(in, c)
			} else {
				F.put(F.val(s.Chan), s.Send)
			}
		}
	case *ssa.Call:
		F.call(in, &in.Call)
		if in.Call.Signature().Results().Len() == 1 || isBuiltin(&in.Call) {
			F.set(in, F.result(in, 0))
		}
	case *ssa.Go:
		F.call(in, &in.Call)
	case *ssa.Defer:
		F.call(in, &in.Call)
	}
}

func isBuiltin(c *ssa.CallCommon) bool { _, ok := c.Value.(*ssa.Builtin); return ok }

func (F *ofunc) argSets(args []ssa.Value) []oset {
	var r []oset
	for _, a := range args {
		r = append(r, F.val(a))
	}
	return r
}

func (F *ofunc) applyStores(in ssa.Instruction, s *osummary, args []oset) {
	for i, m := range s.stores {
		all := oset{}
		own := oset{}
		for o := range m {
			w := F.inside(in, o, args, "s"+itoa(i))
			all.addAll(w)
			if o.kind == oSite {
				own.addAll(w)
			}
		}
		if len(all) > 0 {
			F.spread(args[i], all)
			F.spread(F.ownParts(args[i]), all)
			F.spread(own, all)
		}
	}
}

// ownParts are the objects reachable from s; a callee may have stored into each of them.
func (F *ofunc) ownParts(s oset) oset { return F.reachable(s, nil) }

// elems is what the elements of a slice refer to.
func (F *ofunc) elems(v ssa.Value) oset {
	sl, ok := v.Type().Underlying().(*types.Slice)
	if !ok || !hasPointers(sl.Elem()) {
		return oset{}
	}
	return F.load(F.val(v), sl.Elem())
}

func (F *ofunc) call(in ssa.Instruction, c *ssa.CallCommon) {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "copy" && len(c.Args) == 2 {
			F.store(F.val(c.Args[0]), F.elems(c.Args[1]))
		}
		return
	}
	f, args := F.callee(c)
	if f == nil {
		return
	}
	if s := F.O.sums[f]; s != nil {
		F.applyStores(in, s, F.argSets(args))
	}
}

// candidates are the functions that a call of a function value may reach.
func (O *ownership) candidates(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return nil
	}
	want := c.Signature()
	var r []*ssa.Function
	for g := range O.taken {
		sig := g.Signature
		if O.sums[g] == nil || !types.Identical(sig.Params(), want.Params()) || !types.Identical(sig.Results(), want.Results()) {
			continue
		}
		r = append(r, g)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func (F *ofunc) resultBy(c *ssa.Call, s *osummary, i int, sets []oset) oset {
	r := oset{}
	own, deep, deepOwn := oset{}, oset{}, oset{}
	for o := range s.rets[i] {
		w := F.inside(c, o, sets, "r"+itoa(i))
		r.addAll(w)
		if o.kind == oSite {
			own.addAll(w)
		}
	}
	if len(own) > 0 {
		for d := range s.retDeep[i] {
			w := F.inside(c, d, sets, "d"+itoa(i))
			deep.addAll(w)
			if d.kind == oSite {
				deepOwn.addAll(w)
			}
		}
		F.spread(own, deep)
		F.spread(deepOwn, deep)
	}
	return r
}

// result is what the i-th result of a call refers to.
func (F *ofunc) result(c *ssa.Call, i int) oset {
	r := oset{}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" {
			o := F.site(c, "", c.Type())
			r[o] = true
			r.addAll(F.val(c.Call.Args[0]))
			F.store(oset{o: true}, F.elems(c.Call.Args[0]))
			if len(c.Call.Args) > 1 {
				F.store(r, F.elems(c.Call.Args[1]))
			}
		}
		return r
	}
	f, args := F.callee(&c.Call)
	sets := F.argSets(args)
	switch {
	case f == nil:
		// a function value: any function of this type that is used as a value
		rt := f0result(&c.Call, i)
		gs := F.O.candidates(&c.Call)
		for _, g := range gs {
			var full []oset
			if g.Signature.Recv() != nil {
				full = append(full, F.foreigners(g.Signature.Recv().Type()))
			}
			for _, a := range c.Call.Args {
				full = append(full, F.val(a))
			}
			for _, v := range g.FreeVars {
				full = append(full, F.foreigners(v.Type()))
			}
			r.addAll(F.resultBy(c, F.O.sums[g], i, full))
		}
		if len(gs) == 0 {
			r.addAll(F.foreigners(rt))
			for _, a := range c.Call.Args {
				r.addAll(F.pick(F.val(a), rt))
			}
		}
	case F.O.sums[f] != nil:
		return F.resultBy(c, F.O.sums[f], i, sets)
	default:
		_, recv := externalEffect(f)
		if recv {
			rt := f.Signature.Results().At(i).Type()
			if types.Identical(rt, f.Signature.Recv().Type()) {
				r.addAll(sets[0])
				return r
			}
			if protectedPtr(rt) != "" && i > 0 { // second result of DivMod, QuoRem
				r.addAll(sets[len(sets)-1])
				return r
			}
		}
		o := F.site(c, "r"+itoa(i), pointee(f.Signature.Results().At(i).Type()))
		r[o] = true
		if protectedPtr(f.Signature.Results().At(i).Type()) == "" {
			for _, a := range sets {
				F.store(oset{o: true}, a)
				F.store(oset{o: true}, F.reachable(a, nil))
				for b := range a {
					if b.kind == oParam || b.kind == oDeep {
						for _, l := range leaves(elemOf(b.t)) {
							F.store(oset{o: true}, oset{F.deep(b.idx, l): true})
						}
					}
				}
			}
		}
	}
	return r
}

// elemOf is what slices and maps hold.
func elemOf(t types.Type) types.Type {
	if t != nil {
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Map:
			return u.Elem()
		}
	}
	return types.Typ[types.Int]
}

func f0result(c *ssa.CallCommon, i int) types.Type {
	return c.Signature().Results().At(i).Type()
}

// where finds the instruction positions between which a path exists that does not pass `avoid`.
func (F *ofunc) path(from, to, avoid ssa.Instruction) bool {
	idx := func(in ssa.Instruction) int {
		for i, x := range in.Block().Instrs {
			if x == in {
				return i
			}
		}
		return -1
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if b.Instrs[i] == avoid {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), idx(from)+1)
}

type oevent struct {
	at   ssa.Instruction
	obj  *oobj
	what string
	out  bool   // stored outside of the function's own structures
	into oset   // own containers
	slot string // for fields: identity of the slot
}

// fromContainer: v was read out of one of the containers `into` (so storing it back shares nothing new).
func (F *ofunc) fromContainer(v ssa.Value, into oset, depth int) bool {
	if depth > 8 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			for o := range F.val(v.X) {
				if into[o] {
					return true
				}
			}
		}
	case *ssa.Lookup:
		for o := range F.val(v.X) {
			if into[o] {
				return true
			}
		}
	case *ssa.Extract:
		return F.fromContainer(v.Tuple, into, depth+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !F.fromContainer(e, into, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f, args := F.callee(&v.Call)
		if f != nil && len(args) > 0 {
			if _, recv := externalEffect(f); recv && F.O.sums[f] == nil {
				return F.fromContainer(args[0], into, depth+1)
			}
		}
	}
	return false
}

// cell: the address is a plain variable, not a slot of a structure.
func isCell(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.Alloc:
		_, ptr := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Pointer)
		return ptr
	case *ssa.FreeVar:
		p, ok := a.Type().Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		_, ptr := p.Elem().Underlying().(*types.Pointer)
		return ptr
	}
	return false
}

func slotOf(addr ssa.Value) string {
	if f, ok := addr.(*ssa.FieldAddr); ok {
		return fmt.Sprintf("%s.%d", slotOf(f.X), f.Field)
	}
	if u, ok := addr.(*ssa.UnOp); ok && u.Op == token.MUL {
		return "*" + slotOf(u.X)
	}
	return fmt.Sprintf("%p", addr)
}

// events collects stores and captures of objects.
func (F *ofunc) events() []oevent {
	var ev []oevent
	add := func(in ssa.Instruction, v ssa.Value, into oset, what, slot string, force bool) {
		if v == nil || protectedPtr(v.Type()) == "tree" || protectedPtr(v.Type()) == "" {
			return
		}
		if F.fromContainer(v, into, 0) {
			return
		}
		out := force
		for o := range into {
			out = out || o.kind != oSite
		}
		for o := range F.val(v) {
			if o.kind == oSite {
				ev = append(ev, oevent{in, o, what, out, into, slot})
			}
		}
	}
	for _, b := range F.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if g, ok := in.Addr.(*ssa.FreeVar); ok && isCell(g) {
					continue
				}
				if isCell(in.Addr) {
					continue
				}
				add(in, in.Val, F.val(in.Addr), "stored", slotOf(in.Addr), false)
			case *ssa.MapUpdate:
				add(in, in.Value, F.val(in.Map), "stored in a map", "", false)
			case *ssa.Send:
				add(in, in.X, nil, "sent on a channel", "", true)
			case ssa.CallInstruction:
				f, args := F.callee(in.Common())
				if f == nil || F.O.sums[f] == nil {
					if _, isGo := in.(*ssa.Go); isGo {
						for _, a := range in.Common().Args {
							add(in, a, nil, "passed to a goroutine", "", true)
						}
					}
					continue
				}
				s := F.O.sums[f]
				_, isGo := in.(*ssa.Go)
				for i, a := range args {
					if isGo || s.capt[i] {
						if i >= len(f.Params) && isCellPtr(a) {
							continue
						}
						add(in, a, nil, "kept by "+f.Name(), "", true)
					}
				}
			}
		}
	}
	return ev
}

func isCellPtr(v ssa.Value) bool { a, ok := v.(*ssa.Alloc); return ok && isCell(a) }

type omod struct {
	at   ssa.Instruction
	v    ssa.Value
	objs oset
	what string
	tree bool
}

// fresh: the number modified is the one its site has just made, and is not
// handed on before the modification.
func (F *ofunc) fresh(m omod, o *oobj, ev []oevent) bool {
	if v, ok := m.v.(ssa.Instruction); !ok || v != o.at {
		return false
	}
	for _, e := range ev {
		if e.obj == o && e.at != m.at && F.path(e.at, m.at, o.at) {
			return false
		}
	}
	return true
}

// modifications lists what instructions modify.
func (F *ofunc) modifications() []omod {
	var ms []omod
	add := func(in ssa.Instruction, v ssa.Value, objs oset, what string, tree bool) {
		ms = append(ms, omod{in, v, objs, what, tree})
	}
	bySummary := func(in ssa.Instruction, s *osummary, args []ssa.Value, sets []oset, name string) {
		for _, kind := range []bool{false, true} {
			m := s.mod
			if kind {
				m = s.tree
			}
			for o := range m {
				var objs oset
				var v ssa.Value
				if o.kind == oParam {
					objs = sets[o.idx]
				} else {
					objs = F.reachable(sets[o.idx], F.O.types[o.t])
				}
				if o.idx < len(args) {
					v = args[o.idx]
				}
				w := s.what[o]
				if !strings.Contains(w, " through ") {
					w += " through " + name
				}
				add(in, v, objs, w, kind)
			}
		}
	}
	for _, b := range F.f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ia, ok := in.Addr.(*ssa.IndexAddr); ok && listOf(ia.X.Type()) {
					add(in, ia.X, F.val(ia.X), "an entry of a list is replaced", false)
				}
				if k := protectedPtr(in.Addr.Type()); k != "" {
					if _, fresh := in.Addr.(*ssa.Alloc); !fresh {
						add(in, in.Addr, F.val(in.Addr), "a "+k+" is overwritten", k == "tree")
					}
				}
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && protectedPtr(fa.X.Type()) == "tree" {
					add(in, fa.X, F.val(fa.X), "a tree is changed", true)
				}
			case *ssa.MakeClosure:
				g := in.Fn.(*ssa.Function)
				if s := F.O.sums[g]; s != nil {
					args := make([]ssa.Value, nparams(g))
					sets := make([]oset, nparams(g))
					for i := range g.Params {
						sets[i] = nil // a closure that modifies its own parameters is judged where it is used as a value
					}
					for i, b := range in.Bindings {
						args[len(g.Params)+i] = b
						sets[len(g.Params)+i] = F.val(b)
					}
					bySummary(in, s, args, sets, g.Name())
				}
			case ssa.CallInstruction:
				c := in.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" && listOf(c.Args[0].Type()) {
						add(in, c.Args[0], F.val(c.Args[0]), "entries of a list are replaced", false)
					}
					continue
				}
				f, args := F.callee(c)
				if f == nil {
					continue
				}
				if s := F.O.sums[f]; s != nil {
					bySummary(in, s, args, F.argSets(args), f.Name())
					continue
				}
				mods, _ := externalEffect(f)
				for _, i := range mods {
					if i < len(args) {
						add(in, args[i], F.val(args[i]), "a "+protectedPtr(f.Signature.Recv().Type())+" is modified by "+f.Name(), false)
					}
				}
			}
		}
	}
	return ms
}

func (O *ownership) exported(f *ssa.Function) bool {
	if f.Parent() != nil || !token.IsExported(f.Name()) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Exported()
		}
	}
	return true
}

func (F *ofunc) isTreeMethod() bool {
	r := F.f.Signature.Recv()
	return r != nil && protectedPtr(r.Type()) == "tree"
}

func (F *ofunc) describe() string { return strings.ReplaceAll(F.f.String(), modPath+"/", "") }

// analyse computes the summary of a function; with O.report it also judges.
func (O *ownership) analyse(f *ssa.Function) *osummary {
	F := O.newFunc(f)
	F.solve()
	ev := F.events()
	// objects that several slots share
	for i, e := range ev {
		for j, g := range ev {
			if e.obj != g.obj || e.slot != "" && e.slot == g.slot && i != j || e.obj.dup {
				continue
			}
			if strings.Contains(e.slot, ".") && i == j {
				continue // the same field again
			}
			if F.path(e.at, g.at, e.obj.at) {
				e.obj.dup = true
			}
		}
		if e.out {
			// judged by order below; results that are also kept elsewhere are not the caller's own
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok {
						for _, v := range r.Results {
							if F.val(v)[e.obj] && F.path(e.at, r, e.obj.at) {
								e.obj.kept = true
							}
						}
					}
				}
			}
		}
	}
	n := f.Signature.Results().Len()
	s := &osummary{mod: map[oorigin]token.Pos{}, tree: map[oorigin]token.Pos{}, capt: map[int]bool{}, what: map[oorigin]string{}}
	for i := 0; i < n; i++ {
		s.rets = append(s.rets, map[oorigin]bool{})
		s.retDeep = append(s.retDeep, map[oorigin]bool{})
	}
	for i := 0; i < nparams(f); i++ {
		s.stores = append(s.stores, map[oorigin]bool{})
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range r.Results {
				set := F.val(v)
				for o := range F.origins(set) {
					s.rets[i][o] = true
				}
				own := oset{}
				for o := range set {
					if o.kind == oSite {
						own[o] = true
					}
				}
				for o := range F.origins(F.reachable(own, nil)) {
					s.retDeep[i][o] = true
				}
			}
		}
	}
	for i, p := range F.params {
		qs := []*oobj{p}
		for _, d := range F.deeps[i] {
			qs = append(qs, d)
		}
		for _, q := range qs {
			for o := range q.content {
				s.stores[i][F.origin(o)] = true
				for d := range F.reachable(oset{o: true}, nil) {
					s.stores[i][F.origin(d)] = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			keep := func(v ssa.Value) {
				for o := range F.val(v) {
					if o.kind == oParam {
						s.capt[o.idx] = true
					}
				}
			}
			switch in := in.(type) {
			case *ssa.Store:
				// into anything that outlives the call, or into a structure that is returned
				keepIt := false
				for o := range F.val(in.Addr) {
					keepIt = keepIt || o.kind != oSite || !isCell(in.Addr)
				}
				if keepIt && hasPointers(in.Val.Type()) {
					keep(in.Val)
				}
			case *ssa.MapUpdate:
				keep(in.Value)
			case *ssa.Send:
				keep(in.X)
			case ssa.CallInstruction:
				g, args := F.callee(in.Common())
				if g == nil || O.sums[g] == nil {
					continue
				}
				for i, a := range args {
					if O.sums[g].capt[i] {
						keep(a)
					}
				}
			}
		}
	}
	for _, m := range F.modifications() {
		O.mods++
		name := F.describe()
		bad := func(what string) {
			if O.report {
				O.R.bad("B02/"+name, O.P.pos(m.at.Pos())+" in "+name, m.what+": "+what, nil)
			}
		}
		good := true
		objs := []*oobj{}
		for o := range m.objs {
			objs = append(objs, o)
		}
		sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
		for _, o := range objs {
			switch o.kind {
			case oShared:
				bad("it may be shared (loaded from a structure, variable or call that the function does not own)")
				good = false
			case oParam, oDeep:
				k := F.origin(o)
				if m.tree {
					s.tree[k] = m.at.Pos()
				} else {
					s.mod[k] = m.at.Pos()
				}
				if s.what[k] == "" {
					s.what[k] = m.what
				}
				if O.exported(f) && o.idx < len(f.Params) {
					if m.tree && o.idx == 0 && F.isTreeMethod() {
						continue
					}
					bad("it belongs to the caller (parameter " + f.Params[o.idx].Name() + " of an exported function)")
					good = false
				}
				if p, ok := O.taken[f]; ok && o.idx < len(f.Params) {
					bad("it belongs to an unknown caller (the function is used as a value at " + O.P.pos(p) + ")")
					good = false
				}
			case oSite:
				if m.tree {
					continue
				}
				if o.dup && !F.fresh(m, o, ev) {
					bad("the same object is held in more than one place")
					good = false
					continue
				}
				for _, e := range ev {
					if e.obj != o || e.at == m.at {
						continue
					}
					if e.out && F.path(e.at, m.at, o.at) {
						bad("it was " + e.what + " at " + O.P.pos(e.at.Pos()) + " before")
						good = false
					}
				}
			}
		}
		if good && O.report {
			O.R.ok("B02 " + O.P.pos(m.at.Pos()) + " " + m.what)
		}
	}
	return s
}

func (s *osummary) key() string {
	var p []string
	org := func(tag string, m map[oorigin]bool) {
		for o := range m {
			p = append(p, fmt.Sprint(tag, o.kind, ".", o.idx, o.t))
		}
	}
	for i := range s.rets {
		org(fmt.Sprint("r", i, ":"), s.rets[i])
		org(fmt.Sprint("d", i, ":"), s.retDeep[i])
	}
	for i := range s.stores {
		org(fmt.Sprint("s", i, ":"), s.stores[i])
	}
	for o := range s.mod {
		p = append(p, fmt.Sprint("m", o.kind, ".", o.idx, o.t))
	}
	for o := range s.tree {
		p = append(p, fmt.Sprint("t", o.kind, ".", o.idx, o.t))
	}
	for i := range s.capt {
		p = append(p, fmt.Sprint("c", i))
	}
	sort.Strings(p)
	return strings.Join(p, " ")
}

func checkOwnership(R *Report) {
	R.rule = "every instruction of utils, circuitcompiler and zkSNARK that modifies a number, group element, coefficient list or tree acts only on objects created by the same function (or handed to it by a caller that created them), and not after they were handed out"
	R.bounds = "all functions, all paths, no bound on shapes; flow-insensitive points-to sets per function, bottom-up summaries; contents of structures are not distinguished by field"
	O := &ownership{P: R.P, R: R, sums: map[*ssa.Function]*osummary{}, types: map[string]types.Type{}, reach: map[[2]string]bool{}, held: map[string][]types.Type{}, taken: map[*ssa.Function]token.Pos{}}
	for _, f := range R.P.funcs {
		if f.Pkg == nil && f.Parent() == nil {
			continue
		}
		p := f.Pkg
		if p == nil {
			p = f.Parent().Pkg
		}
		if p == R.P.pkgs["utils"] || p == R.P.pkgs["circuitcompiler"] || p == R.P.pkgs["zkSNARK"] {
			O.fns = append(O.fns, f)
			n := f.Signature.Results().Len()
			s := &osummary{mod: map[oorigin]token.Pos{}, tree: map[oorigin]token.Pos{}, capt: map[int]bool{}, what: map[oorigin]string{}}
			for i := 0; i < n; i++ {
				s.rets = append(s.rets, map[oorigin]bool{})
				s.retDeep = append(s.retDeep, map[oorigin]bool{})
			}
			for i := 0; i < nparams(f); i++ {
				s.stores = append(s.stores, map[oorigin]bool{})
			}
			O.sums[f] = s
		}
	}
	for _, f := range O.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for _, v := range in.Operands(ops) {
					if v == nil || *v == nil {
						continue
					}
					g, ok := (*v).(*ssa.Function)
					if !ok {
						continue
					}
					if c, is := in.(ssa.CallInstruction); is && c.Common().Value == *v {
						continue
					}
					if mc, is := in.(*ssa.MakeClosure); is {
						// a bound method or closure: used as a value unless only called directly
						direct := true
						if refs := mc.Referrers(); refs != nil {
							for _, r := range *refs {
								c, isCall := r.(ssa.CallInstruction)
								direct = direct && isCall && c.Common().Value == ssa.Value(mc)
							}
						}
						if direct {
							continue
						}
					}
					if m, isMethod := g.Object().(*types.Func); isMethod && g.Synthetic != "" {
						g = O.P.prog.FuncValue(m)
					}
					O.taken[g] = in.Pos()
				}
			}
		}
	}
	for round := 0; ; round++ {
		changed := false
		for _, f := range O.fns {
			s := O.analyse(f)
			if s.key() != O.sums[f].key() {
				changed = true
			}
			O.sums[f] = s
		}
		if !changed {
			break
		}
		if round > 60 {
			R.bad("B02/fixpoint", "-", "the summaries do not become stable", nil)
			return
		}
	}
	O.report = true
	O.mods = 0
	for _, f := range O.fns {
		O.analyse(f)
		R.stats.funcs[strings.TrimPrefix(f.String(), modPath+"/")] = true
	}
	R.counts["functions"] = len(O.fns)
	R.counts["modifications"] = O.mods
	if len(O.fns) < 100 || O.mods < 30 {
		R.bad("B02/coverage", "-", fmt.Sprintf("only %d functions with %d modifications found", len(O.fns), O.mods), nil)
	}
}
