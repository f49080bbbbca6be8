package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var bigZero = new(big.Int)

func itoa(i int) string { return strconv.Itoa(i) }

// Report collects the obligations of one property.
type Report struct {
	P       *Program
	prop    string
	tier    string
	seed    string
	start   time.Time
	rule    string
	bounds  string
	oblig   int
	dischg  int
	viols   []Violation
	vkeys   map[string]bool
	notes   []string
	samples []string
	stats   *Stats
	counts  map[string]int
	replay  []any
	found   atomic.Int32
	conc    []Violation // unsynchronised accesses and abandoned goroutines
}

type Violation struct {
	Key   string   `json:"key"`
	Where string   `json:"where"`
	What  string   `json:"what"`
	Trace []string `json:"trace,omitempty"`
}

func newReport(P *Program, prop, tier, seed string) *Report {
	return &Report{P: P, prop: prop, tier: tier, seed: seed, start: time.Now(), stats: newStats(), vkeys: map[string]bool{}, counts: map[string]int{}}
}

func (R *Report) thorough() bool { return R.tier == "thorough" }

// ok discharges an obligation.
func (R *Report) ok(sample string) {
	R.oblig++
	R.dischg++
	if len(R.samples) < 40 && sample != "" {
		R.samples = append(R.samples, sample)
	}
}

func (R *Report) bad(key, where, what string, trace []string) {
	R.oblig++
	k := key + "|" + where + "|" + what
	if R.vkeys[k] {
		return
	}
	R.vkeys[k] = true
	R.viols = append(R.viols, Violation{key, where, what, trace})
}

func (R *Report) check(cond bool, key, where, what string, st *State) {
	if cond {
		R.ok(key)
		return
	}
	R.bad(key, where, what, R.trace(st))
}

func (R *Report) note(f string, a ...any) { R.notes = append(R.notes, fmt.Sprintf(f, a...)) }

func (R *Report) trace(st *State) []string {
	if st == nil {
		return nil
	}
	var out []string
	for t := st.trace; t != nil && len(out) < 60; t = t.prev {
		out = append(out, R.P.pos(t.pos)+" "+t.what)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// guard runs f and turns an undecided analysis into a violation.
// enough: violations were found and the analysis has become slow, the rest would not change the verdict.
func (R *Report) enough() bool {
	n := 0
	known := knownFindings(R.prop)
	for _, v := range R.viols {
		if _, ok := known[v.Key]; !ok {
			n++
		}
	}
	return n > 0 && R.slower() || n > 5 && R.slow()
}

func (R *Report) slow() bool   { return time.Since(R.start) > time.Minute }
func (R *Report) slower() bool { return time.Since(R.start) > 3*time.Minute }

func (R *Report) guard(A *Analysis, key string, f func()) (ok bool) {
	if R.enough() {
		R.counts["skipped after violations"]++
		return false
	}
	depth := len(A.stack)
	defer func() {
		if r := recover(); r != nil {
			u, is := r.(undecided)
			if !is {
				panic(r)
			}
			A.stack = A.stack[:depth]
			where := R.P.pos(u.pos)
			if u.fn != "" {
				where += " in " + u.fn
			}
			R.bad(key, where, "cannot be established: "+u.msg, nil)
			ok = false
		}
	}()
	if os.Getenv("VP_TIME") != "" {
		fmt.Fprintln(os.Stderr, "start", key)
		t, n := time.Now(), A.steps
		defer func() {
			fmt.Fprintf(os.Stderr, "%8.2fs %9d %s\n", time.Since(t).Seconds(), A.steps-n, key)
		}()
	}
	f()
	return true
}

func (R *Report) absorb(A *Analysis) {
	s := A.stats
	for _, k := range A.evOrder {
		if e := A.events[k]; e.kind == "race" || e.kind == "abandoned" {
			R.conc = append(R.conc, Violation{e.kind, R.P.pos(e.pos) + " in " + e.fn, e.msg, nil})
		}
	}
	R.counts["goroutines"] += A.goroutines
	for k := range s.funcs {
		R.stats.funcs[k] = true
	}
	for k := range s.sites {
		R.stats.sites[k] = true
	}
	R.stats.instrs += s.instrs
	R.stats.parts += s.parts
	R.stats.merges += s.merges
	R.stats.bigOps += s.bigOps
	R.stats.queries += s.queries
}

// eventsAs reports the events of the given kinds as violations.
func (R *Report) eventsAs(A *Analysis, key string, kinds ...string) {
	for _, k := range A.evOrder {
		e := A.events[k]
		for _, want := range kinds {
			if e.kind == want {
				R.bad(key+"/"+e.kind, R.P.pos(e.pos)+" in "+e.fn, e.msg, nil)
			}
		}
	}
}

func (R *Report) where(pos token.Pos, fn string) string {
	if fn == "" {
		return R.P.pos(pos)
	}
	return R.P.pos(pos) + " in " + fn
}

// knownFindings reads the committed list; lines "known: property=<id> key=<key>".
func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" key=") {
			rest := strings.TrimPrefix(l, "known: property="+prop+" key=")
			key, what, _ := strings.Cut(rest, " ")
			out[key] = what
		}
	}
	return out
}

func (R *Report) finish() int {
	if R.oblig == 0 {
		R.bad(R.prop+"/empty", "-", "no obligation was generated: the analysed code was not found", nil)
	}
	known := knownFindings(R.prop)
	var fresh []Violation
	for _, v := range R.viols {
		if w, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", R.prop, w)
			continue
		}
		fresh = append(fresh, v)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	var fl []string
	for f := range R.stats.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	sitesN := len(R.stats.sites)
	cov := map[string]any{
		"obligations":        R.oblig,
		"discharged":         R.dischg,
		"rule":               R.rule,
		"functions_analysed": fl,
		"call_sites":         sitesN,
		"instructions":       R.stats.instrs,
		"abstract_outcomes":  R.stats.parts,
		"state_merges":       R.stats.merges,
		"bigint_transfers":   R.stats.bigOps,
		"branch_decisions":   R.stats.queries,
		"sample_obligations": R.samples,
		"checker_cmd":        "/verif/run.sh " + R.prop + " " + R.tier,
		"trusted_base":       []string{"go/types and golang.org/x/tools/go/ssa (v0.52.0) translate the sources faithfully", "transfer functions for math/big, fmt, strings, crypto/rand in /verif/checker/bigops.go, bytesops.go, extern.go", "specification tables of this property in /verif/checker"},
		"explanation":        "Static analysis of the current source of /repo (type-checked SSA); nothing of /repo is executed. " + R.rule + " Bounds: " + R.bounds,
		"known_findings":     len(R.viols) - len(fresh),
		"violations":         len(fresh),
	}
	for k, v := range R.counts {
		cov[k] = v
	}
	if len(R.notes) > 0 {
		cov["notes"] = R.notes
	}
	ev := map[string]any{
		"property": R.prop,
		"tier":     R.tier,
		"seed":     seedNum(R.seed),
		"level":    levelOf(R.prop),
		"coverage": cov,
		"wall_s":   time.Since(R.start).Seconds(),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, R.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if len(fresh) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d functions=%d instructions=%d time=%.1fs\n", R.prop, R.oblig, R.dischg, len(fl), R.stats.instrs, time.Since(R.start).Seconds())
		return 0
	}
	path := filepath.Join(dir, R.prop+".violation.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\n", R.prop, R.rule)
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s\n  at %s\n  %s\n", v.Key, v.Where, v.What)
		for _, t := range v.Trace {
			fmt.Fprintf(&sb, "    path: %s\n", t)
		}
	}
	os.WriteFile(path, []byte(sb.String()), 0o644)
	for i, v := range fresh {
		if i >= 12 {
			fmt.Printf("... and %d more\n", len(fresh)-i)
			break
		}
		fmt.Printf("%s: %s: %s\n", v.Where, v.Key, v.What)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", R.prop, path)
	return 1
}

func seedNum(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return 1
	}
	return n
}
