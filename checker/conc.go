package main

import (
	"fmt"
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are interpreted to completion when they are started. That is only
// right if nothing they touch later on is written by the starter before the two
// have synchronised. The accesses of a goroutine are recorded together with the
// positions of its sends; an access of the starter that conflicts with one the
// goroutine makes after the last value received is an event.

type loc struct{ obj, field int }

const (
	wholeObj = -1
	anyField = -2
)

type access struct {
	prev  *access
	at    loc
	write bool
	pos   token.Pos
	n     int
	// a send or close
	ch    int
	close bool
}

type threadLog struct {
	head  *access
	start *ssa.Function
}

type lastAccess struct {
	n   int
	pos token.Pos
}

// thread is a started goroutine, bound the part of it that has happened before now.
type thread struct {
	name          string
	reads, writes map[loc]lastAccess
	marks         map[int][]int
	closed        map[int]int
	total         int
}

type threadRef struct {
	t     *thread
	bound int
}

func pathLoc(obj int, path []int) loc {
	if len(path) == 0 {
		return loc{obj, wholeObj}
	}
	return loc{obj, path[0]}
}

func conflict(m map[loc]lastAccess, l loc) (r lastAccess) {
	r.n = -1
	ks := []loc{l, {l.obj, wholeObj}}
	if l.field == wholeObj {
		ks = []loc{{l.obj, anyField}}
	}
	for _, k := range ks {
		if a, ok := m[k]; ok && a.n > r.n {
			r = a
		}
	}
	return
}

// touch records an access and compares it with those of running goroutines.
func (A *Analysis) touch(st *State, l loc, write bool, pos token.Pos) {
	if st.log != nil {
		h := st.log.head
		n := 0
		if h != nil {
			n = h.n + 1
		}
		st.log = &threadLog{head: &access{prev: h, at: l, write: write, pos: pos, n: n}, start: st.log.start}
	}
	for _, r := range st.threads {
		c := conflict(r.t.writes, l)
		if write {
			if d := conflict(r.t.reads, l); d.n > c.n {
				c = d
			}
		}
		// a structure that the goroutine only reads is not changed before it is done with it
		if d := conflict(r.t.reads, l); write && d.n >= 0 && conflict(r.t.writes, loc{l.obj, wholeObj}).n < 0 && c.n < r.bound {
			A.event(st, "race", fmt.Sprintf("modifies what the running goroutine %s traverses (%s)", r.t.name, A.P.pos(d.pos)), pos)
		}
		if c.n >= r.bound {
			k := "reads"
			if write {
				k = "writes"
			}
			A.event(st, "race", fmt.Sprintf("%s what the running goroutine %s accesses at %s without synchronisation", k, r.t.name, A.P.pos(c.pos)), pos)
		}
	}
}

// sends records a send or close of a goroutine.
func (A *Analysis) sends(st *State, ch int, cl bool, pos token.Pos) {
	if st.log == nil {
		return
	}
	h := st.log.head
	n := 0
	if h != nil {
		n = h.n + 1
	}
	st.log = &threadLog{head: &access{prev: h, ch: ch, close: cl, pos: pos, n: n}, start: st.log.start}
}

// received advances the goroutines that send on the channel. rest is the number
// of values still queued.
func (A *Analysis) received(st *State, ch, rest int, closed bool) {
	var out []threadRef
	for _, r := range st.threads {
		if m := r.t.marks[ch]; !closed && len(m) > 0 {
			if k := len(m) - rest; k > 0 && m[k-1]+1 > r.bound {
				r.bound = m[k-1] + 1
			}
		}
		if c, ok := r.t.closed[ch]; ok && closed && c+1 > r.bound {
			r.bound = c + 1
		}
		// what is left after closing the channel is the release of the lock
		if _, end := r.t.closed[ch]; r.bound < r.t.total && !(closed && end) {
			out = append(out, r)
		}
	}
	st.threads = out
}

// started is the goroutine whose accesses were logged.
func (A *Analysis) started(st *State, outer *threadLog, name string) {
	t := &thread{name: name, reads: map[loc]lastAccess{}, writes: map[loc]lastAccess{}, marks: map[int][]int{}, closed: map[int]int{}}
	var l []*access
	if st.log != nil {
		for a := st.log.head; a != nil; a = a.prev {
			l = append(l, a)
		}
	}
	for i := len(l) - 1; i >= 0; i-- {
		a := l[i]
		t.total = a.n + 1
		switch {
		case a.ch != 0 && a.close:
			t.closed[a.ch] = a.n
		case a.ch != 0:
			t.marks[a.ch] = append(t.marks[a.ch], a.n)
		default:
			m := t.reads
			if a.write {
				m = t.writes
			}
			m[a.at] = lastAccess{a.n, a.pos}
			m[loc{a.at.obj, anyField}] = lastAccess{a.n, a.pos}
		}
	}
	st.log = outer
	if t.total > 0 {
		st.threads = append(append([]threadRef{}, st.threads...), threadRef{t: t})
		A.goroutines++
	}
}

func sameThreads(a, b []threadRef) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// abandoned reports goroutines that can never finish: values they send are not
// received and do not fit into the channel.
func (A *Analysis) abandoned(st *State, rets []Val, pos token.Pos) {
	kept := map[int]bool{}
	for _, v := range rets {
		if c, ok := v.(VChan); ok {
			kept[c.obj] = true
		}
	}
	for _, r := range st.threads {
		for ch := range r.t.marks {
			o := st.get(ch)
			if o == nil || kept[ch] {
				continue
			}
			if q, ok := o.val.(VQueue); ok && q.cap >= 0 && len(q.q) > q.cap {
				A.event(st, "abandoned", fmt.Sprintf("the goroutine %s is blocked for ever: values it sends are not received", r.t.name), pos)
			}
		}
	}
}
