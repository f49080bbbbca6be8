package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

// parallel runs n independent analyses; their reports are joined in order.
func (R *Report) parallel(n int, f func(i int, S *Report)) {
	subs := make([]*Report, n)
	work := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var fault any
	for w := 0; w < min(n, runtime.NumCPU()); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				func() {
					S := newReport(R.P, R.prop, R.tier, R.seed)
					S.start = R.start
					subs[i] = S
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							fault = fmt.Sprintf("%v\n%s", r, debug.Stack())
							mu.Unlock()
						}
					}()
					if R.found.Load() > 5 && R.slow() || R.found.Load() > 0 && R.slower() {
						S.counts["skipped after violations"]++
						return
					}
					f(i, S)
					R.found.Add(int32(len(S.viols)))
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		work <- i
	}
	close(work)
	wg.Wait()
	if fault != nil {
		panic(fault)
	}
	for _, S := range subs {
		R.join(S)
	}
}

func (R *Report) join(S *Report) {
	R.oblig += S.oblig - len(S.viols)
	R.dischg += S.dischg
	for _, v := range S.viols {
		R.bad(v.Key, v.Where, v.What, v.Trace)
	}
	for _, s := range S.samples {
		if len(R.samples) < 40 {
			R.samples = append(R.samples, s)
		}
	}
	R.notes = append(R.notes, S.notes...)
	R.conc = append(R.conc, S.conc...)
	R.replay = append(R.replay, S.replay...)
	for k, v := range S.counts {
		R.counts[k] += v
	}
	s := S.stats
	for k := range s.funcs {
		R.stats.funcs[k] = true
	}
	for k := range s.sites {
		R.stats.sites[k] = true
	}
	R.stats.instrs += s.instrs
	R.stats.parts += s.parts
	R.stats.merges += s.merges
	R.stats.bigOps += s.bigOps
	R.stats.queries += s.queries
}
