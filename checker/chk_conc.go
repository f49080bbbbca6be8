package main

import (
	"os"
)

// B05: goroutines and the code that starts them share nothing unsynchronised.

func checkTraversal(R *Report) {
	R.rule = "Wherever the analysed code starts a goroutine (traversal of a coefficient tree, lexer, parser), the memory the goroutine reads and writes is recorded together with its sends. Until the starter has received the value sent after an access (or seen the channel closed), it must not write what the goroutine still reads, nor touch what it still writes; in particular a tree is not modified while its nodes are traversed. Every goroutine is drained: none is left blocked for ever on a value that nobody receives."
	R.bounds = "the families of shapes analysed for the sparse polynomial operations, the tree, setup, prover, constraint builders, witness solvers and compiler."
	fs := []checkFn{checkTree, checkSparse, checkSetup, checkProver, checkIndices, checkWitness, checkDeterminism}
	if v := os.Getenv("VP_B05"); v != "" {
		fs = []checkFn{fs[int(v[0]-'0')]}
	}
	for _, f := range fs {
		S := newReport(R.P, R.prop, "quick", R.seed)
		f(S)
		R.counts["goroutines"] += S.counts["goroutines"]
		for i := 0; i < S.counts["goroutines"]-len(S.conc); i++ {
			R.ok("")
		}
		for k := range S.stats.funcs {
			R.stats.funcs[k] = true
		}
		R.stats.instrs += S.stats.instrs
		for _, v := range S.conc {
			R.bad("B05/"+v.Key, v.Where, v.What, nil)
		}
	}
	if R.counts["goroutines"] == 0 {
		R.note("no goroutine is started")
		R.ok("no goroutine")
	}
}
