package main

import (
	"fmt"
	"os"
)

type checkFn func(R *Report)

var checks = map[string]checkFn{
	"A01": checkTower,
	"A02": checkCurve,
	"A04": checkPool,
	"A03": checkLadders,
	"A05": checkDecode,
	"A06": checkEncode,
	"A07": checkPairing,
	"A08": checkConstants,
	"B01": checkField,
	"B03": checkDense,
	"B04": checkSparse,
	"B02": checkOwnership,
	"B05": checkTraversal,
	"B06": checkTree,
	"D01": checkLowering,
	"D02": checkIndices,
	"D03": checkMerging,
	"D07": checkLexer,
	"D08": checkDeterminism,
	"D09": checkFactors,
	"D04": checkWitness,
	"D05": checkReject,
	"D10": checkLanguage,
	"D06": checkConditions,
	"Z01": checkSetup,
	"Z02": checkProver,
	"Z03": checkVerifier,
	"Z04": checkSecrets,
	"Z05": checkProtocol,
}

var levels = map[string]string{"A01": "proof", "A02": "proof"}

func levelOf(prop string) string {
	if l, ok := levels[prop]; ok {
		return l
	}
	return "other"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker <property> [quick|thorough]")
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed := os.Getenv("VERIF_SEED")
	if seed == "" {
		seed = "1"
	}
	P, err := loadProgram()
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		os.Exit(2)
	}
	props := []string{os.Args[1]}
	if os.Args[1] == "all" {
		props = nil
		for p := range checks {
			props = append(props, p)
		}
	}
	rc := 0
	for _, p := range props {
		f, ok := checks[p]
		if !ok {
			fmt.Fprintln(os.Stderr, "unknown property", p)
			os.Exit(2)
		}
		R := newReport(P, p, tier, seed)
		f(R)
		if R.finish() != 0 {
			rc = 1
		}
	}
	os.Exit(rc)
}
