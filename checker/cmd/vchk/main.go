// Command vchk decides one property of google/codesearch by static analysis
// of its current source.
package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"

	"verif/checker/rules"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vchk ID")
		os.Exit(2)
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	if f := os.Getenv("VCHK_PROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
		rules.Run(repo, verif, os.Args[1], tier, 0)
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Args[1] == "all" {
		rc := 0
		for _, id := range rules.IDs() {
			if rules.Run(repo, verif, id, tier, seed) != 0 {
				rc = 1
			}
		}
		os.Exit(rc)
	}
	os.Exit(rules.Run(repo, verif, os.Args[1], tier, seed))
}
