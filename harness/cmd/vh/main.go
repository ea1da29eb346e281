// Command vh runs the check of one property.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/harness/checks"
	"verif/harness/vh"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		checks.Worker(os.Args[2:])
		return
	}
	id := os.Args[1]
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tmp := os.Getenv("VH_TMP")
	r := vh.Start(id, tier, os.Getenv("VH_ROOT"), os.Getenv("VH_REPO"), tmp, seed)
	r.CLI = os.Getenv("VH_CLI")
	r.RaceCLI = os.Getenv("VH_RACECLI")
	f, ok := checks.All[id]
	if !ok {
		fmt.Println("unknown property", id)
		os.Exit(2)
	}
	f(r)
	os.Exit(r.Finish())
}
