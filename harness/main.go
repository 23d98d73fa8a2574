package main

import (
	"fmt"
	"os"
	"strconv"

	_ "time/tzdata"

	_ "verif/checks"
	"verif/core"
)

func main() {
	if len(os.Args) >= 6 && os.Args[1] == "worker" {
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		f := ""
		if len(os.Args) > 6 {
			f = os.Args[6]
		}
		core.Worker(os.Args[2], os.Args[3], seed, os.Args[5], f)
		return
	}
	if len(os.Args) >= 4 && os.Args[1] == "check" {
		seed := int64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				seed = n
			}
		}
		f := ""
		if len(os.Args) > 5 {
			f = os.Args[5]
		}
		os.Exit(core.Supervise(os.Args[2], os.Args[3], seed, os.Args[4], f))
	}
	fmt.Fprintln(os.Stderr, "usage: verif check ID tier root [case]")
	os.Exit(2)
}
