package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

func main() {
	stop := startProf()
	defer stop()
	debug.SetGCPercent(400)
	repo, verif := "/repo", "/verif"
	if r := os.Getenv("BV_REPO"); r != "" {
		repo = r
	}
	if v := os.Getenv("BV_VERIF"); v != "" {
		verif = v
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if tier == "" {
			tier = "quick"
		}
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		a, _ := filepath.Abs(verif)
		code := runCheck(repo, a, os.Args[2], tier)
		stop()
		os.Exit(code)
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		for _, k := range keysOf(checks) {
			fmt.Println(k)
		}
		return
	}
	t0 := time.Now()
	w, err := loadWorld(repo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0), len(w.funcs))
	if len(os.Args) > 1 && os.Args[1] == "scan" {
		dbgScan(w)
		return
	}
	dbg(w, os.Args[1:])
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
