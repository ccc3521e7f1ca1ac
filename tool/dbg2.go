package main

import (
	"fmt"
	"os"
	"time"
)

func dbgScan(w *World) {
	t0 := time.Now()
	st := w.initState(newEng(w))
	si := newScanInfo(w)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					fmt.Println("UNDECIDED", u.msg)
					return
				}
				panic(r)
			}
		}()
		si.analyse(st)
	}()
	fmt.Println("iters", si.iters, "states", len(si.states), "runs", len(si.runs), "steps", si.e.steps, "joins", si.e.joins, time.Since(t0))
	for _, k := range keysOf(si.states) {
		fmt.Println("=== state", k)
		if os.Getenv("V") != "" {
			si.states[k].dump()
		}
	}
	for _, k := range keysOf(si.e.obl) {
		o := si.e.obl[k]
		if !o.ok {
			fmt.Println(o.ok, o.kind, w.pos(o.pos), o.detail)
		}
	}
	for _, r := range si.runs {
		fmt.Println("run", r.ret, "toks", r.st.set(r.ret.args[1]), "errs", r.errs)
	}
}
