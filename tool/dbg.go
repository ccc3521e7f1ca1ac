package main

import (
	"fmt"
	"strings"
	"time"
)

func dbg(w *World, args []string) {
	e := newEng(w)
	st := w.initState(e)
	fmt.Println("init ok, cells", len(baseHeap), "steps", e.steps)
	if len(args) == 0 {
		return
	}
	p, n, _ := strings.Cut(args[0], ":")
	fn := w.fn(p, n)
	if fn == nil {
		fmt.Println("no function")
		return
	}
	var as []*Term
	for _, q := range fn.Params {
		t := mkSym(q.Name(), q.Type())
		as = append(as, t)
	}
	if fn.Signature.Recv() != nil {
		st.setNil(as[0], false)
	}
	e = newEng(w)
	if len(args) > 1 {
		joinTrace = func(n, s string) { fmt.Println("join", n, s) }
	}
	t0 := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					fmt.Println("UNDECIDED", u.msg)
					return
				}
				panic(r)
			}
		}()
		outs := e.run(st, fn, as, nil, "root")
		fmt.Println("outcomes", len(outs), "steps", e.steps, "joins", e.joins, time.Since(t0))
		for _, o := range outs {
			fmt.Println("--- ret", o.ret, "panic", o.panic)
			o.st.dump()
		}
	}()
	for _, k := range keysOf(e.obl) {
		o := e.obl[k]
		fmt.Println(o.ok, o.kind, w.pos(o.pos), o.detail)
	}
}
