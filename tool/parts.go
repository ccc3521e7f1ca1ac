package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sync"
)

// partResult is what the analysis of one part of a check found.
type partResult struct {
	Held  map[string]int
	Insts []string
	Fails []Finding
	Funcs []string
	Steps int
	Notes []string
}

type partDone struct{}

const partMark = "\x01BVPART\x01"

// parallel runs the parts of a check in processes of their own, each of which
// analyses the source afresh, and collects their verdicts.
func (c *Ctx) parallel(parts map[string]func()) {
	if p := os.Getenv("BV_PART"); p != "" {
		f := parts[p]
		if f == nil {
			panic(undecided{"no part " + p})
		}
		f()
		panic(partDone{})
	}
	if os.Getenv("BV_SERIAL") != "" || len(parts) < 2 {
		for _, k := range keysOf(parts) {
			parts[k]()
		}
		return
	}
	names := keysOf(parts)
	res := make([]partResult, len(names))
	errs := make([]string, len(names))
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	for i, n := range names {
		wg.Add(1)
		go func() {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			cmd := exec.Command(os.Args[0], os.Args[1:]...)
			cmd.Env = append(os.Environ(), "BV_PART="+n)
			var out, eb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &eb
			err := cmd.Run()
			k := bytes.LastIndex(out.Bytes(), []byte(partMark))
			if k < 0 {
				errs[i] = fmt.Sprintf("part %s failed: %v: %s", n, err, clipStr(eb.String(), 2000))
				return
			}
			if os.Getenv("AIDEBUG") != "" || os.Getenv("AIDRV") != "" {
				os.Stdout.Write(out.Bytes()[:k])
			}
			if e := json.Unmarshal(out.Bytes()[k+len(partMark):], &res[i]); e != nil {
				errs[i] = fmt.Sprintf("part %s: %v", n, e)
			}
		}()
	}
	wg.Wait()
	for i, r := range res {
		if errs[i] != "" {
			c.fail("undecided", "part "+names[i], "-", "%s", errs[i])
		}
		for k, v := range r.Held {
			c.held[k] += v
		}
		c.insts = append(c.insts, r.Insts...)
		for _, f := range r.Fails {
			if _, ok := c.fails[f.key()]; !ok {
				c.fails[f.key()] = f
			}
		}
		for _, f := range r.Funcs {
			c.funcs[f] = true
		}
		c.steps += r.Steps
		c.notes = append(c.notes, r.Notes...)
	}
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// emitPart prints what this process found for the process that started it.
func (c *Ctx) emitPart() {
	r := partResult{Held: c.held, Insts: c.insts, Funcs: keysOf(c.funcs), Steps: c.steps, Notes: c.notes}
	for _, k := range keysOf(c.fails) {
		r.Fails = append(r.Fails, c.fails[k])
	}
	b, _ := json.Marshal(r)
	fmt.Printf("%s%s", partMark, b)
}
