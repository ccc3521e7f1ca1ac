package main

import (
	"fmt"
	"strings"
)

func init() {
	checks["C15"] = func(c *Ctx) {
		parts := c.scanParts("token outside strings", "token extent", "initial state")
		parts["errors"] = func() {
			sp := newScanSpec(c, false)
			sp.errors = true
			c.scanRun(sp, "illegal token reported")
		}
		c.parallel(parts)
		c.floor("token outside strings", 40)
	}
	checks["C16"] = func(c *Ctx) {
		c.scanMode(true, "token inside strings", "token extent")
		c.floor("token inside strings", 40)
	}
	checks["C17"] = func(c *Ctx) {
		c.scanRules("literal", "characters of the source", "consecutive characters")
		c.floor("literal", 15)
	}
	checks["C22"] = func(c *Ctx) {
		c.scanRules("previous state", "initial state")
		c.floor("previous state", 8)
	}
}

// scanRules runs the scanner specification in both modes and takes over the
// verdicts of some of its rules.
func (c *Ctx) scanRules(rules ...string) {
	c.parallel(c.scanParts(rules...))
}

func (c *Ctx) scanParts(rules ...string) map[string]func() {
	return map[string]func(){
		"ParseStrings off": func() { c.scanMode(false, rules...) },
		"ParseStrings on":  func() { c.scanMode(true, rules...) },
	}
}

func (c *Ctx) scanMode(strs bool, rules ...string) {
	c.scanRun(newScanSpec(c, strs), rules...)
}

func (c *Ctx) scanRun(sp *ScanSpec, rules ...string) {
	sp.run(c)
	mode := "ParseStrings off"
	if sp.strings {
		mode = "ParseStrings on"
	}
	if sp.nilErrh {
		mode += ", no error handler"
	}
	mode += ": "
	for _, r := range rules {
		for _, k := range keysOf(sp.holds) {
			if strings.HasPrefix(k, r+" | ") {
				if _, bad := sp.fails[k]; !bad {
					c.hold(r, mode+strings.TrimPrefix(k, r+" | "))
				}
			}
		}
		for _, k := range keysOf(sp.fails) {
			if f := sp.fails[k]; f.Rule == r {
				c.fail(r, f.Construct, f.Pos, "%s%s", mode, f.Detail)
			}
		}
	}
	c.absorb(sp.e, "none")
	c.notes = append(c.notes, fmt.Sprintf("%s%d scanner states, %d rounds, %d outcomes of Scan", mode, len(sp.states), sp.iters, sp.outs))
}

// scanPanics decides that no Init or Scan can panic.
func (c *Ctx) scanPanics(strs bool) {
	sp := newScanSpec(c, strs)
	sp.anyErrh = true
	sp.run(c)
	c.absorb(sp.e)
	c.notes = append(c.notes, fmt.Sprintf("ParseStrings %v: %d outcomes of Scan", strs, sp.outs))
}
