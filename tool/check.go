package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Detail    string `json:"detail"`
}

func (f Finding) key() string { return f.Rule + " | " + f.Construct }

// Ctx collects what one check examined.
type Ctx struct {
	w      *World
	id     string
	tier   string
	held   map[string]int // rule -> obligations that hold
	insts  []string
	fails  map[string]Finding
	funcs  map[string]bool
	steps  int
	floors map[string]int
	notes  []string
	// only restricts the check to the obligations against panics.
	only bool
}

var panicKinds = map[string]bool{
	"call of nil": true, "division by zero": true, "failed type assertion": true, "index out of range": true, "nil dereference": true,
	"slice bounds out of range": true, "slice length": true, "write to nil map": true, "explicit panic": true, "entry points": true,
}

func (c *Ctx) thorough() bool { return c.tier == "thorough" }

func (c *Ctx) hold(rule, construct string) {
	if c.only && !panicKinds[rule] {
		return
	}
	c.held[rule]++
	c.insts = append(c.insts, rule+" | "+construct)
}

func (c *Ctx) fail(rule, construct, pos, format string, args ...any) {
	if c.only && !panicKinds[rule] {
		return
	}
	f := Finding{rule, construct, pos, fmt.Sprintf(format, args...)}
	if _, ok := c.fails[f.key()]; !ok {
		c.fails[f.key()] = f
	}
}

// req records an obligation.
func (c *Ctx) req(ok bool, rule, construct, pos, format string, args ...any) bool {
	if ok {
		c.hold(rule, construct)
	} else {
		c.fail(rule, construct, pos, format, args...)
	}
	return ok
}

// floor demands at least n instances of a rule.
func (c *Ctx) floor(rule string, n int) {
	if !c.only || panicKinds[rule] {
		c.floors[rule] = n
	}
}

func (c *Ctx) pos(p token.Pos) string { return c.w.pos(p) }

// must looks up a function the property is about.
func (c *Ctx) must(pkg, name string) *ssa.Function {
	fn := c.w.fn(pkg, name)
	if fn == nil {
		panic(undecided{fmt.Sprintf("function %s.%s not found", pkg, name)})
	}
	return fn
}

// absorb takes over the obligations met by the interpreter.
func (c *Ctx) absorb(e *Eng, kinds ...string) {
	c.steps += e.steps
	for fn := range e.funcs {
		c.funcs[fn.String()] = true
	}
	if c.only {
		for _, p := range e.panics {
			c.panicked(p)
		}
	}
	for _, k := range keysOf(e.obl) {
		o := e.obl[k]
		if c.only && !panicKinds[o.kind] {
			continue
		}
		if len(kinds) > 0 && !c.only {
			use := false
			for _, kd := range kinds {
				use = use || o.kind == kd
			}
			if !use {
				continue
			}
		}
		c.req(o.ok, o.kind, constructOf(k), c.pos(o.pos), "%s: %s", o.fn, o.detail)
	}
}

// panicked reports an outcome that panics.
func (c *Ctx) panicked(o Outcome) {
	c.fail("explicit panic", o.panic.String(), "-", "panics with %s", o.panic)
}

func constructOf(k string) string {
	if i := strings.IndexByte(k, '|'); i >= 0 {
		return strings.TrimPrefix(k[i+1:], modPath)
	}
	return k
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

func runCheck(repo, verif, id, tier string) int {
	t0 := time.Now()
	c := &Ctx{id: id, tier: tier, held: map[string]int{}, fails: map[string]Finding{}, funcs: map[string]bool{}, floors: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(partDone); ok {
					return
				}
				if u, ok := r.(undecided); ok {
					c.fail("undecided", "analysis", "-", "%s", u.msg)
					return
				}
				c.fail("undecided", "analyser", "-", "internal error: %v\n%s", r, debug.Stack())
			}
		}()
		w, err := loadWorld(repo)
		if err != nil {
			c.fail("undecided", "loading", "-", "cannot load %s: %v", repo, err)
			return
		}
		c.w = w
		f := checks[id]
		if f == nil {
			panic(undecided{"no check " + id})
		}
		f(c)
		for r, n := range c.floors {
			if c.held[r] < n {
				if _, bad := c.failsOf(r); !bad {
					c.fail("instance floor", r, "-", "rule %q matched %d instances, expected at least %d", r, c.held[r], n)
				}
			}
		}
	}()
	if os.Getenv("BV_PART") != "" {
		c.emitPart()
		return 0
	}
	known := knownFindings(filepath.Join(verif, "known-findings.txt"), id)
	var ks []string
	for k := range c.fails {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var open []Finding
	for _, k := range ks {
		f := c.fails[k]
		if d, ok := known[k]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", id, k, d)
			continue
		}
		open = append(open, f)
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	n := 0
	for _, v := range c.held {
		n += v
	}
	var fns []string
	for f := range c.funcs {
		fns = append(fns, strings.TrimPrefix(f, modPath))
	}
	sort.Strings(fns)
	sort.Strings(c.insts)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": 1, "level": levelOf(id),
		"coverage": map[string]any{
			"explanation":      "static analysis of /repo's current source; obligations counted on this run",
			"obligations_held": n, "obligations_violated": len(open), "obligations_by_rule": c.held,
			"functions_interpreted": len(fns), "functions": fns, "abstract_steps": c.steps,
			"instances": clip(c.insts, 400), "notes": c.notes,
		},
		"wall_s": time.Since(t0).Seconds(),
	}
	replay := filepath.Join(evDir, id+".violations.txt")
	os.Remove(replay)
	if len(open) > 0 {
		var sb strings.Builder
		for _, f := range open {
			fmt.Fprintf(&sb, "%s: %s [%s]\n    %s\n", f.Pos, f.Rule, f.Construct, f.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		ev["violations"] = open
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(open) > 0 {
		for i, f := range open {
			if i == 20 {
				fmt.Printf("... and %d more\n", len(open)-i)
				break
			}
			fmt.Printf("%s: %s [%s]\n    %s\n", f.Pos, f.Rule, f.Construct, f.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("%s: %d obligations hold, %d functions, %d steps, %.1fs\n", id, n, len(fns), c.steps, time.Since(t0).Seconds())
	return 0
}

func (c *Ctx) failsOf(rule string) (Finding, bool) {
	for _, f := range c.fails {
		if f.Rule == rule {
			return f, true
		}
	}
	return Finding{}, false
}

func clip(xs []string, n int) []string {
	if len(xs) > n {
		return append(append([]string{}, xs[:n]...), fmt.Sprintf("... %d more", len(xs)-n))
	}
	return xs
}

// knownFindings reads the open findings of a property: lines of the form
// "open: property=<id> <rule> | <construct> :: <description>".
func knownFindings(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		p := "open: property=" + id + " "
		if !strings.HasPrefix(l, p) {
			continue
		}
		k, d, _ := strings.Cut(strings.TrimPrefix(l, p), " :: ")
		out[strings.TrimSpace(k)] = strings.TrimSpace(d)
	}
	return out
}
