package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: what New and the options do.

func init() { checks["C25"] = checkOptions }

func checkOptions(c *Ctx) {
	c.newDefaults()
	c.optionEffects()
	c.parseUsesMode()
	c.modeFlags()
	c.floor("defaults", 1)
	c.floor("options applied", 1)
	c.floor("option effect", 3)
	c.floor("mode used", 1)
	c.floor("mode flag", 33)
}

// newDefaults follows New with any list of options.
func (c *Ctx) newDefaults() {
	fn := c.must("", "New")
	defaults := c.must("render", "Defaults")
	parseStrings, ok := c.w.constInt("parser", "ParseStrings")
	if !ok {
		panic(undecided{"parser.ParseStrings not found"})
	}
	at := c.pos(fn.Pos())
	e, st := c.eng()
	st = st.clone()
	opts := mkSym("opts", fn.Params[0].Type())
	failed := map[string]bool{}
	fail := func(rule, f string, a ...any) {
		if !failed[rule+f] {
			failed[rule+f], failed[rule] = true, true
			c.fail(rule, "New", at, "New "+f, a...)
		}
	}
	m := &Mon{e: e, items: []item{{"list", opts, "the options"}}, bad: func(f string, a ...any) {
		fail("options applied", "%s", fmt.Sprintf(f, a...))
	}}
	m.start(st)
	e.hooks.Key = func(st *State) string { return m.key(st) + fmt.Sprint(st.ghost["o.b"] != nil) }
	D := mkSym("defaults", defaults.Signature.Results().At(0).Type())
	st.setNil(D, false)
	st.ghost["o.defaults"] = D
	isDefault := func(st *State, b *Term) {
		get := func(f string) *Term {
			p := fieldPtr(b, f)
			if p == nil {
				panic(undecided{"bibtex.Biber has no field " + f})
			}
			return st.load(p)
		}
		if v, ok := get("parserMode").isInt(); !ok || v != parseStrings {
			fail("defaults", "starts with the parser mode %s instead of ParseStrings", get("parserMode"))
		}
		if n := st.length(get("resolvers")); n != tZero && !st.proveEq(n, tZero) {
			fail("defaults", "starts with resolvers: %s", get("resolvers"))
		}
		if r := get("renderers"); r != D {
			fail("defaults", "starts with renderers that are not those of render.Defaults: %s", r)
		}
	}
	applied := 0
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn == defaults {
			return []Outcome{{st: st, ret: mkTuple(D)}}, true
		}
		if cl.fn == nil && cl.meth == nil && cl.fnVal != nil && elemIndex(opts, cl.fnVal) != nil {
			st = st.clone()
			applied++
			b := childID(cl.args[0])
			if old := st.ghost["o.b"]; old == nil {
				isDefault(st, b)
				st.ghost["o.b"] = b
			} else if old != b {
				fail("options applied", "applies its options to different values")
			}
			if !m.child(st, cl.fnVal) {
				return nil, true
			}
			return e.unknownCall(st, cl), true
		}
		return nil, false
	}
	e.hooks.Store = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		if b := st.ghost["o.b"]; b != nil && root(p) == b {
			fail("options applied", "changes the Biber after an option was applied, at %s", c.pos(in.Pos()))
		}
	}
	n := 0
	for _, o := range e.run(st, fn, []*Term{opts}, nil, "New") {
		if o.panic != nil {
			fail("options applied", "panics")
			continue
		}
		n++
		b := childID(o.ret.args[0])
		if old := o.st.ghost["o.b"]; old != nil && old != b {
			fail("options applied", "returns another value than the options were applied to")
		} else if old == nil {
			isDefault(o.st, b)
		}
		m.end(o.st)
	}
	c.absorb(e, "none")
	if n == 0 {
		fail("defaults", "never returns")
	}
	if !failed["defaults"] {
		c.hold("defaults", "New")
	}
	if !failed["options applied"] && applied > 0 {
		c.hold("options applied", "New")
	}
}

// biberField is the field of Biber a location lies in, with the rest of the
// location relative to the field's value.
func biberField(b, p *Term) string {
	for q := p; q.kind == KField || q.kind == KElem; q = q.args[0] {
		if q.kind == KField && q.args[0] == b {
			if s := derefStruct(b.typ); s != nil && int(q.off) < s.NumFields() {
				return s.Field(int(q.off)).Name()
			}
		}
	}
	return ""
}

// optionEffects applies each option to a Biber in any state.
func (c *Ctx) optionEffects() {
	for _, name := range []string{"WithParserMode", "WithResolvers", "WithRenderer"} {
		c.optionEffect(name)
	}
}

func (c *Ctx) optionEffect(name string) {
	fn := c.must("", name)
	at := c.pos(fn.Pos())
	e, st := c.eng()
	st = st.clone()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym(p.Name(), p.Type()))
	}
	bT := types.NewPointer(c.w.typ("", "Biber"))
	b := mkSym("b", bT)
	st.setNil(b, false)
	failed := map[string]bool{}
	fail := func(f string, a ...any) {
		if !failed[f] {
			failed[f] = true
			c.fail("option effect", name, at, "the option of %s %s", name, fmt.Sprintf(f, a...))
		}
	}
	field := map[string]string{"WithParserMode": "parserMode", "WithResolvers": "resolvers", "WithRenderer": "renderers"}[name]
	fp := fieldPtr(b, field)
	if fp == nil {
		panic(undecided{"bibtex.Biber has no field " + field})
	}
	old := st.load(fp)
	st.ghost["o.old"] = old
	var cell *Term
	if name == "WithRenderer" {
		cell = st.elemPtr(old, args[0], sliceElem(old.typ))
	}
	applying := false
	e.hooks.Store = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		r := root(p)
		if r.kind == KAlloc {
			return
		}
		if !applying {
			fail("changes %s before it is applied", p)
			return
		}
		if p == fp && name != "WithRenderer" || p == cell && cell != nil {
			return
		}
		fail("changes %s as well", p)
	}
	m := &Mon{e: e, bad: func(f string, a ...any) { fail("%s", fmt.Sprintf(f, a...)) }}
	if name == "WithResolvers" {
		m.items = []item{{"list", args[0], "the resolvers given"}}
		m.start(st)
		st.ghost["o.acc"] = old
		e.hooks.Key = m.key
		e.hooks.Appended = func(e *Eng, st *State, s *Term, xs []*Term, src, res *Term) {
			if s != st.ghost["o.acc"] {
				return
			}
			if src == args[0] && xs == nil {
				if st.ghost["m.cnt"] != tZero {
					fail("appends resolvers twice")
				}
				m.items = m.items[:1]
				st.ghost["o.all"] = tUnit
				st.ghost["m.cnt"] = st.length(src)
			} else if xs == nil {
				fail("appends %s instead of the resolvers given", src)
			}
			for _, x := range xs {
				m.child(st, x)
			}
			st.ghost["o.acc"] = res
		}
	}
	n := 0
	for _, o := range e.run(st, fn, args, nil, name) {
		if o.panic != nil {
			continue
		}
		f := childID(o.ret.args[0])
		if f.kind != KFn {
			fail("is not a function known here: %s", f)
			continue
		}
		applying = true
		for _, o := range e.run(o.st.clone(), f.fn, []*Term{b}, f.args, name+" option") {
			if o.panic != nil {
				continue
			}
			n++
			now := o.st.load(fp)
			switch name {
			case "WithParserMode":
				if now != args[0] {
					fail("sets the mode to %s instead of the one given", now)
				}
			case "WithResolvers":
				if now != o.st.ghost["o.acc"] && !(emptyList(o.st, args[0]) && now == old) {
					fail("leaves the resolvers as %s", now)
				}
				m.end(o.st)
			case "WithRenderer":
				v := o.st.load(cell)
				if now != old {
					fail("replaces the list of renderers")
				}
				if childID(v) != args[1] {
					fail("stores %s as the renderer of the kind", v)
				}
			}
		}
		applying = false
	}
	c.absorb(e, "none")
	if n == 0 {
		fail("never returns")
	}
	if len(failed) == 0 {
		c.hold("option effect", name)
	}
}

// parseUsesMode follows Biber.Parse.
func (c *Ctx) parseUsesMode() {
	bp, fn := c.must("", "Biber.Parse"), c.must("parser", "ParseFile")
	at := c.pos(bp.Pos())
	e, st := c.eng()
	st = st.clone()
	b := mkSym("b", bp.Params[0].Type())
	st.setNil(b, false)
	r := mkSym("r", bp.Params[1].Type())
	mode := st.load(fieldPtr(b, "parserMode"))
	failed := false
	fail := func(f string, a ...any) {
		failed = true
		c.fail("mode used", "Biber.Parse", at, "Biber.Parse "+f, a...)
	}
	file := mkSym("file", fn.Signature.Results().At(0).Type())
	perr := mkSym("parse error", fn.Signature.Results().At(1).Type())
	e.hooks.Key = func(st *State) string { return fmt.Sprint(st.ghost["o.res"]) }
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn != fn {
			if cl.fn != nil && cl.name == "go/token.NewFileSet" {
				return []Outcome{{st: st, ret: e.results(st, cl)}}, true // touches nothing of ours
			}
			return nil, false
		}
		if st.ghost["o.res"] != nil {
			fail("parses twice")
			return nil, true
		}
		if cl.args[3] != mode && !st.proveEq(cl.args[3], mode) {
			fail("parses with the mode %s instead of the configured one", cl.args[3])
		}
		ok, bad := st.clone(), st.clone()
		ok.setNil(file, false)
		bad.setNil(file, false) // a partial file
		bad.setNil(perr, false)
		ok.ghost["o.res"], bad.ghost["o.res"] = cInt(1), cInt(2)
		return []Outcome{{st: ok, ret: mkTuple(file, tNil)}, {st: bad, ret: mkTuple(file, perr)}}, true
	}
	for _, o := range e.run(st, bp, []*Term{b, r}, nil, "Parse") {
		if o.panic != nil {
			fail("panics")
			continue
		}
		f, er := o.ret.args[0], o.ret.args[1]
		n, k := o.st.isNil(er)
		fnil, fk := o.st.isNil(f)
		res := int64(0)
		if v := o.st.ghost["o.res"]; v != nil {
			res, _ = v.isInt()
		}
		switch {
		case res == 1 && (f != file || !k || !n):
			fail("returns %s and the error %s after a successful parse", f, er)
		case res == 2 && (!k || n || !fk || !fnil || !wraps(er, perr)):
			fail("returns %s and the error %s after the parse failed", f, er)
		case res == 0:
			fail("returns without parsing")
		}
	}
	c.absorb(e, "none")
	if !failed {
		c.hold("mode used", "Biber.Parse")
	}
}

// modeFlags looks at the mode the scanner is given for every set of parser
// flags.
func (c *Ctx) modeFlags() {
	fn, initFn := c.must("parser", "ParseFile"), c.must("scanner", "Scanner.Init")
	flags := c.constsOf("parser", "Mode")
	scan := c.constsOf("scanner", "Mode")
	var names []string
	for n := range flags {
		names = append(names, n)
	}
	sort.Strings(names)
	effect := map[string]string{"ParseComments": "ScanComments", "ParseStrings": "ScanStrings"}
	run := func(name string, f *ssa.Function, args []*Term, mode int64, st *State, e *Eng) {
		want := int64(0)
		for p, s := range effect {
			pv, ok1 := flags[p]
			sv, ok2 := scan[s]
			if !ok1 || !ok2 {
				panic(undecided{"mode constant " + p + " or " + s + " not found"})
			}
			if mode&pv != 0 {
				want |= sv
			}
		}
		calls, failed := 0, false
		e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
			if cl.fn == initFn {
				calls++
				got, ok := cl.args[4].isInt()
				if (!ok || got != want) && !failed {
					failed = true
					c.fail("mode flag", name, c.pos(cl.instr.Pos()), "with the parser flags %s the scanner is given the mode %s instead of %d", name, cl.args[4], want)
				}
				return nil, true
			}
			return nil, false
		}
		e.run(st, f, args, nil, name)
		c.absorb(e, "none")
		if calls == 0 {
			failed = true
			c.fail("mode flag", name, c.pos(f.Pos()), "with the parser flags %s nothing is scanned", name)
		}
		if !failed {
			c.hold("mode flag", name)
		}
	}
	str := types.Typ[types.String]
	for s := 0; s < 1<<len(names); s++ {
		var on []string
		mode := int64(0)
		for i, n := range names {
			if s>>i&1 == 1 {
				on = append(on, n)
				mode |= flags[n]
			}
		}
		e, st := c.eng()
		st = st.clone()
		args := []*Term{mkSym("fset", fn.Params[0].Type()), mkSym("filename", str), mkIface(str, mkSym("s", str)), cInt(mode)}
		st.setNil(args[0], false)
		run("ParseFile {"+strings.Join(on, ",")+"}", fn, args, mode, st, e)
	}
	pe := c.must("parser", "ParseExpr")
	e, st := c.eng()
	run("ParseExpr", pe, []*Term{mkSym("str", str)}, flags["ParseStrings"], st.clone(), e)
}
