package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["C01"] = func(c *Ctx) {
		parts := c.parserParts()
		parts["scanner, ParseStrings off"] = func() { c.scanPanics(false) }
		parts["scanner, ParseStrings on"] = func() { c.scanPanics(true) }
		for _, strs := range []bool{false, true} {
			parts[fmt.Sprintf("trace, ParseStrings %v", strs)] = func() { c.parseErrors(strs, false, true) }
		}
		c.parallel(parts)
		c.floor("index out of range", 60)
		c.floor("slice bounds out of range", 15)
		c.floor("nil dereference", 400)
	}
	checks["C02"] = func(c *Ctx) {
		parts := c.parserParts("loop progress", "recursion progress")
		for k, f := range c.scanParts("progress", "loop termination") {
			parts["scanner, "+k] = f
		}
		c.parallel(parts)
		c.floor("loop progress", 8)
		c.floor("recursion progress", 2)
		c.floor("progress", 10)
	}
	checks["C32"] = func(c *Ctx) {
		c.parallel(c.parserParts("error list", "errors bounded", "one error per line", "errors kept", "errors returned", "errors sorted", "no panic escapes"))
		c.floor("one error per line", 3)
		c.floor("errors returned", 3)
	}
	checks["C33"] = func(c *Ctx) {
		parts := c.parserParts("recursion bounded", "nesting restored")
		parts["scanner"] = func() { c.scannerDepth() }
		parts["tree depth"] = func() {
			c.treeDepth(reachableFuncs(c.must("parser", "ParseFile"), c.must("parser", "ParseExpr")))
		}
		c.parallel(parts)
		c.floor("recursion bounded", 2)
		c.floor("scanner recursion", 2)
		c.floor("tree depth", 5)
	}
	checks["C03"] = func(c *Ctx) {
		parts := c.grammarParts(func(r, x string) bool { return r == "malformed input rejected" || r == "placeholder reported" })
		for k, f := range c.parserParts("errors returned", "usable result", "scanner error recorded", "errors kept") {
			parts["errors, "+k] = f
		}
		for _, strs := range []bool{false, true} {
			for _, none := range []bool{false, true} {
				parts[fmt.Sprintf("scanner, ParseStrings %v, no error handler %v", strs, none)] = func() {
					sp := newScanSpec(c, strs)
					sp.errors, sp.nilErrh = true, none
					c.scanRun(sp, "illegal token reported", "unterminated token reported", "error count")
				}
			}
		}
		c.parallel(parts)
		c.floor("malformed input rejected", 3)
		c.floor("placeholder reported", 3)
		c.floor("usable result", 3)
		c.floor("scanner error recorded", 3)
		c.floor("illegal token reported", 2)
	}
	checks["C18"] = func(c *Ctx) {
		parts := c.grammarParts(func(r, x string) bool { return r == "node position" })
		for k, f := range c.scanParts("token position", "line table", "error position") {
			parts["scanner, "+k] = f
		}
		parts["comments"] = func() { c.parseComments(true, "node position") }
		c.parallel(parts)
		c.floor("token position", 60)
		c.floor("node position", 30)
	}
	checks["C19"] = func(c *Ctx) {
		c.parallel(c.grammarParts(func(r, x string) bool {
			return nodeRule(r, x, textNodes...) || r == "valid input accepted" && prefixed(x, "Q", "G", "U:", "W:")
		}))
		c.floor("node content", 20)
	}
	checks["C20"] = func(c *Ctx) {
		c.parallel(c.grammarParts(func(r, x string) bool {
			return nodeRule(r, x, entryNodes...) || r == "valid input accepted" && prefixed(x, "E:", "X:")
		}))
		c.floor("node content", 8)
	}
	checks["C21"] = func(c *Ctx) {
		c.parallel(c.grammarParts(func(r, x string) bool {
			return nodeRule(r, x, declNodes...) || r == "tree complete" || r == "valid input accepted" && prefixed(x, "F:", "P:", "A:", "R:", "X:") ||
				r == "malformed input rejected" && (strings.Contains(x, "a declaration") || strings.Contains(x, "closing"))
		}))
		c.floor("node content", 6)
		c.floor("tree complete", 3)
	}
	checks["C23"] = func(c *Ctx) {
		parts := c.grammarParts(func(r, x string) bool { return r == "valid input accepted" && x == "comment" || r == "comment skipped" })
		for _, strs := range []bool{false, true} {
			parts[fmt.Sprintf("comments, ParseStrings %v", strs)] = func() { c.parseComments(strs, "comment recorded") }
		}
		c.parallel(parts)
		c.floor("comment recorded", 4)
		c.floor("comment skipped", 2)
	}
}

// parserParts follow all token sequences through the parser with its error
// handling.
func (c *Ctx) parserParts(rules ...string) map[string]func() {
	return map[string]func(){
		"file, strings off": func() { c.parseErrors(false, false, false, rules...) },
		"file, strings on":  func() { c.parseErrors(true, false, false, rules...) },
		"expr":              func() { c.parseErrors(true, true, false, rules...) },
	}
}

// modeSet are the values of the mode of ParseFile with the given flags.
func (sp *ParseSpec) modeSet(trace bool) IntSet {
	str, ok1 := sp.w.constInt("parser", "ParseStrings")
	tr, ok2 := sp.w.constInt("parser", "Trace")
	all, ok3 := sp.w.constInt("parser", "AllErrors")
	if !ok1 || !ok2 || !ok3 {
		panic(undecided{"the flags of parser.Mode are not found"})
	}
	return setOf(rangeSet(0, 2*max(str, tr, all)-1), func(v int64) bool { return (v&str != 0) == sp.strings && (v&tr != 0) == trace })
}

// start interprets ParseFile or ParseExpr.
func (sp *ParseSpec) start(trace bool) []Outcome {
	c := sp.c
	name := "ParseFile"
	if sp.expr {
		name = "ParseExpr"
	}
	fn := c.must("parser", name)
	sp.run(fn)
	e := sp.e
	_, st := c.eng()
	st = st.clone()
	var args []*Term
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	for _, p := range fn.Params {
		switch {
		case isStringType(p.Type()):
			args = append(args, mkSym(p.Name(), p.Type()))
		case isIntType(p.Type()):
			m := mkSym("mode", p.Type())
			st.restrict(m, sp.modeSet(trace))
			st.ghost["mode"] = m
			args = append(args, m)
		case types.IsInterface(p.Type()):
			args = append(args, mkIface(bytesT, mkSym("src", bytesT)))
		default:
			f := mkSym("fset", p.Type())
			st.setNil(f, false)
			args = append(args, f)
		}
	}
	if sp.expr {
		st.ghost["mode"] = cInt(0)
	}
	if sp.gram {
		if sp.expr {
			setFrames(st, []string{"R:start"})
		} else {
			setFrames(st, []string{"F:items"})
		}
	}
	if sp.comm {
		st.ghost["c.list"] = tNil
	}
	sp.fn = fn
	return e.run(st, fn, args, nil, name)
}

// parseErrors follows every token sequence through the parser, with all error
// handling. Without rules the engine's own obligations are the verdict.
func (c *Ctx) parseErrors(strs, expr, trace bool, rules ...string) {
	sp := newParseSpec(c, false, strs)
	sp.expr, sp.traced = expr, trace
	for _, o := range sp.start(trace) {
		sp.outs++
		sp.outcome(o)
	}
	sp.restored()
	if len(rules) == 0 {
		rules = []string{"no panic escapes"}
		c.absorb(sp.e)
	} else {
		c.absorb(sp.e, "none")
	}
	sp.report(rules...)
}

// outcome judges how ParseFile or ParseExpr ends.
func (sp *ParseSpec) outcome(o Outcome) {
	st, name := o.st, sp.fn.Name()
	pos := sp.w.pos(sp.fn.Pos())
	sp.req(st, o.panic == nil, "no panic escapes", name, pos, "a panic may reach the caller")
	if o.panic != nil {
		return
	}
	ec := st.ghost["errcell"]
	if ec == nil || o.ret == nil || len(o.ret.args) != 2 {
		sp.fail(st, "errors returned", name, pos, "the function returns without having parsed")
		return
	}
	res, err := o.ret.args[0], o.ret.args[1]
	l := st.load(ec)
	list, was := st.ghost["err.of"], st.ghost["err"]
	n := st.length(l)
	_, hi := st.bounds(n)
	switch {
	case err == tNil:
		sp.req(st, hi == 0 || list == l && was == tNil, "errors returned", name, pos, "the error result is nil although errors may have been recorded")
	default:
		sp.req(st, list == l && was == err, "errors returned", name, pos, "the error result is not that of the final list of errors")
		sp.req(st, st.ghost["sorted"] == l, "errors sorted", name, pos, "the list of errors is not sorted before it is returned")
	}
	isNil, known := st.isNil(res)
	errNil, errKnown := st.isNil(err)
	if !sp.expr {
		sp.req(st, known && !isNil, "usable result", name, pos, "the file may be nil although the source was read")
		return
	}
	sp.req(st, errKnown && known && isNil != errNil, "usable result", name, pos, "the expression is returned with an error, or neither is (expression nil: %v/%v, error nil: %v/%v)", isNil, known, errNil, errKnown)
}

// grammarParts follow the tokens of valid input through the parser together
// with the grammar.
func (c *Ctx) grammarParts(use func(rule, construct string) bool) map[string]func() {
	return map[string]func(){
		"grammar, file, strings off": func() { c.parseGrammar(false, false, use) },
		"grammar, file, strings on":  func() { c.parseGrammar(true, false, use) },
		"grammar, expr":              func() { c.parseGrammar(true, true, use) },
	}
}

func (c *Ctx) parseGrammar(strs, expr bool, use func(rule, construct string) bool) {
	sp := newParseSpec(c, true, strs)
	sp.expr = expr
	for _, o := range sp.start(false) {
		sp.outs++
		sp.gramOutcome(o)
	}
	dumpOuts()
	c.absorb(sp.e, "none")
	sp.reportIf(use)
}

// nodeRule selects the rules about nodes of some types.
func nodeRule(rule, construct string, nodes ...string) bool {
	switch rule {
	case "node content", "piece kept", "node unchanged":
		for _, n := range nodes {
			if construct == n || strings.HasPrefix(construct, n+".") || strings.HasPrefix(construct, n+" ") {
				return true
			}
		}
	}
	return false
}

func prefixed(s string, ps ...string) bool {
	for _, p := range ps {
		if strings.HasPrefix(s, p) {
			return true
		}
	}
	return false
}

var textNodes = []string{"ParsedText", "Text", "TextComma", "TextHyphen", "TextNBSP", "TextEscaped", "TextMath", "TextSpace", "TextMacro", "TextAccent"}
var entryNodes = []string{"BibDecl", "TagStmt", "Ident", "Number", "UnparsedText"}
var declNodes = []string{"ConcatExpr", "PreambleDecl", "AbbrevDecl", "File", "element"}

// gramOutcome judges how ParseFile or ParseExpr ends when no error was
// recorded.
func (sp *ParseSpec) gramOutcome(o Outcome) {
	st, name := o.st, sp.fn.Name()
	pos := sp.w.pos(sp.fn.Pos())
	if o.panic != nil {
		return // judged by C01 and C32
	}
	if o.ret == nil || len(o.ret.args) != 2 {
		sp.fail(st, "tree complete", name, pos, "the function returns without having parsed")
		return
	}
	res, err := o.ret.args[0], o.ret.args[1]
	if st.ghost["cur"] == nil {
		isNil, known := st.isNil(err)
		sp.req(st, known && !isNil, "malformed input rejected", name+" without a source", pos, "nil error although nothing was parsed")
		return
	}
	if n := st.ghost["badnode"]; n != nil {
		sp.fail(st, "placeholder reported", name, pos, "the parse may end without an error although a placeholder for bad input was built")
		return
	}
	sp.ok("placeholder reported", name)
	if st.ghost["bad"] != nil {
		b := gstr(st, "bad")
		if b == reported {
			return
		}
		if b == "" {
			b = "one of several violations of the grammar"
		}
		sp.fail(st, "malformed input rejected", b, pos, "the parse may end without an error after %s", b)
		return
	}
	fs := frames(st)
	top := fs[len(fs)-1]
	final := len(fs) == 1 && (top == "F:items" || top == "F:after" || top == "R:done")
	atEOF := st.set(st.ghost["cur"]).subsetOf(sp.set("EOF"))
	sp.req(st, final, "malformed input rejected", "end of the input", pos, "the parse may end without an error where %s is expected", expects(top))
	sp.req(st, atEOF, "malformed input rejected", "rest of the input", pos, "the parse may end without an error before %s has been consumed", sp.names(st.set(st.ghost["cur"])))
	if !final || !atEOF {
		return
	}
	if sp.expr {
		w := st.ghost[gkey(0, "val")]
		if w != nil && sp.match(st, w, res) {
			sp.ok("tree complete", name)
		} else if w != nil && w.kind == KOp {
			sp.failNode(st, w, -1, pos, "is not the expression returned")
		} else {
			sp.fail(st, "tree complete", name, pos, "the returned expression is not the one that was read")
		}
		return
	}
	if w := st.ghost[gkey(0, "pend")]; w != nil {
		sp.failNode(st, w, 0, pos, "is not added to the file")
		return
	}
	f := sp.fieldOf(res, "Entries")
	if f == nil {
		panic(undecided{"ast.File has no field Entries"})
	}
	sp.req(st, sp.matchVal(st, sp.list(st, 0, "list"), st.load(f)), "tree complete", name, pos, "the entries of the returned file are not the declarations that were read")
}

// parseComments follows the comments through parses without errors.
func (c *Ctx) parseComments(strs bool, rules ...string) {
	sp := newParseSpec(c, false, strs)
	sp.comm = true
	for _, o := range sp.start(false) {
		sp.outs++
		if o.panic != nil || o.ret == nil || o.st.ghost["cur"] == nil {
			continue
		}
		st := o.st
		pos := sp.w.pos(sp.fn.Pos())
		open := st.ghost["c.pend"] != nil || st.ghost["c.pre"] != nil || st.ghost["c.glist"] != nil
		sp.req(st, !open, "comment recorded", "end of the input", pos, "a comment may be missing in the comments of the file")
		if open {
			continue
		}
		f := sp.fieldOf(o.ret.args[0], "Comments")
		if f == nil {
			panic(undecided{"ast.File has no field Comments"})
		}
		sp.req(st, sp.matchVal(st, mkOp("list", nil, st.ghost["c.list"]), st.load(f)), "comment recorded", sp.fn.Name(), pos, "the comments of the returned file are not those that were read")
	}
	c.absorb(sp.e, "none")
	sp.report(rules...)
}

// report takes over the verdicts of some rules (all without any).
func (sp *ParseSpec) report(rules ...string) {
	sp.reportIf(func(rule, construct string) bool {
		for _, r := range rules {
			if rule == r {
				return true
			}
		}
		return len(rules) == 0
	})
}

func (sp *ParseSpec) reportIf(use func(rule, construct string) bool) {
	c := sp.c
	mode := fmt.Sprintf("%s, ParseStrings %v: ", sp.fn.Name(), sp.strings)
	for _, k := range keysOf(sp.holds) {
		r, x, _ := strings.Cut(k, " | ")
		if _, bad := sp.fails[k]; !bad && use(r, x) {
			c.hold(r, mode+x)
		}
	}
	for _, k := range keysOf(sp.fails) {
		if f := sp.fails[k]; use(f.Rule, f.Construct) {
			c.fail(f.Rule, f.Construct, f.Pos, "%s%s", mode, f.Detail)
		}
	}
	c.notes = append(c.notes, fmt.Sprintf("%s%d calls of Scan, %d outcomes, %d contracts", mode, sp.scans, sp.outs, len(sp.cs.order)))
}
