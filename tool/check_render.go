package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C06"] = func(c *Ctx) { checkDispatch(c) }
	checks["C07"] = func(c *Ctx) { c.defaultRendering("text"); c.floor("text", 26) }
	checks["C08"] = func(c *Ctx) { c.textRendering("text"); c.floor("text", 16) }
	checks["C09"] = func(c *Ctx) {
		c.defaultRendering("write error")
		c.textRendering("write error")
		c.floor("write error", 20)
	}
}

// writer models a call that writes to w: it succeeds, or fails with an error.
func (m *Mon) writer(e *Eng, st *State, w *Term, c *Call) ([]Outcome, bool) {
	var text *Term
	switch {
	case c.meth != nil && c.iface == w && c.meth.Name() == "Write" && len(c.args) == 2:
		text = st.bytesAsString(c.args[1])
	case c.meth != nil && c.iface == w && c.meth.Name() == "WriteString" && len(c.args) == 2:
		text = c.args[1]
	case c.name == "io.WriteString" && c.args[0] == w:
		text = c.args[1]
	case strings.HasPrefix(c.name, "fmt.Fprint") && c.args[0] == w:
		va := e.variadic(st, c)[1:]
		text = e.foldFmt(st, c.name, va)
		if text == nil {
			text = mkOp("call:"+c.name, types.Typ[types.String], va...)
		}
	default:
		return nil, false
	}
	st = st.clone()
	if p, _ := st.ghost["m.ph"].isInt(); p == 3 {
		m.bad("writes %s after a failure", text)
		return nil, true
	}
	ok, fl := st, st.clone()
	m.write(ok, text)
	n := c.sig.Results().Len()
	er := mkSym("writeErr", errType)
	fl.setNil(er, false)
	fl.ghost["m.ph"] = cInt(3)
	fl.ghost["w.err"] = er
	cnt := e.fresh(fl, "written", c.instr, types.Typ[types.Int])
	if n == 1 {
		return []Outcome{{st: ok, ret: mkTuple(tNil)}, {st: fl, ret: mkTuple(er)}}, true
	}
	return []Outcome{{st: ok, ret: mkTuple(ok.length(text), tNil)}, {st: fl, ret: mkTuple(cnt, er)}}, true
}

// visit models the rendering or walking of a child.
func (c *Ctx) visit(m *Mon, e *Eng, st *State, child *Term, cl *Call) ([]Outcome, bool) {
	st = st.clone()
	if p, _ := st.ghost["m.ph"].isInt(); p == 3 {
		m.bad("visits %s after a failure", child)
		return nil, true
	}
	if !m.child(st, child) {
		return nil, true
	}
	res := func(st *State, er *Term) *Term {
		var rs []*Term
		for i := 0; i < cl.sig.Results().Len(); i++ {
			switch t := cl.sig.Results().At(i).Type(); {
			case types.Identical(t, errType):
				rs = append(rs, er)
			case er == tNil && strings.HasSuffix(typeName(t), "ast.WalkStatus"):
				v, _ := c.w.constInt("ast", "WalkContinue")
				rs = append(rs, cInt(v))
			default:
				rs = append(rs, e.fresh(st, "childret", cl.instr, t))
			}
		}
		return mkTuple(rs...)
	}
	outs := []Outcome{{st: st, ret: res(st, tNil)}}
	er := mkSym("childErr", errType)
	f := st.clone()
	f.setNil(er, false)
	f.ghost["m.ph"] = cInt(3)
	f.ghost["w.err"] = er
	return append(outs, Outcome{st: f, ret: res(f, er)}), true
}

// recursive finds the node argument of a recursive call.
func recursive(cl *Call, nodeI *types.Interface) *Term {
	if cl.fn == nil || !cl.rec || !inModule(pkgOf(cl.fn)) {
		return nil
	}
	for i, a := range cl.args {
		if i < len(cl.fn.Params) && nodeLike(cl.fn.Params[i].Type(), nodeI) {
			return a
		}
	}
	return nil
}

// newBiber runs bibtex.New without options.
func (c *Ctx) newBiber() (*Eng, *State, *Term) {
	e, st := c.eng()
	newFn := c.must("", "New")
	outs := e.run(st.clone(), newFn, []*Term{tNil}, nil, "New")
	if len(outs) != 1 || outs[0].panic != nil {
		e.giveUp("New has %d outcomes", len(outs))
	}
	return e, outs[0].st, outs[0].ret.args[0]
}

// kindOf is the constant kind of a node type.
func (c *Ctx) kindOf(t types.Type) (int64, bool) {
	e, st := c.eng()
	fn := c.method(t, "Kind")
	if fn == nil {
		return 0, false
	}
	r, ok := constRet(e.run(st.clone(), fn, []*Term{node(st, t, "n").args[0]}, nil, "Kind"))
	if !ok {
		return 0, false
	}
	return r.isInt()
}

func fieldVal(st *State, root *Term, name string) *Term {
	p := fieldPtr(root.args[0], name)
	if p == nil {
		return nil
	}
	return st.load(p)
}

// leafText gives what default rendering writes for a node type: the text
// before and after its children. ok is false if the type must fail.
func (c *Ctx) leafText(st *State, e *Eng, root *Term, name string) (pre, post *Term, known, fails bool) {
	empty := cStr("")
	f := func(n string) *Term {
		v := fieldVal(st, root, n)
		if v == nil {
			e.giveUp("%s has no field %s", name, n)
		}
		return v
	}
	switch name {
	case "*ast.Text", "*ast.TextSpace":
		return f("Value"), empty, true, false
	case "*ast.TextComma":
		return cStr(","), empty, true, false
	case "*ast.TextHyphen":
		return cStr("-"), empty, true, false
	case "*ast.TextNBSP":
		return cStr(nbsp), empty, true, false
	case "*ast.TextEscaped":
		return mkConcat(cStr(`\`), f("Value")), empty, true, false
	case "*ast.TextMath":
		return mkConcat(cStr("$"), f("Value")), cStr("$"), true, false
	case "*ast.Ident":
		return f("Name"), empty, true, false
	case "*ast.TextAccent":
		acc := fieldPtr(root.args[0], "Accent")
		if acc == nil {
			e.giveUp("TextAccent has no field Accent")
		}
		s := e.convert(st, e.convert(st, st.load(acc), deref(acc.typ), types.Typ[types.Int32]), types.Typ[types.Int32], types.Typ[types.String])
		return mkConcat(cStr(`\`), s, cStr("{")), cStr("}"), true, false
	case "*ast.BadExpr", "*ast.BadStmt":
		return empty, empty, true, true
	case "*ast.TexComment", "*ast.TexCommentGroup", "*ast.Number", "ast.Authors", "*ast.Author", "*ast.UnparsedText", "*ast.TextMacro",
		"*ast.ConcatExpr", "*ast.TagStmt", "*ast.BadDecl", "*ast.AbbrevDecl", "*ast.BibDecl", "*ast.PreambleDecl", "*ast.File", "*ast.Package":
		return empty, empty, true, false
	}
	return nil, nil, false, false
}

const nbsp = " "

// defaultRendering renders a node of every type with the default renderers.
func (c *Ctx) defaultRendering(rule string) {
	e0, st0, biber := c.newBiber()
	c.absorb(e0, "none")
	nodeI := c.iface("ast", "Node")
	render := c.must("", "Biber.Render")
	for _, t := range c.implementers("ast", nodeI) {
		name := typeShort(t)
		if name == "*ast.ParsedText" {
			qt, _ := c.w.constInt("ast", "QuoteDelimiter")
			br, _ := c.w.constInt("ast", "BraceDelimiter")
			c.renderType(rule, st0, biber, render, t, nodeI, "quote delimiter", func(st *State, root *Term) (pre, post *Term) {
				st.store(fieldPtr(root.args[0], "Delim"), cInt(qt))
				return cStr(`"`), cStr(`"`)
			})
			c.renderType(rule, st0, biber, render, t, nodeI, "brace delimiter", func(st *State, root *Term) (pre, post *Term) {
				st.store(fieldPtr(root.args[0], "Delim"), cInt(br))
				return cStr("{"), cStr("}")
			})
			continue
		}
		c.renderType(rule, st0, biber, render, t, nodeI, "", nil)
	}
}

func (c *Ctx) renderType(rule string, st0 *State, biber *Term, render *ssa.Function, t types.Type, nodeI *types.Interface, variant string, prep func(*State, *Term) (pre, post *Term)) {
	e, _ := c.eng()
	st := st0.clone()
	root := node(st, t, "n")
	name := typeShort(t)
	label := strings.TrimSpace(name + " " + variant)
	w := mkSym("writer", render.Params[1].Type())
	st.setNil(w, false)
	bads := map[string]bool{}
	problem := func(r, f string, a ...any) {
		bads[r] = true
		if r == rule {
			c.fail(r, label, c.pos(render.Pos()), "default rendering of %s: %s", label, fmt.Sprintf(f, a...))
		}
	}
	m := &Mon{e: e, bad: func(f string, a ...any) {
		msg := fmt.Sprintf(f, a...)
		if strings.Contains(msg, "after a failure") {
			problem("write error", "%s", msg)
		} else {
			problem("text", "%s", msg)
		}
	}}
	var pre, post *Term
	known, fails := true, false
	if prep != nil {
		pre, post = prep(st, root)
	} else {
		pre, post, known, fails = c.leafText(st, e, root, name)
	}
	if !known {
		problem("text", "no expected text is specified for this node type")
		return
	}
	// the piece before the children, the children, and the piece after them;
	// without children the two pieces are adjacent
	hasKids := false
	if fs, _ := c.nodeFields(t, nodeI, notContent); len(fs) > 0 {
		hasKids = true
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		hasKids = true
	}
	if hasKids {
		m.items = []item{{"text", pre, "the opening text"}, {"any", nil, "the children"}, {"text", post, "the closing text"}}
	} else {
		m.items = []item{{"text", mkConcat(pre, post), "the text"}}
	}
	m.start(st)
	st.ghost["m.ph"] = tZero
	e.hooks.Key = m.key
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if outs, ok := m.writer(e, st, w, cl); ok {
			return outs, true
		}
		if ch := recursive(cl, nodeI); ch != nil {
			return c.visit(m, e, st, ch, cl)
		}
		return nil, false
	}
	n := 0
	for _, o := range e.run(st, render, []*Term{biber, w, root}, nil, "Render") {
		n++
		if o.panic != nil {
			problem("text", "panics with %s", o.panic)
			continue
		}
		er := o.ret.args[0]
		isNil, kn := o.st.isNil(er)
		if p, _ := o.st.ghost["m.ph"].isInt(); p == 3 {
			if !wraps(er, o.st.ghost["w.err"]) {
				problem("write error", "after %s the render call returns %s, which does not wrap it", o.st.ghost["w.err"], er)
			}
			continue
		}
		if fails {
			if !kn || isNil {
				problem("text", "succeeds where an error is required")
			}
			continue
		}
		if !kn || !isNil {
			problem("text", "fails with %s although no write failed", er)
			continue
		}
		m.end(o.st)
	}
	c.absorb(e, "none")
	for _, k := range keysOf(e.obl) {
		o := e.obl[k]
		switch o.kind {
		case "failed type assertion", "index out of range", "call of nil":
			if rule == "dispatch" {
				if o.ok {
					c.hold("dispatch", label+" "+constructOf(k))
				} else {
					c.fail("dispatch", label, c.pos(o.pos), "rendering a %s: %s: %s", label, o.kind, o.detail)
				}
			}
		}
	}
	if !bads[rule] && n > 0 && rule != "dispatch" {
		c.hold(rule, fmt.Sprintf("%s: %d outcomes", label, n))
	}
}

// textRendering runs the plain-text renderer on every expression type.
func (c *Ctx) textRendering(rule string) {
	exprI, nodeI := c.iface("ast", "Expr"), c.iface("ast", "Node")
	render := c.must("render", "TextRenderer.Render")
	for _, t := range c.implementers("ast", exprI) {
		e, st := c.eng()
		st = st.clone()
		root := node(st, t, "x")
		name := typeShort(t)
		w := mkSym("writer", render.Params[1].Type())
		st.setNil(w, false)
		bads := map[string]bool{}
		problem := func(r, f string, a ...any) {
			bads[r] = true
			if r == rule {
				c.fail(r, name, c.pos(render.Pos()), "plain-text rendering of %s: %s", name, fmt.Sprintf(f, a...))
			}
		}
		m := &Mon{e: e, bad: func(f string, a ...any) {
			msg := fmt.Sprintf(f, a...)
			if strings.Contains(msg, "after a failure") {
				problem("write error", "%s", msg)
			} else {
				problem("text", "%s", msg)
			}
		}}
		f := func(n string) *Term {
			v := fieldVal(st, root, n)
			if v == nil {
				e.giveUp("%s has no field %s", name, n)
			}
			return v
		}
		supported := true
		txt := func(xs ...*Term) { m.items = []item{{"text", mkConcat(xs...), "the text"}} }
		acc := mkSym("accented", types.Typ[types.Int32])
		switch name {
		case "*ast.ParsedText", "*ast.TextMacro":
			m.items = []item{{"list", f("Values"), "Values"}}
		case "*ast.ConcatExpr":
			m.items = []item{{"one", f("X"), "X"}, {"text", cStr("#"), "the operator"}, {"one", f("Y"), "Y"}}
		case "*ast.Text", "*ast.TextEscaped":
			txt(f("Value"))
		case "*ast.TextComma":
			txt(cStr(","))
		case "*ast.TextHyphen":
			txt(cStr("-"))
		case "*ast.TextMath":
			txt(cStr("$"), f("Value"), cStr("$"))
		case "*ast.TextNBSP", "*ast.TextSpace":
			txt(cStr(" "))
		case "*ast.TextAccent":
			txt(mkOp("runestr", types.Typ[types.String], acc))
			st.setNil(f("Text"), false)
		default:
			supported = false
		}
		m.start(st)
		st.ghost["m.ph"] = tZero
		e.hooks.Key = m.key
		renderAccent := c.w.fn("render", "RenderAccent")
		e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
			if outs, ok := m.writer(e, st, w, cl); ok {
				return outs, true
			}
			if ch := recursive(cl, nodeI); ch != nil {
				return c.visit(m, e, st, ch, cl)
			}
			if cl.fn != nil && cl.fn == renderAccent {
				if name != "*ast.TextAccent" {
					return nil, false
				}
				st = st.clone()
				if cl.args[0] != fieldVal(st, root, "Accent") {
					problem("text", "renders the accent %s instead of the node's", cl.args[0])
				}
				if tx := st.load(fieldPtr(fieldVal(st, root, "Text"), "Value")); cl.args[1] != tx {
					problem("text", "accents %s instead of the node's text", cl.args[1])
				}
				bad := st.clone()
				er := mkSym("accentErr", errType)
				bad.setNil(er, false)
				bad.ghost["m.ph"] = cInt(3)
				bad.ghost["w.err"] = er
				return []Outcome{{st: st, ret: mkTuple(acc, tNil)}, {st: bad, ret: mkTuple(tZero, er)}}, true
			}
			return nil, false
		}
		n := 0
		args := []*Term{zeroValue(c.w.typ("render", "TextRenderer")), w, root}
		if _, ok := render.Params[0].Type().Underlying().(*types.Pointer); ok {
			args[0] = mkAlloc("renderer", deref(render.Params[0].Type()))
		}
		for _, o := range e.run(st, render, args, nil, "Render") {
			n++
			if o.panic != nil {
				problem("text", "panics with %s", o.panic)
				continue
			}
			er := o.ret.args[0]
			isNil, kn := o.st.isNil(er)
			if p, _ := o.st.ghost["m.ph"].isInt(); p == 3 {
				if !wraps(er, o.st.ghost["w.err"]) {
					r := "write error"
					if o.st.ghost["w.err"] != mkSym("writeErr", errType) {
						r = "text"
					}
					problem(r, "after %s the render call returns %s, which does not wrap it", o.st.ghost["w.err"], er)
				}
				continue
			}
			if !supported {
				if !kn || isNil {
					problem("text", "an unsupported expression is rendered without error")
				}
				continue
			}
			if !kn || !isNil {
				problem("text", "fails with %s although nothing failed", er)
				continue
			}
			m.end(o.st)
		}
		c.absorb(e, "none")
		if !bads[rule] && n > 0 {
			c.hold(rule, fmt.Sprintf("plain %s: %d outcomes", name, n))
		}
	}
}

// checkDispatch decides C06.
func checkDispatch(c *Ctx) {
	nodeI := c.iface("ast", "Node")
	kinds := map[int64]string{}
	for _, t := range c.implementers("ast", nodeI) {
		name := typeShort(t)
		k, ok := c.kindOf(t)
		if !c.req(ok, "constant kind", name, c.pos(c.method(t, "Kind").Pos()), "Kind of %s is not one constant", name) {
			continue
		}
		o := kinds[k]
		c.req(o == "", "distinct kind", name, c.pos(c.method(t, "Kind").Pos()), "%s and %s report the same kind %d", name, o, k)
		kinds[k] = name
	}
	c.floor("distinct kind", 26)
	c.defaultRendering("dispatch")
	c.floor("dispatch", 40)
	// every kind constant has a renderer, and a missing or failing renderer is
	// reported
	_, st0, biber := c.newBiber()
	tbl := fieldPtr(biber, "renderers")
	if tbl == nil {
		panic(undecided{"Biber has no field renderers"})
	}
	lst := st0.load(tbl)
	es, ok := st0.elems(lst)
	if !ok {
		panic(undecided{"the default renderer table is not a list of known length"})
	}
	for n, k := range c.constsOf("ast", "NodeKind") {
		ok := k >= 0 && int(k) < len(es)
		if ok {
			nl, kn := st0.isNil(es[k])
			ok = kn && !nl
		}
		c.req(ok, "renderer present", n, c.pos(c.must("", "New").Pos()), "kind %s has no default renderer", n)
	}
	c.floor("renderer present", 26)
	c.customRenderer()
}

// customRenderer runs Render with an unknown renderer table.
func (c *Ctx) customRenderer() {
	render := c.must("", "Biber.Render")
	t := types.Type(types.NewPointer(c.w.typ("ast", "TextComma")))
	nodeI := c.iface("ast", "Node")
	e, st := c.eng()
	st = st.clone()
	b := mkSym("biber", render.Params[0].Type())
	st.setNil(b, false)
	w := mkSym("writer", render.Params[1].Type())
	st.setNil(w, false)
	root := node(st, t, "n")
	kind, _ := c.kindOf(t)
	calls := 0
	e.hooks.Key = func(st *State) string {
		s := ""
		for _, k := range []string{"r.state", "r.err"} {
			if v := st.ghost[k]; v != nil {
				s += k + v.String()
			}
		}
		return s
	}
	st.ghost["r.state"] = cStr("none")
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if ch := recursive(cl, nodeI); ch != nil {
			return c.visit(&Mon{e: e, items: []item{{kind: "any"}}, bad: func(string, ...any) {}}, e, st, ch, cl)
		}
		if cl.meth == nil || cl.meth.Name() != "Render" || len(cl.args) != 4 {
			return nil, false
		}
		calls++
		if !(cl.args[1] == w && childID(cl.args[2]) == root.args[0]) {
			c.fail("renderer call", "arguments", c.pos(cl.instr.Pos()), "a renderer is called with %s and %s instead of the writer and the node", cl.args[1], cl.args[2])
		}
		if s, _ := st.ghost["r.state"].isStr(); s == "failed" {
			c.fail("renderer call", "after failure", c.pos(cl.instr.Pos()), "a renderer is called after one failed")
			return nil, true
		}
		st = st.clone()
		bad := st.clone()
		st.ghost["r.state"] = cStr("ok")
		er := mkSym("rendererErr", errType)
		bad.setNil(er, false)
		bad.ghost["r.state"], bad.ghost["r.err"] = cStr("failed"), er
		v, _ := c.w.constInt("ast", "WalkContinue")
		outs := []Outcome{{st: st, ret: mkTuple(cInt(v), tNil)}}
		for _, s := range []string{"WalkContinue", "WalkStop", "WalkSkipChildren"} {
			v, _ := c.w.constInt("ast", s)
			outs = append(outs, Outcome{st: bad.clone(), ret: mkTuple(cInt(v), er)})
		}
		return outs, true
	}
	nFail, nNone, nOK := 0, 0, 0
	for _, o := range e.run(st, render, []*Term{b, w, root}, nil, "Render") {
		if o.panic != nil {
			continue // a table that is too short: excluded by the table rule
		}
		er := o.ret.args[0]
		isNil, kn := o.st.isNil(er)
		naming := mentions(er, kind, c)
		switch s, _ := o.st.ghost["r.state"].isStr(); s {
		case "failed":
			nFail++
			c.req(wraps(er, o.st.ghost["r.err"]), "renderer failure", "error", c.pos(render.Pos()), "a failing renderer's error is returned as %s, which does not wrap it", er)
			c.req(naming, "renderer failure", "names the kind", c.pos(render.Pos()), "the error %s of a failing renderer does not name the kind", er)
		case "none":
			nNone++
			c.req(kn && !isNil, "missing renderer", "error", c.pos(render.Pos()), "a node without renderer is rendered without error")
			c.req(naming, "missing renderer", "names the kind", c.pos(render.Pos()), "the error %s for a missing renderer does not name the kind", er)
		default:
			nOK++
			if nl, k := o.st.isNil(er); !k || !nl {
				// the second call may find its renderer missing
				c.req(naming, "missing renderer", "names the kind (leaving)", c.pos(render.Pos()), "the error %s does not name the kind", er)
			}
		}
	}
	c.absorb(e, "none")
	c.req(nFail > 0 && nNone > 0 && nOK > 0 && calls > 0, "renderer call", "reached", c.pos(render.Pos()), "failing (%d), missing (%d) or succeeding (%d) renderers are not reached", nFail, nNone, nOK)
}

// mentions reports whether the error text includes the kind or its name.
func mentions(er *Term, kind int64, c *Ctx) bool {
	found := false
	kt := c.w.typ("ast", "NodeKind")
	name := ""
	for n, k := range c.constsOf("ast", "NodeKind") {
		if k == kind {
			name = n
		}
	}
	walkTerm(er, map[*Term]bool{}, func(x *Term) {
		if x.kind == KIface && x.typ != nil && types.Identical(x.typ, kt) {
			if v, ok := x.args[0].isInt(); ok && v == kind {
				found = true
			}
		}
		if s, ok := x.isStr(); ok && strings.Contains("Kind"+s, name) {
			found = true
		}
	})
	return found
}
