package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: no panic in resolving, rendering, walking, author extraction and the
// position methods. The entry points are interpreted as by the checks of what
// they do (C05 to C08, C24, C26, C31), but on trees whose fields hold what the
// parser puts there, and every operation that can panic is an obligation.

func init() { checks["C04"] = checkTotal }

// nullable are the node fields the parser may leave nil.
var nullable = map[string]bool{"Doc": true, "Key": true, "Comment": true}

func (c *Ctx) nonNil(f func(*State, *Term) bool) func(*State, *Term) bool {
	if c.only {
		return inTree
	}
	return f
}

// inTree holds for values that are never nil in a parsed tree: the content of
// nodes, and what constructors and callers hand to the entry points.
func inTree(st *State, x *Term) bool {
	for x.isOp("unbox") {
		x = x.args[0]
	}
	if b, f := fieldLoad(x); b != nil {
		return !nullable[f]
	}
	if x.isOp("init") && x.args[0].kind == KElem || x.isOp("mapget") || x.isOp("fld") {
		return true
	}
	return x.kind == KSym
}

func checkTotal(c *Ctx) {
	c.only = true
	nodeI := c.iface("ast", "Node")
	leafT := types.Type(types.NewPointer(c.w.typ("ast", "TextComma")))
	walk := c.must("ast", "Walk")
	n := 0
	for _, t := range c.implementers("ast", nodeI) {
		c.walkType(walk, t, nodeI, leafT)
		c.resolveType(t)
		for i, m := range []string{"Pos", "End"} {
			c.span(t, m, []string{"start", "end"}[i], nodeI)
		}
		n++
	}
	c.defaultRendering("text")
	c.defaultRendering("dispatch")
	c.textRendering("text")
	c.escapedResolver()
	c.parsedResolver()
	c.authorResolver()
	c.resolverFunc()
	c.namedTags()
	c.authorsTotal()
	c.hold("entry points", fmt.Sprintf("%d node types", n))
	c.floor("nil dereference", 60)
	c.floor("index out of range", 15)
	c.floor("slice bounds out of range", 3)
}

// increasing follows lists of integers built by appending: as long as every
// value appended is larger than the one before, loads from the list are
// increasing too.
type increasing struct{ e *Eng }

func (x *increasing) install() {
	e := x.e
	prev := e.hooks.Appended
	e.hooks.Appended = func(e *Eng, st *State, s *Term, xs []*Term, src, res *Term) {
		if prev != nil {
			prev(e, st, s, xs, src, res)
		}
		x.appended(st, s, xs, res)
	}
	e.hooks.Loaded = x.loaded
	e.hooks.Norm = x.forget
	e.hooks.AtHead = x.forget
}

func (x *increasing) drop(st *State) {
	for g := range st.ghost {
		if strings.HasPrefix(g, "ix.") {
			delete(st.ghost, g)
		}
	}
}

// forget drops a list that is no longer held by a variable.
func (x *increasing) forget(st *State) {
	l := st.ghost["ix.list"]
	if l == nil {
		return
	}
	for f := st.fr; f != nil; f = f.parent {
		for _, v := range f.regs {
			if v == l {
				return
			}
		}
	}
	if r := st.ghost["$ret"]; r != nil {
		for _, a := range r.args {
			if a == l {
				return
			}
		}
	}
	x.drop(st)
}

func isIntSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *increasing) appended(st *State, s *Term, xs []*Term, res *Term) {
	if res.typ == nil || !isIntSlice(res.typ) {
		return
	}
	last := st.ghost["ix.last"]
	switch {
	case st.length(s) == tZero:
		last = nil
	case st.ghost["ix.list"] != s || last == nil:
		x.drop(st)
		return
	}
	for _, v := range xs {
		if last == nil && !st.provesLE(tZero, v, 0) || last != nil && !st.provesLE(last, v, -1) {
			x.drop(st)
			return
		}
		last = v
	}
	if last == nil || xs == nil {
		x.drop(st)
		return
	}
	st.ghost["ix.list"], st.ghost["ix.last"] = res, last
}

func (x *increasing) loaded(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
	l := st.ghost["ix.list"]
	if l == nil || p.kind != KElem || p.args[0] != l {
		return
	}
	st.addLE(tZero, v, 0)
	st.addLE(v, st.ghost["ix.last"], 0)
	j := p.args[1]
	for q, w := range st.ghost {
		var name string
		if n, _ := fmt.Sscanf(q, "ix.at.%s", &name); n == 1 && w.isOp("at") && w.args[0] == l {
			if st.provesLE(w.args[1], j, -1) {
				st.addLE(w.args[2], v, -1)
			}
			if st.provesLE(j, w.args[1], -1) {
				st.addLE(v, w.args[2], -1)
			}
		}
	}
	st.ghost["ix.at."+j.String()] = mkOp("at", nil, l, j, v)
}

// authorsTotal interprets ExtractAuthors on any text.
func (c *Ctx) authorsTotal() {
	fn := c.must("", "ExtractAuthors")
	e, st := c.eng()
	st = st.clone()
	txt := mkSym("txt", fn.Params[0].Type())
	st.setNil(txt, false)
	x := &increasing{e}
	x.install()
	e.hooks.Key = func(st *State) string { return fmt.Sprint(st.ghost["ix.list"] != nil) }
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn != nil && cl.rec && inModule(pkgOf(cl.fn)) {
			return e.unknownCall(st, cl), true
		}
		return nil, false
	}
	n := 0
	for _, o := range e.run(st, fn, []*Term{txt}, nil, "ExtractAuthors") {
		if o.panic == nil {
			n++
		}
	}
	c.absorb(e, "none")
	c.req(n > 0, "entry points", "ExtractAuthors", c.pos(fn.Pos()), "ExtractAuthors never returns")
}
