package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C26: the built-in resolvers. Each is run on an unknown tree with ast.Walk
// replaced by running the function passed to it on each type of node.

func init() { checks["C26"] = checkInPlace }

func checkInPlace(c *Ctx) {
	c.escapedResolver()
	c.parsedResolver()
	c.authorResolver()
	c.resolverFunc()
	c.namedTags()
	c.floor("walks the tree", 3)
	c.floor("entering", 70)
	c.floor("leaving", 70)
	c.floor("constructor", 2)
}

// strip gives the object a value or address was reached from.
func strip(x *Term) *Term {
	for x.kind == KIface || x.kind == KField || x.kind == KElem || x.isOp("init") || x.isOp("unbox") || x.isOp("mapget") {
		x = x.args[0]
	}
	return x
}

type walkRun struct {
	c       *Ctx
	name    string
	at      string
	fn      *ssa.Function
	recv    *Term
	target  types.Type
	bad     map[string]bool
	call    func(st *State, cl *Call) ([]Outcome, bool) // calls made by the walker
	variant func(st *State, root *Term) []*State        // cases of the target node
	judge   func(st *State, root *Term, er *Term)       // the state after entering the target node
	allow   func(st *State, root *Term, p, v *Term) bool
	norm    func(st *State, root *Term)
	head    func(st *State, root *Term)
	key     func(st *State) string
	root    *Term // the node being visited
}

func (r *walkRun) fail(rule, what, f string, a ...any) {
	if k := rule + what + f; !r.bad[k] {
		r.bad[k], r.bad[rule+"|"+what] = true, true
		r.c.fail(rule, r.name+" "+what, r.at, "%s: %s: %s", r.name, what, fmt.Sprintf(f, a...))
	}
}

// reaches reports whether a node of type to can be below one of type from.
func (c *Ctx) reaches(from, to types.Type) bool {
	nodeI := c.iface("ast", "Node")
	seen := map[string]bool{}
	var below func(t types.Type) bool
	var is func(t types.Type) bool
	is = func(t types.Type) bool {
		if i, ok := t.Underlying().(*types.Interface); ok {
			for _, x := range c.implementers("ast", i) {
				if is(x) {
					return true
				}
			}
			return false
		}
		return types.Identical(t, to) || below(t)
	}
	below = func(t types.Type) bool {
		if seen[typeShort(t)] {
			return false
		}
		seen[typeShort(t)] = true
		if sl, ok := t.Underlying().(*types.Slice); ok && is(sl.Elem()) {
			return true
		}
		fs, _ := c.nodeFields(t, nodeI, notContent)
		for _, f := range fs {
			ft := f.Type()
			switch u := ft.Underlying().(type) {
			case *types.Slice:
				if types.Implements(u.Elem(), nodeI) {
					ft = u.Elem()
				}
			case *types.Map:
				ft = u.Elem()
			}
			if is(ft) {
				return true
			}
		}
		return false
	}
	return below(from)
}

func (r *walkRun) run() {
	c := r.c
	r.at, r.bad = c.pos(r.fn.Pos()), map[string]bool{}
	walk := c.must("ast", "Walk")
	nodeI := c.iface("ast", "Node")
	e, st := c.eng()
	st = st.clone()
	tree := mkSym("tree", r.fn.Params[len(r.fn.Params)-1].Type())
	st.setNil(tree, false)
	args := []*Term{tree}
	if r.recv != nil {
		args = []*Term{r.recv, tree}
		if _, ok := r.recv.typ.Underlying().(*types.Pointer); ok {
			st.setNil(r.recv, false)
		}
	}
	e.hooks.NonNil = c.nonNil(func(*State, *Term) bool { return true })
	e.hooks.Key = func(st *State) string {
		k := ""
		for _, g := range []string{"w.done", "w.err", "w.n"} {
			if st.ghost[g] != nil {
				k += g + " "
			}
		}
		if r.key != nil {
			k += r.key(st)
		}
		return k
	}
	if r.norm != nil {
		e.hooks.Norm = func(st *State) {
			if r.root != nil {
				r.norm(st, r.root)
			}
		}
		e.hooks.AtHead = func(st *State) {
			if r.root != nil {
				r.head(st, r.root)
			}
		}
	}
	what := ""
	e.hooks.Store = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		b := strip(p)
		if b.kind == KAlloc && (r.root == nil || b != r.root.args[0]) {
			return
		}
		if r.root != nil && r.allow != nil && r.allow(st, r.root, p, v) {
			return
		}
		w := what
		if w == "" {
			w = "outside the walk"
		}
		r.fail("entering", w, "stores %s to %s", v, p)
	}
	steps := 0
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn != walk || r.root != nil {
			if r.call != nil && r.root != nil {
				return r.call(st, cl)
			}
			return nil, false
		}
		if st.ghost["w.done"] != nil {
			r.fail("walks the tree", "walk", "the tree is walked twice")
			return nil, true
		}
		if cl.args[0] != tree {
			r.fail("walks the tree", "walk", "%s is walked instead of the tree", cl.args[0])
		}
		steps++
		for _, t := range c.implementers("ast", nodeI) {
			r.visit(e, st, cl, t, &what)
		}
		ok, bad := st.clone(), st.clone()
		er := mkSym("walkErr", errType)
		bad.setNil(er, false)
		ok.ghost["w.done"], bad.ghost["w.done"], bad.ghost["w.err"] = tUnit, tUnit, er
		return []Outcome{{st: ok, ret: mkTuple(tNil)}, {st: bad, ret: mkTuple(er)}}, true
	}
	n := 0
	for _, o := range e.run(st, r.fn, args, nil, "Resolve") {
		n++
		if o.panic != nil {
			continue // C04
		}
		er := o.ret.args[0]
		isNil, known := o.st.isNil(er)
		switch we := o.st.ghost["w.err"]; {
		case o.st.ghost["w.done"] == nil:
			r.fail("walks the tree", "walk", "returns without walking the tree")
		case we != nil && (!known || isNil || !wraps(er, we)):
			r.fail("walks the tree", "walk", "after the walk failed with %s it returns %s", we, er)
		case we == nil && (!known || !isNil):
			r.fail("walks the tree", "walk", "it fails with %s although the walk succeeds", er)
		}
	}
	c.absorb(e, "none")
	if n == 0 || steps == 0 {
		r.fail("walks the tree", "walk", "never walks the tree")
	}
	if !r.bad["walks the tree|walk"] {
		c.hold("walks the tree", r.name)
	}
	for _, t := range c.implementers("ast", nodeI) {
		for _, rule := range []string{"entering", "leaving"} {
			if w := "on " + typeShort(t); !r.bad[rule+"|"+w] && steps > 0 {
				c.hold(rule, r.name+" "+w)
			}
		}
	}
}

// visit runs the walker on one type of node.
func (r *walkRun) visit(e *Eng, st0 *State, cl *Call, t types.Type, what *string) {
	c := r.c
	w := "on " + typeShort(t)
	*what = w
	defer func() { *what, r.root = "", nil }()
	k := func(n string) int64 { v, _ := c.w.constInt("ast", n); return v }
	target := types.Identical(t, r.target)
	needs := c.reaches(t, r.target)
	for _, ent := range []bool{true, false} {
		rule := "entering"
		tb := tTrue
		if !ent {
			rule, tb = "leaving", tFalse
		}
		st := st0.clone()
		root := node(st, t, "n")
		r.root = root
		cases := []*State{st}
		if target && r.variant != nil {
			cases = r.variant(st, root)
		}
		for _, st := range cases {
			st.ghost["w.n"] = tb
			n := 0
			for _, o := range e.callValue(st, cl.args[1], []*Term{root, tb}, cl.instr, false) {
				if o.panic != nil {
					c.panicked(o)
					continue
				}
				n++
				status, er := o.ret.args[0], o.ret.args[1]
				isNil, known := o.st.isNil(er)
				if target && ent && r.judge != nil {
					r.judge(o.st, root, er)
					if !known {
						r.fail(rule, w, "whether an error is returned is not determined")
						continue
					}
					if !isNil {
						continue
					}
				} else if !known || !isNil {
					r.fail(rule, w, "returns the error %s", er)
					continue
				}
				s, ok := status.isInt()
				switch {
				case !ok:
					r.fail(rule, w, "the walk status %s is not determined", status)
				case s == k("WalkStop"):
					r.fail(rule, w, "stops the walk")
				case ent && needs && s != k("WalkContinue"):
					r.fail(rule, w, "skips the children, which may hold what is to be resolved")
				}
			}
			_ = n
		}
	}
}

func (c *Ctx) escapedResolver() {
	escT := types.NewPointer(c.w.typ("ast", "TextEscaped"))
	txtT := types.NewPointer(c.w.typ("ast", "Text"))
	r := &walkRun{c: c, name: "escaped text", fn: c.must("", "SimplifyEscapedTextResolver"), target: types.NewPointer(c.w.typ("ast", "ParsedText"))}
	w := "on *ast.ParsedText"
	ptr := func(root *Term) *Term { return fieldPtr(root.args[0], "Values") }
	isTarget := func(root *Term) bool { return types.Identical(root.typ, r.target) }
	list := func(st *State, root *Term) *Term {
		if st.ghost["e.list"] == nil {
			st.ghost["e.list"], st.ghost["e.cnt"] = st.load(ptr(root)), tZero
		}
		return st.ghost["e.list"]
	}
	settle := func(st *State) {
		a, want := st.ghost["e.new"], st.ghost["e.want"]
		if a == nil {
			return
		}
		delete(st.ghost, "e.new")
		delete(st.ghost, "e.want")
		if v := st.load(fieldPtr(a, "Value")); v != want {
			r.fail("entering", w, "the replacement holds %s instead of %s", v, want)
		}
	}
	skip := func(st *State, root *Term) {
		l := list(st, root)
		for again := true; again; {
			again = false
			for t := range st.dyn {
				if j := elemIndex(l, t); j != nil && st.proveEq(j, st.ghost["e.cnt"]) && !st.mayBe(t, typeID(escT)) {
					st.ghost["e.cnt"] = mkLin(st.ghost["e.cnt"], 1)
					again = true
					break
				}
			}
		}
	}
	r.norm = func(st *State, root *Term) {
		if isTarget(root) && st.ghost["w.n"] == tTrue {
			skip(st, root)
		}
	}
	r.head = func(st *State, root *Term) {
		settle(st)
		r.norm(st, root)
	}
	r.key = func(st *State) string { return fmt.Sprint(st.ghost["e.new"] != nil, st.ghost["e.list"] != nil) }
	r.variant = func(st *State, root *Term) []*State { list(st, root); return []*State{st} }
	r.allow = func(st *State, root *Term, p, v *Term) bool {
		if !isTarget(root) || st.ghost["w.n"] != tTrue || p.kind != KElem || p.args[0] != list(st, root) {
			return false
		}
		settle(st)
		skip(st, root)
		j := p.args[1]
		if !st.proveEq(j, st.ghost["e.cnt"]) {
			r.fail("entering", w, "element %s is replaced after %s were looked at", j, st.ghost["e.cnt"])
			return true
		}
		var old *Term
		for t := range st.dyn {
			if i := elemIndex(p.args[0], t); i != nil && st.proveEq(i, j) {
				old = t
			}
		}
		if dt := (types.Type)(nil); old != nil {
			if d, ok := st.dynOf(old); ok {
				dt = d
			}
			if dt == nil || !types.Identical(dt, escT) {
				old = nil
			}
		}
		if old == nil {
			r.fail("entering", w, "element %s is replaced whatever it is", j)
			return true
		}
		if v.kind != KIface || !types.Identical(v.typ, txtT) || v.args[0].kind != KAlloc {
			r.fail("entering", w, "an escaped character is replaced by %s", v)
			return true
		}
		st.ghost["e.cnt"] = mkLin(st.ghost["e.cnt"], 1)
		st.ghost["e.new"] = v.args[0]
		st.ghost["e.want"] = st.load(fieldPtr(mkOp("unbox", escT, old), "Value"))
		return true
	}
	r.judge = func(st *State, root, er *Term) {
		settle(st)
		skip(st, root)
		if n, k := st.isNil(er); !k || !n {
			r.fail("entering", w, "fails with %s", er)
		}
		if n := st.length(list(st, root)); !st.proveEq(st.ghost["e.cnt"], n) {
			r.fail("entering", w, "only %s of the %s pieces are looked at", st.ghost["e.cnt"], n)
		}
	}
	r.run()
}

// tagCases splits the states of a tag by whether its value is parsed text.
func (c *Ctx) tagCases(st *State, root *Term) []*State {
	val := st.load(fieldPtr(root.args[0], "Value"))
	id := typeID(types.NewPointer(c.w.typ("ast", "ParsedText")))
	a, b := st.clone(), st
	a.assumeDyn(val, id, true)
	b.assumeDyn(val, id, false)
	a.ghost["v.old"], b.ghost["v.old"] = val, val
	a.ghost["v.parsed"] = tUnit
	return []*State{a, b}
}

func (r *walkRun) valueStore(st *State, root *Term, p, v *Term) bool {
	return types.Identical(root.typ, r.target) && st.ghost["w.n"] == tTrue && p == fieldPtr(root.args[0], "Value")
}

func (c *Ctx) parsedResolver() {
	txtT := types.NewPointer(c.w.typ("ast", "Text"))
	render := c.must("render", "TextRenderer.Render")
	newRend := c.must("render", "NewTextRenderer")
	fn := c.must("", "RenderParsedTextResolver.Resolve")
	r := &walkRun{c: c, name: "parsed text", fn: fn, recv: mkSym("r", fn.Params[0].Type()), target: types.NewPointer(c.w.typ("ast", "TagStmt"))}
	w := "on *ast.TagStmt"
	rendering := mkSym("rendering", types.Typ[types.String])
	r.variant = c.tagCases
	r.allow = r.valueStore
	r.key = func(st *State) string { return fmt.Sprint(st.ghost["v.err"] != nil) }
	r.call = func(st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn != render {
			return nil, false
		}
		st = st.clone()
		old := st.ghost["v.old"]
		if old == nil || childID(cl.args[2]) != childID(old) {
			r.fail("entering", w, "renders %s instead of the value of the tag", cl.args[2])
		}
		if s := derefStruct(types.NewPointer(cl.args[0].typ)); (s == nil || s.NumFields() > 0) && strip(cl.args[0]) != r.recv {
			r.fail("entering", w, "renders with %s instead of the renderer of the resolver", cl.args[0])
		}
		b := cl.args[1]
		if b.kind != KIface || !isBuilder(deref(b.typ)) || strip(b).kind != KAlloc {
			r.fail("entering", w, "renders to %s", b)
			return nil, true
		}
		bad := st.clone()
		st.builderSet(b.args[0], mkConcat(st.builderGet(b.args[0]), rendering))
		er := mkSym("renderErr", errType)
		bad.setNil(er, false)
		bad.ghost["v.err"] = er
		return []Outcome{{st: st, ret: mkTuple(tNil)}, {st: bad, ret: mkTuple(er)}}, true
	}
	r.judge = func(st *State, root, er *Term) {
		old, v := st.ghost["v.old"], st.load(fieldPtr(root.args[0], "Value"))
		isNil, known := st.isNil(er)
		switch re := st.ghost["v.err"]; {
		case re != nil:
			if !known || isNil || !wraps(er, re) {
				r.fail("entering", w, "after the rendering failed %s is returned", er)
			}
			if v != old {
				r.fail("entering", w, "the value is replaced although rendering it failed")
			}
		case st.ghost["v.parsed"] == nil:
			if v != old {
				r.fail("entering", w, "a value that is not a parsed string is replaced by %s", v)
			}
			if !known || !isNil {
				r.fail("entering", w, "fails with %s on a value that is not a parsed string", er)
			}
		case !known || !isNil:
			r.fail("entering", w, "fails with %s although rendering succeeded", er)
		case v.kind != KIface || !types.Identical(v.typ, txtT) || v.args[0].kind != KAlloc:
			r.fail("entering", w, "the value of a parsed string becomes %s", v)
		case st.load(fieldPtr(v.args[0], "Value")) != rendering:
			r.fail("entering", w, "the new text is %s instead of the rendering of the old value", st.load(fieldPtr(v.args[0], "Value")))
		}
	}
	r.run()
	// the constructor
	nw := c.must("", "NewRenderParsedTextResolver")
	e, st := c.eng()
	st = st.clone()
	rend := mkSym("renderer", newRend.Signature.Results().At(0).Type())
	if _, ok := rend.typ.Underlying().(*types.Pointer); ok {
		st.setNil(rend, false)
	}
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn == newRend {
			return []Outcome{{st: st.clone(), ret: mkTuple(rend)}}, true
		}
		return nil, false
	}
	ok := false
	for _, o := range e.run(st, nw, nil, nil, "new") {
		ok = o.panic == nil && constructed(o.st, o.ret.args[0], rend)
		if !ok {
			break
		}
	}
	c.absorb(e, "none")
	c.req(ok, "constructor", "NewRenderParsedTextResolver", c.pos(nw.Pos()), "the resolver is not given a plain-text renderer")
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// constructed reports whether some field of the struct v holds x.
func constructed(st *State, v, x *Term) bool {
	if v.kind == KAgg {
		for _, a := range v.args {
			if a == x {
				return true
			}
		}
		return false
	}
	s := derefStruct(v.typ)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if st.load(mkField(v, i)) == x {
			return true
		}
	}
	return false
}

func (c *Ctx) authorResolver() {
	extract := c.must("", "ExtractAuthors")
	fn := c.must("", "AuthorResolver.Resolve")
	autT := c.w.typ("ast", "Authors")
	r := &walkRun{c: c, name: "authors", fn: fn, recv: mkSym("a", fn.Params[0].Type()), target: types.NewPointer(c.w.typ("ast", "TagStmt"))}
	w := "on *ast.TagStmt"
	authors := mkSym("authors", autT)
	tags := func(st *State) *Term {
		_, ptr := r.recv.typ.Underlying().(*types.Pointer)
		s := derefStruct(r.recv.typ)
		if !ptr {
			s = derefStruct(types.NewPointer(r.recv.typ))
		}
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if _, ok := s.Field(i).Type().Underlying().(*types.Map); !ok {
				continue
			}
			if ptr {
				return st.load(mkField(r.recv, i))
			}
			return mkOp("fld", s.Field(i).Type(), r.recv, cInt(int64(i)))
		}
		panic(undecided{"AuthorResolver has no map of tags"})
	}
	r.variant = c.tagCases
	r.allow = r.valueStore
	r.key = func(st *State) string { return fmt.Sprint(st.ghost["v.err"] != nil, st.ghost["v.got"] != nil) }
	r.call = func(st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn != extract {
			return nil, false
		}
		st = st.clone()
		old := st.ghost["v.old"]
		if old == nil || cl.args[0] != childID(old) && childID(cl.args[0]) != childID(old) && strip(cl.args[0]) != strip(old) {
			r.fail("entering", w, "authors are extracted from %s", cl.args[0])
		}
		bad := st.clone()
		st.ghost["v.got"] = tUnit
		er := mkSym("extractErr", errType)
		bad.setNil(er, false)
		bad.ghost["v.err"] = er
		return []Outcome{{st: st, ret: mkTuple(authors, tNil)}, {st: bad, ret: mkTuple(tNil, er)}}, true
	}
	r.judge = func(st *State, root, er *Term) {
		old, v := st.ghost["v.old"], st.load(fieldPtr(root.args[0], "Value"))
		isNil, known := st.isNil(er)
		m, k := tags(st), st.load(fieldPtr(root.args[0], "Name"))
		mt, ok := m.typ.Underlying().(*types.Map)
		if !ok {
			panic(undecided{"the tags of AuthorResolver are not a map"})
		}
		has := mkOp("maphas", types.Typ[types.Bool], m, k, st.tag(mkElem(m, k, mt.Elem())))
		may := func(b bool) bool { return st.clone().assume(has, b) }
		if may(true) && may(false) {
			if v != old || !known || !isNil {
				r.fail("entering", w, "a tag is changed or rejected whether or not it is one of the named ones")
				return
			}
			r.fail("entering", w, "whether the tag is named is not looked at")
			return
		}
		named := may(true)
		if named && isBool(mt.Elem()) {
			// the constructor records true only
			if v, known := st.decide(mkOp("mapget", mt.Elem(), m, k, st.tag(mkElem(m, k, mt.Elem())))); known && !v {
				return
			}
		}
		switch re := st.ghost["v.err"]; {
		case !named:
			if v != old || !known || !isNil {
				r.fail("entering", w, "a tag that is not named is changed or rejected")
			}
		case re != nil:
			if !known || isNil || !wraps(er, re) {
				r.fail("entering", w, "after the extraction failed %s is returned", er)
			}
			if v != old {
				r.fail("entering", w, "the value is replaced although the extraction failed")
			}
		case st.ghost["v.parsed"] == nil:
			if v != old {
				r.fail("entering", w, "a value that is not parsed text is replaced by %s", v)
			}
			if known && isNil {
				r.fail("entering", w, "a named tag whose value is not parsed text is passed over in silence")
			}
		case !known || !isNil:
			r.fail("entering", w, "fails with %s although the extraction succeeded", er)
		case v.kind != KIface || !types.Identical(v.typ, autT) || v.args[0] != authors:
			r.fail("entering", w, "the value of a named tag becomes %s", v)
		}
	}
	r.run()
}

// resolverFunc checks the adapter from functions to resolvers.
func (c *Ctx) resolverFunc() {
	fn := c.must("", "ResolverFunc.Resolve")
	e, st := c.eng()
	st = st.clone()
	f := mkSym("f", fn.Params[0].Type())
	n := mkSym("n", fn.Params[1].Type())
	st.setNil(f, false)
	er := mkSym("err", errType)
	calls, ok := 0, true
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fnVal != f {
			return nil, false
		}
		calls++
		ok = ok && len(cl.args) == 1 && cl.args[0] == n
		return []Outcome{{st: st.clone(), ret: mkTuple(er)}}, true
	}
	for _, o := range e.run(st, fn, []*Term{f, n}, nil, "func") {
		ok = ok && o.panic == nil && o.ret.args[0] == er
	}
	c.absorb(e, "none")
	c.req(ok && calls == 1, "constructor", "ResolverFunc", c.pos(fn.Pos()), "ResolverFunc.Resolve does not return what its function makes of the node")
}

// namedTags checks that NewAuthorResolver records exactly the tags given.
func (c *Ctx) namedTags() {
	fn := c.must("", "NewAuthorResolver")
	e, st := c.eng()
	st = st.clone()
	list := mkSym("tags", fn.Params[0].Type())
	st.ghost["keep"] = list
	problem := ""
	fail := func(f string, a ...any) {
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	e.hooks.Store = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		if _, ok := in.(*ssa.MapUpdate); !ok || p.kind != KElem {
			return
		}
		if m := st.ghost["n.map"]; m == nil {
			st.ghost["n.map"], st.ghost["n.cnt"] = p.args[0], tZero
		} else if m != p.args[0] {
			fail("two maps are filled")
			return
		}
		if mt := in.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map); isBool(mt.Elem()) && v != tTrue {
			fail("%s is recorded with a value that may be false", p.args[1])
			return
		}
		j := elemIndex(list, p.args[1])
		if j == nil || !st.proveEq(j, st.ghost["n.cnt"]) {
			fail("%s is recorded after %s of the tags", p.args[1], st.ghost["n.cnt"])
			return
		}
		st.ghost["n.cnt"] = mkLin(st.ghost["n.cnt"], 1)
	}
	e.hooks.Key = func(st *State) string { return fmt.Sprint(st.ghost["n.map"] != nil) }
	n := 0
	for _, o := range e.run(st, fn, []*Term{list}, nil, "new") {
		if o.panic != nil {
			continue
		}
		n++
		m, cnt := o.st.ghost["n.map"], o.st.ghost["n.cnt"]
		if m == nil {
			cnt = tZero
		} else if !constructed(o.st, o.ret.args[0], m) {
			fail("the resolver is not given the map that was filled")
		}
		if !o.st.proveEq(cnt, o.st.length(list)) {
			fail("only %s of the tags are recorded", cnt)
		}
	}
	c.absorb(e, "none")
	c.req(problem == "" && n > 0, "constructor", "NewAuthorResolver", c.pos(fn.Pos()), "NewAuthorResolver: %s", problem)
}
