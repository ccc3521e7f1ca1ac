package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C27: how a list of authors is split and where the pieces of a name go.
//
// Three steps are decided one by one, each with the functions it calls
// replaced by what is decided about them: the split at "and", the search for
// commas, and the assignment of pieces to the parts of a name. The pieces of a
// name are followed as ranges of the list: every piece written to a builder
// must be the one after the last piece written to it, so that the content of a
// builder is a contiguous range, whose ends are followed through the loops.

func init() { checks["C27"] = checkAuthors }

type authors struct {
	c                                    *Ctx
	exprs, ints, authorT, textT          types.Type
	split, name, trim, commas, piece, is *ssa.Function
	bad                                  map[string]bool
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

func (a *authors) isExprs(t types.Type) bool { return types.Identical(t.Underlying(), a.exprs) }

// sig classifies a function by its signature, without a receiver.
func (a *authors) sig(fn *ssa.Function) string {
	s := fn.Signature
	if s.Recv() != nil || !inModule(pkgOf(fn)) {
		return ""
	}
	var ps, rs []string
	d := func(t types.Type) string {
		switch {
		case a.isExprs(t):
			return "exprs"
		case isIntSlice(t):
			return "ints"
		case types.Identical(t, a.authorT):
			return "author"
		case types.Identical(t, errType):
			return "err"
		case isBasic(t, types.String):
			return "str"
		case isBasic(t, types.Int):
			return "int"
		}
		return "?"
	}
	for i := 0; i < s.Params().Len(); i++ {
		ps = append(ps, d(s.Params().At(i).Type()))
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, d(s.Results().At(i).Type()))
	}
	switch strings.Join(ps, ",") + ":" + strings.Join(rs, ",") {
	case "exprs:author,err":
		for _, g := range reachable(fn) {
			if g.Name() == "IsEmpty" {
				return "" // judges the author too
			}
		}
		return "name"
	case "exprs:exprs":
		return "trim"
	case "exprs:ints":
		return "commas"
	case "int,exprs:str,err":
		return "piece"
	}
	return ""
}

// callees lists the module functions reachable from fn.
func reachable(fn *ssa.Function) (out []*ssa.Function) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || !inModule(pkgOf(f)) {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						rec(g)
					}
				}
			}
		}
	}
	rec(fn)
	return
}

func (a *authors) fail(rule, construct string, fn *ssa.Function, f string, x ...any) {
	k := rule + construct + f
	if !a.bad[k] {
		a.bad[k], a.bad[rule] = true, true
		a.c.fail(rule, construct, a.c.pos(fn.Pos()), f, x...)
	}
}

func checkAuthors(c *Ctx) {
	a := &authors{c: c, bad: map[string]bool{}}
	a.split = c.must("", "ExtractAuthors")
	exprI := c.w.typ("ast", "Expr")
	a.exprs = types.NewSlice(exprI)
	a.authorT = types.NewPointer(c.w.typ("ast", "Author"))
	a.textT = types.NewPointer(c.w.typ("ast", "Text"))
	for _, f := range reachable(a.split) {
		switch a.sig(f) {
		case "name":
			if a.name == nil {
				a.name = f
			}
		case "trim":
			a.trim = f
		case "commas":
			a.commas = f
		case "piece":
			a.piece = f
		}
	}
	if a.name == nil || a.piece == nil || a.commas == nil {
		panic(undecided{"the functions that resolve one author, find its commas and give the text of a piece are not found"})
	}
	a.splitting()
	a.findCommas()
	if a.trim != nil {
		a.trimming()
	}
	a.pieces()
	a.parts()
	a.empty()
	c.floor("authors split", 1)
	c.floor("name parts", 3)
	c.floor("piece text", 8)
}

func (a *authors) done(rule string, n int) {
	if !a.bad[rule] && n > 0 {
		a.c.hold(rule, fmt.Sprintf("%d outcomes", n))
	}
	if n == 0 {
		a.fail(rule, "reached", a.split, "never returns")
	}
}

// isType reports whether an element is known (not) to be of a type.
func (a *authors) isType(st *State, v *Term, t types.Type) (is, known bool) {
	if !st.mayBe(v, typeID(t)) {
		return false, true
	}
	if d, ok := st.dynOf(v); ok && types.Identical(d, t) {
		return true, true
	}
	return false, false
}

// classify tells whether an element separates authors.
func (a *authors) classify(st *State, v *Term) (sep, known bool) {
	is, k := a.isType(st, v, a.textT)
	if k && !is {
		return false, true
	}
	val := st.load(fieldPtr(mkOp("unbox", a.textT, v), "Value"))
	eq, ek := st.decide(mkEq(val, cStr("and")))
	if ek && !eq {
		return false, true
	}
	return true, k && ek
}

// cursor follows a loop over a list: the elements are met one by one, and for
// the element that was met last it is noted what is known of it before paths
// join.
type cursor struct {
	list *Term
	what func(st *State, v *Term) (yes, known bool)
	pre  string
	down bool
}

func (q *cursor) start(st *State) {
	st.ghost[q.pre+"q.n"], st.ghost["q.keep"] = tZero, q.list
	if q.down {
		st.ghost[q.pre+"q.n"] = st.length(q.list)
	}
}

func (q *cursor) n(st *State) *Term { return st.ghost[q.pre+"q.n"] }

// at is the index of the element under the cursor.
func (q *cursor) at(st *State) *Term {
	if q.down {
		return mkLin(q.n(st), -1)
	}
	return q.n(st)
}

// elem is the element under the cursor.
func (q *cursor) elem(st *State) *Term {
	if v := st.ghost[q.pre+"q.e"]; v != nil {
		return v
	}
	return st.load(st.elemPtr(q.list, q.at(st), sliceElem(q.list.typ)))
}

func (q *cursor) norm(st *State) {
	if q.n(st) == nil || st.ghost[q.pre+"q.c"] != nil {
		return
	}
	if y, k := q.what(st, q.elem(st)); k {
		st.ghost[q.pre+"q.c"] = cBool(y)
	}
}

func (q *cursor) class(st *State) (yes, known bool) {
	q.norm(st)
	if g := st.ghost[q.pre+"q.c"]; g != nil {
		y, _ := g.isBool()
		return y, true
	}
	return false, false
}

func (q *cursor) advance(st *State) {
	st.ghost[q.pre+"q.n"] = mkLin(q.n(st), 1)
	if q.down {
		st.ghost[q.pre+"q.n"] = mkLin(q.n(st), -2)
		if r := st.ghost[q.pre+"q.r"]; r != nil {
			st.ghost[q.pre+"q.r"] = mkLin(r, -1)
		}
	}
	delete(st.ghost, q.pre+"q.c")
	delete(st.ghost, q.pre+"q.e")
}

// loaded remembers the element under the cursor under the name the code has
// for it.
func (q *cursor) loaded(st *State, v *Term) {
	if q.under(st, v) {
		st.ghost[q.pre+"q.e"] = v
	}
}

// under reports whether an element is the one under the cursor.
func (q *cursor) under(st *State, v *Term) bool {
	i := elemIndexIn(q.list, v)
	if i == nil {
		return false
	}
	if st.proveEq(i, q.at(st)) {
		return true
	}
	p := v.args[0].args
	if r := st.ghost[q.pre+"q.r"]; r != nil {
		// counted from the start of the same rest of the list
		l, _, _ := partOf(q.list, p[0])
		return l == st.ghost[q.pre+"q.a"] && st.proveEq(p[1], mkLin(r, -1))
	}
	return false
}

// rest starts to count a downward cursor from where a rest of the list begins.
func (q *cursor) rest(st *State, v *Term) {
	if !q.down || !v.isOp("init") || v.args[0].kind != KElem {
		return
	}
	s := v.args[0].args[0]
	if s == q.list && q.n(st) == st.length(s) {
		st.ghost[q.pre+"q.r"], st.ghost[q.pre+"q.a"] = st.length(s), tZero
	}
	if s.isOp("slice") && s.args[0] == q.list && s.args[2] == st.length(q.list) && q.n(st) == s.args[2] {
		st.ghost[q.pre+"q.r"], st.ghost[q.pre+"q.a"] = st.length(s), s.args[1]
	}
}

// elemIndexIn is elemIndex that also looks through a part of the list.
func elemIndexIn(list, v *Term) *Term {
	if i := elemIndex(list, v); i != nil {
		return i
	}
	if !v.isOp("init") || v.args[0].kind != KElem {
		return nil
	}
	lo, _, _ := partOf(list, v.args[0].args[0])
	if lo == nil {
		return nil
	}
	return sum(lo, v.args[0].args[1])
}

// partOf gives the bounds of a part of the list, and the bound of it counted
// from its start if that differs.
func partOf(list, s *Term) (lo, hi, rel *Term) {
	if s == list {
		return tZero, nil, nil
	}
	if !s.isOp("slice") {
		return nil, nil, nil
	}
	if s.args[0] == list {
		return s.args[1], s.args[2], nil
	}
	l, _, _ := partOf(list, s.args[0])
	if l == nil {
		return nil, nil, nil
	}
	if s.args[1] == tZero {
		rel = s.args[2]
	}
	return sum(l, s.args[1]), sum(l, s.args[2]), rel
}

// sum adds two terms, one of which may be what is left of something after the
// other.
func sum(x, y *Term) *Term {
	bx, kx := linParts(x)
	by, ky := linParts(y)
	switch {
	case bx == nil:
		return mkLin(by, kx+ky)
	case by == nil:
		return mkLin(bx, kx+ky)
	case bx.isOp("sub") && bx.args[1] == by:
		return mkLin(bx.args[0], kx+ky)
	case by.isOp("sub") && by.args[1] == bx:
		return mkLin(by.args[0], kx+ky)
	}
	return mkOp("add", types.Typ[types.Int], x, y)
}

// restLengths makes what is known of the length of a rest of the list known of
// where the rest begins.
func restLengths(st *State, xs *Term) {
	n := st.length(xs)
	for _, t := range st.intTerms() {
		if t.isOp("sub") && t.args[0] == n {
			lo, hi := st.bounds(t)
			if lo > -inf/2 {
				st.addLE(t.args[1], n, -lo)
			}
			if hi < inf/2 {
				st.addLE(n, t.args[1], hi)
			}
		}
	}
}

func (st *State) intTerms() (out []*Term) {
	for t := range st.ints {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return
}

// pass moves past an element of which it is known that it (does not) match.
func (q *cursor) pass(st *State, match bool) {
	if y, k := q.class(st); k && y == match {
		if i := q.at(st); st.provesLE(tZero, i, 0) && st.provesLE(mkLin(i, 1), st.length(q.list), 0) {
			q.advance(st)
		} else if r := st.ghost[q.pre+"q.r"]; r != nil && st.provesLE(cInt(1), r, 0) {
			q.advance(st)
		}
	}
}

// splitting decides how the list is cut at "and".
func (a *authors) splitting() {
	c, rule := a.c, "authors split"
	fn := a.split
	e, st := c.eng()
	st = st.clone()
	txt := mkSym("txt", fn.Params[0].Type())
	st.setNil(txt, false)
	vals := st.load(fieldPtr(txt, "Values"))
	q := &cursor{list: vals, what: a.classify}
	q.start(st)
	bad := func(f string, x ...any) { a.fail(rule, fn.Name(), fn, f, x...) }
	e.hooks.Norm = q.norm
	e.hooks.AtHead = q.norm
	e.hooks.Loaded = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) { q.loaded(st, v) }
	e.hooks.Key = func(st *State) string {
		s := ""
		for _, g := range []string{"a.list", "a.pend", "a.err", "a.full", "a.res", "q.c"} {
			if v := st.ghost[g]; v != nil {
				s += g
				if v.kind == KConst {
					s += v.String()
				}
			}
		}
		return s
	}
	e.hooks.Appended = func(e *Eng, st *State, s *Term, xs []*Term, src, res *Term) {
		if res.typ == nil {
			return
		}
		switch {
		case a.isExprs(res.typ):
			if len(xs) != 1 {
				bad("an unknown number of pieces is collected at once")
				return
			}
			i := elemIndex(vals, childID(xs[0]))
			if i == nil || !st.proveEq(i, st.ghost["q.n"]) {
				bad("%s is collected where piece %s of the text is expected", xs[0], st.ghost["q.n"])
				return
			}
			if y, k := q.class(st); y || !k {
				bad("a piece is collected without knowing that it is not the word \"and\"")
			}
			if l := st.ghost["a.list"]; l != s && !(l == nil && st.proveEq(st.length(s), tZero)) {
				bad("a piece is not added to the pieces of the same author")
			}
			st.ghost["a.list"] = res
			q.advance(st)
		case isAuthors(res.typ, a.authorT):
			if r := st.ghost["a.res"]; r != s && !(r == nil && st.proveEq(st.length(s), tZero)) {
				bad("an author is not added to the authors found before")
			}
			if len(xs) != 1 || st.ghost["a.pend"] == nil || childID(xs[0]) != st.ghost["a.pend"] {
				bad("something else than the author just resolved is added to the result")
				return
			}
			if st.ghost["a.full"] == nil {
				bad("an author is added without knowing that it is not empty")
			}
			delete(st.ghost, "a.pend")
			delete(st.ghost, "a.full")
			st.ghost["a.res"] = res
		}
	}
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn == nil {
			return nil, false
		}
		if cl.fn.Name() == "IsEmpty" && len(cl.args) == 1 && st.ghost["a.pend"] != nil && cl.args[0] == st.ghost["a.pend"] {
			y, n := st.clone(), st.clone()
			y.ghost["a.err"] = tTrue
			n.ghost["a.full"] = tTrue
			return []Outcome{{st: y, ret: mkTuple(tTrue)}, {st: n, ret: mkTuple(tFalse)}}, true
		}
		if a.sig(cl.fn) != "name" {
			return nil, false
		}
		st = st.clone()
		if st.ghost["a.err"] != nil {
			bad("another author is resolved after a failure")
			return nil, true
		}
		if st.ghost["a.pend"] != nil {
			bad("an author is dropped")
		}
		if l := st.ghost["a.list"]; l != cl.args[0] && !(l == nil && st.proveEq(st.length(cl.args[0]), tZero)) {
			bad("an author is resolved from something else than the pieces collected since the last \"and\"")
		}
		delete(st.ghost, "a.list")
		if !st.proveEq(st.ghost["q.n"], st.length(vals)) {
			if y, k := q.class(st); !y || !k {
				bad("an author ends where neither the text ends nor the word \"and\" stands")
				return nil, true
			}
			q.advance(st)
		}
		ok, er := st.clone(), st
		au := e.fresh(ok, "author", cl.instr, a.authorT)
		ok.setNil(au, false)
		ok.ghost["a.pend"] = au
		er.ghost["a.err"] = tTrue
		ev := e.fresh(er, "authorErr", cl.instr, errType)
		er.setNil(ev, false)
		return []Outcome{{st: ok, ret: mkTuple(au, tNil)}, {st: er, ret: mkTuple(tNil, ev)}}, true
	}
	n := 0
	for _, o := range e.run(st, fn, []*Term{txt}, nil, "ExtractAuthors") {
		if o.panic != nil {
			continue // judged by C04
		}
		n++
		isNil, k := o.st.isNil(o.ret.args[1])
		if o.st.ghost["a.err"] != nil {
			if !k || isNil {
				bad("no error is returned although an author is empty or cannot be resolved")
			}
			continue
		}
		if !k || !isNil {
			bad("an error is returned although every author was resolved and none is empty")
			continue
		}
		if o.st.ghost["a.pend"] != nil || o.st.ghost["a.list"] != nil {
			bad("the last author is missing from the result")
		}
		if !o.st.proveEq(o.st.ghost["q.n"], o.st.length(vals)) {
			bad("the text may not be read to its end")
		}
		if r := o.st.ghost["a.res"]; r == nil || childID(o.ret.args[0]) != r {
			bad("returns %s instead of the authors found", o.ret.args[0])
		}
	}
	c.absorb(e, "none")
	a.done(rule, n)
}

func isAuthors(t, authorT types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), authorT)
}

// findCommas decides the list of commas.
func (a *authors) findCommas() {
	c, rule, fn := a.c, "commas found", a.commas
	e, st := c.eng()
	st = st.clone()
	xs := mkSym("xs", fn.Params[0].Type())
	comma := types.Type(types.NewPointer(c.w.typ("ast", "TextComma")))
	bad := func(f string, x ...any) { a.fail(rule, fn.Name(), fn, f, x...) }
	q := &cursor{list: xs, what: func(st *State, v *Term) (bool, bool) { return a.isType(st, v, comma) }}
	q.start(st)
	// an element that is no comma is passed when that is known, a comma when
	// its index is noted
	step := func(st *State) { q.pass(st, false) }
	e.hooks.Norm, e.hooks.AtHead = q.norm, q.norm
	e.hooks.Loaded = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		if i := elemIndex(xs, v); i != nil && !st.proveEq(i, st.ghost["q.n"]) {
			step(st)
			if !st.proveEq(i, st.ghost["q.n"]) {
				bad("piece %s is looked at where piece %s is expected, which may be a comma", i, st.ghost["q.n"])
			}
		}
		q.loaded(st, v)
	}
	e.hooks.Key = func(st *State) string { return fmt.Sprint(st.ghost["q.c"], st.ghost["a.res"] != nil) }
	e.hooks.Appended = func(e *Eng, st *State, s *Term, es []*Term, src, res *Term) {
		if res.typ == nil || !isIntSlice(res.typ) {
			return
		}
		if r := st.ghost["a.res"]; r != s && !(r == nil && st.proveEq(st.length(s), tZero)) {
			bad("an index is not added to those found before")
		}
		if y, k := q.class(st); len(es) != 1 || !y || !k || !st.proveEq(es[0], st.ghost["q.n"]) {
			bad("the index of a piece is noted that is not known to be a comma")
			return
		}
		st.ghost["a.res"] = res
		q.advance(st)
	}
	n := 0
	for _, o := range e.run(st, fn, []*Term{xs}, nil, "findCommas") {
		if o.panic != nil {
			continue
		}
		n++
		step(o.st)
		if !o.st.proveEq(o.st.ghost["q.n"], o.st.length(xs)) {
			bad("the search may end early: at %s of %s", o.st.ghost["q.n"], o.st.length(xs))
		}
		r := o.st.ghost["a.res"]
		if r == nil && !o.st.proveEq(o.st.length(o.ret.args[0]), tZero) || r != nil && r != o.ret.args[0] {
			bad("returns %s instead of the commas found", o.ret.args[0])
		}
	}
	c.absorb(e, "none")
	a.done(rule, n)
}

// trimming decides that only spaces are cut off around a name.
func (a *authors) trimming() {
	c, rule, fn := a.c, "name trimmed", a.trim
	e, st := c.eng()
	st = st.clone()
	xs := mkSym("xs", fn.Params[0].Type())
	space := types.Type(types.NewPointer(c.w.typ("ast", "TextSpace")))
	isSpace := func(st *State, v *Term) (bool, bool) { return a.isType(st, v, space) }
	// lo passes spaces from the front, hi from the back
	lo, hi := &cursor{list: xs, what: isSpace, pre: "lo."}, &cursor{list: xs, what: isSpace, pre: "hi.", down: true}
	lo.start(st)
	hi.start(st)
	norm := func(st *State) {
		for _, q := range []*cursor{lo, hi} {
			if st.ghost[q.pre+"q.e"] != nil {
				q.norm(st)
			}
		}
	}
	e.hooks.Norm, e.hooks.AtHead = norm, norm
	e.hooks.Key = func(st *State) string { return fmt.Sprint(st.ghost["lo.q.c"], st.ghost["hi.q.c"]) }
	e.hooks.Loaded = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		i := elemIndexIn(xs, v)
		if i == nil {
			return
		}
		// it was in bounds
		st.addLE(tZero, i, 0)
		st.addLE(i, st.length(xs), -1)
		for _, q := range []*cursor{lo, hi} {
			q.rest(st, v)
			if st.ghost[q.pre+"q.e"] != nil && !q.under(st, v) {
				q.pass(st, true)
			}
			q.loaded(st, v)
		}
	}
	n := 0
	for _, o := range e.run(st, fn, []*Term{xs}, nil, "trimSpaces") {
		if o.panic != nil {
			continue
		}
		n++
		r := o.ret.args[0]
		restLengths(o.st, xs)
		for _, q := range []*cursor{lo, hi} {
			if o.st.ghost[q.pre+"q.e"] != nil {
				q.pass(o.st, true)
			}
		}
		l, h := lo.n(o.st), hi.n(o.st)
		switch {
		case r == xs:
		case o.st.proveEq(o.st.length(r), tZero):
			hr := o.st.ghost["hi.q.r"]
			gone := hr != nil && o.st.provesLE(hr, tZero, 0) && o.st.provesLE(o.st.ghost["hi.q.a"], l, 0)
			if !gone && !o.st.provesLE(h, l, 0) && !o.st.provesLE(o.st.length(xs), l, 0) && !o.st.provesLE(h, tZero, 0) {
				a.fail(rule, fn.Name(), fn, "nothing is left of a name of which it is not known that it is only spaces")
			}
		default:
			from, to, rel := partOf(xs, r)
			if from == nil {
				a.fail(rule, fn.Name(), fn, "returns %s, which is not a part of the list", r)
				continue
			}
			if !o.st.provesLE(from, l, 0) {
				a.fail(rule, fn.Name(), fn, "the first %s pieces are cut off, but only %s are known to be spaces", from, l)
			}
			hr := o.st.ghost["hi.q.r"]
			if !o.st.provesLE(h, to, 0) && !(rel != nil && hr != nil && from == o.st.ghost["hi.q.a"] && o.st.provesLE(hr, rel, 0)) {
				a.fail(rule, fn.Name(), fn, "the name is cut at piece %s, but only the pieces from %s on are known to be spaces", to, h)
			}
		}
	}
	c.absorb(e, "none")
	a.done(rule, n)
}

// pieces decides the text of one piece of a name.
func (a *authors) pieces() {
	c, rule, fn := a.c, "piece text", a.piece
	renderAccent := c.w.fn("render", "RenderAccent")
	for _, t := range c.implementers("ast", c.iface("ast", "Expr")) {
		e, st := c.eng()
		st = st.clone()
		root := node(st, t, "x")
		name := typeShort(t)
		failed := false
		bad := func(f string, x ...any) {
			failed = true
			a.fail(rule, name, fn, "the text of a %s: "+f, append([]any{name}, x...)...)
		}
		f := func(n string) *Term {
			v := fieldVal(st, root, n)
			if v == nil {
				e.giveUp("%s has no field %s", name, n)
			}
			return v
		}
		var want, list *Term
		acc := mkSym("accented", types.Typ[types.Int32])
		switch name {
		case "*ast.ParsedText":
			list = f("Values")
			st.ghost["p.n"], st.ghost["p.keep"] = tZero, list
		case "*ast.Text":
			want = f("Value")
		case "*ast.TextEscaped":
			want = mkConcat(cStr("\\"), f("Value"))
		case "*ast.TextComma":
			want = cStr(",")
		case "*ast.TextHyphen":
			want = cStr("-")
		case "*ast.TextMath":
			want = mkConcat(cStr("$"), f("Value"), cStr("$"))
		case "*ast.TextNBSP", "*ast.TextSpace":
			want = cStr(" ")
		case "*ast.TextAccent":
			want = mkOp("runestr", types.Typ[types.String], acc)
			st.setNil(f("Text"), false)
		}
		e.hooks.Key = func(st *State) string {
			return fmt.Sprint(st.ghost["p.err"] != nil, st.ghost["p.last"] != nil, st.ghost["p.b"] != nil)
		}
		e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
			if cl.fn == nil {
				return nil, false
			}
			fails := func(v *Term) []Outcome {
				if st.ghost["p.err"] != nil {
					bad("continues after a failure")
					return nil
				}
				ok, er := st.clone(), st.clone()
				ev := e.fresh(er, "pieceErr", cl.instr, errType)
				er.setNil(ev, false)
				er.ghost["p.err"] = ev
				z := zeroValue(v.typ)
				return []Outcome{{st: ok, ret: mkTuple(v, tNil)}, {st: er, ret: mkTuple(z, ev)}}
			}
			switch {
			case cl.rec && cl.fn == fn && list != nil:
				if cl.args[1] != list || !st.proveEq(cl.args[0], st.ghost["p.n"]) {
					bad("element %s of %s is taken where element %s of the group is expected", cl.args[0], cl.args[1], st.ghost["p.n"])
					return nil, true
				}
				if st.ghost["p.last"] != nil {
					bad("the text of an element is dropped")
				}
				p := e.fresh(st, "piece", cl.instr, types.Typ[types.String])
				st.ghost["p.last"] = p
				return fails(p), true
			case cl.fn == renderAccent && name == "*ast.TextAccent":
				if cl.args[0] != fieldVal(st, root, "Accent") || cl.args[1] != st.load(fieldPtr(fieldVal(st, root, "Text"), "Value")) {
					bad("renders %s over %s instead of the node's accent over its text", cl.args[0], cl.args[1])
				}
				return fails(acc), true
			case list != nil && builderMethod(cl) == "WriteString" && st.ghost["p.last"] != nil && cl.args[1] == st.ghost["p.last"]:
				if b := st.ghost["p.b"]; b != nil && b != cl.args[0] {
					bad("the text of the elements goes to different places")
				}
				st = st.clone()
				st.ghost["p.b"] = cl.args[0]
				st.ghost["p.n"] = mkLin(st.ghost["p.n"], 1)
				delete(st.ghost, "p.last")
				return []Outcome{{st: st, ret: mkTuple(st.length(cl.args[1]), tNil)}}, true
			case list != nil && builderMethod(cl) == "String" && (st.ghost["p.b"] == cl.args[0] || st.ghost["p.b"] == nil && st.builderGet(cl.args[0]) == cStr("")):
				return []Outcome{{st: st, ret: mkTuple(mkSym("groupText", types.Typ[types.String]))}}, true
			}
			return nil, false
		}
		n := 0
		for _, o := range e.run(st, fn, []*Term{tZero, mkLit(fn.Params[1].Type(), root)}, nil, "piece") {
			if o.panic != nil {
				continue
			}
			n++
			isNil, k := o.st.isNil(o.ret.args[1])
			switch {
			case o.st.ghost["p.err"] != nil || want == nil && list == nil:
				if !k || isNil {
					bad("no error is returned although it cannot be told")
				}
			case !k || !isNil:
				bad("fails although nothing failed")
			case want != nil && o.ret.args[0] != want:
				bad("is %s where %s is expected", o.ret.args[0], want)
			case list != nil:
				if o.ret.args[0] != mkSym("groupText", types.Typ[types.String]) || o.st.ghost["p.last"] != nil || !o.st.proveEq(o.st.ghost["p.n"], o.st.length(list)) {
					bad("is not the text of all elements of the group in order")
				}
			}
		}
		c.absorb(e, "none")
		if !failed && n > 0 {
			c.hold(rule, fmt.Sprintf("%s: %d outcomes", name, n))
		}
	}
}

func builderMethod(cl *Call) string {
	if cl.fn == nil || cl.fn.Signature.Recv() == nil || !isBuilder(derefT(cl.fn.Signature.Recv().Type())) {
		return ""
	}
	return cl.fn.Name()
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// pieceOf is the list and index of the piece a text is the text of.
func (a *authors) pieceOf(st *State, v *Term) (list, idx *Term) {
	if v.isOp("piece") {
		return v.args[0], v.args[1]
	}
	if b, f := fieldLoad(v); b != nil && f == "Value" && types.Identical(b.typ, a.textT) {
		if x := childID(b); x.isOp("init") && x.args[0].kind == KElem {
			return x.args[0].args[0], x.args[0].args[1]
		}
	}
	return nil, nil
}

// parts decides which pieces go to which part of a name.
func (a *authors) parts() {
	c, rule, fn := a.c, "name parts", a.name
	e, st := c.eng()
	st = st.clone()
	str := types.Typ[types.String]
	xs := mkSym("pieces", a.exprs)
	cs := mkSym("commas", types.NewSlice(types.Typ[types.Int]))
	arg := mkSym("xs", fn.Params[0].Type())
	if a.trim == nil {
		xs = arg
	}
	st.ghost["z.xs"], st.ghost["z.cs"] = xs, cs
	bad := func(f string, x ...any) { a.fail(rule, fn.Name(), fn, f, x...) }
	at := func(st *State, i int64) *Term {
		return st.load(st.elemPtr(cs, cInt(i), types.Typ[types.Int]))
	}
	know := func(st *State) {
		// indices of commas are increasing positions in the list
		n := st.length(cs)
		if st.provesLE(cInt(1), n, 0) {
			st.addLE(tZero, at(st, 0), 0)
			st.addLE(at(st, 0), st.length(xs), -1)
		}
		if st.provesLE(cInt(2), n, 0) {
			st.addLE(at(st, 0), at(st, 1), -1)
			st.addLE(at(st, 1), st.length(xs), -1)
		}
	}
	e.hooks.Loaded = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		if p.kind == KElem && p.args[0] == cs {
			know(st)
		}
	}
	count := func(st *State) string {
		lo, hi := st.bounds(st.length(cs))
		switch {
		case hi <= 0:
			return "0"
		case lo >= 2:
			return "2"
		case lo == 1 && hi == 1:
			return "1"
		case lo >= 1:
			return "1+"
		}
		return "?"
	}
	e.hooks.Key = func(st *State) string {
		var ks []string
		for g, v := range st.ghost {
			if strings.HasPrefix(g, "b.l.") || strings.HasPrefix(g, "b.s.") {
				ks = append(ks, g+fmt.Sprint(v.id))
			}
			if g == "z.err" {
				ks = append(ks, g)
			}
		}
		sort.Strings(ks)
		return count(st) + strings.Join(ks, " ")
	}
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn == nil {
			return nil, false
		}
		one := func(st *State, v ...*Term) ([]Outcome, bool) {
			return []Outcome{{st: st, ret: mkTuple(v...)}}, true
		}
		switch a.sig(cl.fn) {
		case "trim":
			if cl.args[0] != arg {
				return nil, false
			}
			return one(st, xs)
		case "commas":
			if cl.args[0] != xs {
				bad("commas are looked for in %s instead of the pieces of the name", cl.args[0])
				return nil, true
			}
			st = st.clone()
			// split by their number, which decides the form of the name
			var outs []Outcome
			for _, r := range [][2]int64{{0, 0}, {1, 1}, {2, maxI}} {
				s := st.clone()
				if s.restrict(s.length(cs), rangeSet(r[0], r[1])) {
					know(s)
					// keep what is found out about them
					s.ghost["z.n"] = s.length(xs)
					if r[0] > 0 {
						s.ghost["z.c0"] = at(s, 0)
						s.ghost["z.l0"] = s.length(s.sliceTerm(xs, mkLin(at(s, 0), 1), s.length(xs), xs.typ))
					}
					if r[0] > 1 {
						s.ghost["z.c1"] = at(s, 1)
						s.ghost["z.l1"] = s.length(s.sliceTerm(xs, mkLin(at(s, 1), 1), s.length(xs), xs.typ))
						s.ghost["z.m"] = s.length(s.sliceTerm(xs, mkLin(at(s, 0), 1), at(s, 1), xs.typ))
					}
					outs = append(outs, Outcome{st: s, ret: mkTuple(cs)})
				}
			}
			return outs, true
		case "piece":
			l, i := cl.args[1], cl.args[0]
			v := mkOp("piece", str, l, i)
			ok, er := st.clone(), st.clone()
			ev := e.fresh(er, "pieceErr", cl.instr, errType)
			er.setNil(ev, false)
			er.ghost["z.err"] = ev
			return []Outcome{{st: ok, ret: mkTuple(v, tNil)}, {st: er, ret: mkTuple(cStr(""), ev)}}, true
		}
		if cl.name == "strings.TrimSpace" && cl.args[0].isOp("built") {
			return one(st, cl.args[0])
		}
		b := builderMethod(cl)
		switch {
		case strings.HasPrefix(b, "Write"):
			if v, ok := cl.args[1].isStr(); ok && v == "" {
				return nil, false
			}
			st = st.clone()
			k := cl.args[0].String()
			l, i := a.pieceOf(st, cl.args[1])
			if l == nil || b != "WriteString" {
				bad("writes %s, which is not the text of a piece", cl.args[1])
				return nil, true
			}
			if st.ghost["b.s."+k] != nil {
				bad("a part is written after it was used")
			}
			if o := st.ghost["b.l."+k]; o == nil {
				st.ghost["b.l."+k], st.ghost["b.f."+k] = l, i
			} else if o != l {
				bad("one part is made of pieces of different lists")
				return nil, true
			} else if !st.proveEq(i, st.ghost["b.t."+k]) {
				bad("piece %s is written where piece %s follows", i, st.ghost["b.t."+k])
				return nil, true
			}
			st.ghost["b.t."+k] = mkLin(i, 1)
			return one(st, st.length(cl.args[1]), tNil)
		case b == "String":
			st = st.clone()
			st.ghost["b.s."+cl.args[0].String()] = tTrue
			return one(st, mkOp("built", str, cl.args[0]))
		}
		return nil, false
	}
	n := map[string]int{}
	for _, o := range e.run(st, fn, []*Term{arg}, nil, "author") {
		if o.panic != nil {
			continue
		}
		st := o.st
		isNil, k := st.isNil(o.ret.args[1])
		if st.ghost["z.err"] != nil {
			if !k || isNil {
				bad("no error is returned although a piece has no text")
			}
			continue
		}
		if !k || !isNil {
			bad("an error is returned although every piece has a text")
			continue
		}
		know(st)
		form := count(st)
		n[form]++
		a.form(st, xs, form, o.ret.args[0], at, bad)
	}
	c.absorb(e, "none")
	for _, f := range []string{"0", "1", "2"} {
		if n[f] == 0 {
			bad("names with %s commas are never resolved", f)
		} else if !a.bad[rule] {
			c.hold(rule, fmt.Sprintf("%s commas: %d outcomes", f, n[f]))
		}
	}
}

// form checks the parts of a name with the given number of commas.
func (a *authors) form(st *State, xs *Term, form string, au *Term, at func(*State, int64) *Term, bad func(string, ...any)) {
	if x, k := st.isNil(au); !k || x {
		bad("no author is returned")
		return
	}
	type rng struct {
		name     string
		from, to *Term // nil if empty
	}
	get := func(f string) (r rng, ok bool) {
		r.name = f
		v := st.load(fieldPtr(au, f))
		if v.kind != KIface || !types.Identical(v.typ, a.textT) {
			bad("the %s of a name is not a text but %s", f, v)
			return r, false
		}
		t := st.load(fieldPtr(v.args[0], "Value"))
		if s, ok := t.isStr(); ok && s == "" {
			return r, true
		}
		if !t.isOp("built") {
			bad("the %s of a name is %s instead of the text of its pieces", f, t)
			return r, false
		}
		k := t.args[0].String()
		l := st.ghost["b.l."+k]
		if l == nil {
			return r, true
		}
		from, to := st.ghost["b.f."+k], st.ghost["b.t."+k]
		if l == xs {
			r.from, r.to = from, to
			return r, true
		}
		if !l.isOp("slice") || l.args[0] != xs {
			bad("the %s of a name is made of %s, which is not a part of the name", f, l)
			return r, false
		}
		lo, hi := l.args[1], l.args[2]
		conv := func(x *Term) *Term {
			bx, kx := linParts(x)
			bl, kl := linParts(lo)
			switch {
			case st.proveEq(x, tZero):
				return lo
			case bl == nil:
				return mkLin(bx, kx+kl)
			case st.proveEq(x, st.length(l)):
				return hi
			case bx == nil:
				return mkLin(bl, kx+kl)
			}
			return nil
		}
		r.from, r.to = conv(from), conv(to)
		if r.from == nil || r.to == nil {
			bad("which pieces make the %s of a name cannot be told", f)
			return r, false
		}
		return r, true
	}
	// run checks that the parts are, in this order, the pieces lo to hi.
	run := func(lo, hi *Term, names ...string) {
		cur := lo
		for _, f := range names {
			r, ok := get(f)
			if !ok {
				return
			}
			if r.from == nil {
				continue
			}
			if !st.proveEq(r.from, cur) {
				bad("with %s commas the %s begins with piece %s, but piece %s comes next", form, f, r.from, cur)
				return
			}
			cur = r.to
		}
		none := st.provesLE(hi, cur, 0) || st.length(st.sliceTerm(xs, cur, hi, xs.typ)) == tZero
		if !none {
			_, h := st.bounds(st.length(st.sliceTerm(xs, cur, hi, xs.typ)))
			none = h <= 0
		}
		if !none || !st.provesLE(cur, hi, 0) {
			bad("with %s commas %s end with piece %s instead of %s", form, strings.Join(names, ", "), cur, hi)
		}
	}
	last := func(lo, hi *Term) {
		if r, ok := get("Last"); ok && r.from == nil && !st.provesLE(hi, lo, 0) {
			bad("with %s commas the last name may be empty although there are pieces for it", form)
		}
	}
	n := st.length(xs)
	switch form {
	case "0":
		run(tZero, n, "First", "Prefix", "Last")
		last(tZero, n)
		run(tZero, tZero, "Suffix")
	case "1", "2":
		c0 := at(st, 0)
		run(tZero, c0, "Prefix", "Last")
		last(tZero, c0)
		next := mkLin(c0, 1)
		if form == "2" {
			c1 := at(st, 1)
			run(next, c1, "Suffix")
			next = mkLin(c1, 1)
		} else {
			run(tZero, tZero, "Suffix")
		}
		run(next, n, "First")
	default:
		bad("the number of commas is not looked at")
	}
}

// empty decides when an author counts as empty.
func (a *authors) empty() {
	c, rule := a.c, "empty author"
	fn := c.must("ast", "Author.IsEmpty")
	e, st := c.eng()
	st = st.clone()
	x := mkSym("x", a.authorT)
	st.setNil(x, false)
	parts := []string{"First", "Prefix", "Last", "Suffix"}
	val := func(st *State, f string) *Term {
		return st.load(fieldPtr(mkOp("unbox", a.textT, st.load(fieldPtr(x, f))), "Value"))
	}
	for _, f := range parts {
		v := st.load(fieldPtr(x, f))
		st.assumeDyn(v, typeID(a.textT), true)
		st.setNil(mkOp("unbox", a.textT, v), false)
		st.ghost["x."+f] = val(st, f)
	}
	// split by which parts are empty
	n := 0
	for m := 0; m < 1<<len(parts); m++ {
		s := st.clone()
		ok := true
		for i, f := range parts {
			ok = ok && s.assume(mkEq(val(s, f), cStr("")), m>>i&1 == 1)
		}
		if !ok {
			continue
		}
		for _, o := range e.run(s, fn, []*Term{x}, nil, "IsEmpty") {
			if o.panic != nil {
				continue
			}
			n++
			v, k := o.st.decide(o.ret.args[0])
			if !k || v != (m == 1<<len(parts)-1) {
				a.fail(rule, fn.Name(), fn, "an author is found empty or not without regard to all four parts being empty")
			}
		}
	}
	c.absorb(e, "none")
	a.done(rule, n)
}
