package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C24: Biber.Resolve. It is interpreted on a Biber with any list of resolvers
// and on each type of node; resolvers are abstract and either succeed or fail.

func init() { checks["C24"] = checkResolve }

func checkResolve(c *Ctx) {
	nodeI := c.iface("ast", "Node")
	for _, t := range c.implementers("ast", nodeI) {
		c.resolveType(t)
	}
	c.floor("resolvers run", 20)
	c.floor("entries", 3)
	c.floor("no entries", 20)
}

// fieldLoad reports the object and field name a value was loaded from.
func fieldLoad(v *Term) (base *Term, field string) {
	if !v.isOp("init") || v.args[0].kind != KField {
		return nil, ""
	}
	b := v.args[0].args[0]
	s := derefStruct(b.typ)
	if s == nil || int(v.args[0].off) >= s.NumFields() {
		return nil, ""
	}
	return b, s.Field(int(v.args[0].off)).Name()
}

type resolveRun struct {
	c      *Ctx
	name   string
	at     string
	root   *Term
	rs     *Term // the resolvers
	m      *Mon  // counts resolvers
	files  *Mon  // counts the files of a package
	kind   string
	bibT   types.Type
	entT   types.Type
	bad    map[string]bool
	files2 *Term
}

func (r *resolveRun) fail(rule, f string, a ...any) {
	if !r.bad[rule+f] {
		r.bad[rule+f], r.bad[rule] = true, true
		r.c.fail(rule, r.name, r.at, "resolving a %s: %s", r.name, fmt.Sprintf(f, a...))
	}
}

func (c *Ctx) resolveType(t types.Type) {
	fn := c.must("", "Biber.Resolve")
	resI := c.iface("", "Resolver")
	meth := resI.Method(0)
	r := &resolveRun{c: c, name: typeShort(t), at: c.pos(fn.Pos()), bad: map[string]bool{}}
	r.kind = strings.TrimPrefix(strings.TrimPrefix(r.name, "*"), "ast.")
	r.bibT = types.NewPointer(c.w.typ("ast", "BibDecl"))
	r.entT = c.w.typ("", "Entry")
	e, st := c.eng()
	st = st.clone()
	b := mkSym("b", fn.Params[0].Type())
	st.setNil(b, false)
	r.root = node(st, t, "n")
	p := fieldPtr(b, "resolvers")
	if p == nil {
		panic(undecided{"bibtex.Biber has no field resolvers"})
	}
	r.rs = st.load(p)
	r.m = &Mon{e: e, items: []item{{"list", r.rs, "the resolvers"}}, bad: func(f string, a ...any) { r.fail("resolvers run", f, a...) }}
	r.m.start(st)
	var filesMap *Term
	if r.kind == "Package" {
		r.files = &Mon{e: e, bad: func(f string, a ...any) { r.fail("entries", "the files: "+f, a...) }}
		filesMap = fieldVal(st, r.root, "Files")
		r.files2 = filesMap
		r.files.mapHooks(filesMap)
	}
	st.ghost["keep.files"] = r.root.args[0]
	e.hooks.NonNil = c.nonNil(func(st *State, x *Term) bool {
		_, f := fieldLoad(x)
		return f != "Key"
	})
	baseAppend := e.hooks.Append
	e.hooks.Append = func(e *Eng, st *State, s *Term, xs []*Term) {
		if baseAppend != nil {
			baseAppend(e, st, s, xs)
		}
	}
	e.hooks.Appended = func(e *Eng, st *State, s *Term, xs []*Term, src, res *Term) { r.appended(st, s, xs, src, res) }
	e.hooks.Key = func(st *State) string {
		k := r.m.key(st)
		for _, g := range []string{"r.err", "r.started", "r.E", "t.map", "r.acc"} {
			if st.ghost[g] != nil {
				k += g + " "
			}
		}
		if st.ghost["t.map"] == nil && st.ghost["r.E"] == nil && r.kind != "BibDecl" {
			return k
		}
		var ns []string
		for t, v := range st.nils {
			if d, f := fieldLoad(t); f == "Key" && r.current(st, d) {
				ns = append(ns, fmt.Sprint(v))
			}
		}
		sort.Strings(ns)
		return k + strings.Join(ns, ",")
	}
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.meth == nil || cl.meth.Name() != meth.Name() || cl.iface == nil || elemIndex(r.rs, childID(cl.iface)) == nil {
			return nil, false
		}
		st = st.clone()
		switch {
		case st.ghost["r.err"] != nil:
			r.fail("resolvers run", "a resolver runs after another one failed")
			return nil, true
		case st.ghost["r.started"] != nil:
			r.fail("resolvers run", "a resolver runs after the tree was read for its entries")
			return nil, true
		case len(cl.args) != 2 || childID(cl.args[1]) != r.root.args[0]:
			r.fail("resolvers run", "a resolver is given %s instead of the node", cl.args[1])
			return nil, true
		case !r.m.child(st, cl.iface):
			return nil, true
		}
		bad := st.clone()
		er := e.fresh(bad, "resolver error", cl.instr, cl.sig.Results().At(0).Type())
		bad.setNil(er, false)
		bad.ghost["r.err"] = er
		return []Outcome{{st: st, ret: mkTuple(tNil)}, {st: bad, ret: mkTuple(er)}}, true
	}
	e.hooks.Instr = func(e *Eng, st *State, in ssa.Instruction) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return
		}
		p := e.val(st, u.X)
		if p.kind != KField {
			return
		}
		x := p
		for x.kind == KField || x.kind == KElem || x.isOp("init") || x.isOp("unbox") || x.isOp("mapget") {
			x = x.args[0]
		}
		if x != r.root.args[0] {
			return
		}
		r.begin(st)
		s := derefStruct(p.args[0].typ)
		if s != nil && s.Field(int(p.off)).Name() == "Entries" {
			r.enterFile(st, p.args[0])
		}
	}
	e.hooks.AtHead = r.atHead
	e.hooks.Norm = r.skip
	e.hooks.Store = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) { r.store(st, p, v, in) }
	n, ok, nerr := 0, 0, 0
	for _, o := range e.run(st, fn, []*Term{b, r.root}, nil, "Resolve") {
		if o.panic != nil {
			continue // judged by C04
		}
		n++
		st := o.st
		ents, er := o.ret.args[0], o.ret.args[1]
		isNil, known := st.isNil(er)
		if re := st.ghost["r.err"]; re != nil {
			nerr++
			if !known || isNil || !wraps(er, re) {
				r.fail("resolvers run", "the error returned after a resolver failed is %s", er)
			}
			if en, ek := st.isNil(ents); !ek || !en {
				r.fail("resolvers run", "entries are returned although a resolver failed")
			}
			continue
		}
		if !known {
			r.fail("entries", "whether an error is returned is not determined by the node and the resolvers: %s", er)
			continue
		}
		if !r.m.end(st) {
			continue
		}
		if !isNil {
			if r.holds() {
				r.fail("entries", "fails although the node holds entries")
			}
			ok++
			continue
		}
		if !r.holds() {
			r.fail("no entries", "no error although the node cannot hold entries")
			continue
		}
		ok++
		r.result(st, ents)
	}
	c.absorb(e, "none")
	if n == 0 {
		r.fail("entries", "never returns")
	}
	if !r.bad["resolvers run"] && nerr > 0 && ok > 0 {
		c.hold("resolvers run", r.name)
	}
	rule := "entries"
	if !r.holds() {
		rule = "no entries"
	}
	if !r.bad["entries"] && !r.bad["no entries"] && ok > 0 {
		c.hold(rule, r.name)
	}
}

func (r *resolveRun) holds() bool {
	return r.kind == "File" || r.kind == "Package" || r.kind == "BibDecl"
}

// begin marks that the tree is read: all resolvers must have run.
func (r *resolveRun) begin(st *State) {
	if st.ghost["r.started"] != nil {
		return
	}
	x := st.clone()
	if st.ghost["r.err"] != nil {
		r.fail("resolvers run", "the tree is read after a resolver failed")
	} else {
		r.m.end(x)
	}
	st.ghost["r.started"] = tUnit
	st.ghost["m.cnt"] = tZero
	st.ghost["m.pos"] = cInt(1)
}

// enterFile starts on the declarations of a file.
func (r *resolveRun) enterFile(st *State, f *Term) {
	if st.ghost["r.file"] == f {
		return
	}
	r.leaveFile(st)
	if r.kind == "File" {
		if f != r.root.args[0] {
			r.fail("entries", "reads the entries of %s", f)
		}
		if st.ghost["r.done"] != nil {
			return // a second look at the declarations
		}
	} else if r.files == nil || !r.files.mapChild(st, r.files2, f) {
		return
	}
	st.ghost["r.file"] = f
	st.ghost["r.E"] = st.load(fieldPtr(f, "Entries"))
	st.ghost["r.cnt"] = tZero
}

// skip moves over declarations known to be no entries.
func (r *resolveRun) skip(st *State) {
	E := st.ghost["r.E"]
	if E == nil {
		return
	}
	for again := true; again; {
		again = false
		for t := range st.dyn {
			if j := elemIndex(E, t); j != nil && st.proveEq(j, st.ghost["r.cnt"]) && !st.mayBe(t, typeID(r.bibT)) {
				st.ghost["r.cnt"] = mkLin(st.ghost["r.cnt"], 1)
				again = true
				break
			}
		}
	}
}

func (r *resolveRun) complete(st *State) bool {
	r.skip(st)
	return st.proveEq(st.ghost["r.cnt"], st.length(st.ghost["r.E"]))
}

func (r *resolveRun) leaveFile(st *State) {
	if st.ghost["r.E"] == nil {
		return
	}
	if !r.complete(st) {
		r.fail("entries", "only %s of the %s declarations of a file are looked at", st.ghost["r.cnt"], st.length(st.ghost["r.E"]))
	}
	delete(st.ghost, "r.E")
	delete(st.ghost, "r.file")
	delete(st.ghost, "r.cnt")
	st.ghost["r.done"] = tUnit
}

func (r *resolveRun) isEntries(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), r.entT)
}

// current reports whether d is the declaration whose entry comes next.
func (r *resolveRun) current(st *State, d *Term) bool {
	if r.kind == "BibDecl" {
		return d == r.root.args[0]
	}
	E := st.ghost["r.E"]
	if E == nil {
		return false
	}
	j := elemIndex(E, childID(d))
	return j != nil && st.proveEq(j, st.ghost["r.cnt"])
}

func (r *resolveRun) atHead(st *State) {
	r.skip(st)
	for t := range st.nils {
		if d, f := fieldLoad(t); f == "Key" && !r.current(st, d) {
			delete(st.nils, t)
		}
	}
	if st.ghost["r.acc"] == nil {
		for f := st.fr; f != nil; f = f.parent {
			for v, t := range f.regs {
				if r.isEntries(v.Type()) && (t == tNil || st.length(t) == tZero || st.proveEq(st.length(t), tZero)) {
					st.ghost["r.acc"] = t
					return
				}
			}
		}
	}
	if r.kind == "Package" && st.ghost["r.E"] != nil && r.complete(st) {
		r.leaveFile(st)
	}
}

// store follows the tags put into the map of an entry.
func (r *resolveRun) store(st *State, p, v *Term, in ssa.Instruction) {
	if root(p) == r.root.args[0] || func() bool {
		x := p
		for x.kind == KField || x.kind == KElem || x.isOp("init") || x.isOp("unbox") || x.isOp("mapget") {
			x = x.args[0]
		}
		return x == r.root.args[0]
	}() {
		r.fail("entries", "the tree is changed, at %s", r.c.pos(in.Pos()))
		return
	}
	mu, ok := in.(*ssa.MapUpdate)
	if !ok || p.kind != KElem {
		return
	}
	mt := mu.Map.Type().Underlying().(*types.Map)
	if !types.Implements(mt.Elem(), r.c.iface("ast", "Expr")) {
		return
	}
	mp, k := p.args[0], p.args[1]
	tag, f := fieldLoad(v)
	kt, kf := fieldLoad(k)
	if tag == nil || f != "Value" || kt != tag || kf != "Name" {
		r.fail("entries", "the tag map is given %s under the name %s", v, k)
		return
	}
	list := (*Term)(nil)
	var j *Term
	if tag.isOp("init") && tag.args[0].kind == KElem {
		list, j = tag.args[0].args[0], tag.args[0].args[1]
	}
	if list == nil {
		r.fail("entries", "the tag map is given a value that is not that of a tag of the declaration")
		return
	}
	if st.ghost["t.map"] != mp {
		st.ghost["t.map"], st.ghost["t.list"], st.ghost["t.cnt"] = mp, list, tZero
	}
	if st.ghost["t.list"] != list || !st.proveEq(st.ghost["t.cnt"], j) {
		r.fail("entries", "the tags are not put into the map in order: %s after %s tags", j, st.ghost["t.cnt"])
		return
	}
	st.ghost["t.cnt"] = mkLin(st.ghost["t.cnt"], 1)
}

// entry checks that v is the entry of the declaration d.
func (r *resolveRun) entry(st *State, v *Term) (d *Term) {
	st2, ok := r.entT.Underlying().(*types.Struct)
	if !ok || v.kind != KAgg {
		r.fail("entries", "the entry is not determined: %s", v)
		return nil
	}
	get := func(n string) *Term {
		for i := 0; i < st2.NumFields(); i++ {
			if st2.Field(i).Name() == n {
				return v.args[i]
			}
		}
		panic(undecided{"bibtex.Entry has no field " + n})
	}
	d, f := fieldLoad(get("Type"))
	if d == nil || f != "Type" || !types.Identical(d.typ, r.bibT) {
		r.fail("entries", "the type of the entry is %s", get("Type"))
		return nil
	}
	key := st.load(fieldPtr(d, "Key"))
	kn, kk := st.isNil(key)
	switch want := st.load(fieldPtr(key, "Name")); {
	case !kk && get("Key") != want:
		r.fail("entries", "the key of the entry is %s whether or not the declaration has one", get("Key"))
	case kk && kn && get("Key") != cStr(""):
		r.fail("entries", "the key of an entry without a key is %s", get("Key"))
	case kk && !kn && get("Key") != want:
		r.fail("entries", "the key of the entry is %s", get("Key"))
	}
	tags := st.load(fieldPtr(d, "Tags"))
	mp := get("Tags")
	if st.ghost["t.map"] == mp {
		if st.ghost["t.list"] != tags || !st.proveEq(st.ghost["t.cnt"], st.length(tags)) {
			r.fail("entries", "the tag map of the entry holds %s of the tags of %s", st.ghost["t.cnt"], st.ghost["t.list"])
		}
	} else {
		if n := st.length(tags); !st.proveEq(n, tZero) {
			r.fail("entries", "the tag map of the entry is not filled from the tags of its declaration")
		} else if ents, ok := mapEnts(st, mp); mp != tNil && (!ok || len(ents) > 0) {
			r.fail("entries", "the tag map of an entry without tags is %s", mp)
		}
	}
	for _, g := range []string{"t.map", "t.list", "t.cnt"} {
		delete(st.ghost, g)
	}
	return d
}

// appended follows the list of entries.
func (r *resolveRun) appended(st *State, s *Term, xs []*Term, src, res *Term) {
	if res.typ == nil || !r.isEntries(res.typ) {
		return
	}
	acc := st.ghost["r.acc"]
	if acc == nil && st.length(s) == tZero {
		acc = s
	}
	if s != acc {
		r.fail("entries", "entries are appended to %s", s)
		return
	}
	st.ghost["r.acc"] = res
	if xs == nil {
		r.fail("entries", "an unknown list of entries is appended: %s", src)
		return
	}
	for _, x := range xs {
		r.next(st, x)
	}
}

func (r *resolveRun) next(st *State, x *Term) {
	r.begin(st)
	d := r.entry(st, x)
	if d == nil {
		return
	}
	if r.kind == "BibDecl" {
		if d != r.root.args[0] || st.ghost["r.done"] != nil {
			r.fail("entries", "more entries than the one of the declaration are returned")
		}
		st.ghost["r.done"] = tUnit
		return
	}
	E := st.ghost["r.E"]
	if E == nil {
		r.fail("entries", "an entry is added outside the declarations of a file")
		return
	}
	j := elemIndex(E, childID(d))
	if j == nil {
		r.fail("entries", "the entry added is not that of a declaration of the file")
		return
	}
	r.skip(st)
	if !st.proveEq(j, st.ghost["r.cnt"]) {
		r.fail("entries", "the entry of declaration %s is added after %s declarations", j, st.ghost["r.cnt"])
		return
	}
	st.ghost["r.cnt"] = mkLin(st.ghost["r.cnt"], 1)
}

// result checks the list returned.
func (r *resolveRun) result(st *State, ents *Term) {
	if acc := st.ghost["r.acc"]; acc != nil && acc != ents {
		r.fail("entries", "the entries returned are %s instead of the list built", ents)
		return
	} else if acc == nil {
		xs, ok := st.elems(ents)
		if !ok {
			r.fail("entries", "the entries returned are %s", ents)
			return
		}
		for _, x := range xs {
			r.next(st, x)
		}
	}
	switch r.kind {
	case "BibDecl":
		if st.ghost["r.done"] == nil {
			r.fail("entries", "no entry is returned for the declaration")
		}
	case "File":
		r.leaveFile(st)
		if st.ghost["r.done"] == nil {
			r.fail("entries", "the declarations of the file are not looked at")
		}
	case "Package":
		r.leaveFile(st)
		r.files.mapEnd(st)
	}
}
