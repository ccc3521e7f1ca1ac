package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A points-to analysis of the module: inclusion-based, field-sensitive,
// insensitive to flow and context. Functions of other packages are summarised;
// what a caller of the API passes in is one collapsed object per category.

type ptObj struct {
	id   int
	kind string // alloc, global, fn, box, ext
	name string
	typ  types.Type
	fn   *ssa.Function // for fn and closures
	in   *ssa.Function // where it is made
	site ssa.Value
	ext  bool   // collapsed
	cat  string // what of the caller's it is
}

type ptLoc struct {
	obj  *ptObj
	path string
}

type ptKey struct {
	v    ssa.Value
	path string
}

type ptSet map[*ptLoc]bool

// ptWrite is a write to memory: an instruction, what it may write, and how.
type ptWrite struct {
	in   ssa.Instruction
	what string
	locs ptSet
}

type Pts struct {
	w       *World
	objs    []*ptObj
	locs    map[string]*ptLoc
	content map[*ptLoc]ptSet
	vals    map[ptKey]ptSet
	siteObj map[string]*ptObj
	fns     []*ssa.Function
	isFn    map[*ssa.Function]bool
	inits   map[*ssa.Function]bool
	roots   []*ssa.Function
	taken   map[*ssa.Function]bool
	edges   map[*ssa.Function]map[*ssa.Function]bool
	writes  map[ssa.Instruction]map[string]*ptWrite
	unknown map[string]ssa.Instruction
	changed bool
	leafs   map[types.Type][]string
}

func newPts(w *World) *Pts {
	p := &Pts{w: w, locs: map[string]*ptLoc{}, content: map[*ptLoc]ptSet{}, vals: map[ptKey]ptSet{}, siteObj: map[string]*ptObj{},
		isFn: map[*ssa.Function]bool{}, inits: map[*ssa.Function]bool{}, taken: map[*ssa.Function]bool{},
		edges: map[*ssa.Function]map[*ssa.Function]bool{}, writes: map[ssa.Instruction]map[string]*ptWrite{},
		unknown: map[string]ssa.Instruction{}, leafs: map[types.Type][]string{}}
	for _, fn := range w.funcs {
		if !libFunc(fn) {
			continue
		}
		p.fns = append(p.fns, fn)
		p.isFn[fn] = true
		if fn.Synthetic != "" && strings.Contains(fn.Synthetic, "initializer") || strings.HasPrefix(fn.Name(), "init#") {
			p.inits[fn] = true
			continue
		}
		if fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported() {
			if r := fn.Signature.Recv(); r == nil || exportedType(r.Type()) {
				p.roots = append(p.roots, fn)
			}
		}
	}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if ci, ok := in.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok && (*op != callee || isMakeClosure(in)) {
						p.taken[f] = true
					}
				}
			}
		}
	}
	return p
}

func isMakeClosure(in ssa.Instruction) bool { _, ok := in.(*ssa.MakeClosure); return ok }

// libFunc reports whether fn belongs to the library proper: not to the test
// helpers of package asts and testing.go.
func libFunc(fn *ssa.Function) bool {
	p := pkgOf(fn)
	if p == modPath+"/asts" || !inModule(p) {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		if n := f.Name(); p == modPath && (n == "newAuthor" || n == "newAuthors") {
			return false
		}
	}
	return true
}

func exportedType(t types.Type) bool {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

// leaves lists the paths of a type that can hold pointers.
func (p *Pts) leaves(t types.Type) []string {
	if l, ok := p.leafs[t]; ok {
		return l
	}
	var out []string
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		out = []string{""}
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			out = []string{""}
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range p.leaves(u.Field(i).Type()) {
				out = append(out, "."+strconv.Itoa(i)+l)
			}
		}
	case *types.Array:
		for _, l := range p.leaves(u.Elem()) {
			out = append(out, "[]"+l)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			for _, l := range p.leaves(u.At(i).Type()) {
				out = append(out, "#"+strconv.Itoa(i)+l)
			}
		}
	case *types.TypeParam:
		out = []string{""}
	}
	p.leafs[t] = out
	return out
}

func (p *Pts) newObj(key, kind, name string, t types.Type, in *ssa.Function) *ptObj {
	if o := p.siteObj[key]; o != nil {
		return o
	}
	o := &ptObj{id: len(p.objs), kind: kind, name: name, typ: t, in: in, ext: kind == "ext"}
	p.objs = append(p.objs, o)
	p.siteObj[key] = o
	p.changed = true
	if o.ext {
		l := p.loc(o, "")
		p.content[l] = ptSet{l: true}
	}
	return o
}

func (p *Pts) loc(o *ptObj, path string) *ptLoc {
	if o.ext {
		path = ""
	}
	if len(path) > 200 {
		path = path[:200]
	}
	k := strconv.Itoa(o.id) + path
	l := p.locs[k]
	if l == nil {
		l = &ptLoc{o, path}
		p.locs[k] = l
	}
	return l
}

func (p *Pts) sub(l *ptLoc, path string) *ptLoc { return p.loc(l.obj, l.path+path) }

func (p *Pts) ext(cat string) *ptLoc {
	o := p.newObj("ext:"+cat, "ext", "the caller's "+cat, nil, nil)
	o.cat = cat
	return p.loc(o, "")
}

func (p *Pts) add(dst *ptSet, l *ptLoc) {
	if *dst == nil {
		*dst = ptSet{}
	}
	if !(*dst)[l] {
		(*dst)[l] = true
		p.changed = true
	}
}

func (p *Pts) addVal(v ssa.Value, path string, s ptSet) {
	if len(s) == 0 {
		return
	}
	k := ptKey{v, path}
	d := p.vals[k]
	for l := range s {
		p.add(&d, l)
	}
	p.vals[k] = d
}

func (p *Pts) addCell(l *ptLoc, s ptSet) {
	if len(s) == 0 {
		return
	}
	d := p.content[l]
	for x := range s {
		p.add(&d, x)
	}
	p.content[l] = d
}

// get is what the leaf at path of v may point to.
func (p *Pts) get(v ssa.Value, path string) ptSet {
	switch x := v.(type) {
	case *ssa.Const:
		return nil
	case *ssa.Global:
		o := p.newObj("g:"+x.String(), "global", x.String(), deref(x.Type()), nil)
		if x.Pkg == nil || !inModule(x.Pkg.Pkg.Path()) {
			// a variable of another package
			return ptSet{p.loc(o, ""): true}
		}
		return ptSet{p.loc(o, ""): true}
	case *ssa.Function:
		o := p.newObj("f:"+x.String(), "fn", x.String(), x.Signature, nil)
		o.fn = x
		return ptSet{p.loc(o, ""): true}
	case *ssa.Builtin:
		return nil
	}
	return p.vals[ptKey{v, path}]
}

// copyVal makes dst (at prefix dp) hold what src (at prefix sp) holds.
func (p *Pts) copyVal(dst ssa.Value, dp string, src ssa.Value, sp string, t types.Type) {
	for _, l := range p.leaves(t) {
		p.addVal(dst, dp+l, p.get(src, sp+l))
	}
}

// load copies the memory at the locations to a value.
func (p *Pts) load(dst ssa.Value, dp string, locs ptSet, t types.Type) {
	for _, l := range p.leaves(t) {
		for a := range locs {
			p.addVal(dst, dp+l, p.content[p.sub(a, l)])
		}
	}
}

// store copies a value to memory.
func (p *Pts) store(locs ptSet, src ssa.Value, sp string, t types.Type) {
	for _, l := range p.leaves(t) {
		s := p.get(src, sp+l)
		for a := range locs {
			p.addCell(p.sub(a, l), s)
		}
	}
}

func (p *Pts) write(in ssa.Instruction, what string, locs ptSet) {
	m := p.writes[in]
	if m == nil {
		m = map[string]*ptWrite{}
		p.writes[in] = m
	}
	w := m[what]
	if w == nil {
		w = &ptWrite{in, what, ptSet{}}
		m[what] = w
	}
	for l := range locs {
		w.locs[l] = true
	}
}

func (p *Pts) subs(s ptSet, path string) ptSet {
	out := ptSet{}
	for l := range s {
		out[p.sub(l, path)] = true
	}
	return out
}

func siteKey(v ssa.Value, what string) string { return fmt.Sprintf("%p/%s", v, what) }

func (p *Pts) allocAt(v ssa.Value, what string, t types.Type) *ptLoc {
	o := p.newObj(siteKey(v, what), "alloc", fmt.Sprintf("%s made at %s", what, p.w.pos(v.Pos())), t, v.Parent())
	o.site = v
	return p.loc(o, "")
}

func (p *Pts) solve() {
	for _, fn := range p.roots {
		for _, prm := range fn.Params {
			cat := extCategory(p.w, prm)
			l := p.ext(cat)
			if s := derefStruct(prm.Type()); s != nil && inModuleType(deref(prm.Type())) && cat != "tree" {
				// one object with its own fields
				o := p.newObj("root:"+prm.Type().String(), "root", "the caller's "+cat, deref(prm.Type()), nil)
				o.cat = cat
				ol := p.loc(o, "")
				for _, lf := range p.leaves(deref(prm.Type())) {
					p.addCell(p.sub(ol, lf), ptSet{l: true})
				}
				p.addVal(prm, "", ptSet{ol: true})
				continue
			}
			for _, lf := range p.leaves(prm.Type()) {
				p.addVal(prm, lf, ptSet{l: true})
			}
		}
	}
	for i := 0; ; i++ {
		p.changed = false
		for _, fn := range p.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					p.instr(fn, in)
				}
			}
		}
		if !p.changed {
			break
		}
		if i > 300 {
			panic(undecided{"the points-to analysis does not converge"})
		}
	}
}

// extCategory classifies what a caller passes.
func extCategory(w *World, v *ssa.Parameter) string {
	t := v.Type()
	n := typeName(t)
	fn := v.Parent()
	isRecv := fn.Signature.Recv() != nil && len(fn.Params) > 0 && fn.Params[0] == v
	switch {
	case strings.HasSuffix(n, "bibtex.Biber"):
		return "Biber"
	case strings.HasSuffix(n, "scanner.Scanner"):
		return "scanner"
	case n == "*go/token.FileSet" || n == "*go/token.File":
		return "file set"
	case n == "io.Writer":
		return "writer"
	}
	if node, ok := w.typ("ast", "Node").(*types.Named); ok {
		it := node.Underlying().(*types.Interface)
		if types.Implements(t, it) || types.Implements(types.NewPointer(t), it) {
			return "tree"
		}
	}
	if named := namedOf(t); named != nil && named.Obj().Pkg() != nil && named.Obj().Pkg().Path() == modPath+"/ast" && !types.IsInterface(t) {
		return "tree"
	}
	if pk := pkgOf(fn); pk == modPath+"/parser" && (n == "[]byte" || types.IsInterface(t)) || n == "io.Reader" || pk == modPath+"/scanner" && sliceOfBytes(t) {
		return "source"
	}
	if isRecv {
		return "resolvers and renderers"
	}
	if named := namedOf(t); named != nil && named.Obj().Pkg() != nil && inModule(named.Obj().Pkg().Path()) {
		if _, ok := t.Underlying().(*types.Signature); !ok {
			return "resolvers and renderers"
		}
	}
	return "arguments"
}

func inModuleType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg().Path())
}

func sliceOfBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func (p *Pts) instr(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		p.addVal(x, "", ptSet{p.allocAt(x, "variable", deref(x.Type())): true})
	case *ssa.MakeSlice:
		p.addVal(x, "", ptSet{p.allocAt(x, "slice", x.Type()): true})
	case *ssa.MakeMap:
		p.addVal(x, "", ptSet{p.allocAt(x, "map", x.Type()): true})
	case *ssa.MakeChan:
		p.addVal(x, "", ptSet{p.allocAt(x, "channel", x.Type()): true})
	case *ssa.MakeClosure:
		l := p.allocAt(x, "closure", x.Type())
		l.obj.fn = x.Fn.(*ssa.Function)
		p.addVal(x, "", ptSet{l: true})
		for i, b := range x.Bindings {
			p.store(ptSet{p.sub(l, ".b"+strconv.Itoa(i)): true}, b, "", b.Type())
			fv := l.obj.fn.FreeVars[i]
			p.copyVal(fv, "", b, "", b.Type())
		}
	case *ssa.MakeInterface:
		if _, ok := x.X.(*ssa.Const); ok && len(p.leaves(x.X.Type())) == 0 {
			return
		}
		l := p.allocAt(x, "interface value", x.X.Type())
		l.obj.kind = "box"
		p.addVal(x, "", ptSet{l: true})
		p.store(ptSet{l: true}, x.X, "", x.X.Type())
	case *ssa.Phi:
		for _, e := range x.Edges {
			p.copyVal(x, "", e, "", x.Type())
		}
	case *ssa.Convert:
		if len(p.leaves(x.Type())) == 0 {
			return
		}
		if sliceOfBytes(x.Type()) || isRunes(x.Type()) {
			if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
				p.addVal(x, "", ptSet{p.allocAt(x, "slice", x.Type()): true})
				return
			}
		}
		p.copyVal(x, "", x.X, "", x.Type())
	case *ssa.ChangeType:
		p.copyVal(x, "", x.X, "", x.Type())
	case *ssa.ChangeInterface:
		p.copyVal(x, "", x.X, "", x.Type())
	case *ssa.SliceToArrayPointer:
		p.copyVal(x, "", x.X, "", x.Type())
	case *ssa.MultiConvert:
		p.copyVal(x, "", x.X, "", x.Type())
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			p.load(x, "", p.get(x.X, ""), x.Type())
		case token.ARROW:
			for _, l := range p.leaves(x.Type()) {
				for a := range p.get(x.X, "") {
					p.addVal(x, l, p.content[p.sub(a, "[]"+l)])
				}
			}
		}
	case *ssa.Send:
		p.store(p.subs(p.get(x.Chan, ""), "[]"), x.X, "", x.X.Type())
		p.write(in, "sends on", p.get(x.Chan, ""))
	case *ssa.FieldAddr:
		p.addVal(x, "", p.subs(p.get(x.X, ""), "."+strconv.Itoa(x.Field)))
	case *ssa.Field:
		p.copyVal(x, "", x.X, "."+strconv.Itoa(x.Field), x.Type())
	case *ssa.IndexAddr:
		p.addVal(x, "", p.subs(p.get(x.X, ""), "[]"))
	case *ssa.Index:
		p.copyVal(x, "", x.X, "[]", x.Type())
	case *ssa.Slice:
		if _, isStr := x.X.Type().Underlying().(*types.Basic); !isStr {
			p.addVal(x, "", p.get(x.X, ""))
		}
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			et := x.X.Type().Underlying().(*types.Map).Elem()
			dp := ""
			if x.CommaOk {
				dp = "#0"
			}
			for _, l := range p.leaves(et) {
				for a := range p.get(x.X, "") {
					p.addVal(x, dp+l, p.content[p.sub(a, "[v]"+l)])
				}
			}
		}
	case *ssa.MapUpdate:
		m := p.get(x.Map, "")
		p.store(p.subs(m, "[k]"), x.Key, "", x.Key.Type())
		p.store(p.subs(m, "[v]"), x.Value, "", x.Value.Type())
		p.write(in, "writes an entry of", m)
	case *ssa.Range:
		p.addVal(x, "", p.get(x.X, ""))
	case *ssa.Next:
		if x.IsString {
			return
		}
		mt, ok := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
		if !ok {
			return
		}
		for a := range p.get(x.Iter, "") {
			for _, l := range p.leaves(mt.Key()) {
				p.addVal(x, "#1"+l, p.content[p.sub(a, "[k]"+l)])
			}
			for _, l := range p.leaves(mt.Elem()) {
				p.addVal(x, "#2"+l, p.content[p.sub(a, "[v]"+l)])
			}
		}
	case *ssa.Extract:
		p.copyVal(x, "", x.Tuple, "#"+strconv.Itoa(x.Index), x.Type())
	case *ssa.Store:
		locs := p.get(x.Addr, "")
		p.store(locs, x.Val, "", x.Val.Type())
		p.write(in, "stores to", locs)
	case *ssa.TypeAssert:
		dp := ""
		if x.CommaOk {
			dp = "#0"
		}
		for a := range p.get(x.X, "") {
			switch {
			case a.obj.ext:
				for _, l := range p.leaves(x.AssertedType) {
					p.addVal(x, dp+l, ptSet{a: true})
				}
			case a.obj.kind == "box" && types.IsInterface(x.AssertedType):
				if types.Implements(a.obj.typ, x.AssertedType.Underlying().(*types.Interface)) {
					p.addVal(x, dp, ptSet{a: true})
				}
			case a.obj.kind == "box" && types.Identical(a.obj.typ, x.AssertedType):
				p.load(x, dp, ptSet{a: true}, x.AssertedType)
			}
		}
	case *ssa.Return:
		return
	case ssa.CallInstruction:
		p.callInstr(fn, x)
	case *ssa.Select:
		p.unknown["select"] = in
	}
}

func isRunes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func (p *Pts) edge(a, b *ssa.Function) {
	m := p.edges[a]
	if m == nil {
		m = map[*ssa.Function]bool{}
		p.edges[a] = m
	}
	if !m[b] {
		m[b] = true
		p.changed = true
	}
}

// bind connects a call with a callee that has a body. args may hold nil for an
// argument whose value is given by argSets.
func (p *Pts) bind(fn *ssa.Function, ci ssa.CallInstruction, callee *ssa.Function, args []ssa.Value, recv func(*ssa.Parameter)) {
	p.edge(fn, callee)
	ps := callee.Params
	if recv != nil && len(ps) > 0 {
		recv(ps[0])
		ps = ps[1:]
	}
	for i, prm := range ps {
		if i < len(args) {
			p.copyVal(prm, "", args[i], "", prm.Type())
		}
	}
	res, ok := ci.(*ssa.Call)
	if !ok {
		return
	}
	for _, b := range callee.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			for i, v := range r.Results {
				dp := ""
				if len(r.Results) > 1 {
					dp = "#" + strconv.Itoa(i)
				}
				p.copyVal(res, dp, v, "", v.Type())
			}
		}
	}
}

func (p *Pts) callInstr(fn *ssa.Function, ci ssa.CallInstruction) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		p.builtin(ci, b.Name(), cc.Args)
		return
	}
	if cc.IsInvoke() {
		for a := range p.get(cc.Value, "") {
			switch {
			case a.obj.kind == "box":
				if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && !types.Implements(a.obj.typ, it) {
					continue // held by another interface of the same object
				}
				m := p.w.prog.LookupMethod(a.obj.typ, cc.Method.Pkg(), cc.Method.Name())
				p.target(fn, ci, m, cc.Args, func(prm *ssa.Parameter) { p.load(prm, "", ptSet{a: true}, prm.Type()) }, a)
			case a.obj.ext:
				p.extResult(ci, a)
				it, _ := cc.Value.Type().Underlying().(*types.Interface)
				for _, t := range p.moduleTypes() {
					if it == nil || !types.Implements(t, it) {
						continue
					}
					m := p.w.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
					if m == nil || !p.isFn[m] && len(m.Blocks) == 0 {
						continue
					}
					p.target(fn, ci, m, cc.Args, func(prm *ssa.Parameter) {
						for _, l := range p.leaves(prm.Type()) {
							p.addVal(prm, l, ptSet{a: true})
						}
					}, a)
				}
			}
		}
		return
	}
	if f := cc.StaticCallee(); f != nil {
		p.target(fn, ci, f, cc.Args, nil, nil)
		return
	}
	for a := range p.get(cc.Value, "") {
		switch {
		case a.obj.fn != nil:
			p.target(fn, ci, a.obj.fn, cc.Args, nil, nil)
		case a.obj.ext:
			p.extResult(ci, a)
			for _, f := range p.fns {
				if p.taken[f] && types.Identical(sigOf(f), sigOf2(cc.Value.Type())) {
					p.target(fn, ci, f, cc.Args, nil, nil)
				}
			}
		}
	}
}

func sigOf(f *ssa.Function) *types.Signature {
	s := f.Signature
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func sigOf2(t types.Type) types.Type {
	s, ok := t.Underlying().(*types.Signature)
	if !ok {
		return t
	}
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

var modTypesCache map[*World][]types.Type

func (p *Pts) moduleTypes() []types.Type {
	if modTypesCache == nil {
		modTypesCache = map[*World][]types.Type{}
	}
	if ts, ok := modTypesCache[p.w]; ok {
		return ts
	}
	var out []types.Type
	for _, k := range keysOf(p.w.pkgs) {
		if k == "asts" {
			continue
		}
		sc := p.w.pkgs[k].Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() && !types.IsInterface(tn.Type()) {
				out = append(out, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	modTypesCache[p.w] = out
	return out
}

// extResult makes the results of user code.
func (p *Pts) extResult(ci ssa.CallInstruction, a *ptLoc) {
	res, ok := ci.(*ssa.Call)
	if !ok {
		return
	}
	for _, l := range p.leaves(res.Type()) {
		p.addVal(res, l, ptSet{p.ext("results of callbacks"): true})
	}
}

func (p *Pts) target(fn *ssa.Function, ci ssa.CallInstruction, callee *ssa.Function, args []ssa.Value, recv func(*ssa.Parameter), recvLoc *ptLoc) {
	if callee == nil {
		return
	}
	if len(callee.Blocks) > 0 && (callee.Pkg == nil || inModule(callee.Pkg.Pkg.Path())) {
		if !p.isFn[callee] {
			p.isFn[callee] = true
			p.fns = append(p.fns, callee)
			p.changed = true
		}
		p.bind(fn, ci, callee, args, recv)
		return
	}
	p.external(ci, callee, args, recvLoc)
}

func (p *Pts) builtin(ci ssa.CallInstruction, name string, args []ssa.Value) {
	in := ci.(ssa.Instruction)
	switch name {
	case "append":
		res, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		st, ok := res.Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		nl := p.allocAt(res, "slice grown", res.Type())
		p.addVal(res, "", ptSet{nl: true})
		p.addVal(res, "", p.get(args[0], ""))
		for _, l := range p.leaves(st.Elem()) {
			for a := range p.get(args[0], "") {
				p.addCell(p.sub(nl, "[]"+l), p.content[p.sub(a, "[]"+l)])
			}
			if len(args) > 1 {
				for b := range p.get(args[1], "") {
					s := p.content[p.sub(b, "[]"+l)]
					p.addCell(p.sub(nl, "[]"+l), s)
					for a := range p.get(args[0], "") {
						p.addCell(p.sub(a, "[]"+l), s)
					}
				}
			}
		}
		if !fullSlice(args[0]) {
			p.write(in, "appends to", p.subs(p.get(args[0], ""), "[]"))
		}
	case "copy":
		st, ok := args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return
		}
		for _, l := range p.leaves(st.Elem()) {
			for b := range p.get(args[1], "") {
				for a := range p.get(args[0], "") {
					p.addCell(p.sub(a, "[]"+l), p.content[p.sub(b, "[]"+l)])
				}
			}
		}
		p.write(in, "copies to", p.subs(p.get(args[0], ""), "[]"))
	case "delete", "clear":
		p.write(in, name+"s", p.get(args[0], ""))
	case "recover":
		if res, ok := ci.(*ssa.Call); ok {
			p.addVal(res, "", ptSet{p.ext("panics"): true})
		}
	case "min", "max":
		return
	}
}

// fullSlice reports whether v is x[:n:n], to which append never writes.
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High != nil && s.Max == s.High
}

// readOnlyPkgs hold functions that do not change what their arguments point to.
var readOnlyPkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "unicode/utf16": true,
	"errors": true, "path": true, "path/filepath": true, "math": true, "math/bits": true, "cmp": true, "bytes": true, "fmt": true, "io": true, "os": true, "maps": true, "slices": true}

// readOnlyMethods do not change their receiver.
var readOnlyMethods = map[string]bool{"Len": true, "String": true, "Bytes": true, "Cap": true, "Available": true, "Error": true, "Position": true,
	"PositionFor": true, "Name": true, "Size": true, "Base": true, "Pos": true, "Offset": true, "Line": true, "LineCount": true, "LineStart": true,
	"IsValid": true, "Unwrap": true, "Err": true, "Is": true, "As": true, "Load": true, "RLock": true, "RUnlock": true}

// external summarises a call to a function of another package: the results may
// alias the arguments or be new, and arguments may be written.
func (p *Pts) external(ci ssa.CallInstruction, callee *ssa.Function, args []ssa.Value, recvLoc *ptLoc) {
	in := ci.(ssa.Instruction)
	name := funcName(callee)
	pkg := pkgOf(callee)
	all := ptSet{}
	for _, a := range args {
		for _, l := range p.leaves(a.Type()) {
			for x := range p.get(a, l) {
				all[x] = true
			}
		}
	}
	if recvLoc != nil {
		all[recvLoc] = true
		for x := range p.content[recvLoc] {
			all[x] = true
		}
	}
	reach := p.reach(all)
	// functions passed along may be called
	for l := range reach {
		if f := l.obj.fn; f != nil && len(f.Blocks) > 0 && inModule(pkgOf(f)) {
			p.edge(in.Parent(), f)
			for _, prm := range f.Params {
				for _, lf := range p.leaves(prm.Type()) {
					p.addVal(prm, lf, reach)
				}
			}
		}
	}
	// implicit calls of methods by the formatting functions
	if pkg == "fmt" || pkg == "errors" {
		for l := range all {
			if l.obj.kind != "box" {
				continue
			}
			for _, mn := range []string{"Error", "String", "Format", "GoString", "Unwrap", "Is", "As"} {
				ms := p.w.prog.MethodSets.MethodSet(l.obj.typ)
				for i := 0; i < ms.Len(); i++ {
					if ms.At(i).Obj().Name() == mn {
						if m := p.w.prog.MethodValue(ms.At(i)); m != nil && len(m.Blocks) > 0 && inModule(pkgOf(m)) {
							p.edge(in.Parent(), m)
							for _, lf := range p.leaves(m.Params[0].Type()) {
								p.addVal(m.Params[0], lf, p.content[p.sub(l, lf)])
							}
						}
					}
				}
			}
		}
	}
	written := ptSet{}
	recv := callee.Signature.Recv()
	switch {
	case recv != nil:
		_, ptr := recv.Type().(*types.Pointer)
		if (ptr || len(p.leaves(recv.Type())) > 0) && !readOnlyMethods[callee.Name()] {
			var rs ptSet
			if recvLoc != nil {
				rs = p.content[recvLoc]
			} else if len(args) > 0 {
				rs = p.get(args[0], "")
			}
			for x := range rs {
				written[x] = true
			}
		}
	case strings.HasPrefix(name, "fmt.Fprint") || name == "io.WriteString" || name == "io.Copy":
		for x := range p.get(args[0], "") {
			if x.obj.kind == "box" {
				for y := range p.content[x] {
					written[y] = true
				}
			} else {
				written[x] = true
			}
		}
	case pkg == "sort" && strings.HasPrefix(callee.Name(), "Search"), pkg == "sort" && strings.HasSuffix(callee.Name(), "AreSorted"), pkg == "sort" && callee.Name() == "SliceIsSorted":
	case pkg == "slices" && (strings.HasPrefix(callee.Name(), "Sort") && !strings.HasPrefix(callee.Name(), "Sorted") || callee.Name() == "Reverse" || callee.Name() == "Delete" || callee.Name() == "DeleteFunc" || callee.Name() == "Insert" || callee.Name() == "Compact" || callee.Name() == "Replace"),
		pkg == "maps" && (callee.Name() == "Copy" || callee.Name() == "DeleteFunc" || callee.Name() == "Insert"):
		for x := range p.get(args[0], "") {
			written[x] = true
		}
	case readOnlyPkgs[pkg] && !strings.HasPrefix(name, "fmt.Sscan") && !strings.HasPrefix(name, "fmt.Scan") && !strings.HasPrefix(name, "fmt.Append"):
	default:
		for x := range reach {
			written[x] = true
		}
	}
	if len(written) > 0 {
		p.write(in, "calls "+name+", which writes", written)
	}
	res, ok := ci.(*ssa.Call)
	if !ok {
		return
	}
	ls := p.leaves(res.Type())
	if len(ls) == 0 {
		return
	}
	nl := p.allocAt(res, "result of "+name, res.Type())
	for _, l := range ls {
		p.addVal(res, l, ptSet{nl: true})
		if freshResult(name) {
			continue
		}
		for _, a := range args {
			for _, al := range p.leaves(a.Type()) {
				if mayAlias(leafType(res.Type(), l), leafType(a.Type(), al)) {
					p.addVal(res, l, p.get(a, al))
				}
			}
		}
		if recvLoc != nil {
			p.addVal(res, l, reach)
		}
	}
	if !freshResult(name) {
		p.addCell(nl, reach)
		p.addCell(p.sub(nl, "[]"), reach)
	}
}

// freshResult lists calls whose result shares nothing with their arguments.
func freshResult(name string) bool {
	switch name {
	case "io.ReadAll", "os.ReadFile", "errors.New", "strings.Fields", "strings.Split", "strings.SplitN", "strings.FieldsFunc", "go/token.NewFileSet",
		"bytes.ToLower", "bytes.ToUpper", "bytes.Clone", "bytes.Repeat", "bytes.Join", "strings.NewReplacer":
		return true
	}
	return false
}

// reach is what can be reached from the locations through memory.
func (p *Pts) reach(from ptSet) ptSet {
	out := ptSet{}
	var todo []*ptLoc
	push := func(l *ptLoc) {
		if !out[l] {
			out[l] = true
			todo = append(todo, l)
		}
	}
	for l := range from {
		push(l)
	}
	byObj := map[*ptObj][]*ptLoc{}
	for l := range p.content {
		byObj[l.obj] = append(byObj[l.obj], l)
	}
	for len(todo) > 0 {
		l := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for _, c := range byObj[l.obj] {
			if strings.HasPrefix(c.path, l.path) {
				for x := range p.content[c] {
					push(x)
				}
			}
		}
	}
	return out
}

// reachable is the set of functions reachable over call edges.
func (p *Pts) reachable(from []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var todo []*ssa.Function
	for _, f := range from {
		if !out[f] {
			out[f] = true
			todo = append(todo, f)
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		for g := range p.edges[f] {
			if !out[g] {
				out[g] = true
				todo = append(todo, g)
			}
		}
	}
	return out
}

// eachWrite visits all recorded writes in a fixed order.
func (p *Pts) eachWrite(f func(w *ptWrite)) {
	var ws []*ptWrite
	for _, m := range p.writes {
		for _, w := range m {
			ws = append(ws, w)
		}
	}
	sort.Slice(ws, func(i, j int) bool {
		a, b := ws[i], ws[j]
		if a.in.Pos() != b.in.Pos() {
			return a.in.Pos() < b.in.Pos()
		}
		if x, y := a.in.Parent().String(), b.in.Parent().String(); x != y {
			return x < y
		}
		return a.what < b.what
	})
	for _, w := range ws {
		f(w)
	}
}

func (l *ptLoc) String() string {
	if l.obj.kind == "global" {
		return "package variable " + strings.TrimPrefix(l.obj.name, modPath+"/") + l.path
	}
	return l.obj.name + l.path
}

// leafType is the type of the leaf at a path of t.
func leafType(t types.Type, path string) types.Type {
	for path != "" {
		switch path[0] {
		case '.', '#':
			i := 1
			for i < len(path) && path[i] >= '0' && path[i] <= '9' {
				i++
			}
			n, _ := strconv.Atoi(path[1:i])
			switch u := t.Underlying().(type) {
			case *types.Struct:
				t = u.Field(n).Type()
			case *types.Tuple:
				t = u.At(n).Type()
			default:
				return t
			}
			path = path[i:]
		case '[':
			a, ok := t.Underlying().(*types.Array)
			if !ok {
				return t
			}
			t, path = a.Elem(), path[2:]
		default:
			return t
		}
	}
	return t
}

// mayAlias reports whether a result of type r can be (part of) an argument of
// type a.
func mayAlias(r, a types.Type) bool {
	ru, au := r.Underlying(), a.Underlying()
	if types.IsInterface(ru) || types.IsInterface(au) || types.Identical(ru, au) {
		return true
	}
	if rs, ok := ru.(*types.Slice); ok {
		if as, ok := au.(*types.Slice); ok {
			return types.Identical(rs.Elem(), as.Elem())
		}
		_, isPtr := au.(*types.Pointer)
		return isPtr // such as (*bytes.Buffer).Bytes
	}
	if rp, ok := ru.(*types.Pointer); ok {
		if as, ok := au.(*types.Slice); ok {
			return types.Identical(rp.Elem(), as.Elem())
		}
	}
	return false
}
