package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C11"] = checkShared
	checks["C12"] = checkSideEffects
	checks["C13"] = checkDeterminism
	checks["C14"] = checkSource
}

func (c *Ctx) pts() *Pts {
	p := newPts(c.w)
	p.solve()
	for _, fn := range p.fns {
		c.funcs[fn.String()] = true
	}
	n := 0
	for _, m := range p.writes {
		n += len(m)
	}
	c.note("points-to: %d functions, %d roots, %d objects, %d locations, %d writes", len(p.fns), len(p.roots), len(p.objs), len(p.locs), n)
	return p
}

func (p *Pts) globals() ptSet {
	out := ptSet{}
	for _, o := range p.objs {
		if o.kind == "global" {
			for k, l := range p.locs {
				_ = k
				if l.obj == o {
					out[l] = true
				}
			}
		}
	}
	return out
}

func (c *Ctx) construct(in ssa.Instruction, what string) string {
	return strings.ReplaceAll(in.Parent().String(), modPath, "bibtex") + " " + what
}

func checkShared(c *Ctx) {
	p := c.pts()
	live := p.reachable(p.roots)
	glob := map[*ptObj]bool{}
	for l := range p.reach(p.globals()) {
		if !l.obj.ext && l.obj.fn == nil {
			glob[l.obj] = true
		}
	}
	// closures that exported functions return live longer than the call
	esc := map[*ssa.Function]bool{}
	for _, r := range p.roots {
		rs := ptSet{}
		for _, b := range r.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range ret.Results {
					for _, l := range p.leaves(v.Type()) {
						for x := range p.get(v, l) {
							rs[x] = true
						}
					}
				}
			}
		}
		for l := range p.reach(rs) {
			if l.obj.fn != nil && len(l.obj.fn.FreeVars) > 0 {
				esc[l.obj.fn] = true
			}
		}
	}
	captured := map[*ssa.Function]map[*ptObj]bool{} // function -> objects kept by an escaping closure that runs it
	for f := range esc {
		fv := ptSet{}
		for _, v := range f.FreeVars {
			for _, l := range p.leaves(v.Type()) {
				for x := range p.get(v, l) {
					fv[x] = true
				}
			}
		}
		objs := map[*ptObj]bool{}
		for l := range p.reach(fv) {
			if !l.obj.ext {
				objs[l.obj] = true
			}
		}
		for g := range p.reachable([]*ssa.Function{f}) {
			if captured[g] == nil {
				captured[g] = map[*ptObj]bool{}
			}
			for o := range objs {
				captured[g][o] = true
			}
		}
	}
	p.eachWrite(func(w *ptWrite) {
		fn := w.in.Parent()
		if !live[fn] {
			return
		}
		bad := ""
		for l := range w.locs {
			switch {
			case l.obj.cat == "Biber" || l.obj.cat == "resolvers and renderers" || l.obj.cat == "arguments":
				bad = l.String()
			case glob[l.obj]:
				bad = l.String()
				if l.obj.kind != "global" {
					bad += ", which a package variable holds"
				}
			case captured[fn][l.obj]:
				bad = l.String() + ", which a returned function keeps between calls"
			}
			if bad != "" {
				break
			}
		}
		cn := c.construct(w.in, w.what)
		c.req(bad == "", "write to shared state", cn, c.pos(w.in.Pos()), "%s %s %s", fn, w.what, bad)
	})
	c.floor("write to shared state", 80)
	for _, fn := range p.fns {
		if !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.Convert); ok && isUnsafe(u.Type()) {
					c.fail("unsafe pointer", c.construct(in, "unsafe.Pointer"), c.pos(in.Pos()), "conversion to unsafe.Pointer defeats the analysis")
				}
			}
		}
	}
}

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func checkSource(c *Ctx) {
	for _, k := range keysOf(c.w.pkgs) {
		pk := c.w.pkgs[k]
		if k == "asts" {
			continue
		}
		for _, imp := range pk.Types.Imports() {
			c.req(imp.Path() != "unsafe" && imp.Path() != "reflect" && imp.Path() != "C", "import", k+" imports "+imp.Path(), "-",
				"package %q imports %s, with which strings can share memory with the source", k, imp.Path())
		}
	}
	p := c.pts()
	src := p.ext("source").obj
	p.eachWrite(func(w *ptWrite) {
		bad := false
		for l := range w.locs {
			bad = bad || l.obj == src
		}
		c.req(!bad, "write to the source", c.construct(w.in, w.what), c.pos(w.in.Pos()), "%s %s the caller's source", w.in.Parent(), w.what)
	})
	c.floor("write to the source", 80)
	check := func(label, pos string, from ptSet) {
		why := ""
		for l := range p.reach(from) {
			if l.obj == src {
				why = "the caller's source"
			}
		}
		c.req(why == "", "source retained", label, pos, "%s keeps a reference to %s", label, why)
	}
	n := 0
	for _, r := range p.roots {
		if pk := strings.TrimPrefix(pkgOf(r), modPath); pk == "/scanner" {
			continue // the scanner object is what holds the source while scanning
		}
		rs := ptSet{}
		for _, b := range r.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for _, v := range ret.Results {
					for _, l := range p.leaves(v.Type()) {
						for x := range p.get(v, l) {
							rs[x] = true
						}
					}
				}
			}
		}
		if len(rs) > 0 {
			n++
			check("the result of "+strings.ReplaceAll(r.String(), modPath, "bibtex"), c.pos(r.Pos()), rs)
		}
	}
	c.floor("source retained", 20)
	check("a package variable", "-", p.globals())
	check("the caller's file set", "-", ptSet{p.ext("file set"): true})
	if readFn := c.w.fn("parser", "ParseFile"); readFn == nil || len(p.vals[ptKey{readFn.Params[2], ""}]) == 0 {
		c.fail("source", "parser.ParseFile", "-", "the source parameter is not found")
	}
}

// allowed standard-library use, by package; nil means every function.
var quietPkgs = map[string]map[string]bool{
	"strings": nil, "strconv": nil, "unicode": nil, "unicode/utf8": nil, "unicode/utf16": nil, "sort": nil, "slices": nil, "maps": nil, "cmp": nil,
	"iter": nil, "errors": nil, "bytes": nil, "bufio": nil, "io": nil, "math": nil, "math/bits": nil, "go/token": nil, "go/scanner": nil, "path": nil,
	"container/list": nil, "container/heap": nil, "container/ring": nil, "sync": nil, "sync/atomic": nil, "regexp": nil, "text/scanner": nil, "html": nil,
	"unique": nil, "internal/abi": nil,
	"path/filepath": {"Base": true, "Ext": true, "Join": true, "Split": true, "Dir": true, "Clean": true, "IsAbs": true, "ToSlash": true, "FromSlash": true, "VolumeName": true, "Match": true, "Rel": true, "SplitList": true},
	"fmt": {"Sprint": true, "Sprintf": true, "Sprintln": true, "Errorf": true, "Fprint": true, "Fprintf": true, "Fprintln": true, "Append": true, "Appendf": true, "Appendln": true,
		"Sscan": true, "Sscanf": true, "Sscanln": true},
}

// readsFile lists the calls that open or read a file by name.
func readsFile(name string) bool { return name == "os.ReadFile" || name == "os.Open" }

func prints(name string) bool {
	return name == "fmt.Print" || name == "fmt.Printf" || name == "fmt.Println"
}

func checkSideEffects(c *Ctx) {
	p := c.pts()
	g := &gate{c: c, p: p, memo: map[ssa.Value]int{}, fnMemo: map[*ssa.Function]int{}}
	mode := c.w.typ("parser", "Mode")
	bit, ok := c.w.constInt("parser", "Trace")
	if mode == nil || !ok {
		panic(undecided{"parser.Trace not found"})
	}
	g.mode, g.bit = mode, bit
	fileSites := map[string]bool{}
	fns := append([]*ssa.Function{}, p.fns...)
	for _, fn := range c.w.funcs {
		if !p.isFn[fn] && fn.Synthetic == "" {
			fns = append(fns, fn) // the helpers of package asts too
		}
	}
	for _, fn := range fns {
		if fn.Pkg == nil && fn.Parent() == nil && !inModule(pkgOf(fn)) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				at := c.pos(in.Pos())
				if _, ok := in.(*ssa.Go); ok {
					c.fail("goroutine", c.construct(in, "go"), at, "%s starts a goroutine", fn)
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "print" || bi.Name() == "println") {
						c.fail("output", c.construct(in, bi.Name()), at, "%s writes to standard error", fn)
					}
					if ci.Common().IsInvoke() {
						c.hold("interface call", c.construct(in, ci.Common().Method.FullName()))
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Const:
						// the Trace bit may only be tested, not set
						if types.Identical(x.Type(), mode) && x.Value != nil {
							v, _ := constant.Int64Val(constant.ToInt(x.Value))
							bo, isBin := in.(*ssa.BinOp)
							test := isBin && (bo.Op == token.AND || bo.Op == token.AND_NOT || bo.Op == token.EQL || bo.Op == token.NEQ)
							c.req(v&bit == 0 || test, "trace flag", c.construct(in, "mode constant "+x.Value.String()), at, "%s sets the Trace flag itself", fn)
						}
					case *ssa.Global:
						if x.Pkg != nil && !inModule(x.Pkg.Pkg.Path()) {
							n := x.Pkg.Pkg.Path() + "." + x.Name()
							switch {
							case n == "os.Stdout":
								c.req(g.gated(b), "output only when tracing", c.construct(in, n), at, "%s uses standard output without the Trace flag being set", fn)
							case x.Pkg.Pkg.Path() == "io" || x.Pkg.Pkg.Path() == "errors" || x.Pkg.Pkg.Path() == "unicode" || strings.HasSuffix(n, "ErrUnexpectedEOF") ||
								x.Pkg.Pkg.Path() == "io/fs" || strings.HasPrefix(n, "os.Err") || strings.HasPrefix(n, "strconv.Err") || x.Pkg.Pkg.Path() == "bytes" || x.Pkg.Pkg.Path() == "bufio":
								c.hold("variable of another package", c.construct(in, n))
							default:
								c.fail("variable of another package", c.construct(in, n), at, "%s uses %s", fn, n)
							}
						}
					case *ssa.Function:
						pk := pkgOf(x)
						if inModule(pk) || len(x.Blocks) > 0 && x.Pkg == nil && inModule(pkgOf(x)) {
							continue
						}
						name := funcName(x)
						short := x.Name()
						allow, known := quietPkgs[pk]
						switch {
						case strings.HasSuffix(name, ".init"):
							c.hold("initialiser", name)
						case prints(name) && pkgOf(fn) != modPath+"/asts":
							c.req(g.gated(b), "output only when tracing", c.construct(in, name), at, "%s prints without the Trace flag being set", fn)
						case readsFile(name):
							fileSites[at] = true
						case pk == "os" && (strings.HasPrefix(name, "(*os.File).") && (short == "Close" || short == "Read" || short == "Stat")):
							c.hold("file read", c.construct(in, name))
						case known && (allow == nil || allow[short] || x.Signature.Recv() != nil):
							c.hold("call of another package", c.construct(in, name))
						default:
							c.fail("side effect", c.construct(in, name), at, "%s uses %s, which is not known to be free of side effects", fn, name)
						}
					}
				}
			}
		}
	}
	c.floor("call of another package", 50)
	c.fileReads(fileSites)
}

// fileReads interprets ParseFile: a file is read only if no source is given,
// and then the named one.
func (c *Ctx) fileReads(sites map[string]bool) {
	fn := c.must("parser", "ParseFile")
	e, st := c.eng()
	st = st.clone()
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, mkSym("p:"+p.Name(), p.Type()))
	}
	st.setNil(args[0], false)
	seen := map[string]bool{}
	e.hooks.Key = func(st *State) string { return "" }
	e.hooks.NonNil = func(*State, *Term) bool { return true }
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn != nil && readsFile(cl.name) {
			site := c.pos(cl.instr.Pos())
			seen[site] = true
			n, known := st.isNil(args[2])
			okSrc := known && n
			okName := cl.args[0] == args[1]
			c.req(okSrc && okName, "file read only without a source", c.construct(cl.instr, cl.name), site,
				"%s is called with %s when the source is nil=%v (known %v)", cl.name, cl.args[0], n, known)
			return nil, false
		}
		if cl.fn != nil && inModule(pkgOf(cl.fn)) {
			if reachesFile(cl.fn, map[*ssa.Function]bool{}) {
				return nil, false
			}
			return e.unknownCall(st, cl), true
		}
		return nil, false
	}
	e.run(st, fn, args, nil, "ParseFile")
	c.absorb(e, "none")
	for _, s := range keysOf(sites) {
		c.req(seen[s], "file read reached from ParseFile", s, s, "a file is read at %s, outside the reading of ParseFile's source", s)
	}
	c.floor("file read only without a source", 1)
}

// reachesFile reports whether fn calls a file-reading function statically.
func reachesFile(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok {
					if readsFile(funcName(f)) || inModule(pkgOf(f)) && reachesFile(f, seen) {
						return true
					}
				}
			}
		}
	}
	return false
}

// gate decides whether code runs only with the Trace flag set.
type gate struct {
	c      *Ctx
	p      *Pts
	mode   types.Type
	bit    int64
	memo   map[ssa.Value]int // 1 in progress, 2 implies, 3 does not
	fnMemo map[*ssa.Function]int
	flags  map[string][]ssa.Value
	calls  map[*ssa.Function][]ssa.Instruction
}

// implies reports whether v == truth implies that the flag is set.
func (g *gate) implies(v ssa.Value, truth bool) bool {
	if cst, ok := v.(*ssa.Const); ok {
		return cst.Value != nil && cst.Value.Kind() == constant.Bool && constant.BoolVal(cst.Value) != truth
	}
	if !truth {
		switch x := v.(type) {
		case *ssa.UnOp:
			return x.Op == token.NOT && g.implies(x.X, true)
		case *ssa.BinOp:
			return x.Op == token.EQL && g.maskTest(x)
		}
		return false
	}
	switch g.memo[v] {
	case 1, 2:
		return true // inductively
	case 3:
		return false
	}
	g.memo[v] = 1
	r := g.implies1(v)
	g.memo[v] = 3
	if r {
		g.memo[v] = 2
	}
	return r
}

func (g *gate) implies1(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT:
			return g.implies(x.X, false)
		case token.MUL:
			return g.flagLoad(x.X)
		}
	case *ssa.Field:
		return g.fieldFlag(x.X.Type(), x.Field)
	case *ssa.BinOp:
		switch x.Op {
		case token.NEQ, token.GTR:
			return g.maskTest(x)
		case token.EQL:
			// mode & Trace == Trace
			return g.masked(x.X) && isConstBit(x.Y, g.bit) || g.masked(x.Y) && isConstBit(x.X, g.bit)
		case token.AND:
			return g.implies(x.X, true) || g.implies(x.Y, true)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !g.implies(e, true) && !g.gated(x.Block().Preds[i]) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !g.p.isFn[f] {
			return false
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if len(r.Results) != 1 || !g.implies(r.Results[0], true) && !g.gatedIn(b) {
					return false
				}
			}
		}
		return true
	case *ssa.Parameter:
		fn := x.Parent()
		cs := g.callers(fn)
		if len(cs) == 0 || g.p.taken[fn] || isRoot(g.p, fn) {
			return false
		}
		idx := -1
		for i, q := range fn.Params {
			if q == x {
				idx = i
			}
		}
		for _, ci := range cs {
			if !g.implies(commonOf(ci).Args[idx], true) {
				return false
			}
		}
		return true
	}
	return false
}

func isRoot(p *Pts, fn *ssa.Function) bool {
	for _, r := range p.roots {
		if r == fn {
			return true
		}
	}
	return false
}

func isConstBit(v ssa.Value, bit int64) bool {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(constant.ToInt(k.Value))
	return ok && n == bit
}

// masked reports whether v is mode & Trace.
func (g *gate) masked(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Convert:
			v = x.X
			continue
		}
		break
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.AND {
		return false
	}
	return isConstBit(b.Y, g.bit) && types.Identical(b.X.Type(), g.mode) || isConstBit(b.X, g.bit) && types.Identical(b.Y.Type(), g.mode)
}

// maskTest reports whether x compares mode & Trace with zero.
func (g *gate) maskTest(x *ssa.BinOp) bool {
	return g.masked(x.X) && isConstBit(x.Y, 0) || g.masked(x.Y) && isConstBit(x.X, 0)
}

// flagLoad reports whether the boolean at addr is only ever set from the flag.
func (g *gate) flagLoad(addr ssa.Value) bool {
	switch x := addr.(type) {
	case *ssa.FieldAddr:
		return g.fieldFlag(deref(x.X.Type()), x.Field)
	case *ssa.Alloc:
		for _, r := range *x.Referrers() {
			switch y := r.(type) {
			case *ssa.Store:
				if y.Addr != x || !g.implies(y.Val, true) {
					return false
				}
			case *ssa.UnOp:
			default:
				return false
			}
		}
		return true
	}
	return false
}

func (g *gate) fieldFlag(t types.Type, field int) bool {
	for _, fn := range g.c.w.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || fa.Field != field || !types.Identical(deref(fa.X.Type()), t) {
					continue
				}
				for _, r := range *fa.Referrers() {
					switch y := r.(type) {
					case *ssa.Store:
						if y.Addr != ssa.Value(fa) || !g.implies(y.Val, true) {
							return false
						}
					case *ssa.UnOp:
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

func (g *gate) callers(fn *ssa.Function) []ssa.Instruction {
	if g.calls == nil {
		g.calls = map[*ssa.Function][]ssa.Instruction{}
		for _, f := range g.p.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if t := ci.Common().StaticCallee(); t != nil {
							g.calls[t] = append(g.calls[t], in)
						}
					}
				}
			}
		}
	}
	return g.calls[fn]
}

// gatedIn reports whether block b of its function runs only with the flag set,
// judged within the function.
func (g *gate) gatedIn(b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		i, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		if g.implies(i.Cond, pr.Succs[0] == d) {
			return true
		}
	}
	return false
}

// gated reports whether block b runs only with the flag set, in all calls.
func (g *gate) gated(b *ssa.BasicBlock) bool {
	if g.gatedIn(b) {
		return true
	}
	fn := b.Parent()
	switch g.fnMemo[fn] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	cs := g.callers(fn)
	if fn.Parent() != nil && !g.p.taken[fn] || len(cs) == 0 && fn.Parent() != nil {
		// a closure: judged where it is made
		g.fnMemo[fn] = 1
		ok := false
		for _, pb := range fn.Parent().Blocks {
			for _, in := range pb.Instrs {
				if mc, is := in.(*ssa.MakeClosure); is && mc.Fn == fn {
					ok = g.gated(pb)
				}
			}
		}
		g.fnMemo[fn] = 3
		if ok {
			g.fnMemo[fn] = 2
		}
		return ok
	}
	if len(cs) == 0 || g.p.taken[fn] || isRoot(g.p, fn) {
		g.fnMemo[fn] = 3
		return false
	}
	g.fnMemo[fn] = 1
	for _, ci := range cs {
		if !g.gated(ci.Block()) {
			g.fnMemo[fn] = 3
			return false
		}
	}
	g.fnMemo[fn] = 2
	return true
}

// ---------------------------------------------------------------------------

// randomPkgs make results depend on something else than the input.
var randomPkgs = []string{"time", "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "unsafe", "runtime", "runtime/debug", "os/user", "net", "os/exec", "syscall", "C"}

func checkDeterminism(c *Ctx) {
	p := c.pts()
	var roots []*ssa.Function
	for _, r := range p.roots {
		// String and friends of types that never reach a result are for debugging
		if n := r.Name(); r.Signature.Recv() != nil && (n == "String" || n == "GoString" || n == "Format") {
			continue
		}
		roots = append(roots, r)
	}
	live := p.reachable(roots)
	g := &gate{c: c, p: p, memo: map[ssa.Value]int{}, fnMemo: map[*ssa.Function]int{}, mode: c.w.typ("parser", "Mode")}
	g.bit, _ = c.w.constInt("parser", "Trace")
	for _, fn := range p.fns {
		if !live[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				at := c.pos(in.Pos())
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok {
						why := c.mapRange(x)
						c.req(why == "", "map iteration", c.construct(in, "range over map"), at, "the order of a map iteration shows: %s", why)
					}
				case *ssa.Select:
					c.fail("scheduling", c.construct(in, "select"), at, "select depends on scheduling")
				case *ssa.Go:
					c.fail("scheduling", c.construct(in, "go"), at, "goroutines make the order of effects depend on scheduling")
				case *ssa.Convert:
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr && isUnsafe(x.X.Type()) {
						c.fail("address", c.construct(in, "uintptr"), at, "an address becomes a number")
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch x := (*op).(type) {
					case *ssa.Function:
						pk := pkgOf(x)
						for _, r := range randomPkgs {
							if pk == r && !inModule(pk) {
								c.fail("nondeterministic source", c.construct(in, funcName(x)), at, "%s uses %s", fn, funcName(x))
							}
						}
						if pk == "os" && !readsFile(funcName(x)) && !strings.HasPrefix(funcName(x), "(*os.File)") {
							c.fail("nondeterministic source", c.construct(in, funcName(x)), at, "%s uses %s", fn, funcName(x))
						}
						if pk == "maps" && (x.Name() == "Keys" || x.Name() == "Values" || x.Name() == "All") || strings.HasPrefix(funcName(x), "maps.Keys[") || strings.HasPrefix(funcName(x), "maps.Values[") || strings.HasPrefix(funcName(x), "maps.All[") {
							why := c.mapSeq(in)
							c.req(why == "", "map iteration", c.construct(in, funcName(x)), at, "the order of a map iteration shows: %s", why)
						}
					case *ssa.Global:
						if x.Pkg != nil && !inModule(x.Pkg.Pkg.Path()) && x.Pkg.Pkg.Path() == "os" && x.Name() == "Args" {
							c.fail("nondeterministic source", c.construct(in, "os.Args"), at, "%s uses os.Args", fn)
						}
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					_, name, _ := calleeInfo(ci.Common())
					if strings.HasPrefix(name, "fmt.") && !g.gated(b) {
						why := c.fmtPointers(ci, name)
						c.req(why == "", "formatting", c.construct(in, name), at, "formatting prints an address: %s", why)
					}
				}
			}
		}
	}
	c.floor("map iteration", 1)
	c.floor("formatting", 15)
}

// pureText lists calls whose result depends on their arguments only.
func pureCallee(cc *ssa.CallCommon) bool {
	pk, name, _ := calleeInfo(cc)
	switch pk {
	case "strings", "strconv", "unicode", "unicode/utf8", "path", "path/filepath", "cmp", "math":
		return !strings.HasPrefix(name, "(")
	}
	return name == "fmt.Sprintf" || name == "fmt.Sprint"
}

// mapRange explains how the order of a map iteration can show, or returns "".
func (c *Ctx) mapRange(r *ssa.Range) string {
	fn := r.Parent()
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	fi := infoOf(fn)
	var l *Loop
	for _, x := range fi.loops {
		if x.header == head {
			l = x
		}
	}
	if l == nil {
		return "its loop is not recognised"
	}
	in := func(b *ssa.BasicBlock) bool { return l.blocks[b] }
	// values derived from the element
	taint := map[ssa.Value]bool{next: true}
	keyOf := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for _, b := range fn.Blocks {
			if !in(b) {
				continue
			}
			for _, i := range b.Instrs {
				v, ok := i.(ssa.Value)
				if !ok || taint[v] {
					continue
				}
				for _, op := range i.Operands(nil) {
					if *op != nil && taint[*op] {
						taint[v] = true
						ch = true
						if e, ok := v.(*ssa.Extract); ok && e.Tuple == next && e.Index == 1 {
							keyOf[v] = true
						}
						break
					}
				}
			}
		}
	}
	// the loop ends only when the map is exhausted
	for _, b := range fn.Blocks {
		if !in(b) {
			continue
		}
		for _, s := range b.Succs {
			if !in(s) && b != head {
				return "the loop can be left early at " + c.pos(b.Instrs[len(b.Instrs)-1].Pos())
			}
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Return, *ssa.Panic:
				return "the loop can be left early at " + c.pos(i.Pos())
			case *ssa.Store:
				if a, ok := x.Addr.(*ssa.IndexAddr); ok && isVarargs(a.X) {
					continue
				}
				if taint[x.Val] || taint[x.Addr] || effectOrder(x) {
					return "a store at " + c.pos(i.Pos())
				}
			case *ssa.MapUpdate:
				if !keyOf[x.Key] {
					return "a map update under another key at " + c.pos(i.Pos())
				}
			case *ssa.Send, *ssa.Defer, *ssa.Go:
				return "an effect at " + c.pos(i.Pos())
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if !c.sortedAfter(x, l) {
							return "elements are appended at " + c.pos(i.Pos()) + " to a slice that is not sorted before it is used"
						}
					case "len", "cap", "min", "max", "delete", "clear":
					default:
						return "a call at " + c.pos(i.Pos())
					}
					continue
				}
				if !pureCallee(&x.Call) {
					return "a call at " + c.pos(i.Pos())
				}
			case *ssa.Phi:
				if i.Block() != head {
					continue
				}
				// carried over iterations: a slice to be sorted, or a sum
				for ei, e := range x.Edges {
					if !in(x.Block().Preds[ei]) {
						continue
					}
					if !c.orderFree(x, e, l, 0) {
						return "a value carried from one iteration to the next at " + c.pos(x.Pos())
					}
				}
			}
		}
	}
	return ""
}

func isVarargs(v ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	return ok && a.Comment == "varargs"
}

func effectOrder(x *ssa.Store) bool {
	_, isConst := x.Val.(*ssa.Const)
	return !isConst
}

// orderFree reports whether the loop-carried value e of phi is independent of
// the order of iterations.
func (c *Ctx) orderFree(phi *ssa.Phi, e ssa.Value, l *Loop, d int) bool {
	if d > 8 {
		return false
	}
	if e == ssa.Value(phi) {
		return true
	}
	switch x := e.(type) {
	case *ssa.Const:
		return true
	case *ssa.BinOp:
		if x.X == ssa.Value(phi) || x.Y == ssa.Value(phi) {
			switch x.Op {
			case token.ADD, token.MUL, token.AND, token.OR, token.XOR:
				return isIntType(x.Type())
			case token.SUB:
				return isIntType(x.Type()) && x.X == ssa.Value(phi)
			}
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				return x.Call.Args[0] == ssa.Value(phi) || c.orderFree(phi, x.Call.Args[0], l, d+1)
			case "min", "max":
				return true
			}
		}
	case *ssa.Phi:
		if !l.blocks[x.Block()] {
			return false
		}
		for _, y := range x.Edges {
			if !c.orderFree(phi, y, l, d+1) {
				return false
			}
		}
		return true
	}
	// the i of s[i] = k
	return false
}

// sortedAfter reports whether the slice appended to in the loop is sorted after
// the loop before anything else uses it.
func (c *Ctx) sortedAfter(app *ssa.Call, l *Loop) bool {
	// all versions of the slice
	vers := map[ssa.Value]bool{app: true}
	for ch := true; ch; {
		ch = false
		for v := range vers {
			for _, u := range *v.Referrers() {
				var n ssa.Value
				switch x := u.(type) {
				case *ssa.Phi:
					n = x
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && x.Call.Args[0] == v {
						n = x
					}
				case *ssa.ChangeType:
					n = x
				}
				if n != nil && !vers[n] {
					vers[n], ch = true, true
				}
			}
		}
	}
	var sorts, uses []ssa.Instruction
	for v := range vers {
		for _, u := range *v.Referrers() {
			if uv, ok := u.(ssa.Value); ok && vers[uv] {
				continue
			}
			if l.blocks[u.Block()] {
				if cl, ok := u.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
						continue
					}
				}
				return false
			}
			if isSort(u) {
				sorts = append(sorts, u)
				continue
			}
			if mi, ok := u.(*ssa.MakeInterface); ok {
				all := len(*mi.Referrers()) > 0
				for _, w := range *mi.Referrers() {
					if isSort(w) {
						sorts = append(sorts, w)
					} else {
						all = false
					}
				}
				if all {
					continue
				}
			}
			if cl, ok := u.(*ssa.Call); ok {
				if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
					continue
				}
			}
			uses = append(uses, u)
		}
	}
	if len(uses) == 0 {
		return true
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && indexOf(s) < indexOf(u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func indexOf(in ssa.Instruction) int {
	for i, x := range in.Block().Instrs {
		if x == in {
			return i
		}
	}
	return -1
}

func isSort(u ssa.Instruction) bool {
	ci, ok := u.(*ssa.Call)
	if !ok {
		return false
	}
	pk, name, fn := calleeInfo(&ci.Call)
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		name, pk = funcName(o), pkgOf(o)
	}
	switch name {
	case "sort.Strings", "sort.Ints", "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	_ = pk
	return false
}

// mapSeq judges maps.Keys and the like: the sequence must be sorted at once.
func (c *Ctx) mapSeq(in ssa.Instruction) string {
	v, ok := in.(*ssa.Call)
	if !ok {
		return "the iterator function is used as a value"
	}
	for _, u := range *v.Referrers() {
		var x ssa.Instruction = u
		if ct, ok := u.(*ssa.ChangeType); ok {
			if rs := *ct.Referrers(); len(rs) == 1 {
				x = rs[0]
			}
		}
		cl, ok := x.(*ssa.Call)
		if !ok {
			return "the sequence is used at " + c.pos(u.Pos())
		}
		_, name, fn := calleeInfo(&cl.Call)
		if fn != nil && fn.Origin() != nil {
			name = funcName(fn.Origin())
		}
		switch name {
		case "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		case "slices.Collect":
			if !c.sortedAfter(cl, &Loop{blocks: map[*ssa.BasicBlock]bool{}}) {
				return "the collected keys are used unsorted"
			}
		default:
			return "the sequence is passed to " + name
		}
	}
	return ""
}

// fmtPointers explains how a formatting call can print an address, or returns "".
func (c *Ctx) fmtPointers(ci ssa.CallInstruction, name string) string {
	cc := ci.Common()
	if !cc.Signature().Variadic() {
		return ""
	}
	va := cc.Args[len(cc.Args)-1]
	if k, ok := va.(*ssa.Const); ok && k.IsNil() {
		return ""
	}
	var vs []byte
	hasFmt := strings.HasSuffix(name, "f")
	if hasFmt {
		f, ok := cc.Args[len(cc.Args)-2].(*ssa.Const)
		if ok && f.Value != nil && f.Value.Kind() == constant.String {
			s := constant.StringVal(f.Value)
			vs = verbs(s)
			for i := 0; i+1 < len(s); i++ {
				if s[i] == '%' && s[i+1] == 'p' {
					return "%p"
				}
				if s[i] == '%' {
					i++
				}
			}
		}
	}
	sl, ok := va.(*ssa.Slice)
	if !ok {
		return "" // passed on from a caller, which is judged itself
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return ""
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		idx := int(k.Int64())
		verb := byte('v')
		if hasFmt && idx < len(vs) {
			verb = vs[idx]
		}
		for _, w := range *ia.Referrers() {
			s, ok := w.(*ssa.Store)
			if !ok || s.Addr != ssa.Value(ia) {
				continue
			}
			if verb == 'T' {
				continue
			}
			if verb == 'p' {
				return "%p"
			}
			var ts []types.Type
			switch x := s.Val.(type) {
			case *ssa.MakeInterface:
				ts = append(ts, x.X.Type())
			case *ssa.ChangeInterface:
				ts = append(ts, c.dynTypes(x.X.Type())...)
			case *ssa.Const:
				continue
			default:
				ts = append(ts, c.dynTypes(s.Val.Type())...)
			}
			for _, t := range ts {
				if why := c.printsAddr(t, 0, true, map[types.Type]bool{}); why != "" {
					return fmt.Sprintf("%%%c of %s: %s", verb, typeShort(t), why)
				}
			}
		}
	}
	return ""
}

// dynTypes lists the module's types an interface value may hold.
func (c *Ctx) dynTypes(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return []types.Type{t}
	}
	if types.Implements(t, errIface) {
		return nil
	}
	var out []types.Type
	for _, k := range keysOf(c.w.pkgs) {
		out = append(out, c.implementers(k, it)...)
	}
	return out
}

// printsAddr explains how printing a value of type t shows an address.
func (c *Ctx) printsAddr(t types.Type, depth int, methods bool, seen map[types.Type]bool) string {
	if methods {
		for _, m := range []string{"Error", "String", "Format"} {
			if f, ok := methodSig(t, m); ok {
				if m == "Format" || f.Params().Len() == 0 && f.Results().Len() == 1 {
					return ""
				}
			}
		}
	}
	if seen[t] {
		return ""
	}
	seen[t] = true
	defer delete(seen, t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return "an unsafe pointer"
		}
	case *types.Pointer:
		if depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return c.printsAddr(u.Elem(), 1, false, seen)
			}
		}
		return "a pointer " + typeShort(t)
	case *types.Signature, *types.Chan:
		return "a " + typeShort(t)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if why := c.printsAddr(f.Type(), depth+1, f.Exported(), seen); why != "" {
				return "field " + f.Name() + " is " + why
			}
		}
	case *types.Slice:
		return c.printsAddr(u.Elem(), depth+1, true, seen)
	case *types.Array:
		return c.printsAddr(u.Elem(), depth+1, true, seen)
	case *types.Map:
		if why := c.printsAddr(u.Key(), depth+1, true, seen); why != "" {
			return why
		}
		return c.printsAddr(u.Elem(), depth+1, true, seen)
	case *types.Interface:
		for _, d := range c.dynTypes(t) {
			if why := c.printsAddr(d, depth+1, methods, seen); why != "" {
				return "it may hold " + why
			}
		}
	}
	return ""
}

func methodSig(t types.Type, name string) (*types.Signature, bool) {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			s, ok := ms.At(i).Type().(*types.Signature)
			return s, ok
		}
	}
	return nil, false
}
