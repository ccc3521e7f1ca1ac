package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C30"] = checkSources }

// checkSources interprets ParseFile for every kind of source and looks at what
// the scanner is given.
func checkSources(c *Ctx) {
	fn := c.must("parser", "ParseFile")
	initFn := c.must("scanner", "Scanner.Init")
	if len(fn.Params) != 4 {
		panic(undecided{"ParseFile has other parameters"})
	}
	bufT := c.stdType("bytes", "Buffer")
	rdT := c.stdType("io", "Reader")
	type kase struct {
		name  string
		make  func(e *Eng, st *State) *Term                  // the source
		want  func(e *Eng, st *State, src, name *Term) *Term // its text; nil if it must fail
		fails bool
		reads string // the call that may fail
	}
	str := types.Typ[types.String]
	bytesT := types.NewSlice(types.Typ[types.Uint8])
	read := func(op string, a *Term) *Term { return mkOp("read:"+op, bytesT, a) }
	cases := []kase{
		{name: "string", make: func(e *Eng, st *State) *Term { return mkIface(str, mkSym("s", str)) },
			want: func(e *Eng, st *State, src, _ *Term) *Term { return src.args[0] }},
		{name: "empty string", make: func(e *Eng, st *State) *Term { return mkIface(str, cStr("")) },
			want: func(e *Eng, st *State, src, _ *Term) *Term { return cStr("") }},
		{name: "[]byte", make: func(e *Eng, st *State) *Term {
			v := mkSym("b", bytesT)
			st.setNil(v, false)
			return mkIface(bytesT, v)
		}, want: func(e *Eng, st *State, src, _ *Term) *Term { return st.bytesAsString(src.args[0]) }},
		{name: "nil []byte", make: func(e *Eng, st *State) *Term { return mkIface(bytesT, tNil) },
			want: func(e *Eng, st *State, src, _ *Term) *Term { return cStr("") }},
		{name: "*bytes.Buffer", make: func(e *Eng, st *State) *Term {
			v := mkSym("buf", types.NewPointer(bufT))
			st.setNil(v, false)
			return mkIface(types.NewPointer(bufT), v)
		}, want: func(e *Eng, st *State, src, _ *Term) *Term { return st.builderGet(src.args[0]) }},
		{name: "nil *bytes.Buffer", fails: true, make: func(e *Eng, st *State) *Term { return mkIface(types.NewPointer(bufT), tNil) }},
		{name: "io.Reader", reads: "io.ReadAll", make: func(e *Eng, st *State) *Term { return readerSym(st, rdT, bufT) },
			want: func(e *Eng, st *State, src, _ *Term) *Term { return st.bytesAsString(read("io.ReadAll", src)) }},
		{name: "no source", reads: "os.ReadFile", make: func(e *Eng, st *State) *Term { return tNil },
			want: func(e *Eng, st *State, _, name *Term) *Term { return st.bytesAsString(read("os.ReadFile", name)) }},
		{name: "int", fails: true, make: func(e *Eng, st *State) *Term { return mkIface(types.Typ[types.Int], mkSym("i", types.Typ[types.Int])) }},
		{name: "*string", fails: true, make: func(e *Eng, st *State) *Term {
			v := mkSym("ps", types.NewPointer(str))
			return mkIface(types.NewPointer(str), v)
		}},
		{name: "[]string", fails: true, make: func(e *Eng, st *State) *Term {
			return mkIface(types.NewSlice(str), mkSym("ss", types.NewSlice(str)))
		}},
	}
	for _, k := range cases {
		e, st := c.eng()
		st = st.clone()
		args := []*Term{mkSym("fset", fn.Params[0].Type()), mkSym("filename", str), k.make(e, st), mkSym("mode", fn.Params[3].Type())}
		st.setNil(args[0], false)
		problem := func(f string, a ...any) {
			c.fail("source kind", k.name, c.pos(fn.Pos()), "ParseFile with a source of kind %s: %s", k.name, fmt.Sprintf(f, a...))
		}
		nfail := len(c.fails)
		e.hooks.Key = func(st *State) string { return fmt.Sprint(st.ghost["src.given"] != nil) }
		e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
			if cl.fn == initFn {
				st = st.clone()
				src := st.bytesAsString(cl.args[2])
				if cl.args[2] == tNil {
					src = cStr("")
				}
				if st.ghost["src.given"] != nil {
					problem("the scanner is initialised twice")
				}
				st.ghost["src.given"] = src
				if k.fails {
					problem("%s is parsed although the source is invalid", src)
				} else if w := k.want(e, st, args[2], args[1]); src != w {
					problem("the scanner is given %s instead of %s", src, w)
				}
				st.havocAll(e.freshName(st, "mem", cl.instr), cl.args[:1])
				return []Outcome{{st: st, ret: tUnit}}, true
			}
			if cl.fn != nil && inModule(pkgOf(cl.fn)) && !reaches(cl.fn, initFn, map[*ssa.Function]bool{}) && !reachesRead(cl.fn, map[*ssa.Function]bool{}) {
				return e.unknownCall(st, cl), true
			}
			return nil, false
		}
		nok, nerr := 0, 0
		for _, o := range e.run(st, fn, args, nil, "ParseFile") {
			if o.panic != nil {
				continue
			}
			f, er := o.ret.args[0], o.ret.args[1]
			given := o.st.ghost["src.given"] != nil
			fNil, fk := o.st.isNil(f)
			eNil, ek := o.st.isNil(er)
			switch {
			case given:
				nok++
			case k.fails || k.reads != "":
				nerr++
				if !fk || !fNil {
					problem("the source cannot be read but the file returned is %s", f)
				}
				if !ek || eNil {
					problem("the source cannot be read but no error is returned")
				}
			default:
				problem("nothing is parsed")
			}
		}
		if !k.fails && nok == 0 {
			problem("no path parses the source")
		}
		if (k.fails || k.reads != "") && nerr == 0 {
			problem("no path reports a failure")
		}
		c.absorb(e, "none")
		if len(c.fails) == nfail {
			c.hold("source kind", fmt.Sprintf("%s: %d parsing and %d failing outcomes", k.name, nok, nerr))
		}
	}
	// Biber.Parse hands its reader on
	bp := c.must("", "Biber.Parse")
	e, st := c.eng()
	st = st.clone()
	r := readerSym(st, rdT, bufT)
	b := mkSym("b", bp.Params[0].Type())
	st.setNil(b, false)
	n := 0
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn == fn {
			n++
			ok := cl.args[2] == r || cl.args[2].kind == KIface && cl.args[2].args[0] == r
			c.req(ok, "reader handed on", "Biber.Parse", c.pos(cl.instr.Pos()), "Biber.Parse passes %s to ParseFile instead of its reader", cl.args[2])
			return e.unknownCall(st, cl), true
		}
		return nil, false
	}
	e.run(st, bp, []*Term{b, r}, nil, "Parse")
	c.absorb(e, "none")
	c.req(n > 0, "reader handed on", "Biber.Parse", c.pos(bp.Pos()), "Biber.Parse does not call ParseFile")
	c.floor("source kind", len(cases))
}

// readerSym is an io.Reader of an unknown type that is none of the other kinds.
func readerSym(st *State, rdT, bufT types.Type) *Term {
	r := mkSym("r", rdT)
	st.setNil(r, false)
	for _, t := range []types.Type{types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), types.NewPointer(bufT)} {
		st.assumeDyn(r, typeID(t), false)
	}
	return r
}

func (c *Ctx) stdType(pkg, name string) types.Type {
	for _, p := range c.w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if tn, ok := p.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	panic(undecided{"type " + pkg + "." + name + " not found"})
}

func reaches(fn, target *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	if fn == target {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if f, ok := (*op).(*ssa.Function); ok && inModule(pkgOf(f)) && reaches(f, target, seen) {
					return true
				}
			}
		}
	}
	return false
}

// reachesRead reports whether fn reads a source.
func reachesRead(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.FullName() == "(io.Reader).Read" {
				return true
			}
			for _, op := range in.Operands(nil) {
				f, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				n := funcName(f)
				if readsFile(n) || pkgOf(f) == "io" || n == "(*bytes.Buffer).Bytes" || n == "(*bytes.Buffer).ReadFrom" || inModule(pkgOf(f)) && reachesRead(f, seen) {
					return true
				}
			}
		}
	}
	return false
}
