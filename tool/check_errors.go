package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkErrors }

var errIface = errType.Underlying().(*types.Interface)

// errResult is the index of the error result of a signature, or -1.
func errResult(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if types.Identical(sig.Results().At(i).Type(), errType) {
			return i
		}
	}
	return -1
}

func errParam(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if types.Identical(t, errType) {
			return true
		}
	}
	return false
}

// calleeInfo describes a call site for the error rule.
func calleeInfo(cc *ssa.CallCommon) (pkg, name string, fn *ssa.Function) {
	if cc.IsInvoke() {
		if cc.Method.Pkg() != nil {
			pkg = cc.Method.Pkg().Path()
		}
		return pkg, cc.Method.FullName(), nil
	}
	if f := cc.StaticCallee(); f != nil {
		return pkgOf(f), funcName(f), f
	}
	return "", "", nil
}

// makesErrors are calls whose error result is not a failure of theirs.
func makesErrors(name string) bool {
	switch name {
	case "fmt.Errorf", "errors.New", "errors.Join", "errors.Unwrap", "(error).Error", "context.Cause",
		"fmt.Print", "fmt.Println", "fmt.Printf":
		return true
	}
	return strings.HasPrefix(name, "(*strings.Builder)") || strings.HasPrefix(name, "(*bytes.Buffer).Write")
}

// errorSources lists the calls of fn that can fail.
func errorSources(fn *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := ci.Common()
			if _, isB := cc.Value.(*ssa.Builtin); isB || errResult(cc.Signature()) < 0 {
				continue
			}
			if _, name, _ := calleeInfo(cc); makesErrors(name) {
				continue
			}
			out = append(out, ci)
		}
	}
	return out
}

// holdsErr reports whether err wraps target, also through a wrapper type with
// an Unwrap method.
func (c *Ctx) holdsErr(st *State, err, target *Term) bool {
	if wraps(err, target) {
		return true
	}
	if err.isOp("err:fmt.Errorf") || err.isOp("err:errors.Join") {
		args := err.args
		var vs []byte
		if err.op == "err:fmt.Errorf" {
			f, _ := err.args[0].isStr()
			vs, args = verbs(f), err.args[1:]
		}
		for i, a := range args {
			if (vs == nil || i < len(vs) && vs[i] == 'w') && a.kind == KIface && c.holdsErr(st, a, target) {
				return true
			}
		}
		return false
	}
	if err.kind == KIface && err.typ != nil {
		v := err.args[0]
		dt, ok := st.dynOf(err)
		if !ok || c.method(dt, "Unwrap") == nil {
			return false
		}
		if s := derefStruct(v.typ); s != nil {
			for i := 0; i < s.NumFields(); i++ {
				if f := st.load(mkField(v, i)); f != nil && (f == target || c.holdsErr(st, f, target)) {
					return true
				}
			}
		}
		if v.kind == KAgg {
			for _, f := range v.args {
				if f == target || c.holdsErr(st, f, target) {
					return true
				}
			}
		}
	}
	return false
}

func checkErrors(c *Ctx) {
	callers := map[*ssa.Function]bool{} // statically called within the module
	sources := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range c.w.funcs {
		sources[fn] = errorSources(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil {
						callers[f] = true
					}
				}
			}
		}
	}
	// a function that may fail inside without an error result of its own is
	// judged in its callers
	inner := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, fn := range c.w.funcs {
			if inner[fn] || errResult(fn.Signature) >= 0 {
				continue
			}
			has := len(sources[fn]) > 0
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if f := ci.Common().StaticCallee(); f != nil && inner[f] {
							has = true
						}
					}
				}
			}
			if has {
				inner[fn], ch = true, true
			}
		}
	}
	exported := func(fn *ssa.Function) bool { return fn.Object() != nil && fn.Object().Exported() }
	callsInner := func(fn *ssa.Function) bool {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && inner[f] {
						return true
					}
				}
			}
		}
		return false
	}
	for _, fn := range c.w.funcs {
		p := strings.TrimPrefix(pkgOf(fn), modPath)
		if p == "/asts" || fn.Synthetic != "" || fn.Signature.TypeParams() != nil {
			continue
		}
		if len(sources[fn]) == 0 && !callsInner(fn) {
			continue
		}
		if errResult(fn.Signature) < 0 && callers[fn] && !exported(fn) {
			c.note("%s has no error result and is judged in its callers", fn)
			continue
		}
		c.errorRun(fn, sources[fn], inner)
	}
	c.floor("error propagation", 15)
}

func (c *Ctx) note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

// errorRun interprets one function with the calls it makes failing or not.
func (c *Ctx) errorRun(fn *ssa.Function, srcs []ssa.CallInstruction, inner map[*ssa.Function]bool) {
	e, st := c.eng()
	e.loopIters = 0
	name := strings.TrimPrefix(strings.ReplaceAll(fn.String(), modPath, "bibtex"), "bibtex.")
	reached := map[string]bool{}
	badSites := map[string]string{}
	e.hooks.Key = func(st *State) string {
		k := ""
		if st.ghost["x.last"] != nil {
			k = "pending"
		}
		return k
	}
	e.hooks.NonNil = func(*State, *Term) bool { return true }
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		i := errResult(cl.sig)
		if cl.fn != nil && inModule(pkgOf(cl.fn)) && i < 0 {
			if inner[cl.fn] && !cl.rec {
				return nil, false
			}
			if errParam(cl.fn.Signature) && !cl.rec {
				return nil, false
			}
			return e.unknownCall(st, cl), true
		}
		if i < 0 {
			return nil, false
		}
		if makesErrors(cl.name) {
			return nil, false
		}
		if strings.HasPrefix(cl.name, "fmt.Fprint") && len(cl.args) > 0 {
			if dt, ok := st.dynOf(cl.args[0]); ok && isBuilder(deref(dt)) {
				return nil, false
			}
		}
		if cl.fn != nil && inModule(pkgOf(cl.fn)) && errParam(cl.fn.Signature) && !cl.rec {
			return nil, false // a wrapper of errors
		}
		site := c.pos(cl.instr.Pos())
		if cl.deferred {
			site += " (deferred)"
		}
		reached[site] = true
		st = st.clone()
		if !(cl.fn != nil && !inModule(pkgOf(cl.fn)) && cl.iface == nil) {
			st.havocAll(e.freshName(st, "mem", cl.instr), cl.args)
		}
		ok := st.clone()
		r := e.results(ok, cl)
		if !ok.setNil(r.args[i], true) {
			return nil, true
		}
		args := append([]*Term{}, r.args...)
		args[i] = tNil
		outs := []Outcome{{st: ok, ret: mkTuple(args...)}}
		fl := st
		r2 := e.results(fl, cl)
		args = append([]*Term{}, r2.args...)
		er := e.fresh(fl, "failure", cl.instr, errType)
		if !fl.setNil(er, false) {
			e.giveUp("%s: cannot make a failure", site)
		}
		args[i] = er
		if fl.ghost["x.first"] == nil {
			fl.ghost["x.first"] = er
			fl.ghost["x.site"] = cStr(site)
		}
		fl.ghost["x.last"] = er
		outs = append(outs, Outcome{st: fl, ret: mkTuple(args...)})
		return outs, true
	}
	st = st.clone()
	var args, binds []*Term
	for _, p := range fn.Params {
		a := mkSym("p:"+p.Name(), p.Type())
		if isPtrLike(a) && !types.IsInterface(p.Type()) || fn.Signature.Recv() != nil && p == fn.Params[0] {
			st.setNil(a, false)
		}
		args = append(args, a)
	}
	for _, p := range fn.FreeVars {
		b := mkSym("fv:"+p.Name(), p.Type())
		st.setNil(b, false)
		binds = append(binds, b)
	}
	ei := errResult(fn.Signature)
	n := 0
	fails := 0
	for _, o := range e.run(st, fn, args, binds, fn.Name()) {
		n++
		first, last := o.st.ghost["x.first"], o.st.ghost["x.last"]
		if o.panic != nil || last == nil {
			continue
		}
		fails++
		site := "a failed call"
		if s, ok := o.st.ghost["x.site"].isStr(); ok {
			site = "the call at " + s
		}
		if ei < 0 {
			kept := false
			for p, v := range o.st.heap {
				if r := root(p); (o.st.esc[r] || r.kind != KAlloc) && (c.holdsErr(o.st, v, last) || c.holdsErr(o.st, v, first)) {
					kept = true
				}
			}
			if !kept {
				badSites[site] = "the error is dropped: the function has no error result"
			}
			continue
		}
		er := o.ret.args[ei]
		isNil, known := o.st.isNil(er)
		switch {
		case known && isNil:
			badSites[site] = "the function returns no error after it failed"
		case !c.holdsErr(o.st, er, last) && !c.holdsErr(o.st, er, first):
			badSites[site] = fmt.Sprintf("the error returned, %s, does not wrap it", er)
		}
	}
	c.absorb(e, "none")
	for _, s := range keysOf(badSites) {
		c.fail("error propagation", name, c.pos(fn.Pos()), "%s: %s", s, badSites[s])
	}
	if len(badSites) > 0 {
		return
	}
	if len(reached) == 0 && len(srcs) > 0 {
		c.note("%s: no failing call reached in %d outcomes", name, n)
	}
	c.hold("error propagation", fmt.Sprintf("%s: %d failing calls, %d outcomes, %d failing", name, len(reached), n, fails))
}
