package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// eng returns an interpreter and the state after package initialisation.
func (c *Ctx) eng() (*Eng, *State) {
	e := newEng(c.w)
	st := c.w.initState(e)
	e2 := newEng(c.w)
	if c.only {
		e2.hooks.NonNil = inTree
	}
	return e2, st
}

// iface looks up an interface type.
func (c *Ctx) iface(pkg, name string) *types.Interface {
	t := c.w.typ(pkg, name)
	if t == nil {
		panic(undecided{"type " + pkg + "." + name + " not found"})
	}
	return t.Underlying().(*types.Interface)
}

// implementers lists the concrete types of a package that implement an
// interface: T if T itself does, else *T.
func (c *Ctx) implementers(pkg string, it *types.Interface) []types.Type {
	p := c.w.pkg(pkg)
	var out []types.Type
	if p == nil {
		return nil
	}
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		tn, ok := p.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		t := tn.Type()
		if _, isI := t.Underlying().(*types.Interface); isI {
			continue
		}
		if types.Implements(t, it) {
			out = append(out, t)
		} else if types.Implements(types.NewPointer(t), it) {
			out = append(out, types.NewPointer(t))
		}
	}
	return out
}

// constsOf lists the integer constants of a named type, by name.
func (c *Ctx) constsOf(pkg, typ string) map[string]int64 {
	p := c.w.pkg(pkg)
	out := map[string]int64{}
	if p == nil {
		return out
	}
	t := c.w.typ(pkg, typ)
	for _, n := range p.Scope().Names() {
		k, ok := p.Scope().Lookup(n).(*types.Const)
		if !ok || t == nil || !types.Identical(k.Type(), t) {
			continue
		}
		if v, ok := constant.Int64Val(constant.ToInt(k.Val())); ok {
			out[n] = v
		}
	}
	return out
}

func typeShort(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, func(p *types.Package) string { return p.Name() }), "*", "*")
}

// method finds the implementation of a method on a dynamic type.
func (c *Ctx) method(t types.Type, name string) *ssa.Function {
	ms := c.w.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return c.w.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// node makes an interface value that holds a node of dynamic type t.
func node(st *State, t types.Type, name string) *Term {
	v := mkSym(name+":"+typeShort(t), t)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		st.setNil(v, false)
	}
	return mkIface(t, v)
}

// oneBy is the single-outcome result of a run, or nil.
func constRet(outs []Outcome) (*Term, bool) {
	if len(outs) != 1 || outs[0].panic != nil {
		return nil, false
	}
	if len(outs[0].ret.args) == 0 {
		return nil, false
	}
	return outs[0].ret.args[0], true
}

// wraps reports whether the error err is target or wraps it.
func wraps(err, target *Term) bool {
	if err == target {
		return true
	}
	switch {
	case err.isOp("err:fmt.Errorf"):
		f, ok := err.args[0].isStr()
		if !ok {
			return false
		}
		vs := verbs(f)
		for i, a := range err.args[1:] {
			if i < len(vs) && vs[i] == 'w' && wraps(a, target) {
				return true
			}
		}
	case err.isOp("err:errors.Join"):
		for _, a := range err.args {
			if wraps(a, target) {
				return true
			}
		}
	case err.kind == KIface && err.args[0] == target:
		return true
	}
	return false
}

// verbs lists the verbs of a format in argument order; nil if arguments are
// indexed explicitly.
func verbs(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '[' {
			return nil
		}
		if f[i] == '*' {
			out = append(out, '*')
			i--
			continue
		}
		if f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

func pkgOf(fn *ssa.Function) string {
	for p := fn; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return p.Pkg.Pkg.Path()
		}
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}
