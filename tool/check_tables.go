package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C28"] = checkAccents
	checks["C29"] = checkNames
	checks["C34"] = checkScope
}

// requiredAccents are the combinations that must be rendered.
var requiredAccents = strings.Fields("`a `e `i `o `u `A `E `I `O `U 'a 'e 'i 'o 'u 'y 'A 'E 'I 'O 'U 'Y " +
	"^a ^e ^i ^o ^u ^A ^E ^I ^O ^U \"a \"e \"i \"o \"u \"A \"E \"I \"O \"U ~a ~n ~o ~A ~N ~O cc cC " +
	".c .e .g .i .z .C .E .G .I .Z")

func checkAccents(c *Ctx) {
	fn := c.must("render", "RenderAccent")
	e, st := c.eng()
	marks := c.constsOf("token", "Accent")
	c.req(len(marks) >= 7, "accent marks", "token.Accent", "-", "only %d accent marks are declared", len(marks))
	req := map[string]bool{}
	for _, r := range requiredAccents {
		req[r] = true
	}
	want := func(mark rune, text string) (rune, bool) {
		if len(text) != 1 {
			return 0, false
		}
		if mark == '.' && (text == "i" || text == "j") {
			// TeX's dot accent on a soft-dotted letter shows that letter
			return rune(text[0]), true
		}
		r, ok := composed[string(mark)+text]
		return r, ok
	}
	one := func(mark int64, name, text string) {
		outs := e.run(st.clone(), fn, []*Term{cInt(mark), cStr(text)}, nil, "RenderAccent")
		label := fmt.Sprintf("%s %q", name, text)
		for _, o := range outs {
			if o.panic != nil {
				c.fail("accent", label, c.pos(fn.Pos()), "RenderAccent(%s, %q) panics", name, text)
				continue
			}
			r, er := o.ret.args[0], o.ret.args[1]
			nl, kn := o.st.isNil(er)
			if !kn {
				c.fail("accent", label, c.pos(fn.Pos()), "RenderAccent(%s, %q) may or may not fail", name, text)
				continue
			}
			v, isC := r.isInt()
			w, ok := want(rune(mark), text)
			switch {
			case nl && (!ok || !isC || rune(v) != w):
				exp := "an error"
				if ok {
					exp = fmt.Sprintf("%q", w)
				}
				c.fail("accent", label, c.pos(fn.Pos()), "RenderAccent(%s, %q) returns %q, want %s", name, text, rune(v), exp)
			case !nl && req[string(rune(mark))+text]:
				c.fail("accent", label, c.pos(fn.Pos()), "RenderAccent(%s, %q) fails; it has to give %q", name, text, w)
			default:
				c.hold("accent", label)
			}
		}
	}
	var names []string
	for n := range marks {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[string]bool{}
	for _, n := range names {
		for ch := 0; ch < 128; ch++ {
			one(marks[n], n, string(rune(ch)))
			seen[string(rune(marks[n]))+string(rune(ch))] = true
		}
		for _, t := range []string{"", "é", "ı", "\xff"} {
			one(marks[n], n, t)
		}
		for a := 'A'; a <= 'z'; a++ {
			for _, b := range "aeioucznAE \\{" {
				one(marks[n], n, string(a)+string(b))
			}
		}
	}
	// every mark that TeX knows and others that are not accents here
	for ch := int64(0); ch < 128; ch++ {
		known := false
		for _, v := range marks {
			known = known || v == ch
		}
		if known {
			continue
		}
		for _, t := range []string{"a", "e", "o", "c", "A", "", "aa"} {
			one(ch, fmt.Sprintf("%q", rune(ch)), t)
		}
	}
	for _, r := range requiredAccents {
		c.req(seen[r], "accent mark declared", r, "-", "no accent mark for %s", r)
	}
	c.floor("accent", 900)
	// the same for every mark and every text: a success determines both
	outs := e.run(st.clone(), fn, []*Term{mkSym("mark", c.w.typ("token", "Accent")), mkSym("text", types.Typ[types.String])}, nil, "RenderAccent")
	n := 0
	for _, o := range outs {
		if o.panic != nil {
			c.fail("no panic", "RenderAccent", c.pos(fn.Pos()), "RenderAccent can panic")
			continue
		}
		n++
	}
	c.notes = append(c.notes, fmt.Sprintf("symbolic run: %d outcomes", n))
	c.absorb(e, "index out of range", "nil dereference")
}

func (c *Ctx) nameOf(t types.Type, k *Term) (*Term, bool) {
	e, st := c.eng()
	fn := c.method(t, "String")
	if fn == nil {
		panic(undecided{"no String method on " + typeShort(t)})
	}
	r, ok := constRet(e.run(st.clone(), fn, []*Term{k}, nil, "String"))
	c.absorb(e, "none")
	return r, ok
}

// ownName reports whether name is the constant's name up to its prefix,
// its group's prefix and case.
func ownName(con, name string) bool {
	a, b := strings.ToLower(con), strings.ToLower(name)
	for _, p := range []string{"", "kind", "string", "tok", "token"} {
		for _, q := range []string{"", "kind", "string", "delimiter"} {
			if strings.TrimPrefix(a, p) == strings.TrimPrefix(b, q) || strings.TrimSuffix(strings.TrimPrefix(a, p), "delimiter") == b {
				return true
			}
		}
	}
	return false
}

func checkNames(c *Ctx) {
	groups := []struct{ pkg, typ string }{{"token", "Token"}, {"ast", "NodeKind"}, {"ast", "ObjKind"}, {"ast", "TextDelimiter"}}
	for _, g := range groups {
		t := c.w.typ(g.pkg, g.typ)
		if t == nil {
			panic(undecided{"type " + g.pkg + "." + g.typ + " not found"})
		}
		fn := c.method(t, "String")
		ks := c.constsOf(g.pkg, g.typ)
		used := map[string]string{}
		for _, n := range keysOf(ks) {
			if !token_IsExported(n) {
				continue
			}
			label := g.typ + " " + n
			r, ok := c.nameOf(t, cInt(ks[n]))
			s, isS := "", false
			if ok {
				s, isS = r.isStr()
			}
			if !c.req(isS && s != "", "non-empty name", label, c.pos(fn.Pos()), "%s.String() is not a non-empty constant", n) {
				continue
			}
			c.req(ownName(n, s), "own name", label, c.pos(fn.Pos()), "%s.String() is %q, the name of something else", n, s)
			c.req(used[s] == "", "distinct name", label, c.pos(fn.Pos()), "%s and %s share the name %q", n, used[s], s)
			used[s] = n
		}
		// naming never fails, for any value
		e, st := c.eng()
		for _, o := range e.run(st.clone(), fn, []*Term{mkSym("v", t)}, nil, "String") {
			ok := o.panic == nil
			if ok {
				if s, isS := o.st.strConst(o.ret.args[0]); isS && s == "" {
					ok = false
				}
				ok = ok && nonEmptyEntry(o.st, o.ret.args[0])
			}
			c.req(ok, "total name", g.typ, c.pos(fn.Pos()), "%s.String() panics or gives an empty name for some value", g.typ)
		}
		c.absorb(e, "index out of range", "nil dereference", "slice bounds out of range", "write to nil map")
	}
	c.floor("own name", 55)
	classes := map[string]string{
		"IsLiteral":       "Ident String BraceString Number",
		"IsStringLiteral": "DoubleQuote StringLBrace StringRBrace StringSpace StringNBSP StringContents StringHyphen StringMath StringComma StringBackslash StringAccent StringMacro",
		"IsOperator":      "Assign LParen LBrace RParen RBrace Concat Comma",
		"IsCommand":       "Abbrev Comment Preamble BibEntry",
	}
	tt := c.w.typ("token", "Token")
	ks := c.constsOf("token", "Token")
	vals := IntSet{}
	for n, v := range ks {
		if token_IsExported(n) {
			vals = vals.union(single(v))
		}
	}
	for _, m := range keysOf(classes) {
		fn := c.method(tt, m)
		if fn == nil {
			panic(undecided{"Token has no method " + m})
		}
		in := map[string]bool{}
		for _, n := range strings.Fields(classes[m]) {
			in[n] = true
			_, ok := ks[n]
			c.req(ok, "class member", m+" "+n, "-", "token %s does not exist", n)
		}
		for _, n := range keysOf(ks) {
			if !token_IsExported(n) {
				continue
			}
			e, st := c.eng()
			r, ok := constRet(e.run(st.clone(), fn, []*Term{cInt(ks[n])}, nil, m))
			b := false
			if ok {
				b, ok = r.isBool()
			}
			c.req(ok && b == in[n], "class", m+" "+n, c.pos(fn.Pos()), "%s.%s() is not %v", n, m, in[n])
			c.absorb(e, "none")
		}
		e, st := c.eng()
		st = st.clone()
		v := mkSym("v", tt)
		st.restrict(v, vals.complement())
		for _, o := range e.run(st, fn, []*Term{v}, nil, m) {
			b, ok := false, o.panic == nil
			if ok {
				if b, ok = o.st.decide(o.ret.args[0]); !ok {
					b, ok = o.ret.args[0].isBool()
				}
			}
			c.req(ok && !b, "class of other values", m, c.pos(fn.Pos()), "%s may be true for a value that is no token", m)
		}
		c.absorb(e, "none")
	}
	c.floor("class", 100)
	for _, pkg := range []string{"parser", "scanner"} {
		ms := c.constsOf(pkg, "Mode")
		var bits int64
		for _, n := range keysOf(ms) {
			v := ms[n]
			c.req(v > 0 && v&(v-1) == 0, "single bit", pkg+"."+n, "-", "mode %s.%s is %b, not one bit", pkg, n, v)
			c.req(bits&v == 0, "distinct bit", pkg+"."+n, "-", "mode %s.%s shares a bit with another mode", pkg, n)
			bits |= v
		}
	}
	c.floor("single bit", 4)
}

func token_IsExported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

// stores records every store in the trace.
func recordStores(e *Eng) {
	e.hooks.Store = func(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
		if r := root(p); r.kind == KAlloc && !st.esc[r] && st.hav[r] == nil {
			return // a local object
		}
		st.event(mkOp("store", nil, p, v))
	}
}

func checkScope(c *Ctx) {
	objs := func(st *State, s *Term) *Term {
		p := fieldPtr(s, "Objects")
		if p == nil {
			panic(undecided{"Scope has no field Objects"})
		}
		return st.load(p)
	}
	scopeT := types.NewPointer(c.w.typ("ast", "Scope"))
	objT := types.NewPointer(c.w.typ("ast", "Object"))
	{ // Insert
		fn := c.must("ast", "Scope.Insert")
		e, st := c.eng()
		st = st.clone()
		s, o := mkSym("scope", scopeT), mkSym("obj", objT)
		st.setNil(s, false)
		st.setNil(o, false)
		recordStores(e)
		m := objs(st, s)
		st.setNil(m, false)
		name := st.load(fieldPtr(o, "Name"))
		st.ghost["keep"] = mkTuple(m, name, s, o)
		free, taken := 0, 0
		for _, out := range e.run(st, fn, []*Term{s, o}, nil, "Insert") {
			if out.panic != nil {
				c.fail("insert", "panic", c.pos(fn.Pos()), "Insert panics")
				continue
			}
			ev := traceList(out.st.trace)
			ret := out.ret.args[0]
			if nl, kn := out.st.isNil(ret); kn && nl {
				free++
				ok := len(ev) == 1 && ev[0].args[0].kind == KElem && ev[0].args[0].args[0] == m && ev[0].args[0].args[1] == name && ev[0].args[1] == o
				c.req(ok, "insert", "free name", c.pos(fn.Pos()), "on a path that returns nil Insert does not store exactly obj under obj.Name: %v", ev)
				has, get := false, false
				for t, v := range out.st.bools {
					if t.isOp("maphas") && t.args[0] == m && t.args[1] == name && !v {
						has = true
					}
				}
				for t, v := range out.st.nils {
					if t.isOp("mapget") && t.args[0] == m && t.args[1] == name && v {
						get = true
					}
				}
				c.req(has || get, "insert", "only if free", c.pos(fn.Pos()), "Insert stores although the name may be taken")
			} else {
				taken++
				c.req(len(ev) == 0, "insert", "taken name", c.pos(fn.Pos()), "Insert changes the scope although the name is taken: %v", ev)
				c.req(ret.isOp("mapget") && ret.args[0] == m && ret.args[1] == name && kn, "insert", "returns the existing object", c.pos(fn.Pos()), "Insert returns %s instead of the object stored under the name", ret)
			}
		}
		c.req(free > 0 && taken > 0, "insert", "cases", c.pos(fn.Pos()), "Insert has %d paths for free and %d for taken names", free, taken)
		c.absorb(e, "nil dereference", "write to nil map")
	}
	{ // Lookup
		fn := c.must("ast", "Scope.Lookup")
		e, st := c.eng()
		st = st.clone()
		s, name := mkSym("scope", scopeT), mkSym("name", types.Typ[types.String])
		st.setNil(s, false)
		recordStores(e)
		m := objs(st, s)
		st.ghost["keep"] = mkTuple(m, name, s)
		found, absent := 0, 0
		for _, out := range e.run(st, fn, []*Term{s, name}, nil, "Lookup") {
			if out.panic != nil {
				c.fail("lookup", "panic", c.pos(fn.Pos()), "Lookup panics")
				continue
			}
			ret := out.ret.args[0]
			c.req(len(traceList(out.st.trace)) == 0, "lookup", "pure", c.pos(fn.Pos()), "Lookup changes something")
			if ret.isOp("mapget") && ret.args[0] == m && ret.args[1] == name {
				found++
				continue
			}
			has, nilMap := false, false
			for t, v := range out.st.bools {
				if t.isOp("maphas") && t.args[0] == m && t.args[1] == name && !v {
					has = true
				}
			}
			for t, v := range out.st.nils {
				if t == m && v || t.isOp("mapget") && t.args[0] == m && t.args[1] == name && v {
					nilMap = true
				}
			}
			nl, kn := out.st.isNil(ret)
			c.req(kn && nl && (has || nilMap), "lookup", "result", c.pos(fn.Pos()), "Lookup returns %s, which is not what this scope holds under the name", ret)
			absent++
		}
		c.req(found > 0 && absent > 0, "lookup", "cases", c.pos(fn.Pos()), "Lookup has %d paths that find and %d that do not", found, absent)
		c.absorb(e, "nil dereference")
	}
	{ // NewScope
		fn := c.must("ast", "NewScope")
		e, st := c.eng()
		outer := mkSym("outer", scopeT)
		for _, out := range e.run(st.clone(), fn, []*Term{outer}, nil, "NewScope") {
			ok := out.panic == nil && out.ret.args[0].kind == KAlloc
			if ok {
				s := out.ret.args[0]
				m := objs(out.st, s)
				ents, k := mapEnts(out.st, m)
				ok = k && len(ents) == 0 && out.st.load(fieldPtr(s, "Outer")) == outer
			}
			c.req(ok, "new scope", "NewScope", c.pos(fn.Pos()), "NewScope does not return a new, empty scope in the given outer scope")
		}
		c.absorb(e, "none")
	}
	{ // NewObj
		fn := c.must("ast", "NewObj")
		e, st := c.eng()
		k, n := mkSym("kind", fn.Params[0].Type()), mkSym("name", types.Typ[types.String])
		for _, out := range e.run(st.clone(), fn, []*Term{k, n}, nil, "NewObj") {
			ok := out.panic == nil && out.ret.args[0].kind == KAlloc
			if ok {
				o := out.ret.args[0]
				ok = out.st.load(fieldPtr(o, "Kind")) == k && out.st.load(fieldPtr(o, "Name")) == n
			}
			c.req(ok, "new object", "NewObj", c.pos(fn.Pos()), "NewObj does not return an object of the given kind and name")
		}
		c.absorb(e, "none")
	}
}

// nonEmptyEntry reports that an entry of a constant table is not empty.
func nonEmptyEntry(st *State, t *Term) bool {
	if !t.isOp("tbl") {
		return true
	}
	if v, known := st.decide(mkEq(t, cStr(""))); known && !v {
		return true
	}
	if st.bools[mkEq(t, cStr(""))] == false && hasKey(st.bools, mkEq(t, cStr(""))) {
		return true
	}
	s := st.set(t.args[1])
	lo, hi := st.bounds(t.args[1])
	if hi-lo > 1000 {
		return false
	}
	for i := lo; i <= hi; i++ {
		if !s.has(i) {
			continue
		}
		v := st.load(mkElem(t.args[0], cInt(i), types.Typ[types.String]))
		if x, ok := v.isStr(); !ok || x == "" {
			return false
		}
	}
	return true
}

func hasKey[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }
