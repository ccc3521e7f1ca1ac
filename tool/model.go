package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		return "*" + typeName(p.Elem())
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return t.String()
}

func isBuilder(t types.Type) bool {
	n := typeName(t)
	return n == "strings.Builder" || n == "bytes.Buffer"
}

// builderGet is the text accumulated in the builder at p.
func (st *State) builderGet(p *Term) *Term {
	v := st.load(p)
	if v.isOp("builder") {
		return v.args[0]
	}
	return mkOp("bstr", types.Typ[types.String], v)
}

func (st *State) builderSet(p, s *Term) {
	st.store(p, mkOp("builder", deref(p.typ), s))
}

var errType = types.Universe.Lookup("error").Type()

// pure names library functions whose result depends only on their arguments
// and that have no effect and cannot panic.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "path/filepath": true, "path": true, "errors": true, "math": true, "bytes": true}

func (e *Eng) variadic(st *State, c *Call) []*Term {
	if !c.sig.Variadic() || len(c.args) == 0 {
		return c.args
	}
	last := c.args[len(c.args)-1]
	if es, ok := st.elems(last); ok {
		return append(append([]*Term{}, c.args[:len(c.args)-1]...), es...)
	}
	return c.args
}

func foldPure(name string, a []*Term) (*Term, bool) {
	s := func(i int) string { x, _ := a[i].isStr(); return x }
	n := func(i int) int64 { x, _ := a[i].isInt(); return x }
	for _, x := range a {
		if x.kind != KConst {
			return nil, false
		}
	}
	switch name {
	case "strings.EqualFold":
		return cBool(strings.EqualFold(s(0), s(1))), true
	case "strings.HasPrefix":
		return cBool(strings.HasPrefix(s(0), s(1))), true
	case "strings.HasSuffix":
		return cBool(strings.HasSuffix(s(0), s(1))), true
	case "strings.Contains":
		return cBool(strings.Contains(s(0), s(1))), true
	case "strings.ContainsRune":
		return cBool(strings.ContainsRune(s(0), rune(n(1)))), true
	case "strings.IndexByte":
		return cInt(int64(strings.IndexByte(s(0), byte(n(1))))), true
	case "strings.IndexRune":
		return cInt(int64(strings.IndexRune(s(0), rune(n(1))))), true
	case "strings.Index":
		return cInt(int64(strings.Index(s(0), s(1)))), true
	case "strings.ToLower":
		return cStr(strings.ToLower(s(0))), true
	case "strings.ToUpper":
		return cStr(strings.ToUpper(s(0))), true
	case "strings.TrimSpace":
		return cStr(strings.TrimSpace(s(0))), true
	case "strings.Repeat":
		if n(1) >= 0 && n(1) < 1000 {
			return cStr(strings.Repeat(s(0), int(n(1)))), true
		}
	case "strconv.Itoa":
		return cStr(strconv.Itoa(int(n(0)))), true
	case "unicode.IsUpper":
		return cBool(unicode.IsUpper(rune(n(0)))), true
	case "unicode.IsLower":
		return cBool(unicode.IsLower(rune(n(0)))), true
	case "unicode.IsLetter":
		return cBool(unicode.IsLetter(rune(n(0)))), true
	case "unicode.IsDigit":
		return cBool(unicode.IsDigit(rune(n(0)))), true
	case "unicode.IsSpace":
		return cBool(unicode.IsSpace(rune(n(0)))), true
	case "unicode.ToLower":
		return cInt(int64(unicode.ToLower(rune(n(0))))), true
	case "unicode.ToUpper":
		return cInt(int64(unicode.ToUpper(rune(n(0))))), true
	case "unicode/utf8.RuneLen":
		return cInt(int64(utf8.RuneLen(rune(n(0))))), true
	case "unicode/utf8.ValidRune":
		return cBool(utf8.ValidRune(rune(n(0)))), true
	case "unicode/utf8.RuneCountInString":
		return cInt(int64(utf8.RuneCountInString(s(0)))), true
	case "path/filepath.Base":
		return cStr(filepath.Base(s(0))), true
	}
	return nil, false
}

// model gives the effect of library functions.
func (e *Eng) model(st *State, c *Call) ([]Outcome, bool) {
	if c.fn == nil || c.fn.Pkg != nil && inModule(c.fn.Pkg.Pkg.Path()) {
		return nil, false
	}
	name := c.name
	a := c.args
	ret := func(rs ...*Term) ([]Outcome, bool) { return []Outcome{{st: st, ret: mkTuple(rs...)}}, true }
	rtyp := func(i int) types.Type { return c.sig.Results().At(i).Type() }
	pkg := ""
	if c.fn.Pkg != nil {
		pkg = c.fn.Pkg.Pkg.Path()
	} else if o := c.fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if strings.HasSuffix(name, ".init") && c.sig.Recv() == nil && len(a) == 0 && c.sig.Results().Len() == 0 {
		return ret()
	}
	if c.fn.Synthetic != "" && strings.HasPrefix(c.fn.Synthetic, "package init") {
		return ret()
	}
	recvT := ""
	if r := c.sig.Recv(); r != nil {
		recvT = typeName(r.Type())
	}
	meth := c.fn.Name()
	switch recvT {
	case "*strings.Builder", "*bytes.Buffer":
		if !e.checkDeref(st, a[0], c.instr) {
			return nil, true
		}
		switch meth {
		case "WriteString":
			st.builderSet(a[0], mkConcat(st.builderGet(a[0]), a[1]))
			return ret(st.length(a[1]), tNil)
		case "Write":
			st.builderSet(a[0], mkConcat(st.builderGet(a[0]), st.bytesAsString(a[1])))
			return ret(st.length(a[1]), tNil)
		case "WriteByte":
			st.builderSet(a[0], mkConcat(st.builderGet(a[0]), st.bytesAsString(mkLit(types.NewSlice(types.Typ[types.Uint8]), a[1]))))
			return ret(tNil)
		case "WriteRune":
			st.builderSet(a[0], mkConcat(st.builderGet(a[0]), e.convert(st, a[1], types.Typ[types.Int32], types.Typ[types.String])))
			n := e.fresh(st, "n", c.instr, types.Typ[types.Int])
			st.restrict(n, rangeSet(1, 4))
			return ret(n, tNil)
		case "String":
			return ret(st.builderGet(a[0]))
		case "Bytes":
			return ret(mkOp("bytes", rtyp(0), st.builderGet(a[0])))
		case "Grow":
			return ret()
		case "ReadFrom":
			n := e.fresh(st, "n", c.instr, rtyp(0))
			er := e.fresh(st, "err", c.instr, rtyp(1))
			f := st.clone()
			var outs []Outcome
			if f.setNil(er, false) {
				f.builderSet(a[0], mkConcat(f.builderGet(a[0]), e.fresh(f, "part", c.instr, types.Typ[types.String])))
				outs = append(outs, Outcome{st: f, ret: mkTuple(n, er)})
			}
			st.builderSet(a[0], mkConcat(st.builderGet(a[0]), st.bytesAsString(mkOp("read:io.ReadAll", types.NewSlice(types.Typ[types.Uint8]), a[1]))))
			return append(outs, Outcome{st: st, ret: mkTuple(n, tNil)}), true
		case "Len":
			return ret(st.length(st.builderGet(a[0])))
		case "Reset":
			st.builderSet(a[0], cStr(""))
			return ret()
		}
	case "*go/token.FileSet":
		switch meth {
		case "AddFile":
			f := mkAlloc(e.freshName(st, "file", c.instr), deref(rtyp(0)))
			st.heap[f] = mkOp("gofile", deref(rtyp(0)), a[1], a[3])
			st.esc[f] = true
			return ret(f)
		}
		return e.pureCall(st, c)
	case "*go/token.File":
		if !e.checkDeref(st, a[0], c.instr) {
			return nil, true
		}
		switch meth {
		case "Pos":
			return ret(mkOp("filepos", rtyp(0), a[0], a[1]))
		case "Offset":
			if a[1].isOp("filepos") && a[1].args[0] == a[0] {
				return ret(a[1].args[1])
			}
			return ret(mkOp("fileoff", rtyp(0), a[0], a[1]))
		case "Name":
			if v := st.heap[a[0]]; v != nil && v.isOp("gofile") {
				return ret(v.args[0])
			}
			return ret(mkOp("filename", rtyp(0), a[0]))
		case "Size":
			if v := st.heap[a[0]]; v != nil && v.isOp("gofile") {
				return ret(v.args[1])
			}
			t := mkOp("filesize", rtyp(0), a[0])
			st.restrict(t, rangeSet(0, maxI))
			return ret(t)
		case "Position":
			return ret(mkOp("position", rtyp(0), a[0], a[1]))
		case "Line":
			l := e.fresh(st, "line", c.instr, rtyp(0))
			return ret(l)
		case "AddLine":
			return ret()
		}
		return e.pureCall(st, c)
	case "go/token.Pos":
		if meth == "IsValid" {
			return ret(mkNot(mkEq(a[0], tZero)))
		}
	case "go/token.Position", "*go/token.Position":
		return e.pureCall(st, c)
	case "*go/scanner.ErrorList":
		if !e.checkDeref(st, a[0], c.instr) {
			return nil, true
		}
		switch meth {
		case "Add":
			old := st.load(a[0])
			eo := mkOp("errobj", types.NewPointer(types.Typ[types.Int]), a[1], a[2])
			st.store(a[0], mkCat(deref(a[0].typ), old, mkLit(deref(a[0].typ), eo)))
			return ret()
		case "Reset":
			st.store(a[0], tNil)
			return ret()
		case "RemoveMultiples":
			return nil, false
		}
	case "go/scanner.ErrorList":
		switch meth {
		case "Len":
			return ret(st.length(a[0]))
		case "Sort":
			st.ghost["sorted"] = a[0]
			return ret()
		case "Err":
			l := st.length(a[0])
			s0 := st.clone()
			var outs []Outcome
			if s0.assume(mkEq(l, tZero), true) {
				outs = append(outs, Outcome{st: s0, ret: mkTuple(tNil)})
			}
			if st.assume(mkEq(l, tZero), false) {
				outs = append(outs, Outcome{st: st, ret: mkTuple(mkOp("err:list", rtyp(0), a[0]))})
			}
			return outs, true
		}
		return e.pureCall(st, c)
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		va := e.variadic(st, c)
		if t := e.foldFmt(st, name, va); t != nil {
			return ret(t)
		}
		return ret(mkOp("call:"+name, types.Typ[types.String], va...))
	case "errors.Join":
		va := e.variadic(st, c)
		var es []*Term
		for _, x := range va {
			if n, k := st.isNil(x); k && n {
				continue
			} else if !k && x.kind != KIface {
				return nil, false
			}
			es = append(es, x)
		}
		if len(es) == 0 {
			return ret(tNil)
		}
		return ret(mkOp("err:errors.Join", errType, es...))
	case "fmt.Errorf", "errors.New":
		va := e.variadic(st, c)
		return ret(mkOp("err:"+name, errType, va...))
	case "fmt.Print", "fmt.Println", "fmt.Printf":
		return ret(e.results(st, c).args...)
	case "unicode/utf8.DecodeRune", "unicode/utf8.DecodeRuneInString":
		if a[0].isOp("str") && !a[0].args[0].isOp("builder") {
			a[0] = a[0].args[0] // the same bytes
		}
		r := mkOp("decr", types.Typ[types.Int32], a[0])
		w := mkOp("decw", types.Typ[types.Int], a[0])
		n := st.length(a[0])
		if s, ok := st.strConst(a[0]); ok {
			rr, ww := utf8.DecodeRuneInString(s)
			return ret(cInt(int64(rr)), cInt(int64(ww)))
		}
		var outs []Outcome
		z := st.clone()
		if z.assume(mkEq(n, tZero), true) {
			outs = append(outs, Outcome{st: z, ret: mkTuple(cInt(0xFFFD), tZero)})
		}
		if st.addLE(cInt(1), n, 0) {
			st.restrict(r, rangeSet(0, 0x10FFFF))
			st.restrict(w, rangeSet(1, 4))
			st.addLE(w, n, 0)
			if x := a[0]; x.kind == KOp && (x.op == "slice" || x.op == "sl") && x.args[1].kind != KConst {
				// the end of the character lies in the slice
				bl, kl := linParts(x.args[1])
				u, v := bl, w
				if u.id > v.id {
					u, v = v, u
				}
				t := mkOp("add", types.Typ[types.Int], u, v)
				st.addLE(mkLin(t, kl), x.args[2], 0)
				st.addLE(mkLin(bl, 1), t, 0)
				st.addLE(t, mkLin(bl, 4), 0)
			}
			outs = append(outs, Outcome{st: st, ret: mkTuple(r, w)})
		}
		return outs, true
	case "strings.HasPrefix", "strings.HasSuffix":
		if t, ok := foldPure(name, a); ok {
			return ret(t)
		}
		t := mkOp("call:"+name, types.Typ[types.Bool], a...)
		if v, known := st.decide(t); known {
			return ret(cBool(v))
		}
		f := st.clone()
		var outs []Outcome
		if st.addLE(st.length(a[1]), st.length(a[0]), 0) && st.assume(t, true) {
			outs = append(outs, Outcome{st: st, ret: mkTuple(tTrue)})
		}
		if f.assume(t, false) {
			outs = append(outs, Outcome{st: f, ret: mkTuple(tFalse)})
		}
		return outs, true
	case "sort.Strings", "sort.Ints", "slices.Sort", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		// the same elements in another order
		l := a[0]
		if l.kind == KIface {
			l = l.args[0]
		}
		if n, ok := st.length(l).isInt(); l == tNil || ok && n <= 1 {
			return ret()
		}
		if e.hooks.Sorted != nil {
			e.hooks.Sorted(e, st, l)
		}
		if l.isOp("sl") {
			r := root(l.args[0])
			for p := range st.heap {
				if root(p) == r {
					delete(st.heap, p)
				}
			}
			st.hav[r] = e.fresh(st, "tag", c.instr, types.Typ[types.Int])
			return ret()
		}
		n := st.mapTerms(map[*Term]*Term{l: mkOp("sorted", l.typ, l)})
		return []Outcome{{st: n, ret: tUnit}}, true
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf":
		return nil, true
	case "io.ReadAll", "os.ReadFile":
		r := e.results(st, c)
		s2 := st.clone()
		var outs []Outcome
		if st.setNil(r.args[1], true) {
			outs = append(outs, Outcome{st: st, ret: mkTuple(mkOp("read:"+name, rtyp(0), a[0]), tNil)})
		}
		if s2.setNil(r.args[1], false) {
			outs = append(outs, Outcome{st: s2, ret: r})
		}
		return outs, true
	}
	if purePkgs[pkg] && recvT == "" {
		return e.pureCall(st, c)
	}
	return nil, false
}

func (e *Eng) pureCall(st *State, c *Call) ([]Outcome, bool) {
	a := e.variadic(st, c)
	var full []*Term
	for _, x := range a {
		if s, ok := st.strConst(x); ok {
			x = cStr(s)
		}
		full = append(full, x)
	}
	if t, ok := foldPure(c.name, full); ok {
		return []Outcome{{st: st, ret: mkTuple(t)}}, true
	}
	n := c.sig.Results().Len()
	var rs []*Term
	for i := 0; i < n; i++ {
		op := "call:" + c.name
		if n > 1 {
			op += fmt.Sprintf(".%d", i)
		}
		rt := c.sig.Results().At(i).Type()
		t := mkOp(op, rt, full...)
		switch c.name {
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndex", "strings.LastIndexByte":
			if soleAtom(t) == nil {
				st.restrict(t, rangeSet(-1, maxI))
				st.addLE(t, st.length(full[0]), -1)
			}
		case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim":
			st.addLE(st.length(t), st.length(full[0]), 0)
		}
		rs = append(rs, t)
	}
	return []Outcome{{st: st, ret: mkTuple(rs...)}}, true
}

// foldFmt is the text made by the fmt print functions from plain strings,
// characters and constants; nil if it cannot be told.
func (e *Eng) foldFmt(st *State, name string, va []*Term) *Term {
	plain := func(x *Term) *Term {
		if x.kind != KIface || x.typ == nil {
			return nil
		}
		if ms := e.w.prog.MethodSets.MethodSet(x.typ); ms.Len() > 0 {
			for i := 0; i < ms.Len(); i++ {
				if n := ms.At(i).Obj().Name(); n == "String" || n == "Error" || n == "Format" {
					return nil
				}
			}
		}
		v := x.args[0]
		if isStringType(x.typ) {
			return v
		}
		if n, ok := v.isInt(); ok && isIntType(x.typ) {
			return cStr(strconv.FormatInt(n, 10))
		}
		return nil
	}
	switch name {
	case "fmt.Sprint", "fmt.Fprint":
		if len(va) == 1 {
			return plain(va[0])
		}
		return nil
	case "fmt.Sprintln", "fmt.Fprintln":
		if len(va) == 1 {
			if p := plain(va[0]); p != nil {
				return mkConcat(p, cStr("\n"))
			}
		}
		return nil
	}
	if len(va) == 0 {
		return nil
	}
	f, ok := va[0].isStr()
	if !ok {
		return nil
	}
	args := va[1:]
	var parts []*Term
	for i := 0; i < len(f); i++ {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			parts = append(parts, cStr(f[i:]))
			break
		}
		parts = append(parts, cStr(f[i:i+j]))
		i += j + 1
		if i >= len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, cStr("%"))
			continue
		}
		if len(args) == 0 {
			return nil
		}
		a := args[0]
		args = args[1:]
		switch f[i] {
		case 's', 'v', 'd':
			p := plain(a)
			if p == nil || f[i] == 's' && !isStringType(a.typ) || f[i] == 'd' && isStringType(a.typ) {
				return nil
			}
			parts = append(parts, p)
		case 'c':
			if a.kind != KIface || !isIntType(a.typ) {
				return nil
			}
			parts = append(parts, e.convert(st, a.args[0], a.typ, types.Typ[types.String]))
		default:
			return nil
		}
	}
	if len(args) > 0 {
		return nil
	}
	return mkConcat(parts...)
}
