package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Terms are the abstract values. They are hash-consed: equal terms are the same
// pointer, so equality of values is decided by pointer comparison.
type Kind uint8

const (
	KConst  Kind = iota // constant: cv
	KNil                // nil of any type
	KSym                // opaque value: op is its name
	KLin                // args[0] + off
	KOp                 // op(args...)
	KAlloc              // object allocated on this path: op is its name
	KGlobal             // package variable
	KField              // pointer to field off of *args[0]
	KElem               // pointer to element args[1] of array or slice args[0]
	KFn                 // function value fn with bindings args
	KIface              // interface holding args[0] of dynamic type typ
	KTuple              // results of a call
	KAgg                // struct or array value
)

type Term struct {
	id     int
	kind   Kind
	typ    types.Type
	cv     constant.Value
	op     string
	args   []*Term
	off    int64
	fn     *ssa.Function
	glob   *ssa.Global
	hasSym bool
}

var (
	termTab  = map[string]*Term{}
	typeIDs  = func() *typeutil.Map { m := new(typeutil.Map); return m }()
	typeByID []types.Type
)

func typeID(t types.Type) int {
	if t == nil {
		return -1
	}
	if v := typeIDs.At(t); v != nil {
		return v.(int)
	}
	id := len(typeByID)
	typeIDs.Set(t, id)
	typeByID = append(typeByID, t)
	return id
}

func mk(t Term) *Term {
	var sb strings.Builder
	sb.WriteByte('A' + byte(t.kind))
	sb.WriteString(t.op)
	switch t.kind {
	case KConst:
		sb.WriteString(strconv.Itoa(int(t.cv.Kind())))
		sb.WriteByte(':')
		sb.WriteString(t.cv.ExactString())
	case KFn:
		fmt.Fprintf(&sb, "%p", t.fn)
	case KGlobal:
		fmt.Fprintf(&sb, "%p", t.glob)
	case KIface, KAgg, KOp, KAlloc, KSym:
		sb.WriteByte('<')
		sb.WriteString(strconv.Itoa(typeID(t.typ)))
		sb.WriteByte('>')
	case KLin, KField:
		sb.WriteByte('+')
		sb.WriteString(strconv.FormatInt(t.off, 10))
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termTab) + 1
	n := new(Term)
	*n = t
	if t.kind == KSym || t.kind == KAlloc {
		n.hasSym = true
	}
	for _, a := range t.args {
		if a.hasSym {
			n.hasSym = true
		}
	}
	termTab[k] = n
	return n
}

func mkConst(v constant.Value) *Term {
	if v.Kind() == constant.Float {
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	return mk(Term{kind: KConst, cv: v})
}
func cInt(v int64) *Term  { return mkConst(constant.MakeInt64(v)) }
func cStr(v string) *Term { return mkConst(constant.MakeString(v)) }
func cBool(v bool) *Term  { return mkConst(constant.MakeBool(v)) }

var (
	tNil   = mk(Term{kind: KNil})
	tTrue  = cBool(true)
	tFalse = cBool(false)
	tZero  = cInt(0)
	tUnit  = mk(Term{kind: KTuple})
)

func mkSym(name string, typ types.Type) *Term { return mk(Term{kind: KSym, op: name, typ: typ}) }
func mkAlloc(name string, elem types.Type) *Term {
	return mk(Term{kind: KAlloc, op: name, typ: types.NewPointer(elem)})
}
func mkGlobal(g *ssa.Global) *Term { return mk(Term{kind: KGlobal, glob: g, typ: g.Type()}) }
func mkFn(fn *ssa.Function, b []*Term) *Term {
	return mk(Term{kind: KFn, fn: fn, args: b, typ: fn.Signature})
}
func mkIface(dyn types.Type, v *Term) *Term {
	return mk(Term{kind: KIface, typ: dyn, args: []*Term{v}})
}
func mkTuple(xs ...*Term) *Term { return mk(Term{kind: KTuple, args: xs}) }
func mkAgg(typ types.Type, xs []*Term) *Term {
	return mk(Term{kind: KAgg, typ: typ, args: xs})
}
func mkOp(op string, typ types.Type, args ...*Term) *Term {
	return mk(Term{kind: KOp, op: op, typ: typ, args: args})
}

func (t *Term) isInt() (int64, bool) {
	if t.kind == KConst && t.cv.Kind() == constant.Int {
		v, ok := constant.Int64Val(t.cv)
		return v, ok
	}
	return 0, false
}
func (t *Term) isStr() (string, bool) {
	if t.kind == KConst && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) isBool() (bool, bool) {
	if t.kind == KConst && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}
func (t *Term) isOp(op string) bool { return t.kind == KOp && t.op == op }

// linParts splits an integer term into base and offset (base nil for constants).
func linParts(t *Term) (*Term, int64) {
	if v, ok := t.isInt(); ok {
		return nil, v
	}
	if t.kind == KLin {
		return t.args[0], t.off
	}
	return t, 0
}

func mkLin(base *Term, k int64) *Term {
	if base == nil {
		return cInt(k)
	}
	if v, ok := base.isInt(); ok {
		return cInt(v + k)
	}
	if base.kind == KLin {
		k += base.off
		base = base.args[0]
	}
	if k == 0 {
		return base
	}
	return mk(Term{kind: KLin, args: []*Term{base}, off: k, typ: base.typ})
}

func mkField(base *Term, i int) *Term {
	st := derefStruct(base.typ)
	var ft types.Type
	if st != nil {
		ft = types.NewPointer(st.Field(i).Type())
	}
	return mk(Term{kind: KField, args: []*Term{base}, off: int64(i), typ: ft})
}

func mkElem(base, idx *Term, elem types.Type) *Term {
	return mk(Term{kind: KElem, args: []*Term{base, idx}, typ: types.NewPointer(elem)})
}

func deref(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func derefStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	e := deref(t)
	if e == nil {
		return nil
	}
	s, _ := e.Underlying().(*types.Struct)
	return s
}

// mkConcat builds the concatenation of strings in a normal form: nested
// concatenations are flattened and adjacent constants merged.
func mkConcat(xs ...*Term) *Term {
	var parts []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.isOp("concat") {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if s, ok := t.isStr(); ok {
			if s == "" {
				return
			}
			if n := len(parts); n > 0 {
				if p, ok := parts[n-1].isStr(); ok {
					parts[n-1] = cStr(p + s)
					return
				}
			}
		}
		parts = append(parts, t)
	}
	for _, x := range xs {
		add(x)
	}
	switch len(parts) {
	case 0:
		return cStr("")
	case 1:
		return parts[0]
	}
	return mkOp("concat", types.Typ[types.String], parts...)
}

func concatParts(t *Term) []*Term {
	if t.isOp("concat") {
		return t.args
	}
	if s, ok := t.isStr(); ok && s == "" {
		return nil
	}
	return []*Term{t}
}

// A list is an immutable sequence value: cat(prefix, lit(...)).
func mkLit(typ types.Type, xs ...*Term) *Term { return mkOp("lit", typ, xs...) }

func mkCat(typ types.Type, a, b *Term) *Term {
	if b.isOp("lit") && len(b.args) == 0 {
		return a
	}
	if a.isOp("lit") && len(a.args) == 0 {
		return b
	}
	if a == tNil {
		return b
	}
	if a.isOp("lit") && b.isOp("lit") {
		return mkLit(typ, append(append([]*Term{}, a.args...), b.args...)...)
	}
	if a.isOp("cat") && a.args[1].isOp("lit") && b.isOp("lit") {
		return mkOp("cat", typ, a.args[0], mkCat(typ, a.args[1], b))
	}
	return mkOp("cat", typ, a, b)
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 6 {
		return "…"
	}
	as := func() string {
		var ss []string
		for _, a := range t.args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.kind {
	case KConst:
		return t.cv.String()
	case KNil:
		return "nil"
	case KSym:
		return t.op
	case KLin:
		return fmt.Sprintf("%s%+d", t.args[0].str(d+1), t.off)
	case KOp:
		return t.op + "(" + as() + ")"
	case KAlloc:
		return "&" + t.op
	case KGlobal:
		return "&" + t.glob.Name()
	case KField:
		n := fmt.Sprint(t.off)
		if st := derefStruct(t.args[0].typ); st != nil {
			n = st.Field(int(t.off)).Name()
		}
		return t.args[0].str(d+1) + "->" + n
	case KElem:
		return t.args[0].str(d+1) + "->[" + t.args[1].str(d+1) + "]"
	case KFn:
		return "func " + t.fn.Name()
	case KIface:
		return shortType(t.typ) + "(" + as() + ")"
	case KTuple:
		return "(" + as() + ")"
	case KAgg:
		return shortType(t.typ) + "{" + as() + "}"
	}
	return "?"
}

// walkTerm visits t and its subterms.
func walkTerm(t *Term, seen map[*Term]bool, f func(*Term)) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	f(t)
	for _, a := range t.args {
		walkTerm(a, seen, f)
	}
}

// subst replaces subterms by m (memoised in memo).
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if !t.hasSym {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = subst(a, m, memo)
			if na[i] != a {
				changed = true
			}
		}
		if changed {
			r = rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, na []*Term) *Term {
	switch {
	case t.kind == KLin:
		return mkLin(na[0], t.off)
	case t.isOp("concat"):
		return mkConcat(na...)
	}
	c := *t
	c.args = na
	c.hasSym = false
	return mk(c)
}
