package main

import (
	"fmt"
	"go/constant"
	"go/types"
)

// root is the object a location belongs to.
func root(p *Term) *Term {
	if p.isOp("ents") || p.isOp("iterof") || p.isOp("iterpos") {
		return p.args[0]
	}
	for p.kind == KField || p.kind == KElem {
		p = p.args[0]
	}
	return p
}

// verKey names the class of locations that may be the same cell as p.
func verKey(p *Term) string {
	switch p.kind {
	case KField:
		return "f" + fmt.Sprint(typeID(deref(p.args[0].typ))) + "." + fmt.Sprint(p.off)
	case KElem:
		return "e" + fmt.Sprint(typeID(deref(p.typ)))
	}
	if p.typ != nil {
		return "d" + fmt.Sprint(typeID(deref(p.typ)))
	}
	return "?"
}

func (st *State) tag(p *Term) *Term {
	if t, ok := st.hav[root(p)]; ok {
		return t
	}
	if t, ok := st.ver[verKey(p)]; ok {
		return t
	}
	return st.verAll
}

func zeroValue(t types.Type) *Term {
	if isBuilder(t) {
		return mkOp("builder", t, cStr(""))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsNumeric != 0:
			return cInt(0)
		case u.Kind() == types.UnsafePointer:
			return tNil
		}
		return tNil
	case *types.Struct:
		var xs []*Term
		for i := 0; i < u.NumFields(); i++ {
			xs = append(xs, zeroValue(u.Field(i).Type()))
		}
		return mkAgg(t, xs)
	case *types.Array:
		if u.Len() <= 64 || globalsZero && u.Len() <= 1<<12 {
			var xs []*Term
			for i := int64(0); i < u.Len(); i++ {
				xs = append(xs, zeroValue(u.Elem()))
			}
			return mkAgg(t, xs)
		}
		return mkOp("zeroarr", t)
	case *types.Tuple:
		var xs []*Term
		for i := 0; i < u.Len(); i++ {
			xs = append(xs, zeroValue(u.At(i).Type()))
		}
		return mkTuple(xs...)
	}
	return tNil
}

// opaqueStructs are library types treated as one indivisible value.
func isOpaqueStruct(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return !inModule(n.Obj().Pkg().Path())
	}
	return false
}

func (st *State) load(p *Term) *Term {
	t := deref(p.typ)
	if t == nil {
		return mkOp("load", nil, p)
	}
	if isOpaqueStruct(t) {
		return st.loadLeaf(p, t)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		xs := make([]*Term, u.NumFields())
		for i := range xs {
			xs[i] = st.load(mkField(p, i))
		}
		return mkAgg(t, xs)
	case *types.Array:
		if u.Len() <= 64 || globalsZero && u.Len() <= 1<<12 {
			xs := make([]*Term, u.Len())
			for i := range xs {
				xs[i] = st.load(mkElem(p, cInt(int64(i)), u.Elem()))
			}
			return mkAgg(t, xs)
		}
	}
	return st.loadLeaf(p, t)
}

func (st *State) loadLeaf(p *Term, t types.Type) *Term {
	if v, ok := st.heap[p]; ok {
		return v
	}
	if v, ok := baseHeap[p]; ok {
		return v
	}
	if p.kind == KField {
		// a field of a library type
		if w := st.heap[p.args[0]]; w != nil {
			for w.isOp("upd") {
				if k, _ := w.args[1].isInt(); k == p.off {
					return w.args[2]
				}
				w = w.args[0]
			}
			if w.kind == KAgg && int(p.off) < len(w.args) {
				return w.args[p.off]
			}
			return mkOp("fld", t, w, cInt(p.off))
		}
	}
	// an element of an immutable list
	if p.kind == KElem {
		b := p.args[0]
		if i, ok := p.args[1].isInt(); ok && b.isOp("lit") && i >= 0 && int(i) < len(b.args) {
			return b.args[i]
		}
		if b.isOp("cat") {
			// an index counted from the end
			if l := st.length(b.args[0]); true {
				if d := st.sub(p.args[1], l); d.kind == KConst && b.args[1].isOp("lit") {
					if k, _ := d.isInt(); k >= 0 && int(k) < len(b.args[1].args) {
						return b.args[1].args[k]
					}
				}
			}
		}
		if _, ok := p.args[1].isInt(); !ok {
			r := root(p)
			// a table with known cells and an unknown index
			if r.kind == KAlloc || r.kind == KGlobal {
				return mkOp("tbl", t, b, p.args[1], st.tag(p))
			}
		}
	}
	r := root(p)
	if r.kind == KAlloc && st.hav[r] == nil || r.kind == KGlobal && globalsZero {
		if !hasSymIndex(p) {
			return zeroValue(t)
		}
	}
	return mkOp("init", t, p, st.tag(p))
}

type stateVal struct {
	st  *State
	val *Term
}

// tableRead reads a constant table of a package at an unknown index: one state
// for each value, with the index restricted to where the table holds it.
func (st *State) tableRead(p *Term) []stateVal {
	if p.kind != KElem || globalsZero {
		return nil
	}
	idx, base := p.args[1], p.args[0]
	if r := root(base); r.kind != KGlobal && !baseObjs[r] || hasSymIndex(base) {
		return nil
	}
	arr, ok := types.Type(nil), false
	if t := deref(base.typ); t != nil {
		arr = t.Underlying()
		_, ok = arr.(*types.Array)
	}
	if _, isC := idx.isInt(); isC || !ok {
		return nil
	}
	n := arr.(*types.Array).Len()
	et := arr.(*types.Array).Elem()
	if n > 1<<12 {
		return nil
	}
	known := false
	groups := map[*Term]IntSet{}
	var order []*Term
	for i := int64(0); i < n; i++ {
		q := mkElem(base, cInt(i), et)
		if _, ok := st.heap[q]; ok {
			return nil
		}
		v, ok := baseHeap[q]
		known = known || ok
		if !ok {
			v = zeroValue(et)
		}
		if v.kind != KConst {
			return nil
		}
		if groups[v] == nil {
			order = append(order, v)
		}
		groups[v] = groups[v].union(single(i))
	}
	if !known || len(order) > 16 {
		return nil
	}
	var res []stateVal
	for _, v := range order {
		s := st.clone()
		if restrictVal(s, idx, groups[v]) {
			res = append(res, stateVal{s, v})
		}
	}
	if res == nil {
		res = []stateVal{}
	}
	return res
}

// globalsZero is set while package initialisers are interpreted.
var globalsZero = false

func hasSymIndex(p *Term) bool {
	for p.kind == KField || p.kind == KElem {
		if p.kind == KElem {
			if _, ok := p.args[1].isInt(); !ok {
				return true
			}
		}
		p = p.args[0]
	}
	return false
}

// singletons are struct types of which an analysed run has one instance.
var singletons = map[string]bool{}

func (st *State) store(p, v *Term) {
	t := deref(p.typ)
	if t != nil && !isOpaqueStruct(t) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := mkOp("fld", u.Field(i).Type(), v, cInt(int64(i)))
				if v.kind == KAgg {
					f = v.args[i]
				}
				st.store(mkField(p, i), f)
			}
			return
		case *types.Array:
			if v.kind == KAgg {
				for i := range v.args {
					st.store(mkElem(p, cInt(int64(i)), u.Elem()), v.args[i])
				}
				return
			}
			if v.isOp("zeroarr") {
				return
			}
		}
	}
	r := root(p)
	if r.kind != KAlloc || hasSymIndex(p) || st.esc[r] {
		st.invalidate(p, r)
	}
	if w := st.heap[p]; p.kind == KField && st.heap[p.args[0]] != nil && w == nil {
		// a field of a library type
		st.heap[p.args[0]] = mkOp("upd", st.heap[p.args[0]].typ, st.heap[p.args[0]], cInt(p.off), v)
		return
	}
	if t != nil && isOpaqueStruct(t) {
		for q := range st.heap {
			if q.kind == KField && q.args[0] == p {
				delete(st.heap, q)
			}
		}
	}
	st.heap[p] = v
	if r.kind != KAlloc || st.esc[r] {
		st.escape(v)
	}
}

// escape records that unknown values may point to the objects in v.
func (st *State) escape(vs ...*Term) {
	var work []*Term
	add := func(t *Term) {
		if !t.hasSym {
			return
		}
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if x.kind == KAlloc && !st.esc[x] && !baseObjs[x] {
				st.esc[x] = true
				work = append(work, x)
			}
		})
	}
	for _, v := range vs {
		add(v)
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		for p, v := range st.heap {
			if root(p) == a {
				add(v)
			}
		}
	}
}

func (st *State) invalidate(p, r *Term) {
	if p.kind == KField {
		if n, ok := deref(p.args[0].typ).(*types.Named); ok && singletons[n.Obj().Pkg().Name()+"."+n.Obj().Name()] {
			return
		}
	}
	if r.kind == KGlobal && !hasSymIndex(p) {
		return
	}
	key := verKey(p)
	for q := range st.heap {
		if q == p || verKey(q) != key {
			continue
		}
		rq := root(q)
		if rq != r && r.kind == KAlloc && (rq.kind == KAlloc || !st.esc[r]) {
			continue
		}
		if rq.kind == KAlloc && r.kind != KAlloc && !st.esc[rq] {
			continue // a fresh object is not reachable from input objects
		}
		if st.distinct(p, q) {
			continue
		}
		delete(st.heap, q)
	}
	st.occ["tag"]++
	nt := mkSym(fmt.Sprintf("tag%d", st.occ["tag"]), types.Typ[types.Int])
	if r.kind == KAlloc {
		if hasSymIndex(p) {
			st.hav[r] = nt
		}
		if !st.esc[r] {
			return
		}
	} else {
		for a := range st.esc {
			st.hav[a] = nt
		}
	}
	st.ver[key] = nt
}

// distinct reports whether two locations are certainly different cells.
func (st *State) distinct(p, q *Term) bool {
	if p.kind != q.kind {
		return false
	}
	switch p.kind {
	case KField:
		if p.off != q.off {
			return true
		}
		return st.distinctPtr(p.args[0], q.args[0])
	case KElem:
		if p.args[0] == q.args[0] {
			if v, k := st.decide(mkEq(p.args[1], q.args[1])); k && !v {
				return true
			}
			return false
		}
		return st.distinctPtr(p.args[0], q.args[0])
	}
	return st.distinctPtr(p, q)
}

func (st *State) distinctPtr(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.kind == KField || a.kind == KElem || b.kind == KField || b.kind == KElem {
		return st.distinct(a, b)
	}
	if v, k := st.decide(mkEq(a, b)); k && !v {
		return true
	}
	return (a.kind == KAlloc || a.kind == KGlobal) && (b.kind == KAlloc || b.kind == KGlobal)
}

// elemPtr is the location of s[i] for a slice value or an array pointer.
func (st *State) elemPtr(s, i *Term, elem types.Type) *Term {
	if s.isOp("sl") {
		lo := s.args[1]
		bl, kl := linParts(lo)
		bi, ki := linParts(i)
		if bl == nil {
			return mkElem(s.args[0], mkLin(bi, ki+kl), elem)
		}
		if bi == nil {
			return mkElem(s.args[0], mkLin(bl, ki+kl), elem)
		}
		return mkElem(s.args[0], mkOp("add", types.Typ[types.Int], lo, i), elem)
	}
	return mkElem(s, i, elem)
}

// elems returns the elements of a slice whose length is known.
func (st *State) elems(s *Term) ([]*Term, bool) {
	if s == tNil {
		return nil, true
	}
	if s.isOp("lit") {
		return s.args, true
	}
	if s.isOp("cat") {
		a, ok := st.elems(s.args[0])
		b, ok2 := st.elems(s.args[1])
		return append(append([]*Term{}, a...), b...), ok && ok2
	}
	if s.isOp("sl") {
		lo, ok := s.args[1].isInt()
		hi, ok2 := s.args[2].isInt()
		if !ok || !ok2 || hi-lo > 256 {
			return nil, false
		}
		et := sliceElem(s.typ)
		var out []*Term
		for i := lo; i < hi; i++ {
			out = append(out, st.load(mkElem(s.args[0], cInt(i), et)))
		}
		return out, true
	}
	if s.isOp("bytes") {
		if c, ok := s.args[0].isStr(); ok {
			var out []*Term
			for i := 0; i < len(c); i++ {
				out = append(out, cInt(int64(c[i])))
			}
			return out, true
		}
	}
	return nil, false
}

func sliceElem(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return sliceElem(u.Elem())
	case *types.Basic:
		return types.Typ[types.Uint8]
	}
	return types.Typ[types.Int]
}

// bytesAsString gives the string with the bytes of s, if it has a normal form.
func (st *State) bytesAsString(s *Term) *Term {
	if s.isOp("bytes") {
		return s.args[0]
	}
	if isStrT(s) {
		return s
	}
	if s.isOp("cat") {
		return mkConcat(st.bytesAsString(s.args[0]), st.bytesAsString(s.args[1]))
	}
	if es, ok := st.elems(s); ok {
		b := make([]byte, 0, len(es))
		var parts []*Term
		flush := func() {
			if len(b) > 0 {
				parts = append(parts, cStr(string(b)))
				b = b[:0]
			}
		}
		for _, e := range es {
			if v, ok := e.isInt(); ok {
				b = append(b, byte(v))
				continue
			}
			flush()
			parts = append(parts, mkOp("bytestr", types.Typ[types.String], e))
		}
		flush()
		return mkConcat(parts...)
	}
	return mkOp("str", types.Typ[types.String], s)
}

// havocAll forgets everything stored in memory that code outside the analysis
// could reach, starting from args.
func (st *State) havocAll(name string, args []*Term) {
	reach := map[*Term]bool{}
	var work []*Term
	add := func(t *Term) {
		walkTerm(t, map[*Term]bool{}, func(x *Term) {
			if x.kind == KAlloc && !reach[x] {
				reach[x] = true
				work = append(work, x)
			}
		})
	}
	for _, a := range args {
		add(a)
	}
	for p, v := range st.heap {
		if root(p).kind != KAlloc {
			add(v)
		}
	}
	for len(work) > 0 {
		a := work[len(work)-1]
		work = work[:len(work)-1]
		for p, v := range st.heap {
			if root(p) == a {
				add(v)
			}
		}
	}
	tag := mkSym(name, types.Typ[types.Int])
	for p := range st.heap {
		r := root(p)
		if r.kind == KAlloc && !reach[r] {
			continue
		}
		if r.kind == KGlobal && !mutableGlobals {
			continue
		}
		if baseObjs[r] {
			continue
		}
		delete(st.heap, p)
	}
	for a := range reach {
		if !baseObjs[a] {
			st.hav[a] = tag
			st.esc[a] = true
		}
	}
	st.ver = map[string]*Term{}
	st.verAll = tag
}

// mutableGlobals is false: package variables are only written by their
// initialisers (this is what check C11 decides).
var mutableGlobals = false

// baseObjs are the objects allocated by package initialisers.
var baseObjs = map[*Term]bool{}

// baseHeap is what package initialisers stored.
var baseHeap = map[*Term]*Term{}

func constKind(t *Term) constant.Kind { return t.cv.Kind() }
