package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// DynFact constrains the dynamic type of an interface value by type ids.
type DynFact struct {
	in  []int // nil: unknown; else one of these
	out []int // none of these
}

// Frame is one activation on the abstract call stack. Frames other than the
// innermost are never modified.
type Frame struct {
	fn     *ssa.Function
	parent *Frame
	ctx    string
	regs   map[ssa.Value]*Term
	defers []deferred
	args   []*Term
}

type deferred struct {
	fn   *Term
	args []*Term
	inst *ssa.Defer
}

// State is one abstract state: a store of terms plus facts about them.
type State struct {
	fr     *Frame
	heap   map[*Term]*Term // location -> value
	ver    map[string]*Term
	verAll *Term
	hav    map[*Term]*Term // allocations whose unset cells are unknown
	ints   map[*Term]IntSet
	dbm    map[[2]*Term]int64 // x - y <= c
	nils   map[*Term]bool
	dyn    map[*Term]DynFact
	bools  map[*Term]bool
	strs   map[*Term]*Term // equal to a constant string
	ghost  map[string]*Term
	occ    map[string]int
	esc    map[*Term]bool // allocations that unknown values may point to
	trace  *Term
	panick *Term
	recov  bool
	dead   bool
	clo    *closure // closure of the integer facts, nil if stale
}

func newState() *State {
	return &State{
		heap: map[*Term]*Term{}, ver: map[string]*Term{}, hav: map[*Term]*Term{},
		ints: map[*Term]IntSet{}, dbm: map[[2]*Term]int64{}, nils: map[*Term]bool{},
		dyn: map[*Term]DynFact{}, bools: map[*Term]bool{}, strs: map[*Term]*Term{},
		ghost: map[string]*Term{}, occ: map[string]int{}, trace: tUnit, esc: map[*Term]bool{},
		verAll: mkConst(constant.MakeInt64(0)),
	}
}

func cp[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) clone() *State {
	n := *st
	if st.fr != nil {
		f := *st.fr
		f.regs = cp(st.fr.regs)
		f.defers = append([]deferred(nil), st.fr.defers...)
		n.fr = &f
	}
	n.heap, n.ver, n.hav = cp(st.heap), cp(st.ver), cp(st.hav)
	n.ints, n.dbm, n.nils, n.dyn = cp(st.ints), cp(st.dbm), cp(st.nils), cp(st.dyn)
	n.bools, n.strs, n.ghost, n.occ = cp(st.bools), cp(st.strs), cp(st.ghost), cp(st.occ)
	n.esc = cp(st.esc)
	return &n
}

// event appends e to the trace.
func (st *State) event(e *Term) { st.trace = mkTuple(st.trace, e) }

func traceList(t *Term) []*Term {
	var out []*Term
	for t != tUnit {
		out = append(out, t.args[1])
		t = t.args[0]
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ---------------------------------------------------------------------------
// integers

var runeSet = rangeSet(-1, unicode.MaxRune)

func typeSet(t types.Type) IntSet {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return rangeSet(0, 255)
			case types.Int8:
				return rangeSet(-128, 127)
			case types.Uint16:
				return rangeSet(0, 65535)
			case types.Int16:
				return rangeSet(-32768, 32767)
			case types.Int32:
				return rangeSet(-1<<31, 1<<31-1)
			case types.Uint32:
				return rangeSet(0, 1<<32-1)
			case types.Uint, types.Uint64, types.Uintptr:
				return rangeSet(0, maxI)
			}
		}
	}
	return fullSet()
}

func defaultSet(t *Term) IntSet {
	if t.kind == KOp {
		switch t.op {
		case "len":
			return rangeSet(0, 1<<40)
		case "and":
			for _, a := range t.args {
				if v, ok := a.isInt(); ok && v >= 0 {
					return rangeSet(0, v)
				}
			}
		}
	}
	return typeSet(t.typ)
}

// set returns the values t may take, from interval facts alone.
func (st *State) set(t *Term) IntSet {
	if v, ok := t.isInt(); ok {
		return single(v)
	}
	if t.kind == KLin {
		return st.set(t.args[0]).shift(t.off)
	}
	if s, ok := st.ints[t]; ok {
		return s
	}
	return defaultSet(t)
}

const inf = int64(maxI)

// dist returns the least known c with x - y <= c.
func (st *State) dist(x, y *Term) int64 {
	bx, kx := linParts(x)
	by, ky := linParts(y)
	if bx == nil {
		bx = tZero
	}
	if by == nil {
		by = tZero
	}
	d := st.baseDist(bx, by)
	if d >= inf {
		return inf
	}
	return d + kx - ky
}

func (st *State) baseDist(x, y *Term) int64 {
	if x == y {
		return 0
	}
	if len(st.dbm) == 0 {
		return min(inf, upper(st, x)-lower(st, y))
	}
	if st.clo == nil {
		st.clo = newClosure(st)
	}
	return st.clo.base(st, x, y)
}

func upper(st *State, t *Term) int64 {
	s := st.set(t)
	if s.empty() {
		return inf
	}
	if m := s.max(); m < maxI {
		return m
	}
	return inf
}

func lower(st *State, t *Term) int64 {
	s := st.set(t)
	if s.empty() {
		return -inf
	}
	if m := s.min(); m > minI {
		return m
	}
	return -inf
}

// provesLE reports whether x <= y + k always holds.
func (st *State) provesLE(x, y *Term, k int64) bool { return st.dist(x, y) <= k }

// bounds returns the best known interval of t using all facts.
func (st *State) bounds(t *Term) (int64, int64) {
	hi := st.dist(t, tZero)
	lo := st.dist(tZero, t)
	if lo >= inf {
		lo = -inf
	} else {
		lo = -lo
	}
	return lo, hi
}

func (st *State) addLE(x, y *Term, c int64) bool { // x - y <= c
	bx, kx := linParts(x)
	by, ky := linParts(y)
	c = c - kx + ky
	if bx == nil {
		bx = tZero
	}
	if by == nil {
		by = tZero
	}
	if bx == by {
		return c >= 0
	}
	if st.baseDist(by, bx)+c < 0 {
		return false
	}
	if st.baseDist(bx, by) <= c {
		return true
	}
	if by == tZero {
		return st.restrict(bx, rangeSet(minI, c))
	}
	if bx == tZero {
		return st.restrict(by, rangeSet(-c, maxI))
	}
	st.dbm[[2]*Term{bx, by}] = c
	st.clo = nil
	return true
}

// restrict intersects the values of an integer atom or Lin with s.
func (st *State) restrict(t *Term, s IntSet) bool {
	b, k := linParts(t)
	if b == nil {
		return s.has(k)
	}
	n := st.set(b).inter(s.shift(-k))
	if n.empty() {
		return false
	}
	// Tighten with the difference bounds so that infeasibility is noticed.
	st.ints[b] = n
	st.clo = nil
	if len(st.dbm) > 0 {
		lo, hi := st.bounds(b)
		n = n.inter(rangeSet(max(lo, minI), min(hi, maxI)))
		if n.empty() {
			return false
		}
		st.ints[b] = n
		st.clo = nil
	}
	if onTokRefine != nil {
		return onTokRefine(st, b)
	}
	return true
}

// onTokRefine lets a client derive dependent facts when an integer is refined.
var onTokRefine func(st *State, t *Term) bool

// ---------------------------------------------------------------------------
// predicates over one integer

var (
	predCache = map[*Term]IntSet{}
	hole      = mkSym("?", types.Typ[types.Int32])
)

// soleAtom returns the only integer atom the predicate t depends on, if any.
func soleAtom(t *Term) *Term {
	var atom *Term
	ok := true
	var rec func(t *Term, top bool)
	rec = func(t *Term, top bool) {
		if !ok {
			return
		}
		switch t.kind {
		case KConst:
		case KLin:
			rec(t.args[0], false)
		case KOp:
			if evalOps[t.op] {
				for _, a := range t.args {
					rec(a, false)
				}
				return
			}
			fallthrough
		case KSym:
			if !isIntType(t.typ) || (atom != nil && atom != t) {
				ok = false
				return
			}
			atom = t
		default:
			ok = false
		}
	}
	rec(t, true)
	if !ok {
		return nil
	}
	return atom
}

var evalOps = map[string]bool{"eq": true, "lt": true, "le": true, "not": true, "or": true, "and": true,
	"xor": true, "andnot": true, "add": true, "sub": true, "mul": true, "quo": true, "rem": true, "shl": true, "shr": true, "conv": true,
	"call:unicode.IsLetter": true, "call:unicode.IsUpper": true, "call:unicode.IsLower": true,
	"call:unicode.IsDigit": true, "call:unicode.IsSpace": true, "call:unicode.IsNumber": true, "call:unicode.IsPunct": true,
	"call:unicode.IsControl": true, "call:unicode.IsPrint": true, "call:unicode.IsGraphic": true, "call:unicode.IsTitle": true,
	"call:unicode.ToLower": true, "call:unicode.ToUpper": true, "call:unicode/utf8.ValidRune": true, "call:unicode/utf8.RuneLen": true,
	"band": true, "bor": true, "call:strings.ContainsRune": true, "call:strings.IndexRune": true, "call:strings.IndexByte": true}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// evalAt evaluates a predicate with its atom set to v.
func evalAt(t, atom *Term, v int64) int64 {
	if t == atom {
		return v
	}
	switch t.kind {
	case KConst:
		if i, ok := t.isInt(); ok {
			return i
		}
		b, _ := t.isBool()
		return b2i(b)
	case KLin:
		return evalAt(t.args[0], atom, v) + t.off
	}
	if t.op == "call:strings.ContainsRune" || t.op == "call:strings.IndexRune" || t.op == "call:strings.IndexByte" {
		s, _ := t.args[0].isStr()
		x := evalAt(t.args[1], atom, v)
		idx := int64(-1)
		if t.op == "call:strings.IndexByte" {
			for i := 0; i < len(s); i++ {
				if int64(s[i]) == x {
					idx = int64(i)
					break
				}
			}
		} else {
			for i, r := range s {
				if int64(r) == x {
					idx = int64(i)
					break
				}
			}
		}
		if t.op == "call:strings.ContainsRune" {
			return b2i(idx >= 0)
		}
		return idx
	}
	a := evalAt(t.args[0], atom, v)
	var b int64
	if len(t.args) > 1 {
		b = evalAt(t.args[1], atom, v)
	}
	switch t.op {
	case "eq":
		return b2i(a == b)
	case "lt":
		return b2i(a < b)
	case "le":
		return b2i(a <= b)
	case "not":
		return b2i(a == 0)
	case "band":
		return b2i(a != 0 && b != 0)
	case "bor":
		return b2i(a != 0 || b != 0)
	case "or":
		return a | b
	case "and":
		return a & b
	case "xor":
		return a ^ b
	case "andnot":
		return a &^ b
	case "add":
		return a + b
	case "sub":
		return a - b
	case "mul":
		return a * b
	case "quo":
		if b == 0 {
			return 0
		}
		return a / b
	case "rem":
		if b == 0 {
			return 0
		}
		return a % b
	case "shl":
		return a << uint(b&63)
	case "shr":
		return a >> uint(b&63)
	case "conv":
		return truncTo(t.typ, a)
	case "call:unicode.IsLetter":
		return b2i(unicode.IsLetter(rune(a)))
	case "call:unicode.IsUpper":
		return b2i(unicode.IsUpper(rune(a)))
	case "call:unicode.IsLower":
		return b2i(unicode.IsLower(rune(a)))
	case "call:unicode.IsDigit":
		return b2i(unicode.IsDigit(rune(a)))
	case "call:unicode.IsSpace":
		return b2i(unicode.IsSpace(rune(a)))
	case "call:unicode.IsNumber":
		return b2i(unicode.IsNumber(rune(a)))
	case "call:unicode.IsPunct":
		return b2i(unicode.IsPunct(rune(a)))
	case "call:unicode.IsControl":
		return b2i(unicode.IsControl(rune(a)))
	case "call:unicode.IsPrint":
		return b2i(unicode.IsPrint(rune(a)))
	case "call:unicode.IsGraphic":
		return b2i(unicode.IsGraphic(rune(a)))
	case "call:unicode.IsTitle":
		return b2i(unicode.IsTitle(rune(a)))
	case "call:unicode.ToLower":
		return int64(unicode.ToLower(rune(a)))
	case "call:unicode.ToUpper":
		return int64(unicode.ToUpper(rune(a)))
	case "call:unicode/utf8.ValidRune":
		return b2i(utf8.ValidRune(rune(a)))
	case "call:unicode/utf8.RuneLen":
		return int64(utf8.RuneLen(rune(a)))
	}
	panic("evalAt " + t.op)
}

func truncTo(t types.Type, v int64) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Uint8:
		return int64(uint8(v))
	case types.Int8:
		return int64(int8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

// truthSet returns the atom of a one-variable predicate and the values in dom
// for which it holds.
func truthSet(p, atom *Term, dom IntSet) (IntSet, bool) {
	if dom.size() > 1<<17 {
		if !dom.subsetOf(runeSet) {
			return nil, false
		}
		key := subst(p, map[*Term]*Term{atom: hole}, map[*Term]*Term{})
		s, ok := predCache[key]
		if !ok {
			s = setOf(runeSet, func(v int64) bool { return evalAt(key, hole, v) != 0 })
			predCache[key] = s
		}
		return s.inter(dom), true
	}
	return setOf(dom, func(v int64) bool { return evalAt(p, atom, v) != 0 }), true
}

// ---------------------------------------------------------------------------
// booleans

func mkNot(t *Term) *Term {
	if b, ok := t.isBool(); ok {
		return cBool(!b)
	}
	if t.isOp("not") {
		return t.args[0]
	}
	return mkOp("not", types.Typ[types.Bool], t)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.kind == KConst && b.kind == KConst {
		return cBool(constant.Compare(a.cv, token.EQL, b.cv))
	}
	if a.kind == KIface && b.kind == KIface {
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return mkEq(a.args[0], b.args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkOp("eq", types.Typ[types.Bool], a, b)
}

func (st *State) isNil(t *Term) (isNil, known bool) {
	switch t.kind {
	case KNil:
		return true, true
	case KAlloc, KGlobal, KField, KElem, KFn, KIface, KAgg, KConst:
		return false, true
	case KOp:
		switch t.op {
		case "sl", "mapobj", "errobj", "err:list", "err:fmt.Errorf", "err:errors.New":
			return false, true
		case "lit":
			if len(t.args) > 0 {
				return false, true
			}
		case "cat":
			if v, ok := st.isNil(t.args[1]); ok && !v {
				return false, true
			}
		}
	}
	v, ok := st.nils[t]
	return v, ok
}

func (st *State) setNil(t *Term, v bool) bool {
	if w, ok := st.isNil(t); ok {
		return w == v
	}
	st.nils[t] = v
	if !v {
		// a non-nil value cannot be constrained to have no type
		return true
	}
	return true
}

func isPtrLike(t *Term) bool {
	switch t.kind {
	case KNil, KAlloc, KGlobal, KField, KElem, KFn, KIface:
		return true
	}
	if t.typ == nil {
		return false
	}
	switch t.typ.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

// decide evaluates a boolean term under the facts.
func (st *State) decide(c *Term) (val, known bool) {
	if b, ok := c.isBool(); ok {
		return b, true
	}
	if c.isOp("not") {
		v, k := st.decide(c.args[0])
		return !v, k
	}
	if v, ok := st.bools[c]; ok {
		return v, true
	}
	if c.kind == KOp {
		switch c.op {
		case "eq":
			a, b := c.args[0], c.args[1]
			if a == tNil || b == tNil {
				if b != tNil {
					a = b
				}
				return st.isNil(a)
			}
			if isInt(a) && isInt(b) {
				sa, sb := st.set(a), st.set(b)
				if sa.inter(sb).empty() {
					return false, true
				}
				d1, d2 := st.dist(a, b), st.dist(b, a)
				if d1 <= 0 && d2 <= 0 {
					return true, true
				}
				if d1 < 0 || d2 < 0 {
					return false, true
				}
			}
			if isPtrLike(a) && isPtrLike(b) {
				na, ka := st.isNil(a)
				nb, kb := st.isNil(b)
				if ka && kb && na != nb {
					return false, true
				}
				if ka && kb && na && nb {
					return true, true
				}
				if a.kind == KAlloc && b.kind == KAlloc && a != b {
					return false, true
				}
			}
			if ca, ok := st.strConst(a); ok {
				if cb, ok := st.strConst(b); ok {
					return ca == cb, true
				}
			}
			// a known length contradicting
			if isStrT(a) && isStrT(b) {
				la, lb := st.length(a), st.length(b)
				if st.set(la).inter(st.set(lb)).empty() || st.dist(la, lb) < 0 || st.dist(lb, la) < 0 {
					return false, true
				}
			}
		case "lt":
			if st.provesLE(c.args[0], c.args[1], -1) {
				return true, true
			}
			if st.provesLE(c.args[1], c.args[0], 0) {
				return false, true
			}
		case "le":
			if st.provesLE(c.args[0], c.args[1], 0) {
				return true, true
			}
			if st.provesLE(c.args[1], c.args[0], -1) {
				return false, true
			}
		case "band":
			v1, k1 := st.decide(c.args[0])
			v2, k2 := st.decide(c.args[1])
			if k1 && !v1 || k2 && !v2 {
				return false, true
			}
			if k1 && k2 {
				return true, true
			}
		case "bor":
			v1, k1 := st.decide(c.args[0])
			v2, k2 := st.decide(c.args[1])
			if k1 && v1 || k2 && v2 {
				return true, true
			}
			if k1 && k2 {
				return false, true
			}
		}
	}
	if a := soleAtom(c); a != nil {
		dom := st.set(a)
		if ts, ok := truthSet(c, a, dom); ok {
			if ts.empty() {
				return false, true
			}
			if ts.equal(dom) {
				return true, true
			}
		}
	}
	return false, false
}

func isInt(t *Term) bool {
	if _, ok := t.isInt(); ok {
		return true
	}
	return t.kind == KLin || isIntType(t.typ) && (t.kind == KSym || t.kind == KOp)
}

func isStrT(t *Term) bool {
	if _, ok := t.isStr(); ok {
		return true
	}
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (st *State) strConst(t *Term) (string, bool) {
	if s, ok := t.isStr(); ok {
		return s, true
	}
	if c, ok := st.strs[t]; ok {
		s, _ := c.isStr()
		return s, true
	}
	return "", false
}

// assume adds the fact that c has the given truth value; false if infeasible.
func (st *State) assume(c *Term, truth bool) bool {
	if v, known := st.decide(c); known {
		return v == truth
	}
	if c.isOp("not") {
		return st.assume(c.args[0], !truth)
	}
	if c.kind == KOp {
		switch c.op {
		case "band":
			if truth {
				return st.assume(c.args[0], true) && st.assume(c.args[1], true)
			}
			st.bools[c] = truth
			return true
		case "bor":
			if !truth {
				return st.assume(c.args[0], false) && st.assume(c.args[1], false)
			}
			st.bools[c] = truth
			return true
		case "eq":
			a, b := c.args[0], c.args[1]
			if a == tNil || b == tNil {
				if b != tNil {
					a = b
				}
				return st.setNil(a, truth)
			}
			if isInt(a) && isInt(b) {
				if atom := soleAtom(c); atom != nil && atom != a && atom != b || onlyOps(a) || onlyOps(b) {
					if ok, done := st.assumePred(c, truth); done {
						return ok
					}
				}
				if truth {
					return st.addLE(a, b, 0) && st.addLE(b, a, 0) && st.meetSets(a, b)
				}
				if v, ok := b.isInt(); ok {
					return st.restrict(a, single(v).complement())
				}
				if v, ok := a.isInt(); ok {
					return st.restrict(b, single(v).complement())
				}
				if st.dist(a, b) == 0 {
					return st.addLE(a, b, -1)
				}
				if st.dist(b, a) == 0 {
					return st.addLE(b, a, -1)
				}
				st.bools[c] = false
				return true
			}
			if isStrT(a) || isStrT(b) {
				if truth {
					if s, ok := st.strConst(a); ok {
						st.strs[b] = cStr(s)
					} else if s, ok := st.strConst(b); ok {
						st.strs[a] = cStr(s)
					}
					la, lb := st.length(a), st.length(b)
					if !st.addLE(la, lb, 0) || !st.addLE(lb, la, 0) {
						return false
					}
				} else {
					// not equal to "": non-empty
					if s, ok := a.isStr(); ok && s == "" {
						if !st.addLE(cInt(1), st.length(b), 0) {
							return false
						}
					} else if s, ok := b.isStr(); ok && s == "" {
						if !st.addLE(cInt(1), st.length(a), 0) {
							return false
						}
					}
				}
				st.bools[c] = truth
				return true
			}
			if truth && isPtrLike(a) && isPtrLike(b) {
				if n, k := st.isNil(a); k && !st.setNil(b, n) {
					return false
				}
				if n, k := st.isNil(b); k && !st.setNil(a, n) {
					return false
				}
			}
			st.bools[c] = truth
			return true
		case "lt", "le":
			a, b := c.args[0], c.args[1]
			if onlyOps(a) || onlyOps(b) {
				if ok, done := st.assumePred(c, truth); done && !ok {
					return false
				}
			}
			k := int64(0)
			if c.op == "lt" {
				k = -1
			}
			if truth {
				return st.addLE(a, b, k)
			}
			return st.addLE(b, a, -1-k)
		}
	}
	if ok, done := st.assumePred(c, truth); done {
		return ok
	}
	st.bools[c] = truth
	if onBool != nil {
		return onBool(st, c, truth)
	}
	return true
}

var onBool func(st *State, c *Term, truth bool) bool

func onlyOps(t *Term) bool {
	b, _ := linParts(t)
	return b != nil && b.kind == KOp && evalOps[b.op]
}

func (st *State) assumePred(c *Term, truth bool) (ok, done bool) {
	a := soleAtom(c)
	if a == nil {
		return true, false
	}
	dom := st.set(a)
	ts, ok := truthSet(c, a, dom)
	if !ok {
		return true, false
	}
	if !truth {
		ts = dom.minus(ts)
	}
	return st.restrict(a, ts), true
}

func (st *State) meetSets(a, b *Term) bool {
	s := st.set(a).inter(st.set(b))
	return !s.empty() && st.restrict(a, s) && st.restrict(b, s)
}

// length returns the length of a string, slice or map term.
func (st *State) length(t *Term) *Term {
	if s, ok := t.isStr(); ok {
		return cInt(int64(len(s)))
	}
	if c, ok := st.strs[t]; ok {
		s, _ := c.isStr()
		return cInt(int64(len(s)))
	}
	if t == tNil {
		return tZero
	}
	if n, k := st.isNil(t); k && n {
		return tZero
	}
	if t.kind == KOp {
		switch t.op {
		case "lit":
			return cInt(int64(len(t.args)))
		case "cat":
			if b := st.length(t.args[1]); b.kind == KConst {
				v, _ := b.isInt()
				return mkLin(st.length(t.args[0]), v)
			}
		case "sl":
			return st.sub(t.args[2], t.args[1])
		case "slice":
			return st.sub(t.args[2], t.args[1])
		case "str", "bytes":
			return st.length(t.args[0])
		case "sorted":
			if l := st.length(t.args[0]); !l.isOp("len") {
				return l
			}
		case "concat":
			base, k := (*Term)(nil), int64(0)
			for _, a := range t.args {
				b, o := linParts(st.length(a))
				if b != nil {
					if base != nil {
						return mkOp("len", types.Typ[types.Int], t)
					}
					base = b
				}
				k += o
			}
			return mkLin(base, k)
		}
	}
	return mkOp("len", types.Typ[types.Int], t)
}

// sub returns hi - lo.
func (st *State) sub(hi, lo *Term) *Term {
	bh, kh := linParts(hi)
	bl, kl := linParts(lo)
	if bl == nil {
		return mkLin(bh, kh-kl)
	}
	if bh == bl {
		return cInt(kh - kl)
	}
	if d1, d2 := st.dist(hi, lo), st.dist(lo, hi); d1 < inf && d1 == -d2 {
		return cInt(d1)
	}
	if bh == nil {
		bh = tZero
	}
	t := mkOp("sub", types.Typ[types.Int], bh, bl)
	// keep what is known about the difference as an interval
	s := st.set(t)
	if d := st.dist(bh, bl); d < inf {
		s = s.inter(rangeSet(minI, d))
	}
	if d := st.dist(bl, bh); d < inf {
		s = s.inter(rangeSet(-d, maxI))
	}
	if !s.empty() && !s.equal(st.set(t)) {
		st.ints[t] = s
		st.clo = nil
	}
	return mkLin(t, kh-kl)
}

// ---------------------------------------------------------------------------
// dynamic types

func insSorted(xs []int, v int) []int {
	i := sort.SearchInts(xs, v)
	if i < len(xs) && xs[i] == v {
		return xs
	}
	out := make([]int, 0, len(xs)+1)
	out = append(out, xs[:i]...)
	out = append(out, v)
	return append(out, xs[i:]...)
}

func hasInt(xs []int, v int) bool {
	i := sort.SearchInts(xs, v)
	return i < len(xs) && xs[i] == v
}

// dynOf returns the single known dynamic type of an interface term.
func (st *State) dynOf(t *Term) (types.Type, bool) {
	if t.kind == KIface {
		return t.typ, true
	}
	if f, ok := st.dyn[t]; ok && len(f.in) == 1 {
		return typeByID[f.in[0]], true
	}
	return nil, false
}

// mayBe reports whether the dynamic type of t may be id.
func (st *State) mayBe(t *Term, id int) bool {
	if t.kind == KIface {
		return typeID(t.typ) == id
	}
	if t == tNil {
		return false
	}
	if n, k := st.isNil(t); k && n {
		return false
	}
	f := st.dyn[t]
	if f.in != nil {
		return hasInt(f.in, id)
	}
	return !hasInt(f.out, id)
}

func (st *State) assumeDyn(t *Term, id int, truth bool) bool {
	if t.kind == KIface {
		return (typeID(t.typ) == id) == truth
	}
	if !st.mayBe(t, id) {
		return !truth
	}
	f := st.dyn[t]
	if truth {
		st.dyn[t] = DynFact{in: []int{id}}
		return st.setNil(t, false)
	}
	if f.in != nil {
		var in []int
		for _, x := range f.in {
			if x != id {
				in = append(in, x)
			}
		}
		if len(in) == 0 {
			if n, k := st.isNil(t); k && !n {
				return false
			}
			// only nil is left
			if !st.setNil(t, true) {
				return false
			}
			delete(st.dyn, t)
			return true
		}
		st.dyn[t] = DynFact{in: in}
		return true
	}
	st.dyn[t] = DynFact{out: insSorted(f.out, id)}
	return true
}
