package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ParseSpec interprets the parser over an unknown sequence of tokens.
//
// With gram set, a pushdown automaton for the language follows the tokens the
// parser consumes and says which nodes must be built from them; only runs in
// which no error is recorded are followed. Without it every token sequence is
// followed through all error handling.
type ParseSpec struct {
	c       *Ctx
	w       *World
	e       *Eng
	cs      *Contracts
	gram    bool
	comm    bool // comments are followed
	strings bool // ParseStrings is set
	expr    bool // the input is that of ParseExpr
	traced  bool
	tok     map[string]int64
	toks    IntSet // the tokens the scanner can return in this mode
	tokT    types.Type
	astPkg  *types.Package
	recs    map[*ssa.Function]bool
	fails   map[string]Finding
	holds   map[string]int
	seen    map[string]map[string]bool
	outs    int
	scans   int
	fn      *ssa.Function
	adders  map[*ssa.Function]bool

	blames     [][]mismatch
	classOf    map[string][]IntSet
	counts     map[string]bool // counters that bound the recursion
	idle       map[string]map[*ssa.Function]map[*ssa.Function]bool
	unrestored map[string]*ssa.Function
}

var nodeFields = map[string][]string{
	"Ident":           {"NamePos", "Name"},
	"Number":          {"ValuePos", "Value"},
	"UnparsedText":    {"ValuePos", "Type", "Value"},
	"ParsedText":      {"Opener", "Depth", "Delim", "Values", "Closer"},
	"Text":            {"ValuePos", "Value"},
	"TextComma":       {"ValuePos"},
	"TextHyphen":      {"ValuePos"},
	"TextNBSP":        {"ValuePos"},
	"TextEscaped":     {"ValuePos", "Value"},
	"TextMath":        {"ValuePos", "Value"},
	"TextSpace":       {"ValuePos", "Value"},
	"TextMacro":       {"Cmd", "Name", "Values", "RBrace"},
	"ConcatExpr":      {"X", "OpPos", "Y"},
	"TagStmt":         {"NamePos", "Name", "RawName", "Value"},
	"PreambleDecl":    {"Entry", "Text", "RBrace"},
	"AbbrevDecl":      {"Entry", "Tag", "RBrace"},
	"BibDecl":         {"Type", "Entry", "Key", "ExtraKeys", "Tags", "RBrace"},
	"TexComment":      {"Start", "Text"},
	"TexCommentGroup": {"List"},
}

func newParseSpec(c *Ctx, gram, strs bool) *ParseSpec {
	sp := &ParseSpec{c: c, w: c.w, gram: gram, strings: strs, tok: c.constsOf("token", "Token"), tokT: c.w.typ("token", "Token"),
		astPkg: c.w.pkg("ast"), fails: map[string]Finding{}, holds: map[string]int{}, seen: map[string]map[string]bool{}, adders: map[*ssa.Function]bool{},
		classOf: map[string][]IntSet{},
		counts:  map[string]bool{}, unrestored: map[string]*ssa.Function{}}
	for n, v := range sp.tok {
		if strings.HasSuffix(n, "Begin") || strings.HasSuffix(n, "End") || n == "Comment" {
			continue
		}
		if strs && (n == "String" || n == "BraceString") || !strs && (strings.HasPrefix(n, "String") && n != "String" || n == "DoubleQuote") {
			continue
		}
		sp.toks = sp.toks.union(single(v))
	}
	return sp
}

func (sp *ParseSpec) set(names ...string) IntSet {
	var s IntSet
	for _, n := range names {
		v, ok := sp.tok[n]
		if !ok {
			panic(undecided{"token." + n + " not found"})
		}
		s = s.union(single(v))
	}
	return s
}

func (sp *ParseSpec) names(s IntSet) string {
	var xs []string
	for n, v := range sp.tok {
		if s.has(v) && sp.toks.has(v) {
			xs = append(xs, n)
		}
	}
	sort.Strings(xs)
	return strings.Join(xs, ",")
}

func (sp *ParseSpec) fail(st *State, rule, construct string, pos string, format string, args ...any) {
	k := rule + " | " + construct
	if _, ok := sp.fails[k]; !ok {
		sp.fails[k] = Finding{rule, construct, pos, fmt.Sprintf(format, args...)}
		if sp.e.debug {
			fmt.Println("SPEC", k, sp.fails[k].Detail)
			st.dump()
		}
	}
}

func (sp *ParseSpec) ok(rule, construct string) { sp.holds[rule+" | "+construct]++ }

func (sp *ParseSpec) req(st *State, ok bool, rule, construct, pos, format string, args ...any) {
	if ok {
		sp.ok(rule, construct)
	} else {
		sp.fail(st, rule, construct, pos, format, args...)
	}
}

// ---------------------------------------------------------------------------
// ghosts

func frames(st *State) []string {
	s := gstr(st, "stk")
	if s == "" {
		return nil
	}
	return strings.Split(s, "|")
}

func setFrames(st *State, fs []string) { st.ghost["stk"] = cStr(strings.Join(fs, "|")) }

func gkey(i int, f string) string { return "g" + strconv.Itoa(i) + "." + f }

// ghostFrame is the frame index of a frame ghost, or -1.
func ghostFrame(k string) (int, string) {
	if !strings.HasPrefix(k, "g") {
		return -1, ""
	}
	if i := strings.IndexByte(k, '.'); i > 0 {
		if n, err := strconv.Atoi(k[1:i]); err == nil {
			return n, k[i+1:]
		}
	}
	return -1, ""
}

func dropFrame(st *State, i int) {
	for k := range st.ghost {
		if n, _ := ghostFrame(k); n >= i {
			delete(st.ghost, k)
		}
	}
}

func goBad(st *State, why string) {
	delete(st.ghost, "failed")
	dropFrame(st, 0)
	for k := range st.ghost {
		if strings.HasPrefix(k, "c.") {
			delete(st.ghost, k)
		}
	}
	setFrames(st, []string{"!"})
	if st.ghost["bad"] == nil {
		st.ghost["bad"] = cStr(why)
	}
}

func tokPos(t *Term) *Term { return mkOp("tokpos", posType, t) }
func tokLit(t *Term) *Term { return mkOp("toklit", types.Typ[types.String], t) }

var posType types.Type = types.Typ[types.Int]

func (sp *ParseSpec) node(name string, args ...*Term) *Term { return mkOp("node:"+name, nil, args...) }

var tAny = mkOp("any", nil)

func emptyList(st *State, t *Term) bool {
	if t == nil || t == tNil {
		return true
	}
	n, ok := st.length(t).isInt()
	return ok && n == 0
}

// ---------------------------------------------------------------------------
// matching built nodes with expected ones

func (sp *ParseSpec) fieldOf(a *Term, name string) *Term {
	stt := derefStruct(a.typ)
	if stt == nil {
		return nil
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == name {
			return mkField(a, i)
		}
	}
	return nil
}

func (sp *ParseSpec) match(st *State, want, got *Term) bool {
	if want == nil || got == nil {
		return false
	}
	if want == tAny {
		n, k := st.isNil(got)
		return got.kind == KIface || k && !n || got.kind == KAlloc
	}
	if childID(want) == childID(got) {
		return true
	}
	if want == tNil {
		n, k := st.isNil(got)
		return k && n
	}
	if want.kind != KOp || !strings.HasPrefix(want.op, "node:") {
		return false
	}
	name := strings.TrimPrefix(want.op, "node:")
	a := childID(got)
	if a.kind != KAlloc {
		return false
	}
	t := deref(a.typ)
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() != sp.astPkg || n.Obj().Name() != name {
		return false
	}
	if name == "TextAccent" {
		return sp.matchAccent(st, want.args[0], a)
	}
	for i, f := range nodeFields[name] {
		p := sp.fieldOf(a, f)
		if p == nil {
			panic(undecided{"ast." + name + " has no field " + f})
		}
		if !sp.matchVal(st, want.args[i], st.load(p)) {
			return false
		}
	}
	return true
}

func (sp *ParseSpec) matchVal(st *State, w, v *Term) bool {
	switch {
	case w == tAny || w == v:
		return true
	case w.isOp("list1"):
		es, ok := st.elems(v)
		return ok && len(es) == 1 && sp.match(st, w.args[0], es[0])
	case w.isOp("list"):
		if emptyList(st, w.args[0]) {
			return emptyList(st, v)
		}
		return w.args[0] == v
	case w.kind == KOp && strings.HasPrefix(w.op, "node:") || w == tNil || w.kind == KIface || w.kind == KAlloc || isPtrLike(w):
		return sp.match(st, w, v)
	case isStrT(w):
		if w.isOp("call:strings.ToLower") {
			if a, ok := st.strConst(w.args[0]); ok {
				w = cStr(strings.ToLower(a))
			}
		}
		if a, ok := st.strConst(w); ok {
			b, ok := st.strConst(v)
			return ok && a == b
		}
		if b, known := st.decide(mkEq(w, v)); known {
			return b
		}
		return false
	}
	return st.proveEq(w, v)
}

func (sp *ParseSpec) matchAccent(st *State, t, a *Term) bool {
	lit := tokLit(t)
	if !st.proveEq(st.load(sp.fieldOf(a, "ValuePos")), tokPos(t)) {
		return false
	}
	acc := st.load(sp.fieldOf(a, "Accent"))
	if acc.isOp("conv") {
		acc = acc.args[0]
	}
	if acc != st.strAt(lit, cInt(1)) {
		return false
	}
	txt := childID(st.load(sp.fieldOf(a, "Text")))
	if txt.kind != KAlloc || deref(txt.typ) == nil || sp.fieldOf(txt, "Value") == nil {
		return false
	}
	val := st.load(sp.fieldOf(txt, "Value"))
	n := st.length(lit)
	if val == st.sliceTerm(lit, cInt(2), n, types.Typ[types.String]) {
		return !st.set(st.strAt(lit, cInt(2))).has('{') || !st.set(st.strAt(lit, mkLin(n, -1))).has('}')
	}
	if val == st.sliceTerm(lit, cInt(3), mkLin(n, -1), types.Typ[types.String]) {
		return st.set(st.strAt(lit, cInt(2))).equal(single('{')) && st.set(st.strAt(lit, mkLin(n, -1))).equal(single('}'))
	}
	return false
}

// seal replaces expected nodes by the values that have been found to match.
func (sp *ParseSpec) seal(st *State) {
	if !sp.gram {
		return
	}
	var cands []*Term
	add := func(t *Term) {
		if t.kind == KIface || t.kind == KAlloc {
			cands = append(cands, t)
		}
	}
	if st.fr != nil {
		for _, t := range st.fr.regs {
			add(t)
		}
	}
	if r := st.ghost["$ret"]; r != nil {
		for _, t := range r.args {
			add(t)
		}
	}
	for p, v := range st.heap {
		if p.kind == KAlloc {
			add(v) // local variables
		}
	}
	if len(cands) == 0 {
		return
	}
	sortTerms(cands)
	sp.bindLists(st)
	for _, k := range keysOf(st.ghost) {
		i, f := ghostFrame(k)
		if i < 0 && k != "item" {
			continue
		}
		_ = f
		w := st.ghost[k]
		isNode := w.kind == KOp && strings.HasPrefix(w.op, "node:")
		if !isNode && w.kind != KAlloc {
			continue
		}
		for _, t := range cands {
			if isNode && sp.match(st, w, t) {
				sp.ok("node content", describeNode(w))
				sp.ok("node position", describeNode(w))
			}
			if isNode && sp.match(st, w, t) || !isNode && t.kind == KIface && childID(t) == w {
				st.ghost[k] = t
				if i >= 0 {
					delete(st.ghost, gkey(i, "blame."+f))
				}
				isNode = false
				w = t
				if t.kind == KIface {
					break
				}
			}
		}
	}
}

// suspect remembers how the node a function returns differs from the one it
// should be, so that a later failure can be attributed to it.
func (sp *ParseSpec) suspect(st *State, cands []*Term) {
	if !sp.gram {
		return
	}
	var nodes []*Term
	seen := map[*Term]bool{}
	for _, t := range cands {
		if a := childID(t); a.kind == KAlloc && !seen[a] && sp.nodeName(a) != "" {
			seen[a] = true
			nodes = append(nodes, a)
		}
	}
	if len(nodes) == 0 {
		return
	}
	sortTerms(nodes)
	sp.suspectOf(st, st.ghost["item"], nodes, "blame")
	if i := len(frames(st)) - 1; i >= 0 {
		for _, f := range []string{"pend", "kpend", "tpend"} {
			if w := st.ghost[gkey(i, f)]; w != nil {
				sp.suspectOf(st, w, nodes, gkey(i, "blame."+f))
			}
		}
		for _, f := range []string{"x", "val", "text"} {
			if w := st.ghost[gkey(i, f)]; w != nil {
				sp.suspectOf(st, w, nodes, "blame")
			}
		}
	}
}

// results are the values of a return.
func results(r *Term) []*Term {
	switch {
	case r == nil:
		return nil
	case r.kind == KTuple:
		return r.args
	}
	return []*Term{r}
}

// suspectOf records in what the node built for w differs from it, when there
// is just one that may be it.
func (sp *ParseSpec) suspectOf(st *State, w *Term, nodes []*Term, blame string) {
	if w == nil || st.ghost[blame] != nil || w.kind != KOp || !strings.HasPrefix(w.op, "node:") {
		return
	}
	var best []mismatch
	for _, a := range nodes {
		if sp.nodeName(a) != describeNode(w) {
			continue
		}
		ms := sp.mismatches(st, w, a)
		if len(ms) == 0 {
			return
		}
		if best == nil || len(ms) < len(best) {
			best = ms
		}
	}
	if len(best) == 0 || len(best) > 1 && len(best) >= len(w.args) {
		return
	}
	n := len(sp.blames)
	for i, b := range sp.blames {
		if fmt.Sprint(b) == fmt.Sprint(best) {
			n = i
			break
		}
	}
	if n == len(sp.blames) {
		sp.blames = append(sp.blames, best)
	}
	st.ghost[blame] = cInt(int64(n))
}

// bindLists names the program's value of each expected list that is still
// empty, so that a join with a longer one keeps the two together.
func (sp *ParseSpec) bindLists(st *State) {
	if st.fr == nil {
		return
	}
	fs := frames(st)
	if len(fs) == 0 {
		return
	}
	i := len(fs) - 1
	want := map[string]string{}
	switch top := fs[i]; {
	case strings.HasPrefix(top, "F:"):
		want["list"] = "Decl"
	case strings.HasPrefix(top, "E:"):
		want["klist"], want["tlist"] = "Ident", "TagStmt"
	case top == "Q" || top == "G":
		want["list"] = "Expr"
	}
	for f, name := range want {
		if st.ghost[gkey(i, f)] != nil {
			continue
		}
		var found *Term
		n := 0
		for r, v := range st.fr.regs {
			sl, ok := r.Type().Underlying().(*types.Slice)
			if !ok || !emptyList(st, v) {
				continue
			}
			el := sl.Elem()
			if p, ok := el.(*types.Pointer); ok {
				el = p.Elem()
			}
			if nm, ok := types.Unalias(el).(*types.Named); ok && nm.Obj().Pkg() == sp.astPkg && nm.Obj().Name() == name && found != v {
				found = v
				n++
			}
		}
		if n == 1 {
			st.ghost[gkey(i, f)] = found
		}
	}
}

// ---------------------------------------------------------------------------
// the automaton

type trans struct {
	on  IntSet
	may bool // allowed, but rejecting it is no fault
	act func(st *State, t *Term) []*State
}

func one(st *State) []*State { return []*State{st} }

// top replaces the state of the top frame.
func setTop(st *State, s string) {
	fs := frames(st)
	fs[len(fs)-1] = s
	setFrames(st, fs)
}

func push(st *State, s string) int {
	fs := append(frames(st), s)
	setFrames(st, fs)
	return len(fs) - 1
}

func pop(st *State) {
	fs := frames(st)
	dropFrame(st, len(fs)-1)
	setFrames(st, fs[:len(fs)-1])
}

// dropped reports an expected list element that was never appended.
func (sp *ParseSpec) dropped(st *State, i int, f string, pos string) {
	if w := st.ghost[gkey(i, f)]; w != nil {
		if b := st.ghost[gkey(i, "blame."+f)]; b != nil {
			st.ghost["blame"] = b
		}
		sp.failNode(st, w, i, pos, "is not added to its list before the next element is read")
		delete(st.ghost, gkey(i, f))
	}
	delete(st.ghost, gkey(i, "blame."+f))
}

// failNode reports that the expected node w was not built or not put in its
// place, and says what is wrong with the node most like it.
func (sp *ParseSpec) failNode(st *State, w *Term, i int, pos, format string, args ...any) {
	st.ghost["failed"] = tUnit
	what := fmt.Sprintf(format, args...)
	name := describeNode(w)
	if fs := frames(st); name == "element" && i >= 0 && i < len(fs) && fs[i] != "" {
		name = map[byte]string{'Q': "ParsedText element", 'G': "ParsedText element", 'E': "BibDecl element", 'F': "File element"}[fs[i][0]]
		if name == "" {
			name = "element"
		}
	}
	if b := st.ghost["blame"]; b != nil {
		if v, ok := b.isInt(); ok {
			sp.failFields(st, sp.blames[v], pos)
			return
		}
	}
	if w.kind != KOp || !strings.HasPrefix(w.op, "node:") {
		sp.fail(st, "piece kept", name, pos, "the node for %s %s", name, what)
		return
	}
	var best []mismatch
	found := false
	var cands []*Term
	seen := map[*Term]bool{}
	for p := range st.heap {
		if a := root(p); a.kind == KAlloc && !seen[a] && sp.nodeName(a) == name {
			seen[a] = true
			cands = append(cands, a)
		}
	}
	sortTerms(cands)
	for _, a := range cands {
		if ms := sp.mismatches(st, w, a); !found || len(ms) < len(best) {
			found, best = true, ms
		}
	}
	switch {
	case !found:
		sp.fail(st, "piece kept", name, pos, "the node for %s %s (no such node was built)", name, what)
		return
	case len(best) == 0:
		sp.fail(st, "piece kept", name, pos, "the node for %s %s", name, what)
		return
	}
	sp.failFields(st, best, pos)
}

func (sp *ParseSpec) failFields(st *State, best []mismatch, pos string) {
	onlyPos := true
	for _, m := range best {
		onlyPos = onlyPos && m.pos
	}
	for _, m := range best {
		if m.pos && onlyPos {
			sp.fail(st, "node position", m.node+"."+m.field, pos, "the field %s of the %s read may differ from the position of its token", m.field, m.node)
		} else if !m.pos {
			sp.fail(st, "node content", m.node+"."+m.field, pos, "the field %s of the %s read may differ from what the source says", m.field, m.node)
		}
	}
}

type mismatch struct {
	node, field string
	pos         bool
}

// nodeName is the name of the node type whose allocation a is.
func (sp *ParseSpec) nodeName(a *Term) string {
	t := deref(a.typ)
	if t == nil {
		return ""
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() != sp.astPkg {
		return ""
	}
	return n.Obj().Name()
}

// mismatches lists the fields in which a node differs from the expected one.
func (sp *ParseSpec) mismatches(st *State, want, got *Term) []mismatch {
	if sp.match(st, want, got) {
		return nil
	}
	name := strings.TrimPrefix(want.op, "node:")
	a := childID(got)
	if a.kind != KAlloc || sp.nodeName(a) != name {
		return []mismatch{{name, "type", false}}
	}
	if name == "TextAccent" {
		if !st.proveEq(st.load(sp.fieldOf(a, "ValuePos")), tokPos(want.args[0])) {
			return []mismatch{{name, "ValuePos", true}}
		}
		return []mismatch{{name, "Text", false}}
	}
	var out []mismatch
	for i, f := range nodeFields[name] {
		w, p := want.args[i], sp.fieldOf(a, f)
		v := st.load(p)
		if sp.matchVal(st, w, v) {
			continue
		}
		if w.kind == KOp && strings.HasPrefix(w.op, "node:") {
			ms := sp.mismatches(st, w, v)
			out = append(out, ms...)
			for _, m := range ms {
				if !m.pos && name == "AbbrevDecl" {
					out = append(out, mismatch{name, f, false})
					break
				}
			}
			continue
		}
		out = append(out, mismatch{name, f, strings.HasSuffix(typeName(deref(p.typ)), "token.Pos")})
	}
	return out
}

func describeNode(w *Term) string {
	if w.kind == KOp && strings.HasPrefix(w.op, "node:") {
		return strings.TrimPrefix(w.op, "node:")
	}
	if w.kind == KIface {
		return strings.TrimPrefix(shortType(w.typ), "*ast.")
	}
	if t := deref(w.typ); t != nil {
		return strings.TrimPrefix(shortType(t), "ast.")
	}
	return "element"
}

// setPend makes item the next element of a list of frame i.
func (sp *ParseSpec) setPend(st *State, i int, f string, item *Term) {
	sp.dropped(st, i, f, sp.where(st))
	st.ghost[gkey(i, f)] = item
}

func (sp *ParseSpec) where(st *State) string {
	for f := st.fr; f != nil; f = f.parent {
		return sp.w.pos(f.fn.Pos())
	}
	return "-"
}

// list is the expected value of a list field: what the ghost list holds.
func (sp *ParseSpec) list(st *State, i int, f string) *Term {
	l := st.ghost[gkey(i, f)]
	if l == nil {
		l = tNil
	}
	return mkOp("list", nil, l)
}

// complete gives a finished node to the top frame.
func (sp *ParseSpec) complete(st *State, item *Term) []*State {
	fs := frames(st)
	i := len(fs) - 1
	top := fs[i]
	g := func(f string) *Term { return st.ghost[gkey(i, f)] }
	switch {
	case top == "^":
		st.ghost["item"] = item
	case strings.HasPrefix(top, "X:need"):
		st.ghost[gkey(i, "x")] = item
		setTop(st, "X:oper")
	case top == "X:op":
		it := sp.node("ConcatExpr", g("x"), g("oppos"), item)
		pop(st)
		return sp.complete(st, it)
	case top == "Q" || top == "G":
		sp.setPend(st, i, "pend", item)
	case strings.HasPrefix(top, "P:expr"):
		st.ghost[gkey(i, "text")] = item
		setTop(st, "P:close"+top[len("P:expr"):])
	case strings.HasPrefix(top, "A:expr"):
		st.ghost[gkey(i, "val")] = item
		setTop(st, "A:after"+top[len("A:expr"):])
	case strings.HasPrefix(top, "E:val"):
		t := g("name")
		sp.setPend(st, i, "tpend", sp.tag(st, t, item))
		delete(st.ghost, gkey(i, "name"))
		setTop(st, "E:after"+top[len("E:val"):])
	case top == "F:items":
		sp.setPend(st, i, "pend", item)
		if describeNode(item) == "BibDecl" {
			setTop(st, "F:after") // a comma may follow
		}
	case top == "R:need":
		st.ghost[gkey(i, "val")] = item
		setTop(st, "R:done")
	case strings.HasPrefix(top, "W:"):
		pop(st)
		return sp.complete(st, tAny)
	default:
		panic(undecided{"no place for an item in " + top})
	}
	return one(st)
}

func (sp *ParseSpec) tag(st *State, t, val *Term) *Term {
	lit := tokLit(t)
	return sp.node("TagStmt", tokPos(t), mkOp("call:strings.ToLower", types.Typ[types.String], lit), lit, val)
}

func letter() IntSet { return csAlpha }

// table lists what may be consumed in the state of the top frame.
func (sp *ParseSpec) table(st *State) []trans {
	fs := frames(st)
	i := len(fs) - 1
	top := fs[i]
	name, rest := top, ""
	if strings.Count(top, ":") > 1 { // the opening delimiter
		k := strings.LastIndexByte(top, ':')
		name, rest = top[:k], top[k:]
	}
	goTo := func(s string) func(*State, *Term) []*State {
		return func(st *State, t *Term) []*State { setTop(st, s); return one(st) }
	}
	// urlPart takes over the text of a token of a url as it stands
	urlPart := func(s string) func(*State, *Term) []*State {
		return func(st *State, t *Term) []*State {
			setTop(st, s)
			if u := st.ghost[gkey(i, "utext")]; u != nil {
				st.ghost[gkey(i, "utext")] = mkConcat(u, tokLit(t))
			}
			return one(st)
		}
	}
	opener := func(s string) []trans {
		return []trans{
			{sp.set("LBrace"), false, goTo(s + ":{")},
			{sp.set("LParen"), false, goTo(s + ":(")},
		}
	}
	closer := sp.set("RBrace")
	if rest == ":(" {
		closer = sp.set("RParen")
	}
	switch name {
	case "F:items", "F:after":
		decl := func(f string, typed bool) func(*State, *Term) []*State {
			return func(st *State, t *Term) []*State {
				sp.dropped(st, i, "pend", sp.where(st))
				setTop(st, "F:items")
				k := push(st, f)
				st.ghost[gkey(k, "pos")] = tokPos(t)
				if typed {
					lit := tokLit(t)
					st.ghost[gkey(k, "type")] = mkOp("call:strings.ToLower", types.Typ[types.String], st.sliceTerm(lit, cInt(1), st.length(lit), types.Typ[types.String]))
				}
				return one(st)
			}
		}
		out := []trans{
			{sp.set("Preamble"), false, decl("P:open", false)},
			{sp.set("Abbrev"), false, decl("A:open", false)},
			{sp.set("BibEntry"), false, decl("E:open", true)},
			{sp.set("EOF"), false, func(st *State, t *Term) []*State { return one(st) }},
		}
		if name == "F:after" {
			out = append(out, trans{sp.set("Comma"), true, goTo("F:items")})
		}
		return out
	case "P:open":
		return []trans{{sp.set("LBrace"), false, func(st *State, t *Term) []*State { setTop(st, "P:expr:{"); push(st, "X:need"); return one(st) }},
			{sp.set("LParen"), false, func(st *State, t *Term) []*State { setTop(st, "P:expr:("); push(st, "X:need"); return one(st) }}}
	case "P:close":
		return []trans{{closer, false, func(st *State, t *Term) []*State {
			it := sp.node("PreambleDecl", st.ghost[gkey(i, "pos")], st.ghost[gkey(i, "text")], tokPos(t))
			pop(st)
			return sp.complete(st, it)
		}}}
	case "A:open":
		return opener("A:name")
	case "A:name":
		nm := func(st *State, t *Term) []*State {
			st.ghost[gkey(i, "name")] = t
			setTop(st, "A:assign"+rest)
			return one(st)
		}
		return []trans{{sp.set("Ident"), false, nm}, {sp.set("Number"), true, nm}}
	case "A:assign":
		return []trans{{sp.set("Assign"), false, func(st *State, t *Term) []*State { setTop(st, "A:expr"+rest); push(st, "X:need"); return one(st) }}}
	case "A:after", "A:close":
		out := []trans{{closer, false, func(st *State, t *Term) []*State {
			it := sp.node("AbbrevDecl", st.ghost[gkey(i, "pos")], sp.tag(st, st.ghost[gkey(i, "name")], st.ghost[gkey(i, "val")]), tokPos(t))
			pop(st)
			return sp.complete(st, it)
		}}}
		if name == "A:after" {
			out = append(out, trans{sp.set("Comma"), false, goTo("A:close" + rest)})
		}
		return out
	case "E:open":
		return opener("E:item")
	case "E:item", "E:after":
		nm := func(st *State, t *Term) []*State {
			st.ghost[gkey(i, "name")] = t
			setTop(st, "E:name"+rest)
			return one(st)
		}
		after := name == "E:after"
		out := []trans{
			{sp.set("Ident", "Number"), after, nm},
			{closer, false, func(st *State, t *Term) []*State {
				sp.dropped(st, i, "tpend", sp.where(st))
				sp.dropped(st, i, "kpend", sp.where(st))
				key := st.ghost[gkey(i, "key")]
				if key == nil {
					key = tNil
				}
				it := sp.node("BibDecl", st.ghost[gkey(i, "type")], st.ghost[gkey(i, "pos")], key, sp.list(st, i, "klist"), sp.list(st, i, "tlist"), tokPos(t))
				pop(st)
				return sp.complete(st, it)
			}}}
		if after {
			out = append(out, trans{sp.set("Comma"), false, goTo("E:item" + rest)})
		}
		return out
	case "E:assign":
		return []trans{{sp.set("Assign"), false, func(st *State, t *Term) []*State {
			nt := st.ghost[gkey(i, "name")]
			first := st.strAt(tokLit(nt), tZero)
			isURL := mkEq(tokLit(nt), cStr("url"))
			var out []*State
			b := st.clone()
			if restrictVal(b, first, fullSet().minus(letter())) {
				goBad(b, "a tag name that does not start with a letter")
				out = append(out, b)
			}
			if !restrictVal(st, first, letter()) {
				return out
			}
			setTop(st, "E:val"+rest)
			u := st.clone()
			if u.assume(isURL, true) {
				push(u, "W:start")
				out = append(out, u)
			}
			if st.assume(isURL, false) {
				push(st, "X:need")
				out = append(out, st)
			}
			return out
		}}}
	case "X:need":
		lit := func(f func(t *Term) *Term) func(*State, *Term) []*State {
			return func(st *State, t *Term) []*State { return sp.complete(st, f(t)) }
		}
		return []trans{
			{sp.set("Ident"), false, lit(func(t *Term) *Term { return sp.node("Ident", tokPos(t), tokLit(t)) })},
			{sp.set("Number"), false, lit(func(t *Term) *Term { return sp.node("Number", tokPos(t), tokLit(t)) })},
			{sp.set("String", "BraceString"), false, lit(func(t *Term) *Term { return sp.node("UnparsedText", tokPos(t), t, tokLit(t)) })},
			{sp.set("DoubleQuote"), false, func(st *State, t *Term) []*State {
				k := push(st, "Q")
				st.ghost[gkey(k, "pos")] = tokPos(t)
				st.ghost[gkey(k, "cd")] = cInt(1)
				return one(st)
			}},
			{sp.set("StringLBrace"), false, func(st *State, t *Term) []*State { return sp.group(st, t, cInt(0)) }},
		}
	case "X:isop":
		return []trans{{sp.set("Concat"), false, func(st *State, t *Term) []*State {
			st.ghost[gkey(i, "oppos")] = tokPos(t)
			setTop(st, "X:op")
			push(st, "X:need")
			return one(st)
		}}}
	case "Q", "G":
		item := func(f func(st *State, t *Term) *Term) func(*State, *Term) []*State {
			return func(st *State, t *Term) []*State { return sp.complete(st, f(st, t)) }
		}
		lits := func(n string) func(*State, *Term) []*State {
			return item(func(st *State, t *Term) *Term { return sp.node(n, tokPos(t), tokLit(t)) })
		}
		only := func(n string) func(*State, *Term) []*State {
			return item(func(st *State, t *Term) *Term { return sp.node(n, tokPos(t)) })
		}
		out := []trans{
			{sp.set("StringMath"), false, lits("TextMath")},
			{sp.set("StringContents"), false, lits("Text")},
			{sp.set("StringHyphen"), false, only("TextHyphen")},
			{sp.set("StringNBSP"), false, only("TextNBSP")},
			{sp.set("StringComma"), false, only("TextComma")},
			{sp.set("StringSpace"), false, item(func(st *State, t *Term) *Term { return sp.node("TextSpace", tokPos(t), cStr(" ")) })},
			{sp.set("StringBackslash"), false, item(func(st *State, t *Term) *Term {
				l := tokLit(t)
				return sp.node("TextEscaped", tokPos(t), st.sliceTerm(l, cInt(1), st.length(l), types.Typ[types.String]))
			})},
			{sp.set("StringAccent"), true, item(func(st *State, t *Term) *Term { return sp.node("TextAccent", t) })},
			{sp.set("StringMacro"), false, func(st *State, t *Term) []*State {
				var out []*State
				for _, s := range []string{"url", "href"} {
					u := st.clone()
					if u.assume(mkEq(tokLit(t), cStr(s)), true) {
						k := push(u, "U:start")
						u.ghost[gkey(k, "tok")] = t
						u.ghost[gkey(k, "utext")] = cStr("")
						out = append(out, u)
					}
				}
				if st.assume(mkEq(tokLit(t), cStr("url")), false) && st.assume(mkEq(tokLit(t), cStr("href")), false) {
					out = append(out, sp.complete(st, sp.node("TextMacro", tokPos(t), tokLit(t), mkOp("list", nil, tNil), tZero))...)
				}
				return out
			}},
			{sp.set("StringLBrace"), false, func(st *State, t *Term) []*State { return sp.group(st, t, st.ghost[gkey(i, "cd")]) }},
		}
		end := func(delim int64) func(st *State, t *Term) []*State {
			return func(st *State, t *Term) []*State {
				sp.dropped(st, i, "pend", sp.where(st))
				it := sp.node("ParsedText", st.ghost[gkey(i, "pos")], mkLin(st.ghost[gkey(i, "cd")], -1), cInt(delim), sp.list(st, i, "list"), tokPos(t))
				pop(st)
				return sp.complete(st, it)
			}
		}
		delim := sp.c.constsOf("ast", "TextDelimiter")
		if name == "Q" {
			out = append(out, trans{sp.set("DoubleQuote"), false, end(delim["QuoteDelimiter"])})
		} else {
			out = append(out, trans{sp.set("StringRBrace"), false, end(delim["BraceDelimiter"])})
		}
		return out
	case "U:start":
		return []trans{{sp.set("StringLBrace"), true, goTo("U:in")}}
	case "U:in":
		return []trans{{sp.set("StringRBrace"), true, sp.endURL(i)}, {sp.set("StringSpace"), true, goTo("U:sp")},
			{sp.toks.minus(sp.set("StringRBrace", "StringSpace", "EOF")), true, urlPart("U:in")}}
	case "U:sp":
		return []trans{{sp.set("StringRBrace"), true, sp.endURL(i)}}
	case "W:start":
		return []trans{{sp.set("DoubleQuote"), true, func(st *State, t *Term) []*State {
			setTop(st, "W:q")
			st.ghost[gkey(i, "utext")] = cStr("")
			return one(st)
		}},
			{sp.set("StringLBrace"), true, func(st *State, t *Term) []*State { return sp.group(st, t, cInt(0)) }},
			{sp.set("Ident", "Number", "String", "BraceString"), true, func(st *State, t *Term) []*State {
				setTop(st, "X:need")
				for _, tr := range sp.table(st) {
					if s := st.clone(); s.restrict(t, tr.on) {
						return tr.act(s, t)
					}
				}
				return nil
			}}}
	case "W:q":
		return []trans{{sp.set("DoubleQuote"), true, func(st *State, t *Term) []*State {
			it := tAny
			if u := st.ghost[gkey(i, "utext")]; st.ghost[gkey(i, "umac")] == nil {
				it = sp.node("Text", tAny, u)
			}
			pop(st)
			return sp.complete(st, it)
		}},
			{sp.set("StringMacro"), true, func(st *State, t *Term) []*State {
				if st.ghost[gkey(i, "utext")] == cStr("") {
					st.ghost[gkey(i, "umac")] = tUnit // a string that is a macro may be a node
				}
				return urlPart("W:q")(st, t)
			}},
			{sp.set("StringLBrace"), true, urlPart("W:1")},
			{sp.toks.minus(sp.set("DoubleQuote", "EOF", "StringLBrace", "StringMacro")), true, urlPart("W:q")}}
	case "W:1", "W:2": // inside braces
		closed := urlPart("W:q")
		if name == "W:2" {
			closed = func(st *State, t *Term) []*State {
				urlPart("W:2")(st, t)
				x := st.clone()
				setTop(x, "W:1")
				return []*State{st, x}
			}
		}
		return []trans{{sp.set("StringLBrace"), true, urlPart("W:2")}, {sp.set("StringRBrace"), true, closed},
			{sp.toks.minus(sp.set("DoubleQuote", "EOF", "StringLBrace", "StringRBrace")), true, urlPart(name)}}
	case "R:start":
		return []trans{{sp.set("Assign"), false, func(st *State, t *Term) []*State { setTop(st, "R:need"); push(st, "X:need"); return one(st) }}}
	case "R:done":
		return []trans{{sp.set("EOF"), false, goTo("R:done")}}
	case "^":
		return nil
	}
	panic(undecided{"no rules for " + top})
}

func (sp *ParseSpec) endURL(i int) func(*State, *Term) []*State {
	return func(st *State, t *Term) []*State {
		m := st.ghost[gkey(i, "tok")]
		it := sp.node("TextMacro", tokPos(m), tokLit(m), mkOp("list1", nil, sp.node("Text", tAny, st.ghost[gkey(i, "utext")])), tokPos(t))
		pop(st)
		return sp.complete(st, it)
	}
}

func (sp *ParseSpec) group(st *State, t, depth *Term) []*State {
	k := push(st, "G")
	st.ghost[gkey(k, "pos")] = tokPos(t)
	st.ghost[gkey(k, "cd")] = mkLin(depth, 1)
	return one(st)
}

// consume moves the automaton over the token t.
func (sp *ParseSpec) consume(st *State, t *Term) []*State {
	var out []*State
	com := sp.set("TexComment")
	if c := st.clone(); c.restrict(t, com) {
		if st.ghost["bad"] == nil {
			fs := frames(st)
			sp.ok("comment skipped", fs[len(fs)-1])
		}
		out = append(out, sp.comment(c, t)...)
	}
	if !st.restrict(t, fullSet().minus(com)) {
		return out
	}
	if st.ghost["bad"] != nil {
		return append(out, st)
	}
	fs := frames(st)
	top := fs[len(fs)-1]
	rest := st.set(t)
	for _, tr := range sp.table(st) {
		if rest.inter(tr.on).empty() {
			continue
		}
		s := st.clone()
		if s.restrict(t, tr.on) {
			sp.note("consumed", top+" "+sp.names(st.set(t).inter(tr.on)))
			out = append(out, sp.failedBad(tr.act(s, t))...)
		}
		rest = rest.minus(tr.on)
	}
	if !rest.empty() && st.restrict(t, rest) {
		goBad(st, sp.names(rest)+" where "+expects(top)+" is expected")
		out = append(out, st)
	}
	return out
}

func expects(top string) string {
	d := map[string]string{"F:items": "a declaration", "F:after": "a declaration", "P:open": "{ or (", "A:open": "{ or (", "E:open": "{ or (",
		"A:assign": "=", "E:assign": "=", "X:need": "a value", "X:isop": "#", "R:done": "the end of the input", "^": "the end of the construct",
		"Q": "the rest of a quoted string", "G": "the rest of a brace string", "A:name": "the name of an abbreviation",
		"E:item": "a name or the closing", "E:after": "a name or the closing", "A:after": "the closing", "A:close": "the closing", "P:close": "the closing"}
	name, end := top, ""
	if strings.HasSuffix(top, ":{") {
		name, end = strings.TrimSuffix(top, ":{"), " }"
	} else if strings.HasSuffix(top, ":(") {
		name, end = strings.TrimSuffix(top, ":("), " )"
	}
	if s, ok := d[name]; ok {
		if strings.HasSuffix(s, "closing") {
			s += end
		}
		return s
	}
	return "in state " + top + " something else"
}

func (sp *ParseSpec) note(rule, s string) {
	if sp.seen[rule] == nil {
		sp.seen[rule] = map[string]bool{}
	}
	sp.seen[rule][s] = true
}

// comment records that the comment token t was consumed.
func (sp *ParseSpec) comment(st *State, t *Term) []*State {
	if !sp.comm {
		return one(st)
	}
	if st.ghost["c.pre"] == t {
		delete(st.ghost, "c.pre")
		return one(st)
	}
	if st.ghost["c.pend"] != nil {
		sp.fail(st, "comment recorded", "comment", sp.where(st), "a comment is read although the one before it has not been added to a group")
	}
	st.ghost["c.pend"] = sp.node("TexComment", tokPos(t), tokLit(t))
	return one(st)
}

// lookahead resolves the choices that depend on the token after the consumed
// one.
func (sp *ParseSpec) lookahead(st *State, t *Term) []*State {
	if st.ghost["bad"] != nil {
		return one(st)
	}
	fs := frames(st)
	i := len(fs) - 1
	top := fs[i]
	name := strings.HasPrefix(top, "E:name")
	if !name && top != "X:oper" {
		return one(st)
	}
	var out []*State
	if c := st.clone(); c.restrict(t, sp.set("TexComment")) {
		out = append(out, c)
	}
	if !st.restrict(t, fullSet().minus(sp.set("TexComment"))) {
		return out
	}
	if name {
		rest := top[len("E:name"):]
		if a := st.clone(); a.restrict(t, sp.set("Assign")) {
			setTop(a, "E:assign"+rest)
			out = append(out, a)
		}
		if st.restrict(t, fullSet().minus(sp.set("Assign"))) {
			nt := st.ghost[gkey(i, "name")]
			delete(st.ghost, gkey(i, "name"))
			it := sp.node("Ident", tokPos(nt), tokLit(nt))
			setTop(st, "E:after"+rest)
			if st.ghost[gkey(i, "key")] == nil {
				st.ghost[gkey(i, "key")] = it
			} else {
				sp.setPend(st, i, "kpend", it)
			}
			out = append(out, st)
		}
		return sp.failedBad(out)
	}
	if a := st.clone(); a.restrict(t, sp.set("Concat")) {
		setTop(a, "X:isop")
		out = append(out, a)
	}
	if st.restrict(t, fullSet().minus(sp.set("Concat"))) {
		x := st.ghost[gkey(i, "x")]
		pop(st)
		out = append(out, sp.complete(st, x)...)
	}
	return sp.failedBad(out)
}

// reported marks the rest of a run in which a violation was found.
const reported = "a violation that is reported elsewhere"

func (sp *ParseSpec) failedBad(sts []*State) []*State {
	for _, st := range sts {
		if st.ghost["failed"] != nil {
			goBad(st, reported)
		}
	}
	return sts
}

// inString tells which tokens the scanner returns next: inside a string only
// its pieces.
func (sp *ParseSpec) next(st *State) IntSet {
	s := sp.toks
	if sp.gram || sp.comm {
		s = s.minus(sp.set("Illegal")) // the scanner has recorded an error
	}
	if !sp.gram {
		return s
	}
	if st.ghost["bad"] != nil {
		return s
	}
	fs := frames(st)
	str := IntSet{}
	for n, v := range sp.tok {
		if strings.HasPrefix(n, "String") && n != "String" && sp.toks.has(v) {
			str = str.union(single(v))
		}
	}
	top := fs[len(fs)-1]
	switch {
	case top == "R:start":
		return sp.set("Assign")
	case top == "G" || top == "U:in" || top == "U:sp" || top == "W:1" || top == "W:2":
		return str.union(sp.set("EOF"))
	case top == "Q" || top == "U:start" || top == "W:q":
		return str.union(sp.set("EOF", "DoubleQuote"))
	}
	return s
}

// ---------------------------------------------------------------------------
// hooks

func (sp *ParseSpec) scan(e *Eng, st *State, c *Call) []Outcome {
	sp.scans++
	var sts []*State
	old := st.ghost["cur"]
	st = st.clone()
	if old == nil {
		sts = one(st)
	} else {
		eof := sp.set("EOF")
		for _, s := range []struct {
			set IntSet
			eof bool
		}{{fullSet().minus(eof), false}, {eof, true}} {
			x := st.clone()
			if !x.restrict(old, s.set) {
				continue
			}
			if s.eof {
				x.ghost["eof"] = tUnit
			} else {
				for k := range x.ghost {
					if strings.HasPrefix(k, "mv.") {
						x.ghost[k] = cInt(1)
					}
				}
			}
			if sp.gram {
				sts = append(sts, sp.consume(x, old)...)
			} else if sp.comm {
				com := sp.set("TexComment")
				if k := x.clone(); k.restrict(old, com) {
					sts = append(sts, sp.comment(k, old)...)
				}
				if x.restrict(old, fullSet().minus(com)) {
					sts = append(sts, x)
				}
			} else {
				sts = append(sts, x)
			}
		}
	}
	var outs []Outcome
	for _, s := range sts {
		var t *Term
		set := sp.next(s)
		if s.ghost["eof"] != nil {
			t, set = old, sp.set("EOF") // the end of the file is reported forever
			delete(s.ghost, "eof")
		} else {
			t = e.fresh(s, "T", c.instr, sp.tokT)
		}
		s.restrict(tokPos(t), rangeSet(1, maxI))
		if !s.restrict(t, set) {
			continue
		}
		var ls []*State
		if sp.gram {
			ls = sp.lookahead(s, t)
		} else {
			ls = one(s)
		}
		for _, l := range ls {
			l.ghost["cur"] = t
			if !sp.gram && !sp.comm {
				sp.handlerRuns(e, l, c)
			}
			var rs []*Term
			for k := 0; k < c.sig.Results().Len(); k++ {
				switch rt := c.sig.Results().At(k).Type(); {
				case types.Identical(rt, sp.tokT):
					rs = append(rs, t)
				case isStringType(rt):
					rs = append(rs, tokLit(t))
				default:
					rs = append(rs, tokPos(t))
				}
			}
			outs = append(outs, Outcome{st: l, ret: mkTuple(rs...)})
		}
	}
	return outs
}

// handlerRuns makes what the error handler changes unknown: the scanner may
// call it any number of times.
func (sp *ParseSpec) handlerRuns(e *Eng, st *State, c *Call) {
	cell, l := st.ghost["errcell"], (*Term)(nil)
	if cell == nil {
		return
	}
	l = st.load(cell)
	n := e.fresh(st, "errs", c.instr, deref(cell.typ))
	st.addLE(st.length(l), st.length(n), 0)
	st.store(cell, n)
}

func (sp *ParseSpec) hookCall(e *Eng, st *State, c *Call) ([]Outcome, bool) {
	switch c.name {
	case "(*" + modPath + "/scanner.Scanner).Scan":
		return sp.scan(e, st, c), true
	case "(*" + modPath + "/scanner.Scanner).Init":
		return sp.init(e, st, c), true
	case "(*go/scanner.ErrorList).Add":
		return sp.addError(e, st, c), true
	case "(go/scanner.ErrorList).Sort":
		st.ghost["sorted"] = c.args[0]
		return []Outcome{{st: st, ret: tUnit}}, true
	case "(go/scanner.ErrorList).Err":
		return sp.errOf(e, st, c), true
	case "(*go/token.File).Line":
		if !e.checkDeref(st, c.args[0], c.instr) {
			return nil, true
		}
		t := mkOp("fileline", types.Typ[types.Int], c.args[0], c.args[1])
		return []Outcome{{st: st, ret: mkTuple(t)}}, true
	}
	if c.fn != nil && sp.recs[c.fn] && !c.deferred {
		return sp.cs.call(st, c), true
	}
	return nil, false
}

// init records how the scanner is set up.
func (sp *ParseSpec) init(e *Eng, st *State, c *Call) []Outcome {
	st = st.clone()
	modeT := sp.w.typ("scanner", "Mode")
	pos := sp.w.pos(c.instr.Pos())
	for _, a := range c.args {
		if a.kind == KFn && len(a.fn.Params) == 2 {
			sp.handler(e, st, a, c)
		}
	}
	for i, p := range c.fn.Params {
		a := c.args[i]
		switch {
		case modeT != nil && types.Identical(p.Type(), modeT):
			v, ok := sp.w.constInt("scanner", "ScanStrings")
			if !ok {
				panic(undecided{"scanner.ScanStrings not found"})
			}
			on := st.set(a)
			if at := soleAtom(a); at != nil && at != a {
				on = valSet(st, a)
			}
			good := !on.empty()
			for _, r := range on {
				for x := r[0]; x <= r[1] && good; x++ {
					good = (x&v != 0) == sp.strings
					if x > r[0]+1000 {
						good = false
					}
				}
			}
			sp.req(st, good, "scanner mode", fmt.Sprintf("ParseStrings %v", sp.strings), pos, "the scanner is started with mode %s", a)
		case types.Identical(p.Type(), types.NewSlice(types.Typ[types.Uint8])):
			st.ghost["src"] = a
		case i == 0:
			st.ghost["P"] = root(a)
		}
	}
	return []Outcome{{st: st, ret: tUnit}}
}

// handler finds the error list the scanner's errors go to and checks that none
// is dropped.
func (sp *ParseSpec) handler(e *Eng, st *State, h *Term, c *Call) {
	s := st.clone()
	s.ghost["probe"] = tUnit
	args := []*Term{mkSym("hpos", h.fn.Params[0].Type()), mkSym("hmsg", types.Typ[types.String])}
	pos := sp.w.pos(h.fn.Pos())
	outs := e.run(s, h.fn, args, h.args, c.site+"/h")
	all := len(outs) > 0
	var cell *Term
	for _, o := range outs {
		g := o.st.ghost["probed"]
		all = all && o.panic == nil && g != nil
		if g != nil {
			cell = g
		}
	}
	sp.req(st, all, "scanner error recorded", h.fn.Name(), pos, "the error handler passed to the scanner does not add every error to the list")
	if cell != nil {
		st.ghost["errcell"] = cell
	}
}

func (sp *ParseSpec) addError(e *Eng, st *State, c *Call) []Outcome {
	if !e.checkDeref(st, c.args[0], c.instr) {
		return nil
	}
	st = st.clone()
	cell := c.args[0]
	if st.ghost["probe"] != nil {
		st.ghost["probed"] = cell
		return []Outcome{{st: st, ret: tUnit}}
	}
	pos := sp.w.pos(c.instr.Pos())
	if ec := st.ghost["errcell"]; ec != nil {
		sp.req(st, ec == cell, "error list", "one list", pos, "an error is added to another list than the scanner's errors")
	}
	if sp.comm {
		return nil
	}
	if sp.gram {
		sp.rejected(st, pos)
		return nil // the rest of this run is not about valid input
	}
	old := st.load(cell)
	n := e.fresh(st, "errs", c.instr, deref(cell.typ))
	sp.addRules(st, c, old, pos)
	ln := st.length(n)
	lo := st.length(old)
	st.addLE(ln, mkLin(lo, 1), 0)
	st.addLE(mkLin(lo, 1), ln, 0)
	st.nils[n] = false
	st.store(cell, n)
	return []Outcome{{st: st, ret: tUnit}}
}

// errOf is the error made of a list of errors.
func (sp *ParseSpec) errOf(e *Eng, st *State, c *Call) []Outcome {
	l := c.args[0]
	var outs []Outcome
	for _, empty := range []bool{true, false} {
		s := st.clone()
		n := s.length(l)
		v := tNil
		if empty {
			if !s.restrict(n, single(0)) {
				continue
			}
		} else {
			if !s.restrict(n, rangeSet(1, maxI)) {
				continue
			}
			v = mkIface(l.typ, l)
			if l.typ == nil {
				v = mkIface(c.sig.Recv().Type(), l)
			}
		}
		s.ghost["err.of"], s.ghost["err"] = l, v
		outs = append(outs, Outcome{st: s, ret: mkTuple(v)})
	}
	return outs
}

// rejected is reached when an error is recorded: the current token must not be
// one that the language allows here.
func (sp *ParseSpec) rejected(st *State, pos string) {
	if st.ghost["bad"] != nil {
		return
	}
	if p := st.ghost["P"]; p != nil {
		for q, v := range st.heap {
			if root(q) == p && isIntType(v.typ) {
				if lo, _ := st.bounds(v); lo >= 1000 {
					return // a limit on the nesting
				}
			}
		}
	}
	t := st.ghost["cur"]
	if t == nil {
		return
	}
	fs := frames(st)
	top := fs[len(fs)-1]
	if c := st.clone(); c.restrict(t, sp.set("TexComment")) {
		sp.fail(st, "valid input accepted", "comment", pos, "an error is recorded because of a comment")
		return
	}
	if top == "X:oper" || strings.HasPrefix(top, "E:name") || top == "^" {
		return
	}
	for _, tr := range sp.table(st) {
		s := st.clone()
		if tr.may || !s.restrict(t, tr.on) {
			continue
		}
		if strings.HasPrefix(top, "E:assign") {
			nt := s.ghost[gkey(len(fs)-1, "name")]
			if !restrictVal(s, s.strAt(tokLit(nt), tZero), letter()) {
				continue
			}
		}
		sp.fail(st, "valid input accepted", top+" "+sp.names(st.set(t).inter(tr.on)), pos, "an error is recorded in state %s although %s may follow", top, sp.names(st.set(t).inter(tr.on)))
		return
	}
	sp.ok("error justified", top)
}

// appendHook matches elements added to lists with the expected ones.
func (sp *ParseSpec) appendHook(e *Eng, st *State, s *Term, xs []*Term) {
	if !sp.gram && !sp.comm || st.ghost["bad"] != nil {
		return
	}
	for _, x := range xs {
		if x.kind != KIface && x.kind != KAlloc && !isPtrLike(x) {
			return
		}
	}
	if len(xs) != 1 {
		return
	}
	x := xs[0]
	next := func() *Term {
		l := s
		if l.isOp("sl") {
			if es, ok := st.elems(l); ok {
				l = mkLit(e.appTyp, es...)
			}
		}
		return mkCat(e.appTyp, l, mkLit(e.appTyp, x))
	}
	try := func(pend, list string) bool {
		w := st.ghost[pend]
		if w == nil || !sp.match(st, w, x) {
			return false
		}
		cur := st.ghost[list]
		if cur == nil && !emptyList(st, s) || cur != nil && cur != s && !(emptyList(st, cur) && emptyList(st, s)) {
			return false
		}
		delete(st.ghost, pend)
		st.ghost[list] = next()
		sp.note("appended", describeNode(w))
		sp.ok("piece kept", describeNode(w))
		return true
	}
	if w := st.ghost["c.pend"]; w != nil && sp.match(st, w, x) {
		cur := st.ghost["c.glist"]
		if cur == nil && emptyList(st, s) || cur != nil && cur == s {
			delete(st.ghost, "c.pend")
			st.ghost["c.glist"] = next()
			sp.ok("node position", "TexComment")
		}
		return
	}
	if t := st.ghost["cur"]; t != nil && st.ghost["c.pend"] == nil && st.ghost["c.pre"] == nil && sp.nodeName(childID(x)) == "TexComment" &&
		sp.match(st, sp.node("TexComment", tokPos(t), tokLit(t)), x) {
		// added while it still is the token to come
		if cur := st.ghost["c.glist"]; cur == nil && emptyList(st, s) || cur != nil && cur == s {
			st.ghost["c.pre"], st.ghost["c.glist"] = t, next()
			sp.ok("node position", "TexComment")
		}
		return
	}
	if w := st.ghost["c.pend"]; w != nil && sp.nodeName(childID(x)) == "TexComment" {
		if ms := sp.mismatches(st, w, x); len(ms) == 1 && ms[0].pos {
			sp.failFields(st, ms, sp.where(st))
		}
	}
	if g := st.ghost["c.glist"]; g != nil && st.ghost["c.pend"] == nil && sp.match(st, sp.node("TexCommentGroup", mkOp("list", nil, g)), x) {
		cur := st.ghost["c.list"]
		if cur == nil && emptyList(st, s) || cur != nil && cur == s {
			delete(st.ghost, "c.glist")
			st.ghost["c.list"] = next()
		}
		return
	}
	if !sp.gram {
		return
	}
	fs := frames(st)
	for i := len(fs) - 1; i >= 0; i-- {
		if try(gkey(i, "pend"), gkey(i, "list")) || try(gkey(i, "kpend"), gkey(i, "klist")) {
			return
		}
		if try(gkey(i, "tpend"), gkey(i, "tlist")) {
			return
		}
	}
}

func (sp *ParseSpec) key(st *State) string {
	var sb strings.Builder
	sb.WriteString(gstr(st, "stk"))
	var ks []string
	for k, v := range st.ghost {
		switch {
		case strings.HasPrefix(k, "mv."):
			ks = append(ks, k+"="+v.String())
		case strings.HasPrefix(k, "$"):
		case k == "newline":
			ks = append(ks, k+fmt.Sprint(v == tNil))
		default:
			ks = append(ks, k)
		}
		if v == tAny {
			ks = append(ks, k+"~any")
		}
		if k == "bad" || k == "blame" || strings.Contains(k, "blame.") {
			ks = append(ks, v.String())
		}
		if v.kind == KOp && strings.HasPrefix(v.op, "node:") {
			for i, a := range v.args {
				if a == tAny {
					ks = append(ks, fmt.Sprint(k, "~any", i))
				}
			}
		}
		if v.isOp("node:TagStmt") {
			b, known := st.decide(mkEq(v.args[2], cStr("url")))
			ks = append(ks, fmt.Sprint(k, "url", b, known))
		}
		if v.isOp("node:TextAccent") {
			l := tokLit(v.args[0])
			n := st.length(l)
			ks = append(ks, fmt.Sprint("acc", st.set(st.strAt(l, cInt(2))), st.set(st.strAt(l, mkLin(n, -1)))))
		}
	}
	sort.Strings(ks)
	sb.WriteString("|" + strings.Join(ks, ","))
	if t := st.ghost["cur"]; t != nil && sp.gram && st.ghost["bad"] == nil {
		set := st.set(t)
		fmt.Fprint(&sb, "|", set.subsetOf(sp.set("TexComment")), set.subsetOf(sp.set("EOF")))
		for _, on := range sp.classes(frames(st)) {
			fmt.Fprint(&sb, !set.inter(on).empty())
		}
		sp.litKey(&sb, st, t)
	}
	for _, k := range keysOf(st.ghost) {
		if i, f := ghostFrame(k); i >= 0 && f == "name" {
			sb.WriteString("|" + k)
			sp.litKey(&sb, st, st.ghost[k])
		}
	}
	return sb.String()
}

// classes are the sets of tokens that the state of the top frame treats
// differently.
func (sp *ParseSpec) classes(fs []string) []IntSet {
	top := fs[len(fs)-1]
	if c, ok := sp.classOf[top]; ok {
		return c
	}
	var out []IntSet
	if top != "X:oper" && !strings.HasPrefix(top, "E:name") && top != "^" {
		st := &State{ghost: map[string]*Term{"stk": cStr(strings.Join(fs, "|"))}}
		all := IntSet{}
		for _, tr := range sp.table(st) {
			on := tr.on.minus(all)
			all = all.union(on)
			out = append(out, on)
		}
		out = append(out, fullSet().minus(all))
	}
	sp.classOf[top] = out
	return out
}

// litKey tells what is known about those properties of the token's text on
// which the language depends.
func (sp *ParseSpec) litKey(sb *strings.Builder, st *State, t *Term) {
	set := st.set(t)
	words := []string(nil)
	switch {
	case set.has(sp.tok["StringMacro"]):
		words = []string{"url", "href"}
	case set.has(sp.tok["Ident"]):
		words = []string{"url"}
		c := st.set(st.strAt(tokLit(t), tZero))
		fmt.Fprint(sb, ";", c.inter(letter()).empty(), c.subsetOf(letter()))
	}
	for _, w := range words {
		v, known := st.decide(mkEq(tokLit(t), cStr(w)))
		fmt.Fprint(sb, ";", v, known)
	}
}

// adds reports whether fn itself adds errors.
func (sp *ParseSpec) adds(fn *ssa.Function) bool {
	if v, ok := sp.adders[fn]; ok {
		return v
	}
	v := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && funcName(g) == "(*go/scanner.ErrorList).Add" {
					v = true
				}
			}
		}
	}
	sp.adders[fn] = v
	return v
}

// storeHook watches for changes to nodes that were already matched.
func (sp *ParseSpec) storeHook(e *Eng, st *State, p, v *Term, in ssa.Instruction) {
	if ec := st.ghost["errcell"]; ec != nil && p == ec && v != st.load(p) {
		sp.fail(st, "errors kept", in.Parent().Name(), sp.w.pos(in.Pos()), "the list of errors is replaced")
	}
	if !sp.gram && !sp.comm {
		return
	}
	r := root(p)
	if r == p || r.typ == nil {
		return
	}
	t := deref(r.typ)
	if t == nil {
		return
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() != sp.astPkg {
		return
	}
	for k, g := range st.ghost {
		i, f := ghostFrame(k)
		if i < 0 && !strings.HasPrefix(k, "c.") || f == "pos" || f == "tok" {
			continue
		}
		hit := false
		walkTerm(g, map[*Term]bool{}, func(x *Term) { hit = hit || x == r })
		if hit {
			sp.fail(st, "node unchanged", n.Obj().Name()+" in "+in.Parent().Name(), sp.w.pos(in.Pos()), "a field of a %s is stored after the node was found complete", n.Obj().Name())
		}
	}
}

// ---------------------------------------------------------------------------
// loops

func (sp *ParseSpec) head(e *Eng, st *State, l *Loop, name string, back bool) {
	if sp.gram {
		return
	}
	k := "mv." + name
	if back {
		if !boundedLoop(l) {
			v := st.ghost[k]
			ok := v != nil && v == cInt(1)
			sp.req(st, ok, "loop progress", l.header.Parent().Name()+":"+strconv.Itoa(l.header.Index), sp.w.pos(loopPos(l)), "an iteration of a loop in %s may consume no token", l.header.Parent().Name())
		}
	}
	st.ghost[k] = tZero
}

// ---------------------------------------------------------------------------
// contracts

// localGhost reports whether a ghost is about one activation of a function.
func localGhost(k string) bool {
	return strings.HasPrefix(k, "mv.") || strings.HasPrefix(k, "n.") || k == "at" || k == "item"
}

func (sp *ParseSpec) contracts() {
	cs := newContracts(sp.e)
	sp.cs = cs
	cs.Enter = func(st *State) {
		fs := frames(st)
		if sp.gram && st.ghost["bad"] == nil {
			top := len(fs) - 1
			fsTop := fs[top]
			ng := map[string]*Term{}
			for k, v := range st.ghost {
				if i, f := ghostFrame(k); i >= 0 {
					delete(st.ghost, k)
					if i == top {
						ng[gkey(1, f)] = v
					}
				}
			}
			for k, v := range ng {
				st.ghost[k] = v
			}
			setFrames(st, []string{"^", fsTop})
		}
		for k := range st.ghost {
			if localGhost(k) {
				delete(st.ghost, k)
			}
		}
	}
	cs.Begin = func(ct *Contract, st *State) {
		if t := st.ghost["cur"]; t != nil {
			st.ghost["at"] = t
		}
		if !sp.gram {
			st.ghost["mv.$"] = tZero
			sp.beginNest(ct, st)
		}
	}
	cs.Leave = func(ct *Contract, st *State) {
		for k := range st.ghost {
			if localGhost(k) && k != "mv.$" && k != "at" && k != "item" {
				delete(st.ghost, k)
			}
		}
		if !sp.gram {
			sp.leaveNest(ct, st)
		}
		sp.seal(st)
		sp.suspect(st, results(st.ghost["$ret"]))
	}
	if os.Getenv("CTOUT") != "" {
		defer func() {
			dumpOuts = func() {
				for _, k := range cs.order {
					ct := cs.tab[k]
					if ct.fn.Name() != os.Getenv("CTOUT") {
						continue
					}
					fmt.Printf("CONTRACT C%d %s stk=%s\n", ct.idx, ct.fn.Name(), gstr(ct.pre, "stk"))
					for _, o := range ct.order {
						x := ct.outs[o]
						fmt.Printf("   OUT stk=%s bad=%s item=%v ret=%v\n", gstr(x, "stk"), gstr(x, "bad"), x.ghost["item"], x.ghost["$ret"])
					}
				}
			}
		}()
	}
	cs.Back = func(ct *Contract, n, x *State, f func(*Term) *Term, ret *Term) []*State {
		moved := x.ghost["mv.$"] == cInt(1)
		for k := range n.ghost {
			if i, _ := ghostFrame(k); i < 0 && k != "stk" && !localGhost(k) && !strings.HasPrefix(k, "$") && x.ghost[k] == nil {
				delete(n.ghost, k)
			}
			if strings.HasPrefix(k, "mv.") && moved {
				n.ghost[k] = cInt(1)
			}
		}
		for k, v := range x.ghost {
			if i, _ := ghostFrame(k); i < 0 && k != "stk" && !localGhost(k) && !strings.HasPrefix(k, "$") {
				n.ghost[k] = f(v)
			}
		}
		if !sp.gram {
			return one(n)
		}
		if x.ghost["bad"] != nil {
			goBad(n, gstr(x, "bad"))
			n.ghost["bad"] = x.ghost["bad"]
			return one(n)
		}
		if n.ghost["bad"] != nil {
			return one(n)
		}
		fs := frames(n)
		t := len(fs) - 1
		dropFrame(n, t)
		xs := frames(x)
		setFrames(n, append(append([]string{}, fs[:t]...), xs[1:]...))
		for k, v := range x.ghost {
			if i, g := ghostFrame(k); i >= 1 {
				n.ghost[gkey(t+i-1, g)] = f(v)
			}
		}
		sts := one(n)
		if it := x.ghost["item"]; it != nil {
			sts = sp.failedBad(sp.complete(n, f(it)))
		}
		var res []*State
		for _, s := range sts {
			if t := s.ghost["cur"]; t != nil {
				res = append(res, sp.lookahead(s, t)...)
			} else {
				res = append(res, s)
			}
		}
		return res
	}
	cs.Call = func(ct *Contract, st *State, c *Call) {
		if !sp.gram {
			sp.nestCall(ct, st, c)
		}
	}
}

// nestCells are the integer fields of the parser.
func (sp *ParseSpec) nestCells(st *State) []*Term {
	p := st.ghost["P"]
	if p == nil {
		return nil
	}
	stt := derefStruct(p.typ)
	if stt == nil {
		return nil
	}
	var out []*Term
	for i := 0; i < stt.NumFields(); i++ {
		if b, ok := stt.Field(i).Type().(*types.Basic); ok && isIntType(b) {
			out = append(out, mkField(p, i))
		}
	}
	return out
}

func (sp *ParseSpec) beginNest(ct *Contract, st *State) {
	ct.entry = map[string]*Term{}
	for _, q := range sp.nestCells(st) {
		v := st.load(q)
		ct.entry[q.String()] = v
		st.ghost["n."+q.String()] = v
	}
}

const nestLimit = 1 << 20

// nestCall checks a call of a recursive function from within one: a counter
// has grown since the caller started and is bounded, and input was consumed.
func (sp *ParseSpec) nestCall(ct *Contract, st *State, c *Call) {
	if len(sp.cs.stack) == 0 {
		return
	}
	cur := sp.cs.stack[len(sp.cs.stack)-1]
	if !recursiveTo(c.fn, cur.fn) {
		return
	}
	name := c.instr.Parent().Name() + " calls " + c.fn.Name()
	pos := sp.w.pos(c.instr.Pos())
	ok, why := false, "no field of the parser counts the nesting"
	for _, q := range sp.nestCells(st) {
		was, now := st.ghost["n."+q.String()], st.load(q)
		if was == nil || !st.provesLE(mkLin(was, 1), now, 0) {
			continue
		}
		if _, hi := st.bounds(now); hi > nestLimit {
			why = fmt.Sprintf("%s grows but is not bounded", q)
			continue
		}
		if lo, _ := st.bounds(was); lo < -nestLimit {
			why = fmt.Sprintf("%s is not bounded from below", q)
			continue
		}
		ok = true
		sp.counts["n."+q.String()] = true
	}
	if !ok {
		// another call of the same cycle may do the counting, if this one keeps
		// the count
		for _, q := range sp.nestCells(st) {
			was, now := st.ghost["n."+q.String()], st.load(q)
			if was != nil && st.provesLE(was, now, 0) && !sp.cycle("bounded "+q.String(), cur.fn, c.fn) {
				ok = true
			}
		}
	}
	sp.req(st, ok, "recursion bounded", name, pos, "the depth of the recursion is not bounded: %s", why)
	ok = st.ghost["mv.$"] == cInt(1) || !sp.cycle("progress", cur.fn, c.fn)
	sp.req(st, ok, "recursion progress", name, pos, "the recursive call may be reached without consuming a token")
}

// cycle notes a call that does not itself do what every cycle of calls must do
// once, and reports whether such calls alone form a cycle.
func (sp *ParseSpec) cycle(what string, from, to *ssa.Function) bool {
	if sp.idle == nil {
		sp.idle = map[string]map[*ssa.Function]map[*ssa.Function]bool{}
	}
	g := sp.idle[what]
	if g == nil {
		g = map[*ssa.Function]map[*ssa.Function]bool{}
		sp.idle[what] = g
	}
	if g[from] == nil {
		g[from] = map[*ssa.Function]bool{}
	}
	g[from][to] = true
	seen := map[*ssa.Function]bool{}
	var reach func(f *ssa.Function) bool
	reach = func(f *ssa.Function) bool {
		if f == from {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for h := range g[f] {
			if reach(h) {
				return true
			}
		}
		return false
	}
	return reach(to)
}

func recursiveTo(from, to *ssa.Function) bool {
	if from == to {
		return true
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] || f.Blocks == nil || f.Pkg != nil && !inModule(f.Pkg.Pkg.Path()) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(from)
}

// leaveNest notes which counters a function leaves as it found them.
func (sp *ParseSpec) leaveNest(ct *Contract, st *State) {
	for k, was := range st.ghost {
		if !strings.HasPrefix(k, "n.") {
			continue
		}
		delete(st.ghost, k)
		if st.ghost["$panic"] != nil {
			continue
		}
		for _, q := range sp.nestCells(st) {
			if "n."+q.String() == k && !st.proveEq(was, st.load(q)) {
				sp.unrestored[k] = ct.fn
			}
		}
	}
}

// restored reports counters of the nesting that grow for good.
func (sp *ParseSpec) restored() {
	for _, k := range keysOf(sp.counts) {
		fn := sp.unrestored[k]
		if fn == nil {
			sp.ok("nesting restored", sp.fn.Name())
			continue
		}
		k2 := "nesting restored | " + fn.Name()
		sp.fails[k2] = Finding{"nesting restored", fn.Name(), sp.w.pos(fn.Pos()), "the counter of the nesting may not have its old value when " + fn.Name() + " returns, so that long flat input runs into the limit"}
	}
}

// ---------------------------------------------------------------------------
// rules about errors

func (sp *ParseSpec) addRules(st *State, c *Call, old *Term, pos string) {
	where := c.instr.Parent().Name()
	all, ok := sp.w.constInt("parser", "AllErrors")
	if !ok {
		panic(undecided{"parser.AllErrors not found"})
	}
	mode := st.ghost["mode"]
	if st.set(mode).inter(setOf(rangeSet(0, 31), func(v int64) bool { return v&all == 0 })).empty() {
		sp.ok("errors bounded", where+" (all errors requested)")
		return
	}
	n := st.length(old)
	_, hi := st.bounds(n)
	sp.req(st, hi <= 64, "errors bounded", where, pos, "an error is added although the list may already be arbitrarily long and not all errors were requested")
	sp.newLine(st)
	g := st.ghost["newline"]
	sp.req(st, g == tNil || g != nil && g == st.lineOf(c.args[1]), "one error per line", where, pos, "an error is added without knowing that the last one is on another line")
}

// newLine notes that the list of errors is empty or that its last error is
// known to be on another line than some position.
func (sp *ParseSpec) newLine(st *State) {
	ec := st.ghost["errcell"]
	if ec == nil {
		return
	}
	l := st.load(ec)
	n := st.length(l)
	if st.ghost["newline.of"] != l {
		delete(st.ghost, "newline")
		delete(st.ghost, "newline.of")
	}
	found := func(t *Term) { st.ghost["newline"], st.ghost["newline.of"] = t, l }
	if _, hi := st.bounds(n); hi == 0 {
		found(tNil)
		return
	}
	p := typed(st.elemPtr(l, mkLin(n, -1), sliceElem(l.typ)), sliceElem(deref(ec.typ)))
	f := sp.fieldOf(typed(st.load(p), sliceElem(deref(ec.typ))), "Pos")
	if f == nil {
		return
	}
	if f = sp.fieldOf(f, "Line"); f == nil {
		return
	}
	line := st.load(f)
	for t, v := range st.bools {
		if !v && t.isOp("eq") {
			if t.args[0] == line {
				found(t.args[1])
			} else if t.args[1] == line {
				found(t.args[0])
			}
		}
	}
}

// lineOf is the line of a source position value.
func (st *State) lineOf(p *Term) *Term {
	stt, ok := p.typ.Underlying().(*types.Struct)
	if !ok {
		return tNil
	}
	for i := 0; i < stt.NumFields(); i++ {
		if stt.Field(i).Name() == "Line" {
			if p.kind == KAgg {
				return p.args[i]
			}
			return mkOp("fld", stt.Field(i).Type(), p, cInt(int64(i)))
		}
	}
	return tNil
}

// ---------------------------------------------------------------------------
// token literals

func (sp *ParseSpec) refine(st *State, t *Term) bool {
	if t.isOp("index") {
		// different characters are at different positions
		set := st.set(t)
		var js []*Term
		for o, s := range st.ints {
			if o != t && o.isOp("index") && o.args[0] == t.args[0] && s.inter(set).empty() {
				js = append(js, o)
			}
		}
		sortTerms(js)
		for _, o := range js {
			i, j := t.args[1], o.args[1]
			if st.provesLE(i, j, 0) && !st.addLE(i, j, -1) || st.provesLE(j, i, 0) && !st.addLE(j, i, -1) {
				return false
			}
		}
		return true
	}
	if t.typ == nil || t.typ != sp.tokT {
		return true
	}
	set := st.set(t)
	if st.ghost["cur"] == t && !set.subsetOf(sp.toks) {
		return st.restrict(t, sp.toks)
	}
	l := tokLit(t)
	n := mkOp("len", types.Typ[types.Int], l)
	if set.subsetOf(sp.set("Ident", "Number", "BibEntry", "Abbrev", "Preamble")) {
		if !st.restrict(n, rangeSet(1, maxI)) {
			return false
		}
		first := st.strAt(l, tZero)
		switch {
		case set.equal(sp.set("Number")):
			return st.restrict(first, csDigit)
		case set.equal(sp.set("Ident")):
			return st.restrict(first, csName)
		}
	}
	if sp.strings && set.equal(sp.set("StringBackslash")) {
		return st.restrict(n, single(2)) && st.restrict(st.strAt(l, tZero), single('\\'))
	}
	if sp.strings && set.equal(sp.set("StringAccent")) {
		if sp.gram {
			// the scanner reports an accent without a letter
			return st.restrict(n, rangeSet(3, maxI)) && st.restrict(st.strAt(l, tZero), single('\\'))
		}
		return st.restrict(n, rangeSet(2, maxI))
	}
	return true
}

// scalarParams reports whether the parameters after the receiver are basic
// values.
func scalarParams(fn *ssa.Function) bool {
	for _, p := range fn.Params[1:] {
		if _, ok := p.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// driver

func (sp *ParseSpec) run(roots ...*ssa.Function) {
	e, _ := sp.c.eng()
	sp.e = e
	sp.recs = recursiveFuncs(roots...)
	n := 5
	e.coarseRet = true
	e.maxStates = envInt("MAXST", 8)
	if !sp.gram {
		n = 1
	}
	for fn := range hotFuncs(n, roots...) {
		sp.recs[fn] = true
	}
	if os.Getenv("NOREACH") == "" {
		for fn := range reaching(func(f *ssa.Function) bool {
			switch funcName(f) {
			case "(*" + modPath + "/scanner.Scanner).Scan":
				return true
			case "(*go/scanner.ErrorList).Add":
				return !sp.gram
			}
			return false
		}, roots...) {
			if fn.Pkg != nil && fn.Pkg.Pkg == roots[0].Pkg.Pkg && scalarParams(fn) {
				sp.recs[fn] = true
			}
		}
	}
	if m := os.Getenv("MAXSTEPS"); m != "" {
		e.maxSteps, _ = strconv.Atoi(m)
	} else {
		e.maxSteps = 40000000
	}
	sp.contracts()
	e.hooks.Call = sp.hookCall
	e.hooks.Key = sp.key
	e.hooks.Append = sp.appendHook
	e.hooks.Store = sp.storeHook
	e.hooks.Head = sp.head
	gram := sp.gram
	e.hooks.Norm = func(st *State) {
		sp.seal(st)
		if gram && st.fr != nil {
			var rs []*Term
			for _, t := range st.fr.regs {
				if t.kind == KIface || t.kind == KAlloc {
					rs = append(rs, t)
				}
			}
			sp.suspect(st, rs)
		}
		if !gram && st.fr != nil && sp.adds(st.fr.fn) {
			sp.newLine(st)
		} else {
			delete(st.ghost, "newline")
			delete(st.ghost, "newline.of")
		}
	}
	e.hooks.AtHead = sp.seal
	if gram {
		e.hooks.Instr = func(e *Eng, st *State, in ssa.Instruction) {
			if a, ok := in.(*ssa.Alloc); ok && strings.HasPrefix(typeName(deref(a.Type())), modPath+"/ast.Bad") {
				st.ghost["badnode"] = cStr(typeName(deref(a.Type())))
			}
		}
	}
	e.hooks.Return = func(e *Eng, st *State, fn *ssa.Function, ret *Term) {
		st.ghost["$ret"] = ret
		sp.seal(st)
		sp.suspect(st, results(ret))
		delete(st.ghost, "$ret")
	}
	e.hooks.NonNil = func(st *State, t *Term) bool {
		return t.typ != nil && typeName(t.typ) == "*go/scanner.Error" && t.isOp("init") && t.args[0].kind == KElem
	}
	onTokRefine = sp.refine
}

var dumpOuts = func() {}
