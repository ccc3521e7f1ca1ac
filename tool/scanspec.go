package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ScanSpec interprets Init and any sequence of Scan calls together with an
// independent specification of the token language: an automaton that is fed
// every character the scanner consumes, and that says at the end of each Scan
// which token, literal and position must have been returned.
type ScanSpec struct {
	w        *World
	e        *Eng
	obj      *Term // the scanner
	src      *Term
	before   *Term
	file     *Term
	errh     *Term
	mode     *Term
	intCells []*Term
	ch       *Term // location of the current character
	anyErrh  bool  // the error handler may be nil
	errors   bool  // follow which token an error belongs to
	nilErrh  bool  // the error handler is nil
	errCell  *Term // the error counter
	strings  bool  // the ScanStrings mode
	tok      map[string]int64
	states   map[string]*State
	runs     int
	iters    int
	outs     int
	fails    map[string]Finding
	holds    map[string]int
	scanFn   *ssa.Function
	initFn   *ssa.Function
	tokT     types.Type
}

func chars(s string) IntSet {
	var out IntSet
	for _, r := range s {
		out = out.union(single(int64(r)))
	}
	return out
}

var (
	csEOF     = rangeSet(minI, -1)
	csAny     = rangeSet(0, maxI)
	csBlank   = chars(" \t\r\n")
	csDigit   = rangeSet('0', '9')
	csAlpha   = rangeSet('a', 'z').union(rangeSet('A', 'Z'))
	csName    = csAlpha.union(csDigit).union(chars("_-/!$&*+.:;<>?[]^`|"))
	csCmd     = csAlpha.union(chars("_")).union(rangeSet(0x80, maxI))
	csSpecial = csEOF.union(chars("${},~\\ \t\r\n")) // without the quote
	csEscape  = chars("\\$&%{}_")
	csAccent  = chars("'c^.`~\"")
	csIllegal = csAny.minus(csBlank).minus(csName).minus(chars(",=@%#{}()\""))
	csMacro1  = chars(",;[]()")
)

// findCharField finds the field that holds the current character: the one
// character field to which something other than a constant is stored.
func findCharField(w *World, typ types.Type, fns []*ssa.Function) int {
	s := typ.Underlying().(*types.Struct)
	found := -1
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok || deref(fa.X.Type()) == nil || !types.Identical(deref(fa.X.Type()), typ) {
					continue
				}
				if bt, ok := s.Field(fa.Field).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Int32 {
					continue
				}
				if _, isConst := x.Val.(*ssa.Const); isConst {
					continue
				}
				if found >= 0 && found != fa.Field {
					panic(undecided{"the scanner has several fields for characters"})
				}
				found = fa.Field
			}
		}
	}
	if found < 0 {
		panic(undecided{"the scanner has no field for the current character"})
	}
	return found
}

func newScanSpec(c *Ctx, strs bool) *ScanSpec {
	sp := &ScanSpec{w: c.w, strings: strs, fails: map[string]Finding{}, holds: map[string]int{},
		tokT: c.w.typ("token", "Token"), states: map[string]*State{}, tok: c.constsOf("token", "Token")}
	sp.initFn, sp.scanFn = c.must("scanner", "Scanner.Init"), c.must("scanner", "Scanner.Scan")
	typ := c.w.typ("scanner", "Scanner")
	if typ == nil || len(sp.initFn.Params) != 5 {
		panic(undecided{"scanner.Scanner with Init(file, src, err, mode) not found"})
	}
	var fns []*ssa.Function
	for _, fn := range c.w.funcs {
		if pkgOf(fn) == pkgOf(sp.initFn) {
			fns = append(fns, fn)
		}
	}
	sp.obj = mkAlloc("S", typ)
	sp.errCell = fieldPtr(sp.obj, "ErrorCount")
	sp.ch = mkField(sp.obj, findCharField(c.w, typ, fns))
	stt := typ.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		if isIntType(stt.Field(i).Type()) {
			sp.intCells = append(sp.intCells, mkField(sp.obj, i))
		}
	}
	return sp
}

func (sp *ScanSpec) bad(st *State, rule, construct, pos, format string, args ...any) {
	k := rule + " | " + construct
	if _, ok := sp.fails[k]; !ok {
		sp.fails[k] = Finding{rule, construct, pos, fmt.Sprintf(format, args...)}
		if sp.e.debug {
			fmt.Println("SPEC", k, sp.fails[k].Detail)
			st.dump()
		}
	}
}

func (sp *ScanSpec) req(st *State, ok bool, rule, construct, format string, args ...any) bool {
	if ok {
		sp.holds[rule+" | "+construct]++
	} else {
		sp.bad(st, rule, construct, sp.w.pos(sp.scanFn.Pos()), format, args...)
	}
	return ok
}

func gstr(st *State, k string) string {
	if v := st.ghost[k]; v != nil {
		s, _ := v.isStr()
		return s
	}
	return ""
}

// label is one alternative at the consumption of a character.
type label struct {
	name string
	set  IntSet
}

func alphabet(ls ...label) []label {
	rest := fullSet()
	for i := range ls {
		ls[i].set = ls[i].set.inter(rest)
		rest = rest.minus(ls[i].set)
	}
	return append(ls, label{"other", rest})
}

var (
	lblOut = alphabet(label{"eof", csEOF}, label{"blank", csBlank}, label{"digit", csDigit}, label{"name", csName},
		label{",", chars(",")}, label{"=", chars("=")}, label{"@", chars("@")}, label{"%", chars("%")}, label{"#", chars("#")},
		label{"{", chars("{")}, label{"}", chars("}")}, label{"(", chars("(")}, label{")", chars(")")}, label{"\"", chars("\"")})
	lblIn = alphabet(label{"eof", csEOF}, label{"blank", csBlank}, label{"$", chars("$")}, label{"\"", chars("\"")},
		label{",", chars(",")}, label{"~", chars("~")}, label{"{", chars("{")}, label{"}", chars("}")}, label{"\\", chars("\\")})
	lblEsc = alphabet(label{"eof", csEOF}, label{"escaped", csEscape}, label{"accent", csAccent}, label{"macro1", csMacro1},
		label{"special", csSpecial.union(single(0))})
)

// restrictVal restricts the value of a character term to a set.
func restrictVal(st *State, t *Term, set IntSet) bool {
	a := soleAtom(t)
	if a == nil || a == t {
		if t.kind != KConst && a == nil {
			return true // unknown shape: every alternative stays possible
		}
		return st.restrict(t, set)
	}
	dom := st.set(a)
	if !dom.subsetOf(runeSet.union(rangeSet(-1000, 0x110000))) {
		return true
	}
	return st.restrict(a, setOf(dom, func(v int64) bool { return set.has(evalAt(t, a, v)) }))
}

func valSet(st *State, t *Term) IntSet {
	a := soleAtom(t)
	if a == nil || a == t {
		return st.set(t)
	}
	dom := st.set(a)
	if dom.empty() || dom.size() > 1<<21 {
		return fullSet()
	}
	var out IntSet
	if t.isOp("conv") && t.args[0] == a && dom.subsetOf(rangeSet(0, 127)) {
		return dom
	}
	for _, r := range dom {
		for v := r[0]; v <= r[1]; v++ {
			out = out.union(single(evalAt(t, a, v)))
		}
	}
	return out
}

// fork splits the state when the current character is replaced.
func (sp *ScanSpec) fork(e *Eng, st *State, p, v *Term, in ssa.Instruction) []*State {
	if root(p) == sp.obj {
		st.ghost["clean."+p.String()] = tUnit
	}
	if sp.nilErrh && sp.errCell != nil && p == sp.errCell {
		if v == mkLin(st.load(p), 1) {
			sp.errored(st)
		}
		return nil
	}
	if p != sp.ch {
		return nil
	}
	pos := sp.w.pos(in.Pos())
	old := st.load(sp.ch)
	aut := gstr(st, "t.aut")
	read := gstr(st, "r.kind")
	vs := valSet(st, v)
	if aut == "I" && v.kind == KConst && !vs.subsetOf(csEOF) {
		s := st.clone()
		s.ghost["r.kind"] = cStr("")
		return []*State{s} // a value that stands for no character yet
	}
	var res []*State
	for _, f := range sp.consume(st, old, aut, pos) {
		// the new character
		next := f.ghost["t.next"]
		switch {
		case vs.subsetOf(csEOF):
			sp.req(f, f.proveEq(next, f.length(sp.src)), "consecutive characters", "end of file", "the end of file is entered at %s although the source ends at %s", next, f.length(sp.src))
			f.ghost["t.off"] = f.length(sp.src)
		case read != "":
			k, w := f.ghost["r.k"], f.ghost["r.w"]
			ok := false
			switch read {
			case "byte":
				ok = v == f.ghost["r.v"] || v.isOp("conv") && v.args[0] == f.ghost["r.v"]
				ok = ok && vs.subsetOf(rangeSet(0, 127))
			case "rune":
				ok = v == f.ghost["r.v"]
			}
			sp.req(f, ok, "characters of the source", "next", "the current character becomes %s, which is not the character at offset %s", v, k)
			sp.req(f, f.proveEq(k, next), "consecutive characters", "next", "after a character ending at %s the one at %s is read", next, k)
			f.ghost["t.off"] = k
			if n, ok := w.isInt(); ok {
				f.ghost["t.next"] = mkLin(k, n)
			} else {
				f.ghost["t.next"] = addTerms(k, w)
				f.addLE(mkLin(k, 1), f.ghost["t.next"], 0)
				f.addLE(f.ghost["t.next"], f.length(sp.src), 0) // the width is at most the length of what is decoded
			}
		default:
			sp.bad(f, "characters of the source", "next", pos, "the current character becomes %s, which was not read from the source", v)
		}
		f.ghost["r.kind"] = cStr("")
		f.ghost["c.err"], f.ghost["r.err"] = tFalse, tFalse
		if gtrue(st, "r.err") && !valSet(f, v).inter(csIllegal).empty() {
			f.ghost["c.err"] = tTrue
		}
		res = append(res, f)
	}
	if res == nil {
		res = []*State{}
	}
	return res
}

// ascii adds the fact that an ASCII character is one byte long.
func (sp *ScanSpec) ascii(st *State, ch *Term) {
	if valSet(st, ch).subsetOf(rangeSet(0, 127)) {
		off, next := st.ghost["t.off"], st.ghost["t.next"]
		st.addLE(mkLin(off, 1), next, 0)
		st.addLE(next, mkLin(off, 1), 0)
	}
}

// addTerms is a+b in the form the interpreter gives it.
func addTerms(a, b *Term) *Term {
	ba, ka := linParts(a)
	bb, kb := linParts(b)
	switch {
	case ba == nil:
		return mkLin(b, ka)
	case bb == nil:
		return mkLin(a, kb)
	}
	if ba.id > bb.id {
		ba, bb = bb, ba
	}
	return mkLin(mkOp("add", types.Typ[types.Int], ba, bb), ka+kb)
}

// norm expresses the ghosts by the values the program keeps.
func (sp *ScanSpec) norm(st *State) {
	var cands []*Term
	seen := map[*Term]bool{}
	put := func(t *Term) {
		if t != nil && t.kind != KConst && isInt(t) && !isChar(t) && !seen[t] {
			seen[t] = true
			cands = append(cands, t)
		}
	}
	for _, c := range sp.intCells {
		put(st.load(c))
	}
	for f := st.fr; f != nil && f != driverFrame; f = f.parent {
		fi := infoOf(f.fn)
		var rs []ssa.Value
		for v := range f.regs {
			if _, ok := v.(*ssa.Phi); ok {
				rs = append(rs, v)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return fi.regNum[rs[i]] < fi.regNum[rs[j]] })
		for _, v := range rs {
			put(f.regs[v])
		}
	}
	for _, g := range []string{"t.off", "t.next", "t.dep", "m.depth", "e.tot"} {
		t := st.ghost[g]
		if t == nil || t.kind == KConst || seen[t] {
			continue
		}
		for _, c := range cands {
			if d := st.dist(t, c); d > -1000 && d < 1000 && st.dist(c, t) == -d {
				st.ghost[g] = mkLin(c, d)
				break
			}
		}
	}
}

// errored records that an error was reported: for the character being read,
// which belongs to the token it will be consumed for, or for the token itself.
func (sp *ScanSpec) errored(st *State) {
	if !sp.errors {
		return
	}
	if gstr(st, "r.kind") != "" {
		st.ghost["r.err"] = tTrue
	} else {
		st.ghost["e.tok"] = tTrue
	}
}

func gtrue(st *State, k string) bool {
	v := st.ghost[k]
	if v == nil {
		return false
	}
	b, ok := v.isBool()
	return b && ok
}

// consume feeds the current character to the automaton.
func (sp *ScanSpec) consume(st *State, old *Term, aut, pos string) []*State {
	var res []*State
	split := func(ls []label, f func(s *State, l string)) {
		for _, l := range ls {
			s := st.clone()
			if !restrictVal(s, old, l.set) {
				continue
			}
			sp.ascii(s, old)
			f(s, l.name)
		}
	}
	emit := func(s *State, a string) {
		s.ghost["t.aut"] = cStr(a)
		if a == "Illegal" && gtrue(s, "c.err") {
			s.ghost["e.tok"] = tTrue
		}
		res = append(res, s)
	}
	reject := func(s *State, l string) {
		sp.bad(s, "token extent", fmt.Sprintf("%s %s", tokState(aut), l), pos, "after %s a character of class %s is consumed", tokState(aut), l)
		emit(s, "Err")
	}
	start := func(s *State, a string) {
		s.ghost["t.start"] = s.ghost["t.off"]
		emit(s, a)
	}
	// newlines
	line := func(s *State, isNL bool) {
		off := s.ghost["t.off"]
		if add := s.ghost["l.add"]; add != nil && add != tUnit {
			sp.req(s, isNL && s.proveEq(add, mkLin(off, 1)), "line table", "line start", "a line is added at %s when the character at %s (a newline: %v) is consumed", add, off, isNL)
			s.ghost["l.add"] = tUnit
			return
		}
		if isNL {
			s.ghost["l.own"] = mkLin(off, 1)
		}
	}
	if aut == "I" { // nothing read yet
		s := st.clone()
		emit(s, "I1")
		return res
	}
	nls := []label{{"newline", chars("\n")}, {"other", fullSet().minus(chars("\n"))}}
	var sts []*State
	for _, l := range nls {
		s := st.clone()
		if restrictVal(s, old, l.set) {
			sp.ascii(s, old)
			line(s, l.name == "newline")
			sts = append(sts, s)
		}
	}
	for _, st0 := range sts {
		st = st0
		quoteEnds := func(s *State, f func(s *State, ends bool)) { // does '"' end the string here?
			if gstr(s, "m.mode") != "quote" {
				f(s, false)
				return
			}
			d := s.ghost["m.depth"]
			z := s.clone()
			if z.restrict(d, single(0)) {
				f(z, true)
			}
			if s.restrict(d, rangeSet(1, maxI)) {
				f(s, false)
			}
		}
		braces := func(s *State, l, in, done string) { // nesting in unparsed strings
			d := s.ghost["t.dep"]
			switch l {
			case "{":
				s.ghost["t.dep"] = mkLin(d, 1)
				emit(s, in)
			case "}":
				z := s.clone()
				if z.restrict(d, single(1)) {
					z.ghost["t.dep"] = mkLin(d, -1)
					emit(z, done)
				}
				if s.restrict(d, rangeSet(2, maxI)) {
					s.ghost["t.dep"] = mkLin(d, -1)
					emit(s, in)
				}
			case "eof":
				reject(s, l)
			default:
				emit(s, in)
			}
		}
		switch aut {
		case "I1":
			split([]label{{"bom", single(0xFEFF)}, {"other", fullSet().minus(single(0xFEFF))}}, func(s *State, l string) {
				if l == "bom" {
					emit(s, "I2")
				} else {
					reject(s, "other than a byte order mark")
				}
			})
		case "S":
			split(lblOut, func(s *State, l string) {
				switch l {
				case "blank":
					emit(s, "S")
				case "eof":
					start(s, "EOF")
				case "digit":
					start(s, "Num")
				case "name":
					start(s, "Id")
				case "@":
					start(s, "Cmd")
				case "%":
					start(s, "Com")
				case "\"":
					if sp.strings {
						start(s, "Quote")
					} else {
						start(s, "Q")
					}
				case "{":
					if b, _ := s.ghost["p.after"].isBool(); !b {
						start(s, "LBrace")
					} else if sp.strings {
						start(s, "StrLBrace")
					} else {
						s.ghost["t.dep"] = cInt(1)
						start(s, "B")
					}
				case "other":
					start(s, "Illegal")
				default:
					start(s, l)
				}
			})
		case "Num":
			split([]label{{"digit", csDigit}, {"other", fullSet().minus(csDigit)}}, func(s *State, l string) {
				if l == "digit" {
					emit(s, "Num")
				} else {
					reject(s, "other than a digit")
				}
			})
		case "Id":
			split([]label{{"name", csName}, {"other", fullSet().minus(csName)}}, func(s *State, l string) {
				if l == "name" {
					emit(s, "Id")
				} else {
					reject(s, "other than a name character")
				}
			})
		case "Cmd", "Cmd1":
			split([]label{{"letter", csCmd}, {"other", fullSet().minus(csCmd)}}, func(s *State, l string) {
				if l == "letter" {
					emit(s, "Cmd1")
				} else {
					reject(s, "other than a letter")
				}
			})
		case "Com":
			split(alphabet(label{"newline", chars("\n")}, label{"eof", csEOF}), func(s *State, l string) {
				if l == "other" {
					emit(s, "Com")
				} else {
					reject(s, l)
				}
			})
		case "B", "QB":
			done := map[string]string{"B": "BDone", "QB": "Q"}[aut]
			split(alphabet(label{"{", chars("{")}, label{"}", chars("}")}, label{"eof", csEOF}), func(s *State, l string) { braces(s, l, aut, done) })
		case "Q":
			split(alphabet(label{"{", chars("{")}, label{"\"", chars("\"")}, label{"eof", csEOF}), func(s *State, l string) {
				switch l {
				case "{":
					s.ghost["t.dep"] = cInt(1)
					emit(s, "QB")
				case "\"":
					emit(s, "QDone")
				case "eof":
					reject(s, l)
				default:
					emit(s, "Q")
				}
			})
		case "s": // inside a string
			split(lblIn, func(s *State, l string) {
				switch l {
				case "eof":
					start(s, "sEOF")
				case "blank":
					start(s, "Sp")
				case "$":
					start(s, "Math")
				case "\"":
					quoteEnds(s, func(s *State, ends bool) {
						if ends {
							start(s, "QuoteEnd")
						} else {
							start(s, "Txt")
						}
					})
				case "{":
					start(s, "sLB")
				case "}":
					z := s.clone()
					if z.restrict(z.ghost["m.depth"], single(0)) {
						if gstr(z, "m.mode") == "brace" {
							start(z, "sRBEnd")
						} else {
							start(z, "sRB0")
						}
					}
					if s.restrict(s.ghost["m.depth"], rangeSet(1, maxI)) {
						start(s, "sRB")
					}
				case "\\":
					start(s, "Esc")
				case "other":
					start(s, "Txt")
				default:
					start(s, "s"+l)
				}
			})
		case "Sp":
			split([]label{{"blank", csBlank}, {"other", fullSet().minus(csBlank)}}, func(s *State, l string) {
				if l == "blank" {
					emit(s, "Sp")
				} else {
					reject(s, "other than a blank")
				}
			})
		case "Txt", "Mac":
			split(alphabet(label{"special", csSpecial}, label{"\"", chars("\"")}, label{"nul", single(0)}), func(s *State, l string) {
				switch {
				case l == "special" || l == "nul" && aut == "Mac":
					reject(s, l)
				case l == "\"":
					quoteEnds(s, func(s *State, ends bool) {
						if ends {
							reject(s, "closing quote")
						} else {
							emit(s, aut)
						}
					})
				default:
					emit(s, aut)
				}
			})
		case "Math":
			split(alphabet(label{"$", chars("$")}, label{"\\", chars("\\")}, label{"newline", chars("\n")}, label{"eof", csEOF}), func(s *State, l string) {
				switch l {
				case "$":
					emit(s, "MathDone")
				case "\\":
					emit(s, "MathEsc")
				case "other":
					emit(s, "Math")
				default:
					reject(s, l)
				}
			})
		case "MathEsc":
			split(alphabet(label{"eof", csEOF}), func(s *State, l string) { emit(s, "Math") })
		case "Esc":
			split(lblEsc, func(s *State, l string) {
				switch l {
				case "escaped":
					emit(s, "EscDone")
				case "accent":
					emit(s, "Acc")
				case "macro1":
					emit(s, "Mac1")
				case "other":
					emit(s, "Mac")
				default:
					reject(s, l)
				}
			})
		case "Acc", "AccB", "AccL", "AccS":
			split(alphabet(label{"letter", csAlpha}, label{"{", chars("{")}, label{"}", chars("}")}, label{"space", chars(" ")}), func(s *State, l string) {
				switch {
				case aut == "Acc" && l == "{":
					emit(s, "AccB")
				case (aut == "Acc" || aut == "AccS") && l == "space":
					emit(s, "AccS")
				case aut == "Acc" && l == "letter":
					emit(s, "AccDone")
				case aut == "AccS" && l == "letter":
					s.ghost["t.letter"] = old
					emit(s, "AccSDone")
				case aut == "AccB" && l == "letter":
					emit(s, "AccL")
				case aut == "AccL" && l == "}":
					emit(s, "AccDone")
				default:
					reject(s, l)
				}
			})
		case "Err":
			emit(st.clone(), "Err")
		default: // the token is complete
			reject(st.clone(), "any")
		}
	}
	return res
}

var tokNames = map[string]string{"S": "the start", "s": "the start in a string", "I1": "the first character", "I2": "a byte order mark",
	"Num": "a number", "Id": "a name", "Cmd": "'@'", "Cmd1": "a command", "Com": "a comment", "Q": "a quoted string", "QB": "braces in a quoted string",
	"B": "a braced string", "Sp": "string space", "Txt": "string text", "Math": "math", "MathEsc": "a backslash in math", "Esc": "a backslash",
	"Mac": "a macro name", "Acc": "an accent mark", "AccB": "an accent mark and '{'", "AccL": "a braced accented letter", "AccS": "an accent mark and spaces"}

func tokState(a string) string {
	if n := tokNames[a]; n != "" {
		return n
	}
	return "the complete token " + a
}

// expectation of a token.
type expect struct {
	toks  []string // the kinds it may have
	class string   // rule: outside or inside strings
	errs  bool     // an error must have been reported
	stop  IntSet   // characters that must not follow (the token is as long as possible)
	need  IntSet   // the next character must be one of these; nil: any
	lo    int64    // the literal starts so far after the token start
	hi    int64    // and ends so far before the end; <0: no literal rule
	noLit bool
	after string // "out", "quote", "brace", "": unchanged
	depth int64  // change of the depth
}

func (sp *ScanSpec) expectation(st *State, a string) (expect, bool) {
	out := func(t ...string) expect { return expect{toks: t, class: "token outside strings", noLit: true} }
	in := func(t ...string) expect { return expect{toks: t, class: "token inside strings", noLit: true} }
	lit := func(x expect, lo, hi int64) expect { x.noLit, x.lo, x.hi = false, lo, hi; return x }
	stop := func(x expect, s IntSet) expect { x.stop = s; return x }
	fail := func(x expect) expect { x.errs = true; return x }
	switch a {
	case "EOF":
		return out("EOF"), true
	case "Num":
		return lit(stop(out("Number"), csDigit), 0, 0), true
	case "Id":
		return lit(stop(out("Ident"), csName), 0, 0), true
	case "Cmd":
		return fail(lit(stop(out("Comment", "Abbrev", "Preamble", "BibEntry"), csAlpha.union(chars("_"))), 0, 0)), true
	case "Cmd1":
		return lit(stop(out("Comment", "Abbrev", "Preamble", "BibEntry"), csAlpha.union(chars("_"))), 0, 0), true
	case "Com":
		return lit(stop(out("TexComment"), csAny.minus(chars("\n"))), 0, 0), true
	case ",":
		return out("Comma"), true
	case "=":
		return out("Assign"), true
	case "#":
		return out("Concat"), true
	case "(":
		return out("LParen"), true
	case ")":
		return out("RParen"), true
	case "}":
		return out("RBrace"), true
	case "LBrace":
		return out("LBrace"), true
	case "StrLBrace":
		x := out("StringLBrace")
		x.after = "brace"
		return x, true
	case "Quote":
		x := out("DoubleQuote")
		x.after = "quote"
		return x, true
	case "BDone":
		return lit(out("BraceString"), 1, 1), true
	case "B":
		x := fail(lit(out("BraceString"), 1, 0))
		x.need = csEOF
		return x, true
	case "QDone":
		return lit(out("String"), 1, 1), true
	case "Q", "QB":
		x := fail(lit(out("String"), 1, 0))
		x.need = csEOF
		return x, true
	case "Illegal":
		x := out("Illegal")
		x.errs = true
		return x, true
	case "sEOF":
		x := fail(in("EOF"))
		x.after = "out"
		return x, true
	case "Sp":
		return stop(in("StringSpace"), csBlank), true
	case "QuoteEnd":
		x := in("DoubleQuote")
		x.after = "out"
		return x, true
	case "sLB":
		x := in("StringLBrace")
		x.depth = 1
		return x, true
	case "sRB":
		x := in("StringRBrace")
		x.depth = -1
		return x, true
	case "sRB0":
		return in("StringRBrace"), true
	case "sRBEnd":
		x := in("StringRBrace")
		x.after = "out"
		return x, true
	case "s,":
		return in("StringComma"), true
	case "s~":
		return in("StringNBSP"), true
	case "Txt":
		s := csAny.minus(csSpecial)
		if gstr(st, "m.mode") == "quote" {
			s = s.minus(chars("\""))
		}
		return lit(stop(in("StringContents"), s), 0, 0), true
	case "MathDone":
		return lit(in("StringMath"), 1, 1), true
	case "Math":
		x := fail(in("Illegal"))
		x.need = csEOF.union(chars("\n"))
		return x, true
	case "EscDone":
		return lit(in("StringBackslash"), 0, 0), true
	case "Mac1":
		return lit(in("StringMacro"), 0, 0), true
	case "Mac":
		s := csAny.minus(csSpecial).minus(single(0))
		if gstr(st, "m.mode") == "quote" {
			s = s.minus(chars("\""))
		}
		return stop(in("StringMacro", "Illegal"), s), true
	case "AccDone", "AccSDone":
		return lit(in("StringAccent"), 0, 0), true
	case "Esc":
		x := fail(in("Illegal"))
		x.need = csSpecial.minus(csEscape).minus(csAccent).minus(csMacro1).union(single(0))
		return x, true
	case "Acc":
		x := fail(in("Illegal"))
		x.stop = csAlpha.union(chars("{ "))
		return x, true
	case "AccB":
		x := fail(in("Illegal"))
		x.stop = csAlpha
		return x, true
	case "AccL":
		x := fail(in("Illegal"))
		x.stop = chars("}")
		return x, true
	case "AccS":
		x := fail(in("Illegal"))
		x.stop = csAlpha.union(chars(" "))
		return x, true
	}
	return expect{}, false
}

// foldEq reports what is known about lit equalling name except for case.
func foldEq(st *State, lit *Term, name string) (bool, bool) {
	for _, t := range []*Term{
		mkOp("call:strings.EqualFold", types.Typ[types.Bool], cStr(name), lit),
		mkOp("call:strings.EqualFold", types.Typ[types.Bool], lit, cStr(name)),
		mkEq(mkOp("call:strings.ToLower", types.Typ[types.String], lit), cStr(name)),
		mkEq(mkOp("call:strings.ToUpper", types.Typ[types.String], lit), cStr(strings.ToUpper(name))),
	} {
		if v, k := st.decide(t); k {
			return v, true
		}
	}
	if lit.isOp("str") {
		sl := lit.args[0]
		for _, t := range []*Term{
			mkOp("call:bytes.EqualFold", types.Typ[types.Bool], sl, mkOp("bytes", types.NewSlice(types.Typ[types.Uint8]), cStr(name))),
		} {
			if v, k := st.decide(t); k {
				return v, true
			}
		}
	}
	return false, false
}

// sliceOf takes apart a text cut out of the source.
func (sp *ScanSpec) sliceOf(st *State, t *Term) (lo, hi *Term, ok bool) {
	if !t.isOp("str") {
		return
	}
	t = t.args[0]
	if t == sp.src {
		return tZero, st.length(sp.src), true
	}
	if t.isOp("slice") && t.args[0] == sp.src && len(t.args) >= 3 {
		return t.args[1], t.args[2], true
	}
	return
}

// finish checks the result of a Scan call and prepares the state for the next.
func (sp *ScanSpec) finish(st *State, ret *Term) (*State, bool) {
	a := gstr(st, "t.aut")
	if len(ret.args) != 3 {
		panic(undecided{"Scan does not return position, token and literal"})
	}
	pos, tok, lit := ret.args[0], ret.args[1], ret.args[2]
	where := a
	if b, _ := st.ghost["p.after"].isBool(); b && strings.Contains("Quote LBrace StrLBrace B BDone", a) {
		where += " after =#{"
	}
	if m := gstr(st, "m.mode"); m != "out" {
		where += " in " + m
	}
	if a == "Err" {
		return nil, false // reported where it happened
	}
	x, known := sp.expectation(st, a)
	if a == "S" || a == "s" {
		sp.req(st, false, "progress", where, "Scan returns without consuming a character that starts a token")
		return nil, false
	}
	if !known {
		sp.req(st, false, "token extent", where, "Scan returns after %s", tokState(a))
		return nil, false
	}
	sp.holds["progress | "+where]++
	// the kind
	ts := st.set(tok)
	var want IntSet
	for _, n := range x.toks {
		v, ok := sp.tok[n]
		if !ok {
			panic(undecided{"token." + n + " not found"})
		}
		want = want.union(single(v))
	}
	if !sp.req(st, ts.subsetOf(want), x.class, where, "after %s the token is %s instead of %s", tokState(a), sp.tokNames(ts), strings.Join(x.toks, " or ")) {
		return nil, false
	}
	errs := gtrue(st, "e.tok") || gtrue(st, "r.err")
	switch a {
	case "Cmd1":
		if !sp.req(st, ts.isSingle(), x.class, where, "the kind of a command is not determined: %s", sp.tokNames(ts)) {
			return nil, false
		}
		kinds := map[string]string{"@comment": "Comment", "@string": "Abbrev", "@preamble": "Preamble"}
		for _, n := range keysOf(kinds) {
			v, k := foldEq(st, lit, n)
			is := ts.has(sp.tok[kinds[n]])
			if is {
				sp.req(st, k && v, x.class, "command "+kinds[n], "%s is returned for a command that need not be %s", kinds[n], n)
			} else if ts.has(sp.tok["BibEntry"]) {
				sp.req(st, k && !v, x.class, "command entry "+n, "BibEntry is returned for a command that may be %s", n)
			}
		}
	case "Mac":
		if ts.has(sp.tok["Illegal"]) {
			x.errs = true
			sp.req(st, ts.isSingle(), x.class, where, "the kind of a macro is not determined")
		} else {
			x.noLit, x.lo = false, 1
		}
	}
	if !sp.errors {
	} else if ts.has(sp.tok["Illegal"]) {
		sp.req(st, errs, "illegal token reported", where, "an illegal token is returned without reporting an error (%s)", tokState(a))
	} else if x.errs {
		sp.req(st, errs, "unterminated token reported", where, "%s is not reported as an error", tokState(a))
	}
	// the extent
	next := valSet(st, st.load(sp.ch))
	if x.stop != nil {
		sp.req(st, next.inter(x.stop).empty(), x.class, where+" is longest", "after %s the token ends although a character of %s may follow", tokState(a), next.inter(x.stop))
	}
	if x.need != nil {
		sp.req(st, next.subsetOf(x.need), x.class, where+" ends", "after %s the token ends although %s may follow", tokState(a), next.minus(x.need))
	}
	// the position
	start, end := st.ghost["t.start"], st.ghost["t.off"]
	okp := pos.isOp("filepos") && pos.args[0] == sp.file
	sp.req(st, okp && st.proveEq(pos.args[1], start), "token position", where, "the position returned is %s, the token starts at %s", pos, start)
	// the literal
	if !x.noLit {
		if a == "AccSDone" {
			want := mkConcat(mkOp("?", nil), mkOp("?", nil))
			_ = want
			ps := concatParts(lit)
			lo, hi, ok := (*Term)(nil), (*Term)(nil), false
			if len(ps) == 2 {
				lo, hi, ok = sp.sliceOf(st, ps[0])
			}
			ok = ok && st.proveEq(lo, start) && st.proveEq(hi, mkLin(start, 2)) && mentionsTerm(ps[1], st.ghost["t.letter"])
			sp.req(st, ok, "literal", where, "the literal of an accent with spaces is %s, not the mark and the letter", lit)
		} else {
			lo, hi, ok := sp.sliceOf(st, lit)
			ok = ok && st.proveEq(lo, mkLin(start, x.lo)) && st.proveEq(hi, mkLin(end, -x.hi))
			sp.req(st, ok, "literal", where, "the literal is %s, the token covers source[%s:%s] without %d leading and %d closing characters", lit, start, end, x.lo, x.hi)
		}
	}
	// lines
	if own := st.ghost["l.own"]; own != nil {
		sp.req(st, own == tUnit, "line table", "newline "+where, "a newline was consumed but no line added at %s", own)
	}
	if add := st.ghost["l.add"]; add != nil {
		sp.req(st, add == tUnit, "line table", "line "+where, "a line was added at %s without consuming a newline", add)
	}
	// error counting
	if ec := sp.errCell; ec != nil && !sp.nilErrh {
		sp.req(st, st.proveEq(st.load(ec), st.ghost["e.tot"]), "error count", where, "ErrorCount is %s after %s calls of the error handler", st.load(ec), st.ghost["e.tot"])
	}
	// the next call
	n := st.clone()
	if x.after != "" {
		n.ghost["m.mode"] = cStr(x.after)
		n.ghost["m.depth"] = tZero
	}
	n.ghost["m.depth"] = mkLin(n.ghost["m.depth"], x.depth)
	switch {
	case a == "Com":
	default:
		is := false
		for _, t := range []string{"Assign", "Concat", "LBrace"} {
			is = is || ts.has(sp.tok[t])
		}
		n.ghost["p.after"] = cBool(is)
	}
	sp.reset(n)
	return n, true
}

func mentionsTerm(t, x *Term) bool {
	found := false
	walkTerm(t, map[*Term]bool{}, func(u *Term) { found = found || u == x })
	return found
}

func (sp *ScanSpec) reset(n *State) {
	n.ghost["t.aut"] = cStr("s")
	if gstr(n, "m.mode") == "out" {
		n.ghost["t.aut"] = cStr("S")
	}
	delete(n.ghost, "t.start")
	delete(n.ghost, "t.letter")
	delete(n.ghost, "t.dep")
	for k := range n.ghost {
		if strings.HasPrefix(k, "rk.") || strings.HasPrefix(k, "r.") {
			delete(n.ghost, k)
		}
	}
	n.ghost["r.kind"] = cStr("")
	n.ghost["l.own"], n.ghost["l.add"] = tUnit, tUnit
	n.ghost["e.tok"], n.ghost["r.err"] = tFalse, tFalse
}

func (sp *ScanSpec) tokNames(s IntSet) string {
	var ns []string
	for n, v := range sp.tok {
		if s.has(v) {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	if len(ns) == 0 {
		return s.String()
	}
	return strings.Join(ns, "/")
}

func (sp *ScanSpec) key(st *State) string {
	var sb strings.Builder
	for _, k := range []string{"t.aut", "m.mode", "p.after", "r.kind"} {
		if v := st.ghost[k]; v != nil && v.kind == KConst {
			sb.WriteString(k + v.cv.ExactString() + " ")
		}
	}
	for _, k := range []string{"e.tok", "r.err", "c.err"} {
		fmt.Fprintf(&sb, "%s%v ", k, gtrue(st, k))
	}
	for _, k := range []string{"l.own", "l.add"} {
		if v := st.ghost[k]; v != nil {
			fmt.Fprintf(&sb, "%s%v ", k, v == tUnit)
		}
	}
	sb.WriteString(smallCells(st))
	if d := st.ghost["t.dep"]; d != nil { // a character that changes the depth was consumed but not yet counted
		b, k := linParts(d)
		var ds []string
		for f := st.fr; f != nil && f != driverFrame; f = f.parent {
			for v, t := range f.regs {
				if _, ok := v.(*ssa.Phi); !ok || !isIntType(v.Type()) || isChar(t) {
					continue
				}
				if b2, k2 := linParts(t); b2 == b && k-k2 < 5 && k2-k < 5 {
					ds = append(ds, fmt.Sprintf("%d:%d", infoOf(f.fn).regNum[v], k-k2))
				}
			}
		}
		sort.Strings(ds)
		sb.WriteString("d" + strings.Join(ds, ","))
	}
	if st.fr != nil { // the kind of token decided so far
		fi := infoOf(st.fr.fn)
		var rs []string
		for v, t := range st.fr.regs {
			if t.kind == KConst && types.Identical(v.Type(), sp.tokT) {
				if _, ok := v.(*ssa.Phi); ok {
					rs = append(rs, fmt.Sprintf("%d=%s", fi.regNum[v], t.cv.ExactString()))
				}
			}
		}
		sort.Strings(rs)
		sb.WriteString(strings.Join(rs, ","))
	}
	return sb.String()
}

func (sp *ScanSpec) hooks() Hooks {
	return Hooks{
		Key:  sp.key,
		Norm: sp.norm,
		Fork: sp.fork,
		Head: sp.head,
		Instr: func(e *Eng, st *State, in ssa.Instruction) {
			u, ok := in.(*ssa.UnOp)
			if !ok {
				return
			}
			p, ok := st.fr.regs[u.X]
			if ok && u.Op == token.MUL && root(p) == sp.obj {
				clean := false
				for q := p; !clean; q = q.args[0] {
					clean = st.ghost["clean."+q.String()] != nil
					if q == sp.obj {
						break
					}
				}
				if clean {
					sp.holds["previous state | "+p.String()]++
				} else {
					sp.bad(st, "previous state", p.String(), sp.w.pos(u.Pos()), "%s reads %s before Init or Scan has set it", u.Parent().Name(), p)
				}
			}
			if !ok || p.kind != KElem || p.args[0] != sp.src {
				return
			}
			st.ghost["r.kind"], st.ghost["r.k"], st.ghost["r.w"], st.ghost["r.v"] = cStr("byte"), p.args[1], cInt(1), st.load(p)
		},
		Call: func(e *Eng, st *State, c *Call) ([]Outcome, bool) {
			switch {
			case c.fn == nil && c.fnVal == sp.errh && c.meth == nil:
				st = st.clone()
				sp.errored(st)
				st.ghost["e.tot"] = mkLin(st.ghost["e.tot"], 1)
				at := c.args[0]
				ok := at.isOp("position") && at.args[0] == sp.file && at.args[1].isOp("filepos") && at.args[1].args[0] == sp.file
				if ok {
					o := at.args[1].args[1]
					ok = st.provesLE(tZero, o, 0) && st.provesLE(o, st.length(sp.src), 0)
				}
				if ok {
					sp.holds["error position | "+c.instr.Parent().Name()]++
				} else {
					sp.bad(st, "error position", c.instr.Parent().Name(), sp.w.pos(c.instr.Pos()), "an error is reported at %s, which need not be inside the source", at)
				}
				return []Outcome{{st: st, ret: tUnit}}, true
			case c.name == "unicode/utf8.DecodeRune" || c.name == "unicode/utf8.DecodeRuneInString":
				x := c.args[0]
				if x.isOp("str") {
					x = x.args[0]
				}
				lo := (*Term)(nil)
				if x == sp.src {
					lo = tZero
				} else if x.isOp("slice") && x.args[0] == sp.src {
					lo = x.args[1]
				} else {
					return nil, false
				}
				outs, ok := e.model(st, c)
				for _, o := range outs {
					if o.panic == nil && o.ret.args[0].kind != KConst {
						o.st.ghost["r.kind"], o.st.ghost["r.k"], o.st.ghost["r.w"], o.st.ghost["r.v"] = cStr("rune"), lo, o.ret.args[1], o.ret.args[0]
					}
				}
				return outs, ok
			case c.name == "(*go/token.File).AddLine":
				st = st.clone()
				off := c.args[1]
				own := st.ghost["l.own"]
				if own != nil && own != tUnit {
					ok := st.proveEq(own, off)
					if ok {
						sp.holds["line table | line start"]++
					} else {
						sp.bad(st, "line table", "line start", sp.w.pos(c.instr.Pos()), "after the newline before %s the line table gets %s", own, off)
					}
					st.ghost["l.own"] = tUnit
				} else if add := st.ghost["l.add"]; add != nil && add != tUnit {
					sp.bad(st, "line table", "line start", sp.w.pos(c.instr.Pos()), "two lines (%s, %s) are added for one character", add, off)
				} else {
					st.ghost["l.add"] = off
				}
				return []Outcome{{st: st, ret: tUnit}}, true
			}
			return nil, false
		},
	}
}

// head checks that every iteration of a loop makes progress.
func (sp *ScanSpec) head(e *Eng, st *State, l *Loop, name string, back bool) {
	fn := l.header.Parent()
	if boundedLoop(l) {
		if back {
			sp.holds["loop termination | "+fn.Name()+" bounded iteration"]++
		}
		return
	}
	k := "rk." + name
	if back {
		was, now := st.ghost[k], st.ghost["t.off"]
		ok := was != nil && st.provesLE(was, now, -1)
		if !ok && was != nil {
			// the depth of recursion or a counter cannot help: input must be consumed
			sp.bad(st, "loop termination", fmt.Sprintf("%s loop %d", fn.Name(), infoOf(fn).loopNum(l)), sp.w.pos(loopPos(l)), "an iteration of a loop in %s may consume no input (offset %s before, %s after)", fn.Name(), was, now)
		}
		if ok {
			sp.holds["loop termination | "+fn.Name()]++
		}
	}
	if st.ghost["t.off"] != nil {
		st.ghost[k] = st.ghost["t.off"]
	}
}

// run analyses the scanner in its mode.
func (sp *ScanSpec) run(c *Ctx) {
	e, st := c.eng()
	e.maxStates = envInt("MAXST", 4)
	e.maxSteps = 40000000
	sp.e = e
	st = st.clone()
	ps := sp.initFn.Params
	sp.file, sp.src, sp.errh, sp.mode = mkSym("file", ps[1].Type()), mkSym("src", ps[2].Type()), mkSym("errh", ps[3].Type()), mkSym("mode", ps[4].Type())
	sp.before = mkSym("before", types.Typ[types.Int])
	st.hav[sp.obj] = sp.before
	st.setNil(sp.file, false)
	if sp.nilErrh {
		st.setNil(sp.errh, true)
	} else if !sp.anyErrh {
		st.setNil(sp.errh, false)
	}
	size := mkOp("filesize", types.Typ[types.Int], sp.file)
	n := mkOp("len", types.Typ[types.Int], sp.src)
	st.addLE(size, n, 0)
	st.addLE(n, size, 0)
	bit, ok := c.constsOf("scanner", "Mode")["ScanStrings"]
	if !ok {
		panic(undecided{"scanner.ScanStrings not found"})
	}
	bc := mkConst(constant.MakeInt64(bit))
	flag := mkOp("and", ps[4].Type(), sp.mode, bc)
	if sp.mode.id > bc.id {
		flag = mkOp("and", ps[4].Type(), bc, sp.mode)
	}
	for _, f := range []*Term{flag, mkOp("and", ps[4].Type(), sp.mode, bc), mkOp("and", ps[4].Type(), bc, sp.mode)} {
		if sp.strings {
			st.restrict(f, single(bit))
		} else {
			st.restrict(f, single(0))
		}
	}
	for k, v := range map[string]*Term{"S": sp.obj, "file": sp.file, "src": sp.src, "mode": sp.mode, "flag": flag, "errh": sp.errh} {
		st.ghost[k] = v
	}
	st.ghost["m.mode"], st.ghost["m.depth"], st.ghost["p.after"] = cStr("out"), tZero, tFalse
	st.ghost["e.tot"] = tZero
	sp.reset(st)
	st.ghost["t.aut"] = cStr("I")
	st.ghost["t.off"], st.ghost["t.next"] = cInt(-1), tZero
	e.hooks = sp.hooks()
	var starts []*State
	for _, o := range e.run(st, sp.initFn, []*Term{sp.obj, sp.file, sp.src, sp.errh, sp.mode}, nil, "Init") {
		if o.panic != nil {
			e.obligeGlobal("panic in Init", sp.initFn, false, "Init can panic although the file size matches: "+o.panic.String())
			continue
		}
		a := gstr(o.st, "t.aut")
		if !sp.req(o.st, a == "I1" || a == "I2", "initial state", a, "Init leaves the scanner after %s", tokState(a)) {
			continue
		}
		s := o.st.clone()
		sp.req(s, s.ghost["l.own"] == tUnit && s.ghost["l.add"] == tUnit, "line table", "Init", "Init adds a line without a newline")
		if ec := sp.errCell; ec != nil && !sp.nilErrh {
			sp.req(s, s.proveEq(s.load(ec), s.ghost["e.tot"]), "error count", "Init", "ErrorCount is %s after %s calls of the error handler", s.load(ec), s.ghost["e.tot"])
		}
		sp.reset(s)
		starts = append(starts, s)
	}
	add := func(s *State, widen bool) bool {
		s = s.clone()
		s.fr = driverFrame
		sp.norm(s)
		s = e.renamePhis(s, "driver")
		k := sp.key(s)
		old := sp.states[k]
		if old == nil {
			e.gc(s)
			sp.states[k] = s
			return true
		}
		nw, ch := e.join("driver", old, s, widen)
		sp.states[k] = nw
		return ch
	}
	for _, s := range starts {
		add(s, false)
	}
	dirty := map[string]bool{}
	for k := range sp.states {
		dirty[k] = true
	}
	initFails := sp.fails
	results := map[string][]*State{}
	failsOf := map[string]map[string]Finding{}
	for sp.iters = 0; len(dirty) > 0; sp.iters++ {
		if sp.iters > 40 {
			e.giveUp("the scanner states do not stabilise")
		}
		work := keysOfBool(dirty)
		dirty = map[string]bool{}
		for _, k := range work {
			sp.fails = map[string]Finding{}
			s := sp.states[k].clone()
			s.fr = nil
			results[k] = nil
			t0 := time.Now()
			for _, o := range e.run(s, sp.scanFn, []*Term{sp.obj}, nil, "Scan") {
				if o.panic != nil {
					e.obligeGlobal("panic in Scan", sp.scanFn, false, "Scan can panic: "+o.panic.String())
					continue
				}
				sp.outs++
				if n, ok := sp.finish(o.st, o.ret); ok {
					results[k] = append(results[k], n)
				}
			}
			failsOf[k] = sp.fails
			if envInt("AIDRV", 0) > 0 {
				fmt.Println("RUN", sp.iters, time.Since(t0), k, len(results[k]))
			}
		}
		for _, k := range work {
			for _, n := range results[k] {
				n = n.clone()
				n.fr = driverFrame
				sp.norm(n)
				nk := sp.key(n)
				if add(n, sp.iters >= 3) {
					dirty[nk] = true
				}
			}
		}
	}
	sp.fails = initFails
	for _, k := range keysOf(failsOf) {
		for fk, f := range failsOf[k] {
			if _, ok := sp.fails[fk]; !ok {
				sp.fails[fk] = f
			}
		}
	}
}

func keysOfBool(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
