package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C31: the position methods of every node type. Each Pos and End is
// interpreted on a node with symbolic content; calls of the position methods
// of child nodes stand for themselves. The result must be the extent of the
// node: its own start plus the length of its text with delimiters, its closing
// delimiter, or the end of its last child.

func init() { checks["C31"] = checkSpan }

// spanAlt is the expected position under some conditions.
type spanAlt struct {
	conds []*Term // each must hold
	want  *Term
}

// spans computes the expected values in a state.
type spans struct {
	c     *Ctx
	e     *Eng
	st    *State
	root  *Term
	posT  types.Type
	nodeI *types.Interface
}

func (s *spans) f(name string) *Term { return fieldVal(s.st, s.root, name) }

func (s *spans) sum(a *Term, xs ...*Term) *Term {
	for _, x := range xs {
		a = s.e.binop(s.st, nil, token.ADD, a, x, s.posT, s.posT)
	}
	return a
}

func (s *spans) is(t *Term) []spanAlt { return []spanAlt{{want: t}} }

func (s *spans) child(method string, x *Term) *Term {
	return mkOp("child:"+method, s.posT, childID(x))
}

func (s *spans) elem(list *Term, i *Term) *Term {
	return s.st.load(s.st.elemPtr(list, i, sliceElem(list.typ)))
}

func (s *spans) last(list *Term) *Term { return s.elem(list, mkLin(s.st.length(list), -1)) }

func ne0(t *Term) *Term { return mkNot(mkEq(t, cInt(0))) }

// sub evaluates the spans of a child whose type is known.
func (s *spans) sub(x *Term, t types.Type) *spans {
	n := *s
	n.root = mkIface(t, x)
	return &n
}

// spec is the expected start and end of a node of a type.
func (s *spans) spec(name string) (pos, end []spanAlt, ok bool) {
	ln := func(f string, start string, extra int64) ([]spanAlt, []spanAlt, bool) {
		p, v := s.f(start), s.f(f)
		if p == nil || v == nil {
			return nil, nil, false
		}
		return s.is(p), s.is(s.sum(p, s.st.length(v), cInt(extra))), true
	}
	fields := func(a, b string) ([]spanAlt, []spanAlt, bool) {
		p, q := s.f(a), s.f(b)
		return s.is(p), s.is(q), p != nil && q != nil
	}
	// closed is a node that ends at its closer, or else at its last child
	closed := func(start, closer, list string) ([]spanAlt, []spanAlt, bool) {
		p, q, l := s.f(start), s.f(closer), s.f(list)
		if p == nil || q == nil || l == nil {
			return nil, nil, false
		}
		n := s.st.length(l)
		return s.is(p), []spanAlt{
			{conds: []*Term{ne0(q)}, want: q},
			{conds: []*Term{mkEq(q, cInt(0)), ne0(n)}, want: s.child("End", s.last(l))},
			{conds: []*Term{mkEq(q, cInt(0)), mkEq(n, cInt(0))}, want: p},
		}, true
	}
	switch name {
	case "TexComment":
		return ln("Text", "Start", 0)
	case "Ident":
		return ln("Name", "NamePos", 0)
	case "Number", "UnparsedText", "Text", "TextSpace":
		return ln("Value", "ValuePos", 0)
	case "TextEscaped":
		return ln("Value", "ValuePos", 1)
	case "TextMath":
		return ln("Value", "ValuePos", 2)
	case "TextComma", "TextHyphen", "TextNBSP":
		p := s.f("ValuePos")
		return s.is(p), s.is(s.sum(p, cInt(1))), p != nil
	case "TextAccent":
		p, t := s.f("ValuePos"), s.f("Text")
		if p == nil || t == nil {
			return nil, nil, false
		}
		_, e, ok := s.sub(t, types.NewPointer(s.c.w.typ("ast", "Text"))).spec("Text")
		return s.is(p), e, ok
	case "ParsedText":
		return closed("Opener", "Closer", "Values")
	case "TextMacro":
		return closed("Cmd", "RBrace", "Values")
	case "ConcatExpr":
		return s.is(s.child("Pos", s.f("X"))), s.is(s.child("End", s.f("Y"))), true
	case "TagStmt":
		return s.is(s.f("NamePos")), s.is(s.child("End", s.f("Value"))), true
	case "AbbrevDecl", "BibDecl", "PreambleDecl":
		return fields("Entry", "RBrace")
	case "BadExpr", "BadStmt", "BadDecl", "Author":
		return fields("From", "To")
	case "TexCommentGroup":
		l := s.f("List")
		if l == nil {
			return nil, nil, false
		}
		ct := types.NewPointer(s.c.w.typ("ast", "TexComment"))
		p, _, ok1 := s.sub(s.elem(l, cInt(0)), ct).spec("TexComment")
		_, e, ok2 := s.sub(s.last(l), ct).spec("TexComment")
		return p, e, ok1 && ok2
	case "Authors":
		l := s.root.args[0]
		n := s.st.length(l)
		at := types.NewPointer(s.c.w.typ("ast", "Author"))
		p, _, ok1 := s.sub(s.elem(l, cInt(0)), at).spec("Author")
		_, e, ok2 := s.sub(s.last(l), at).spec("Author")
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		none := spanAlt{conds: []*Term{mkEq(n, cInt(0))}, want: cInt(0)}
		p[0].conds, e[0].conds = []*Term{ne0(n)}, []*Term{ne0(n)}
		return append(p, none), append(e, none), true
	case "File":
		l := s.f("Entries")
		if l == nil {
			return nil, nil, false
		}
		n := s.st.length(l)
		return s.is(cInt(1)), []spanAlt{
			{conds: []*Term{ne0(n)}, want: s.child("End", s.last(l))},
			{conds: []*Term{mkEq(n, cInt(0))}, want: cInt(1)},
		}, true
	case "Package":
		return s.is(cInt(0)), s.is(cInt(0)), true
	}
	return nil, nil, false
}

func checkSpan(c *Ctx) {
	nodeI := c.iface("ast", "Node")
	c.floor("start", 26)
	c.floor("end", 26)
	for _, t := range c.implementers("ast", nodeI) {
		for i, m := range []string{"Pos", "End"} {
			c.span(t, m, []string{"start", "end"}[i], nodeI)
		}
	}
}

func (c *Ctx) span(t types.Type, meth, rule string, nodeI *types.Interface) {
	e, st := c.eng()
	st = st.clone()
	fn := c.method(t, meth)
	if fn == nil {
		return
	}
	name := typeShort(t)
	root := node(st, t, "n")
	if c.only && name == "*ast.TexCommentGroup" {
		// the parser makes no empty groups (C23)
		st.addLE(cInt(1), st.length(fieldVal(st, root, "List")), 0)
	}
	posT := fn.Signature.Results().At(0).Type()
	e.hooks.NonNil = c.nonNil(func(st *State, x *Term) bool { return x != root.args[0] })
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		m := ""
		switch {
		case cl.meth != nil:
			m = cl.meth.Name()
		case cl.fn != nil && cl.rec:
			m = cl.fn.Name()
		}
		if (m == "Pos" || m == "End") && cl.sig.Results().Len() == 1 && types.Identical(cl.sig.Results().At(0).Type(), posT) && len(cl.args) > 0 {
			r := mkOp("child:"+m, posT, childID(cl.args[0]))
			return []Outcome{{st: st, ret: mkTuple(r)}}, true
		}
		return nil, false
	}
	at := c.pos(fn.Pos())
	fail := false
	var outs []Outcome
	e.hooks.Return = func(e *Eng, st *State, f *ssa.Function, ret *Term) {
		if f == fn && st.fr.parent == nil {
			outs = append(outs, Outcome{st: st.clone(), ret: ret})
		}
	}
	e.run(st.clone(), fn, []*Term{root.args[0]}, nil, name+"."+meth)
	n := 0
	for _, o := range outs {
		if o.panic != nil || fail {
			continue
		}
		n++
		got := o.ret.args[0]
		s := &spans{c: c, e: e, st: o.st.clone(), root: root, posT: posT, nodeI: nodeI}
		short := strings.TrimPrefix(strings.TrimPrefix(name, "*"), "ast.")
		p, en, ok := s.spec(short)
		if !ok {
			c.note("%s.%s: no extent is specified for this node type", name, meth)
			return
		}
		alts := p
		if meth == "End" {
			alts = en
		}
		for _, a := range alts {
			s2 := s.st.clone()
			feasible := true
			for _, cd := range a.conds {
				feasible = feasible && s2.assume(cd, true)
			}
			if !feasible || s2.dead {
				continue
			}
			if !sameSum(got, a.want) && !s2.proveEq(got, a.want) {
				fail = true
				c.fail(rule, name, at, "%s.%s returns %s where the %s of the node is %s", name, meth, got, rule, a.want)
				break
			}
		}
	}
	if n == 0 && !fail {
		fail = true
		c.fail(rule, name, at, "%s.%s never returns", name, meth)
	}
	c.absorb(e, "none")
	if !fail {
		c.hold(rule, name)
	}
}

// sameSum compares two integer terms as sums, whatever their integer types
// and the order of the operands.
func sameSum(a, b *Term) bool {
	count := map[*Term]int{}
	var add func(t *Term, sign int) int64
	add = func(t *Term, sign int) int64 {
		if v, ok := t.isInt(); ok {
			return int64(sign) * v
		}
		base, k := linParts(t)
		if base == nil {
			return int64(sign) * k
		}
		if base != t {
			return int64(sign)*k + add(base, sign)
		}
		if t.isOp("add") {
			return add(t.args[0], sign) + add(t.args[1], sign)
		}
		count[t] += sign
		return 0
	}
	if add(a, 1)+add(b, -1) != 0 {
		return false
	}
	for _, n := range count {
		if n != 0 {
			return false
		}
	}
	return true
}
