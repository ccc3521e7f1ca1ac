package main

import (
	"fmt"
	"go/types"
)

// item is one piece of an expected emission: a text, one child, or every
// element of a list in order.
type item struct {
	kind string // "text", "one", "list", "any"
	term *Term
	name string
}

// Mon checks online that writes and visits follow a specified sequence. Its
// position lives in ghost variables, so it is joined and widened with the
// state it observes.
type Mon struct {
	e     *Eng
	items []item
	bad   func(format string, args ...any)
}

func (m *Mon) start(st *State) {
	st.ghost["m.pos"], st.ghost["m.cnt"], st.ghost["m.acc"] = tZero, tZero, cStr("")
	for i, it := range m.items {
		if it.term != nil {
			// keeps the facts about it alive
			st.ghost[fmt.Sprint("m.keep", i)] = it.term
		}
	}
}

func (m *Mon) key(st *State) string {
	s := ""
	for _, k := range []string{"m.pos", "m.ph", "m.in", "w.err", "k.end", "k.key"} {
		if v := st.ghost[k]; v != nil {
			if v.kind == KConst {
				s += k + "=" + v.String() + " "
			} else {
				s += k + " "
			}
		}
	}
	return s
}

func (m *Mon) at(st *State) (int, item, bool) {
	p, _ := st.ghost["m.pos"].isInt()
	if int(p) < len(m.items) {
		return int(p), m.items[p], true
	}
	return int(p), item{kind: "end", name: "end"}, false
}

func (m *Mon) advance(st *State) {
	p, _ := st.ghost["m.pos"].isInt()
	st.ghost["m.pos"], st.ghost["m.cnt"], st.ghost["m.acc"] = cInt(p+1), tZero, cStr("")
}

func (m *Mon) write(st *State, s *Term) {
	st.ghost["m.acc"] = mkConcat(st.ghost["m.acc"], s)
}

// childID strips the wrapping of a node value.
func childID(t *Term) *Term {
	for t.kind == KIface || t.isOp("unbox") {
		t = t.args[0]
	}
	return t
}

// elemIndex is the index of child in list, if it is loaded from it.
func elemIndex(list, child *Term) *Term {
	if child.isOp("init") && child.args[0].kind == KElem && child.args[0].args[0] == list {
		return child.args[0].args[1]
	}
	return nil
}

func (st *State) proveEq(a, b *Term) bool {
	return a == b || st.dist(a, b) <= 0 && st.dist(b, a) <= 0
}

// leave tries to move past the current item; it reports whether that is
// allowed in this state.
func (m *Mon) leave(st *State) bool {
	_, it, _ := m.at(st)
	switch it.kind {
	case "text":
		if st.ghost["m.acc"] != it.term {
			m.bad("writes %s where %s (%s) is expected", st.ghost["m.acc"], it.term, it.name)
			return false
		}
	case "one":
		if !m.silent(st, it.name) {
			return false
		}
		if n, k := st.isNil(it.term); !k || !n {
			m.bad("%s is not visited at its place although it may be present", it.name)
			return false
		}
	case "any":
		if !m.silent(st, it.name) {
			return false
		}
	case "list":
		if !m.silent(st, it.name) {
			return false
		}
		l := st.length(it.term)
		if !st.proveEq(l, st.ghost["m.cnt"]) {
			if m.e.debug {
				st.dump()
			}
			m.bad("not every element of %s is visited: %s visited, %s present", it.name, st.ghost["m.cnt"], l)
			return false
		}
	default:
		return false
	}
	m.advance(st)
	return true
}

func (m *Mon) silent(st *State, where string) bool {
	if s, ok := st.ghost["m.acc"].isStr(); !ok || s != "" {
		m.bad("writes %s before %s", st.ghost["m.acc"], where)
		return false
	}
	return true
}

// child records the visit of a child.
func (m *Mon) child(st *State, c *Term) bool {
	id := childID(c)
	for {
		_, it, more := m.at(st)
		if !more {
			m.bad("visits %s after all content was visited (again, or out of order)", id)
			return false
		}
		switch it.kind {
		case "any":
			return m.silent(st, it.name)
		case "one":
			if childID(it.term) == id {
				if !m.silent(st, it.name) {
					return false
				}
				m.advance(st)
				return true
			}
		case "list":
			if i := elemIndex(it.term, id); i != nil {
				if !m.silent(st, it.name) {
					return false
				}
				if !st.proveEq(i, st.ghost["m.cnt"]) {
					m.bad("visits element %s of %s after %s elements", i, it.name, st.ghost["m.cnt"])
					return false
				}
				st.ghost["m.cnt"] = mkLin(st.ghost["m.cnt"], 1)
				return true
			}
		}
		if !m.leave(st) {
			return false
		}
	}
}

// end checks that everything was emitted.
func (m *Mon) end(st *State) bool {
	// without children the pieces before and after them are adjacent
	if p, _, more := m.at(st); more {
		all := true
		var ts []*Term
		for _, it := range m.items[p:] {
			if it.kind == "text" {
				ts = append(ts, it.term)
			}
			all = all && (it.kind == "text" || it.kind == "any")
		}
		if all && st.ghost["m.acc"] == mkConcat(ts...) {
			return true
		}
	}
	for {
		if _, _, more := m.at(st); !more {
			return m.silent(st, "the end")
		}
		if !m.leave(st) {
			return false
		}
	}
}

// nodeFields lists the fields of a node type through which it holds nodes.
func (c *Ctx) nodeFields(t types.Type, nodeIface *types.Interface, skip map[string]bool) (out []*types.Var, idx []int) {
	s := derefStruct(t)
	if s == nil {
		return nil, nil
	}
	isNode := func(t types.Type) bool { return types.Implements(t, nodeIface) }
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if skip[typeShort(t)+"."+f.Name()] || skip["*."+f.Name()] {
			continue
		}
		ft := f.Type()
		switch u := ft.Underlying().(type) {
		case *types.Slice:
			if isNode(u.Elem()) {
				out, idx = append(out, f), append(idx, i)
			}
		case *types.Map:
			if isNode(u.Elem()) {
				out, idx = append(out, f), append(idx, i)
			}
		default:
			if isNode(ft) {
				out, idx = append(out, f), append(idx, i)
			}
		}
	}
	return
}

func describe(st *State) string { return fmt.Sprint(st.ghost) }
