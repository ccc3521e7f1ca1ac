package main

import (
	"fmt"
	"go/types"
)

// notContent are node-holding fields that are not part of the walked syntax:
// comments (recorded on the side), keys and the unresolved list (names, not
// content).
var notContent = map[string]bool{
	"*.Doc": true, "*.Comments": true, "*.Comment": true, "*.Unresolved": true,
	"*ast.BibDecl.Key": true, "*ast.BibDecl.ExtraKeys": true, "*ast.TexCommentGroup.List": true,
}

func init() { checks["C05"] = checkWalk }

func checkWalk(c *Ctx) {
	walk := c.must("ast", "Walk")
	nodeI := c.iface("ast", "Node")
	leafT := types.Type(types.NewPointer(c.w.typ("ast", "TextComma")))
	impl := c.implementers("ast", nodeI)
	c.floor("walk", 26)
	for _, t := range impl {
		c.walkType(walk, t, nodeI, leafT)
	}
}

func (c *Ctx) walkType(walk any, t types.Type, nodeI *types.Interface, leafT types.Type) {
	e, st := c.eng()
	st = st.clone()
	root := node(st, t, "n")
	w := mkSym("walker", c.must("ast", "Walk").Params[1].Type())
	st.setNil(w, false)
	name := typeShort(t)
	bad := false
	m := &Mon{e: e, bad: func(f string, a ...any) {
		bad = true
		c.fail("walk", name, c.pos(c.must("ast", "Walk").Pos()), "walking a %s: %s", name, fmt.Sprintf(f, a...))
	}}
	// what has to be visited
	var filesMap *Term
	if sl, ok := t.Underlying().(*types.Slice); ok && types.Implements(sl.Elem(), nodeI) {
		m.items = append(m.items, item{"list", root.args[0], "elements"})
	}
	fs, idx := c.nodeFields(t, nodeI, notContent)
	for i, f := range fs {
		v := st.load(mkField(root.args[0], idx[i]))
		it := item{kind: "one", term: v, name: f.Name()}
		switch f.Type().Underlying().(type) {
		case *types.Slice:
			it.kind = "list"
		case *types.Map:
			it.kind = "map"
			filesMap = v
		}
		if it.kind != "map" {
			m.items = append(m.items, it)
		}
	}
	setPh := func(st *State, p int64) { st.ghost["m.ph"] = cInt(p) }
	ph := func(st *State) int64 { v, _ := st.ghost["m.ph"].isInt(); return v }
	m.start(st)
	setPh(st, 0)
	leafOf := func(x *Term) *Term {
		for x.kind == KIface {
			x = x.args[0]
		}
		if x.isOp("leafof") {
			return x.args[0]
		}
		return nil
	}
	e.hooks.Key = m.key
	if filesMap != nil {
		st.ghost["k.n"], st.ghost["k.app"] = tZero, tZero
		m.mapHooks(filesMap)
	}
	var walkerCall func(e *Eng, st *State, cl *Call) ([]Outcome, bool)
	walkerCall = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		st = st.clone()
		ent, ok := cl.args[1].isBool()
		if !ok {
			m.bad("the walker is called with an unknown isEntering")
			return nil, true
		}
		child := leafOf(cl.args[0])
		own := child == nil && childID(cl.args[0]) == root.args[0]
		after := int64(1)
		switch p := ph(st); {
		case p == 3:
			m.bad("the walker is called again after it stopped the traversal or failed")
			return nil, true
		case own && ent:
			if p != 0 {
				m.bad("entered twice")
				return nil, true
			}
		case own:
			if p == 1 {
				if filesMap != nil && !m.mapEnd(st) || filesMap == nil && !m.end(st) {
					return nil, true
				}
			} else if p != 4 {
				m.bad("left without being entered, or twice")
				return nil, true
			}
			after = 2
		case child == nil:
			m.bad("the walker is called on %s without walking into it", cl.args[0])
			return nil, true
		case ent:
			if p != 1 {
				m.bad("child %s visited although the walker asked to skip, or outside enter and leave", child)
				return nil, true
			}
			if st.ghost["m.in"] != nil {
				m.bad("child entered inside another child")
				return nil, true
			}
			if filesMap != nil {
				if !m.mapChild(st, filesMap, child) {
					return nil, true
				}
			} else if !m.child(st, child) {
				return nil, true
			}
			st.ghost["m.in"] = childID(child)
		default:
			if st.ghost["m.in"] != childID(child) {
				m.bad("child left that was not entered")
				return nil, true
			}
			delete(st.ghost, "m.in")
		}
		res := cl.sig.Results()
		k := func(n string) *Term { v, _ := c.w.constInt("ast", n); return cInt(v) }
		mk := func(ph int64, ret ...*Term) Outcome {
			s := st.clone()
			setPh(s, ph)
			return Outcome{st: s, ret: mkTuple(ret...)}
		}
		var outs []Outcome
		outs = append(outs, mk(after, k("WalkContinue"), tNil))
		sk := after
		if own && ent {
			sk = 4
		}
		outs = append(outs, mk(sk, k("WalkSkipChildren"), tNil))
		stop := mk(3, k("WalkStop"), tNil)
		outs = append(outs, stop)
		for _, s := range []string{"WalkStop", "WalkContinue", "WalkSkipChildren"} {
			er := mkSym("walkerErr", res.At(1).Type())
			o := mk(3, k(s), er)
			o.st.setNil(er, false)
			o.st.ghost["w.err"] = er
			outs = append(outs, o)
		}
		return outs, true
	}
	e.hooks.Call = func(e *Eng, st *State, cl *Call) ([]Outcome, bool) {
		if cl.fn == nil && cl.fnVal == w {
			return walkerCall(e, st, cl)
		}
		if cl.fn != nil && cl.rec && inModule(pkgOf(cl.fn)) {
			for i, a := range cl.args {
				if i >= len(cl.fn.Params) || !nodeLike(cl.fn.Params[i].Type(), nodeI) {
					continue
				}
				if leafOf(a) != nil {
					// a part of the walk of a child that is a function of its own
					depth := 0
					for f := st.fr; f != nil; f = f.parent {
						if f.fn == cl.fn {
							depth++
						}
					}
					if depth > 2 {
						m.bad("the walk of a node without children does not end")
						return nil, true
					}
					var b []*Term
					if cl.fnVal != nil && cl.fnVal.kind == KFn {
						b = cl.fnVal.args
					}
					return e.run(st, cl.fn, cl.args, b, cl.site), true
				}
				if !types.AssignableTo(leafT, cl.fn.Params[i].Type()) {
					e.giveUp("recursion on %s", cl.fn.Params[i].Type())
				}
				// the induction hypothesis: walking a child visits the child;
				// a leaf stands for it
				args := append([]*Term{}, cl.args...)
				lf := mkOp("leafof", leafT, a)
				st = st.clone()
				st.setNil(lf, false)
				args[i] = mkIface(leafT, lf)
				var b []*Term
				if cl.fnVal != nil && cl.fnVal.kind == KFn {
					b = cl.fnVal.args
				}
				return e.run(st, cl.fn, args, b, cl.site), true
			}
		}
		return nil, false
	}
	n := 0
	for _, o := range e.run(st, c.must("ast", "Walk"), []*Term{root, w}, nil, "Walk") {
		n++
		if o.panic != nil {
			m.bad("panics with %s", o.panic)
			continue
		}
		er := o.ret.args[0]
		switch ph(o.st) {
		case 2:
			if er != tNil {
				m.bad("a completed walk returns %s", er)
			}
		case 3:
			if we := o.st.ghost["w.err"]; we != nil {
				if er != we {
					m.bad("the walker's error is not returned unchanged but %s", er)
				}
			} else if er != tNil {
				m.bad("a stopped walk returns the error %s", er)
			}
		default:
			m.bad("the walk returns without the leaving call")
		}
	}
	c.absorb(e, "none")
	if !bad && n > 0 {
		c.hold("walk", fmt.Sprintf("%s: %d content fields, %d outcomes", name, len(m.items), n))
	}
}

// Children held in a map are visited by a list of its keys: every key is
// appended to it exactly once while the map is ranged over, the list is sorted
// (a fixed order), and then the map is looked up with its elements in order.
func (m *Mon) mapHooks(mp *Term) {
	cnt := func(st *State, k string) *Term {
		if v := st.ghost[k]; v != nil {
			return v
		}
		return tZero
	}
	m.e.hooks.MapNext = func(e *Eng, st *State, x, k, v *Term) {
		if x == mp {
			st.ghost["k.n"] = mkLin(cnt(st, "k.n"), 1)
			st.ghost["k.key"] = k
		}
	}
	m.e.hooks.MapEnd = func(st *State, x *Term) {
		if x == mp {
			st.ghost["k.end"] = tTrue
			delete(st.ghost, "k.key")
		}
	}
	m.e.hooks.HasKey = func(st *State, x, k *Term) bool {
		l := st.ghost["k.list"]
		return x == mp && l != nil && elemIndex(l, k) != nil
	}
	m.e.hooks.Append = func(e *Eng, st *State, s *Term, xs []*Term) {
		if k := st.ghost["k.key"]; k != nil && len(xs) == 1 && xs[0] == k {
			st.ghost["k.app"] = mkLin(cnt(st, "k.app"), 1)
			delete(st.ghost, "k.key")
		}
	}
	m.e.hooks.Sorted = func(e *Eng, st *State, s *Term) {
		l := st.length(s)
		if st.ghost["k.end"] != nil && st.proveEq(l, cnt(st, "k.app")) && st.proveEq(l, cnt(st, "k.n")) {
			st.ghost["k.list"] = s // becomes the sorted list with it
		}
	}
}

func (m *Mon) mapChild(st *State, mp, child *Term) bool {
	id := childID(child)
	if !id.isOp("mapget") || id.args[0] != mp {
		m.bad("visits %s, which is not a value of the map", id)
		return false
	}
	l := st.ghost["k.list"]
	key := id.args[1]
	if l == nil && st.ghost["k.key"] == nil {
		// a single key needs no sorting
		if n, ok := cntOf(st, "k.n").isInt(); ok && n == 1 {
			l = key
		}
	}
	if l == nil {
		m.bad("visits %s without a sorted list of every key of the map", id)
		return false
	}
	i := tZero
	if l != key {
		i = elemIndex(l, key)
	}
	if i == nil || !st.proveEq(i, cntOf(st, "m.cnt")) {
		m.bad("visits %s, which is not the next key of the sorted list", id)
		return false
	}
	st.ghost["m.cnt"] = mkLin(st.ghost["m.cnt"], 1)
	return true
}

func cntOf(st *State, k string) *Term {
	if v := st.ghost[k]; v != nil {
		return v
	}
	return tZero
}

// mapEnd requires that every value of the map was visited.
func (m *Mon) mapEnd(st *State) bool {
	n := cntOf(st, "k.n")
	if st.ghost["k.end"] == nil || !st.proveEq(n, cntOf(st, "m.cnt")) {
		m.bad("not every value of the map is visited: %s of %s (iteration finished: %v)", cntOf(st, "m.cnt"), n, st.ghost["k.end"])
		return false
	}
	return true
}

func nodeLike(t types.Type, nodeI *types.Interface) bool { return types.Implements(t, nodeI) }
