package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// reachableFuncs lists the module functions reachable from the roots by static
// calls and closures, in a fixed order.
func reachableFuncs(roots ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil || fn.Pkg != nil && !inModule(fn.Pkg.Pkg.Path()) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					visit(ci.Common().StaticCallee())
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	var out []*ssa.Function
	for fn := range seen {
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// slot names the variable an address denotes: a local cell, or a field of a
// struct type.
func slot(addr ssa.Value) any {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return a
	case *ssa.FreeVar:
		return a
	case *ssa.Global:
		return a
	case *ssa.FieldAddr:
		return fmt.Sprint(a.X.Type(), ".", a.Field)
	}
	return nil
}

// nests tells whether a call of fn may return a freshly allocated value that
// holds its i-th argument.
func nests(fn *ssa.Function, i int, memo map[string]bool) bool {
	key := fmt.Sprint(fn.String(), i)
	if v, ok := memo[key]; ok {
		return v
	}
	memo[key] = false
	if fn.Blocks == nil || i >= len(fn.Params) {
		return false
	}
	r := false
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	_, outer := spread(fn, all, map[ssa.Value]bool{fn.Params[i]: true}, nil, memo)
	for _, b := range fn.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range ret.Results {
				if outer[v] {
					r = true
				}
			}
		}
	}
	memo[key] = r
	return r
}

// spread follows a value through the blocks: same holds the values that may be
// it, outer those that may be a newly allocated value that contains it. Loads
// of the slot yield it too.
func spread(fn *ssa.Function, in map[*ssa.BasicBlock]bool, same map[ssa.Value]bool, sl any, memo map[string]bool) (map[ssa.Value]bool, map[ssa.Value]bool) {
	outer := map[ssa.Value]bool{}
	cells := map[any]bool{} // local cells that hold an outer value
	for changed := true; changed; {
		changed = false
		put := func(m map[ssa.Value]bool, v ssa.Value) {
			if v != nil && !m[v] {
				m[v] = true
				changed = true
			}
		}
		for _, b := range fn.Blocks {
			if !in[b] {
				continue
			}
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if outer[e] {
							put(outer, x)
						}
						if same[e] {
							put(same, x)
						}
					}
				case *ssa.MakeInterface:
					pass(x, x.X, same, outer, put)
				case *ssa.ChangeInterface:
					pass(x, x.X, same, outer, put)
				case *ssa.ChangeType:
					pass(x, x.X, same, outer, put)
				case *ssa.TypeAssert:
					pass(x, x.X, same, outer, put)
				case *ssa.Extract:
					pass(x, x.Tuple, same, outer, put)
				case *ssa.Slice:
					pass(x, x.X, same, outer, put)
				case *ssa.UnOp:
					if s := slot(x.X); s != nil {
						if sl != nil && s == sl {
							put(same, x)
						}
						if cells[s] {
							put(outer, x)
						}
					}
				case *ssa.Store:
					if !same[x.Val] && !outer[x.Val] {
						continue
					}
					// into part of a new value
					base := x.Addr
					part := false
					for {
						if f, ok := base.(*ssa.FieldAddr); ok {
							base, part = f.X, true
							continue
						}
						if f, ok := base.(*ssa.IndexAddr); ok {
							base, part = f.X, true
							continue
						}
						break
					}
					if part {
						if a, ok := base.(*ssa.Alloc); ok {
							put(outer, a)
						} else if _, ok := base.(*ssa.MakeSlice); ok {
							put(outer, base)
						}
						continue
					}
					if s := slot(x.Addr); s != nil && outer[x.Val] && !cells[s] {
						cells[s] = true
						changed = true
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" {
							for _, a := range x.Call.Args {
								if outer[a] {
									put(outer, x)
								}
							}
						}
						continue
					}
					g := x.Call.StaticCallee()
					if g == nil || g.Pkg == nil || !inModule(g.Pkg.Pkg.Path()) {
						continue
					}
					for i, a := range x.Call.Args {
						if outer[a] || same[a] && nests(g, i, memo) {
							put(outer, x)
						}
					}
				}
			}
		}
	}
	return same, outer
}

func pass(x, from ssa.Value, same, outer map[ssa.Value]bool, put func(map[ssa.Value]bool, ssa.Value)) {
	if same[from] {
		put(same, x)
	}
	if outer[from] {
		put(outer, x)
	}
}

// treeDepth requires that no loop of the functions puts the node it built in
// the previous iteration inside the next one, which would nest nodes as deep as
// the loop is long.
func (c *Ctx) treeDepth(fns []*ssa.Function) {
	nodeI := c.iface("ast", "Node")
	isNode := func(t types.Type) bool {
		return types.Implements(t, nodeI)
	}
	memo := map[string]bool{}
	for _, fn := range fns {
		fi := infoOf(fn)
		for _, l := range fi.loops {
			bad := ""
			for _, in := range l.header.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok || !isNode(phi.Type()) {
					continue
				}
				_, outer := spread(fn, l.blocks, map[ssa.Value]bool{phi: true}, nil, memo)
				for i, p := range l.header.Preds {
					if l.blocks[p] && outer[phi.Edges[i]] {
						bad = c.pos(phi.Pos())
					}
				}
			}
			slots := map[any]bool{}
			for b := range l.blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok && isNode(s.Val.Type()) && slot(s.Addr) != nil {
						slots[slot(s.Addr)] = true
					}
				}
			}
			for s := range slots {
				_, outer := spread(fn, l.blocks, map[ssa.Value]bool{}, s, memo)
				for b := range l.blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && slot(st.Addr) == s && outer[st.Val] {
							bad = c.pos(st.Pos())
						}
					}
				}
			}
			at := c.pos(fn.Pos())
			if bad != "" {
				at = bad
			}
			c.req(bad == "", "tree depth", fn.Name(), at, "a loop of %s puts the node of the previous iteration inside the next one, so that the tree gets as deep as the input is long", fn.Name())
		}
	}
}

// scannerDepth requires that the scanner does not call itself.
func (c *Ctx) scannerDepth() {
	for _, m := range []string{"Scanner.Init", "Scanner.Scan"} {
		root := c.must("scanner", m)
		rec := recursiveFuncs(root)
		var names []string
		var at string
		for fn := range rec {
			names = append(names, fn.Name())
		}
		sort.Strings(names)
		for fn := range rec {
			if fn.Name() == names[0] {
				at = c.pos(fn.Pos())
			}
		}
		if len(names) == 0 {
			c.hold("scanner recursion", root.Name())
			continue
		}
		c.fail("scanner recursion", names[0], at, "%s may call itself: the depth of the recursion follows the nesting or the length of the input", names[0])
	}
}
