package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
}

type funcInfo struct {
	rpo     map[*ssa.BasicBlock]int
	order   []*ssa.BasicBlock
	loops   map[*ssa.BasicBlock]*Loop // by header
	inner   map[*ssa.BasicBlock]*Loop // innermost loop of a block
	live    map[*ssa.BasicBlock]map[ssa.Value]bool
	regNum  map[ssa.Value]int
	instNum map[ssa.Instruction]int
	bad     string
}

var fiCache = map[*ssa.Function]*funcInfo{}

func infoOf(fn *ssa.Function) *funcInfo {
	if fi, ok := fiCache[fn]; ok {
		return fi
	}
	fi := &funcInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*Loop{},
		inner: map[*ssa.BasicBlock]*Loop{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		regNum: map[ssa.Value]int{}, instNum: map[ssa.Instruction]int{}}
	fiCache[fn] = fi
	// reverse postorder
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	// natural loops
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if fi.rpo[s] <= fi.rpo[b] {
				if !s.Dominates(b) {
					fi.bad = "irreducible control flow"
					continue
				}
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	var ls []*Loop
	for _, l := range fi.loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) > len(ls[j].blocks)
		}
		return fi.rpo[ls[i].header] < fi.rpo[ls[j].header]
	})
	for _, l := range ls { // from the largest to the smallest
		l.parent = fi.inner[l.header]
		for b := range l.blocks {
			fi.inner[b] = l
		}
	}
	// register and instruction numbers
	n := 0
	for _, p := range fn.Params {
		fi.regNum[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		fi.regNum[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.instNum[in] = n
			if v, ok := in.(ssa.Value); ok {
				fi.regNum[v] = n
			}
			n++
		}
	}
	// liveness; phis count as live on entry of their block
	for _, b := range fn.Blocks {
		fi.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fi.order) - 1; i >= 0; i-- {
			b := fi.order[i]
			lv := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range fi.live[s] {
					if ph, ok := v.(*ssa.Phi); ok && ph.Block() == s {
						continue
					}
					lv[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range s.Preds {
						if p == b {
							pi = k
							if _, ok := fi.regNum[ph.Edges[pi]]; ok {
								lv[ph.Edges[pi]] = true
							}
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(lv, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if _, ok := fi.regNum[*op]; ok {
						lv[*op] = true
					}
				}
			}
			for _, in := range b.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					lv[ph] = true
				}
			}
			if len(lv) != len(fi.live[b]) {
				fi.live[b] = lv
				ch = true
			}
		}
	}
	return fi
}

// pruneRegs drops the registers that are dead on entry of b.
func (st *State) pruneRegs(fi *funcInfo, b *ssa.BasicBlock) {
	lv := fi.live[b]
	var rec map[ssa.Value]bool
	if r := b.Parent().Recover; r != nil {
		rec = fi.live[r]
	}
	for v := range st.fr.regs {
		if !lv[v] && !rec[v] {
			delete(st.fr.regs, v)
		}
	}
}
