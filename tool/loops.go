package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// boundedLoop reports whether the loop visibly runs a bounded number of
// times: it iterates over a string, map, array or slice, or counts towards a
// bound that does not change.
func boundedLoop(l *Loop) bool {
	invariant := func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar, *ssa.Global, *ssa.Function:
			return true
		case ssa.Instruction:
			return !l.blocks[x.Block()]
		}
		return false
	}
	// length of something that does not change during the loop
	lenOf := func(v ssa.Value) bool {
		if invariant(v) {
			return true
		}
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		return ok && b.Name() == "len" && len(c.Call.Args) == 1 && invariant(c.Call.Args[0])
	}
	dominatesBacks := func(b *ssa.BasicBlock) bool {
		for _, p := range l.header.Preds {
			if l.blocks[p] && !b.Dominates(p) {
				return false
			}
		}
		return true
	}
	for b := range l.blocks {
		ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !dominatesBacks(b) {
			continue
		}
		stay0, stay1 := l.blocks[b.Succs[0]], l.blocks[b.Succs[1]]
		if stay0 == stay1 {
			continue // not an exit
		}
		switch c := ifi.Cond.(type) {
		case *ssa.Extract:
			if n, ok := c.Tuple.(*ssa.Next); ok && c.Index == 0 && stay0 && invariant(n.Iter) {
				return true
			}
		case *ssa.BinOp:
			op, x, y := c.Op, c.X, c.Y
			if !stay0 {
				op = map[token.Token]token.Token{token.LSS: token.GEQ, token.LEQ: token.GTR, token.GTR: token.LEQ, token.GEQ: token.LSS}[op]
			}
			switch op {
			case token.GTR:
				op, x, y = token.LSS, y, x
			case token.GEQ:
				op, x, y = token.LEQ, y, x
			}
			if op != token.LSS && op != token.LEQ {
				continue
			}
			if counts(l, x, +1) && lenOf(y) || counts(l, y, -1) && lenOf(x) {
				return true
			}
		}
	}
	return false
}

// counts reports whether v is a loop counter that moves by at least one in
// the given direction on every iteration.
func counts(l *Loop, v ssa.Value, dir int64) bool {
	step := func(v, phi ssa.Value) bool {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.X != phi {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		n := k.Int64()
		if b.Op == token.SUB {
			n = -n
		} else if b.Op != token.ADD {
			return false
		}
		return n*dir > 0
	}
	phi, ok := v.(*ssa.Phi)
	if !ok {
		b, isBin := v.(*ssa.BinOp)
		if !isBin {
			return false
		}
		phi, ok = b.X.(*ssa.Phi)
		if !ok || !step(v, phi) {
			return false
		}
	}
	if phi.Block() != l.header {
		return false
	}
	for i, p := range l.header.Preds {
		if l.blocks[p] && !step(phi.Edges[i], phi) {
			return false
		}
	}
	return true
}

// loopPos is a source position for the loop.
func loopPos(l *Loop) token.Pos {
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	best := token.NoPos
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if p := in.Pos(); p.IsValid() && (!best.IsValid() || p < best) {
				best = p
			}
		}
	}
	if !best.IsValid() {
		return l.header.Parent().Pos()
	}
	return best
}

// loopNum numbers the loops of a function in order.
func (fi *funcInfo) loopNum(l *Loop) int {
	n := 0
	for _, m := range fi.loops {
		if fi.rpo[m.header] < fi.rpo[l.header] {
			n++
		}
	}
	return n + 1
}
