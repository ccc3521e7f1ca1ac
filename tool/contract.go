package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contract is what is known about the calls of a recursive function in one
// situation: the join of the states it is called in, and the ways in which it
// ends, found by interpreting its body from that state with the contract
// itself standing for the recursive calls.
type Contract struct {
	idx   int
	key   string
	fn    *ssa.Function
	pre   *State
	outs  map[string]*State
	order []string
	busy  bool
	done  bool
	used  bool
	depth int       // in the stack, while busy
	stamp int       // of the current run of the body
	low   *Contract // the lowest unfinished contract the result depends on
	lowAt int       // its stamp
	joins int
	runs  int
	entry map[string]*Term // values at entry a check refers to
}

// Contracts holds the contracts of one analysis.
type Contracts struct {
	e     *Eng
	tab   map[string]*Contract
	order []string
	stack []*Contract

	stamps  int
	changes int
	pending []*Contract // whose results are not final
	// Enter adapts the ghosts of a caller's state to the callee, Begin prepares
	// the start of the body, Leave prepares an exit, and Back moves the ghosts
	// of an exit to the caller (nil if this exit is impossible); f translates
	// terms.
	Enter func(st *State)
	Begin func(ct *Contract, st *State)
	Leave func(ct *Contract, st *State)
	Back  func(ct *Contract, n, x *State, f func(*Term) *Term, ret *Term) []*State
	Call  func(ct *Contract, st *State, c *Call)
}

var ctDebug = os.Getenv("CTDEBUG") != ""

func newContracts(e *Eng) *Contracts {
	return &Contracts{e: e, tab: map[string]*Contract{}}
}

// joinJ is join that also tells how the symbols of the result are instantiated.
func (e *Eng) joinJ(name string, o, n *State, widen bool) (*State, bool, *joiner) {
	var jj *joiner
	joinSpy = func(j *joiner) { jj = j }
	r, ch := e.join(name, o, n, widen)
	joinSpy = nil
	return r, ch, jj
}

var joinSpy func(*joiner)

func (cs *Contracts) call(st *State, c *Call) []Outcome {
	e := cs.e
	s := st.clone()
	s.fr, s.trace, s.panick, s.recov, s.dead = nil, tUnit, nil, false, false
	for k := range s.ghost {
		if strings.HasPrefix(k, "$") {
			delete(s.ghost, k)
		}
	}
	if cs.Enter != nil {
		cs.Enter(s)
	}
	sig := ""
	for i, a := range c.args {
		s.ghost["$a"+strconv.Itoa(i)] = a
		if b, ok := a.isBool(); ok {
			sig += fmt.Sprint(b)
		} else if a.kind == KNil {
			sig += "n"
		}
		sig += ","
	}
	e.gc(s)
	key := c.fn.String() + "|" + sig + e.stateKey(s, false)
	ct := cs.tab[key]
	sub := map[*Term]*Term{}
	if ct == nil {
		ct = &Contract{idx: len(cs.order), key: key, fn: c.fn, pre: s, outs: map[string]*State{}}
		cs.tab[key] = ct
		cs.order = append(cs.order, key)
	} else {
		sub = cs.enter(ct, s)
	}
	if cs.Call != nil {
		cs.Call(ct, st, c)
	}
	if ctDebug && ct.pre.ghost["$a1"] != nil {
		fmt.Printf("%*scall C%d %s joins=%d busy=%v done=%v steps=%d stk=%s bad=%s keys=%v\n", len(cs.stack)*2, "", ct.idx, ct.fn.Name(), ct.joins, ct.busy, ct.done, e.steps, gstr(s, "stk"), gstr(s, "bad"), keysOf(s.ghost))
	}
	switch {
	case ct.busy:
		cs.depends(ct)
	case ct.done:
	case ct.low != nil && ct.low.busy && ct.low.stamp == ct.lowAt:
		cs.depends(ct.low)
	default:
		pre := ct.pre
		cs.compute(ct)
		if ct.pre != pre {
			// a recursive call was made in another situation
			sub = cs.enter(ct, s)
		}
	}
	var res []Outcome
	for _, k := range ct.order {
		res = append(res, cs.apply(ct, ct.outs[k], st, sub, c)...)
	}
	return res
}

// enter makes the start of the contract cover s and returns what its symbols
// stand for in s.
func (cs *Contracts) enter(ct *Contract, s *State) map[*Term]*Term {
	e := cs.e
	name := fmt.Sprintf("ct%d", ct.idx)
	before := map[*Term]bool{}
	s.allTerms(func(t *Term) { before[t] = true })
	s2 := e.renamePhis(s, name)
	back := map[*Term]*Term{}
	if s2 != s {
		s2.allTerms(func(t *Term) {
			if (t.kind == KSym || t.kind == KAlloc) && !before[t] {
				n := t.op
				if i := strings.IndexByte(n, ':'); i >= 0 && strings.HasPrefix(n, "old") {
					back[t] = mk(Term{kind: t.kind, op: n[i+1:], typ: t.typ})
				}
			}
		})
	}
	ct.joins++
	strong := e.strong
	e.strong = strong || ct.joins > 8
	e.argTypes = map[string]types.Type{}
	for i, p := range ct.fn.Params {
		if n, ok := types.Unalias(p.Type()).(*types.Named); ok {
			if b, ok := n.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				e.argTypes["$a"+strconv.Itoa(i)] = n
			}
		}
	}
	n, changed, j := e.joinJ(name, ct.pre, s2, ct.joins > 4)
	e.argTypes = nil
	e.strong = strong
	if changed {
		if ctDebug && ct.pre.ghost["$a1"] != nil {
			fmt.Printf("CHG pre of C%d joins=%d: %v\n", ct.idx, ct.joins, j.whys)
		}
		cs.changes++
		ct.pre = n
		ct.done, ct.low = false, nil
		ct.outs, ct.order = map[string]*State{}, nil
	}
	sub := map[*Term]*Term{}
	memo := map[*Term]*Term{}
	for k, v := range j.sn {
		sub[k] = subst(v, back, memo)
	}
	return sub
}

// depends notes that the contracts being computed above l use its result.
func (cs *Contracts) depends(l *Contract) {
	l.used = true
	for _, c := range cs.stack[l.depth+1:] {
		if c.low == nil || !c.low.busy || c.low.depth > l.depth {
			c.low, c.lowAt = l, l.stamp
		}
	}
}

// compute finds the results of a contract. If it turns out to depend on an
// unfinished one below it in the stack, its results are only those for the
// present results of that one, which goes on until nothing changes.
func (cs *Contracts) compute(ct *Contract) {
	e := cs.e
	ct.busy = true
	ct.depth = len(cs.stack)
	cs.stack = append(cs.stack, ct)
	first := len(cs.pending)
	strong := e.strong
	for iter := 0; ; iter++ {
		if iter > 60 {
			e.giveUp("the contract of %s does not stabilise", ct.fn)
		}
		cs.stamps++
		ct.stamp, ct.used, ct.low = cs.stamps, false, nil
		ct.runs++
		before := cs.changes
		cs.body(ct)
		if ctDebug && ct.pre.ghost["$a1"] != nil {
			fmt.Printf("%*siter %d of C%d %s: changed=%v used=%v outs=%d steps=%d\n", len(cs.stack)*2, "", iter, ct.idx, ct.fn.Name(), cs.changes != before, ct.used, len(ct.outs), e.steps)
		}
		if ct.low != nil {
			break
		}
		if cs.changes == before || !ct.used {
			ct.done = true
			break
		}
	}
	e.strong = strong
	ct.busy = false
	cs.stack = cs.stack[:len(cs.stack)-1]
	if ct.done {
		for _, p := range cs.pending[first:] {
			if p.low == ct && p.lowAt == ct.stamp {
				p.done = true
			}
		}
		cs.pending = cs.pending[:first]
		return
	}
	for _, p := range cs.pending[first:] {
		if p.low == ct && p.lowAt == ct.stamp {
			p.low, p.lowAt = ct.low, ct.lowAt
		}
	}
	cs.pending = append(cs.pending, ct)
}

// body interprets the function once.
func (cs *Contracts) body(ct *Contract) {
	e := cs.e
	pre := ct.pre
	st := pre.clone()
	var args []*Term
	for i := range ct.fn.Params {
		args = append(args, st.ghost["$a"+strconv.Itoa(i)])
	}
	if cs.Begin != nil {
		cs.Begin(ct, st)
	}
	for _, o := range e.run(st, ct.fn, args, nil, fmt.Sprintf("C%d", ct.idx)) {
		if ct.pre != pre {
			ct.used = true
			return
		}
		x := o.st.clone()
		if o.panic != nil {
			x.ghost["$panic"] = o.panic
		} else {
			x.ghost["$ret"] = o.ret
		}
		if cs.Leave != nil {
			cs.Leave(ct, x)
		}
		e.gc(x)
		k := e.stateKey(x, false)
		name := fmt.Sprintf("co%d", ct.idx)
		x = e.renamePhis(x, name)
		old := ct.outs[k]
		if old == nil {
			ct.outs[k] = x
			ct.order = append(ct.order, k)
			cs.changes++
			continue
		}
		strong := e.strong
		e.strong = strong || ct.runs >= 8
		n, ch, j := e.joinJ(name, old, x, ct.runs >= 4)
		e.strong = strong
		ct.outs[k] = n
		if ch {
			if ctDebug && ct.pre.ghost["$a1"] != nil {
				fmt.Printf("CHG out %d of C%d runs=%d: %v now %v\n", posOf(ct.order, k), ct.idx, ct.runs, j.whys, func() IntSet { lo, hi := n.bounds(ct.pre.ghost["$a1"]); return rangeSet(max(lo, minI), hi) }())
				for kk, d := range n.dbm {
					fmt.Printf("   DBM %s - %s <= %d (old %d new %d)\n", kk[0], kk[1], d, old.dbm[kk], x.dbm[kk])
				}
				for kk, d := range n.ints {
					fmt.Printf("   INT %s %v\n", kk, d)
				}
			}
			cs.changes++
		}
	}
}

// apply is the state of the caller after the exit x of the contract.
func (cs *Contracts) apply(ct *Contract, x, st *State, sub map[*Term]*Term, c *Call) []Outcome {
	e := cs.e
	n := st.clone()
	known := map[*Term]bool{}
	ct.pre.allTerms(func(t *Term) { known[t] = true })
	m := map[*Term]*Term{}
	for k, v := range sub {
		m[k] = v
	}
	var fresh []*Term
	seen := map[*Term]bool{}
	x.allTerms(func(t *Term) {
		if (t.kind == KSym || t.kind == KAlloc) && !seen[t] {
			seen[t] = true
			if m[t] == nil && !known[t] && !strings.HasPrefix(t.op, "type:") && !baseObjs[t] {
				fresh = append(fresh, t)
			}
		}
	})
	sortTerms(fresh)
	for _, t := range fresh {
		m[t] = mk(Term{kind: t.kind, op: e.freshName(n, "k", c.instr), typ: t.typ})
	}
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, m, memo)
	}
	for p := range ct.pre.heap {
		delete(n.heap, f(p))
	}
	for p, v := range x.heap {
		n.heap[f(p)] = f(v)
	}
	for a, t := range x.hav {
		n.hav[f(a)] = f(t)
	}
	for a := range x.esc {
		n.esc[f(a)] = true
	}
	if x.verAll != ct.pre.verAll || strKeys(x.ver) != strKeys(ct.pre.ver) {
		n.ver = map[string]*Term{}
		n.verAll = mkSym(e.freshName(n, "tag", c.instr), nil)
	}
	n.clo = nil
	for t, b := range x.nils {
		if !n.setNil(f(t), b) {
			return nil
		}
	}
	for t, d := range x.dyn {
		t = f(t)
		if t.kind == KIface || t == tNil {
			continue
		}
		if _, ok := n.dyn[t]; !ok {
			n.dyn[t] = d
		}
	}
	for t, s := range x.strs {
		if t = f(t); t.kind != KConst {
			n.strs[t] = s
		}
	}
	for t, b := range x.bools {
		if !n.assume(f(t), b) {
			return nil
		}
	}
	for t, s := range x.ints {
		if !n.restrict(f(t), s) {
			return nil
		}
	}
	for k, d := range x.dbm {
		if !n.addLE(f(k[0]), f(k[1]), d) {
			return nil
		}
	}
	if p := x.ghost["$panic"]; p != nil {
		p = f(p)
		var res []Outcome
		for _, s := range cs.Back(ct, n, x, f, nil) {
			res = append(res, Outcome{st: s, panic: p})
		}
		return res
	}
	ret := f(x.ghost["$ret"])
	var res []Outcome
	for _, s := range cs.Back(ct, n, x, f, ret) {
		res = append(res, Outcome{st: s, ret: ret})
	}
	return res
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for k := i; k > 0 && ts[k].id < ts[k-1].id; k-- {
			ts[k], ts[k-1] = ts[k-1], ts[k]
		}
	}
}

// hotFuncs lists the methods without arguments that are called from at least
// n places or contain a loop.
func hotFuncs(n int, roots ...*ssa.Function) map[*ssa.Function]bool {
	sites := map[*ssa.Function]int{}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if seen[fn] || fn.Blocks == nil || fn.Pkg != nil && !inModule(fn.Pkg.Pkg.Path()) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						sites[g]++
						visit(g)
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	out := map[*ssa.Function]bool{}
	for fn, k := range sites {
		if seen[fn] && len(fn.Params) == 1 && fn.Signature.Recv() != nil && len(fn.FreeVars) == 0 && len(infoOf(fn).loops) > 0 && k >= n {
			out[fn] = true
		}
	}
	return out
}

// reaching lists the methods with receiver type recv that may call a function
// accepted by pred through static calls.
func reaching(pred func(*ssa.Function) bool, roots ...*ssa.Function) map[*ssa.Function]bool {
	memo := map[*ssa.Function]int{} // 1 visiting, 2 no, 3 yes
	all := map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		clear(all)
		var visit func(fn *ssa.Function) bool
		visit = func(fn *ssa.Function) bool {
			if pred(fn) {
				return true
			}
			if memo[fn] == 3 {
				if all[fn] {
					return true
				}
			} else if all[fn] {
				return false
			}
			if fn.Blocks == nil || fn.Pkg != nil && !inModule(fn.Pkg.Pkg.Path()) {
				return false
			}
			all[fn] = true
			r := false
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && visit(g) {
							r = true
						}
					}
				}
			}
			if r && memo[fn] != 3 {
				memo[fn] = 3
				changed = true
			}
			return memo[fn] == 3
		}
		for _, r := range roots {
			visit(r)
		}
	}
	out := map[*ssa.Function]bool{}
	for fn, v := range memo {
		if v == 3 && fn.Signature.Recv() != nil && len(fn.FreeVars) == 0 {
			out[fn] = true
		}
	}
	return out
}

// recursiveFuncs lists the module functions that may call themselves, directly
// or through others, among those reachable from roots by static calls.
func recursiveFuncs(roots ...*ssa.Function) map[*ssa.Function]bool {
	succ := map[*ssa.Function][]*ssa.Function{}
	var visit func(fn *ssa.Function)
	visit = func(fn *ssa.Function) {
		if _, ok := succ[fn]; ok || fn.Blocks == nil || fn.Pkg != nil && !inModule(fn.Pkg.Pkg.Path()) {
			return
		}
		succ[fn] = []*ssa.Function{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				var g *ssa.Function
				if ok {
					g = ci.Common().StaticCallee()
				} else if mc, ok := in.(*ssa.MakeClosure); ok {
					g = mc.Fn.(*ssa.Function)
				}
				if g != nil {
					succ[fn] = append(succ[fn], g)
					visit(g)
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	reach := func(from *ssa.Function) bool {
		seen := map[*ssa.Function]bool{}
		work := append([]*ssa.Function(nil), succ[from]...)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == from {
				return true
			}
			if !seen[g] {
				seen[g] = true
				work = append(work, succ[g]...)
			}
		}
		return false
	}
	out := map[*ssa.Function]bool{}
	for fn := range succ {
		if reach(fn) {
			out[fn] = true
		}
	}
	return out
}

func posOf(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}
