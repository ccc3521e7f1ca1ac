package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Outcome is one way in which a call ends.
type Outcome struct {
	st    *State
	ret   *Term // KTuple of results; nil when panicking
	panic *Term
}

// Call describes a call being interpreted.
type Call struct {
	fn       *ssa.Function // static callee or nil
	name     string        // full name of the callee, "" if unknown
	fnVal    *Term         // function value when fn == nil
	args     []*Term
	iface    *Term       // receiver of an interface method call (also args[0])
	meth     *types.Func // interface method
	sig      *types.Signature
	instr    ssa.Instruction
	site     string // unique name of the call site in its context
	rec      bool   // the callee is already active
	deferred bool
}

// Hooks let a check steer the interpretation.
type Hooks struct {
	Call    func(e *Eng, st *State, c *Call) ([]Outcome, bool)
	Key     func(st *State) string
	Norm    func(st *State) // before a state may be joined with others
	Store   func(e *Eng, st *State, ptr, val *Term, in ssa.Instruction)
	Loaded  func(e *Eng, st *State, p, v *Term, in ssa.Instruction)
	AtHead  func(st *State)                                                      // before states are joined at a loop head
	Fork    func(e *Eng, st *State, ptr, val *Term, in ssa.Instruction) []*State // splits the state before a store
	Head    func(e *Eng, st *State, l *Loop, name string, back bool)             // a state that enters an iteration
	Instr   func(e *Eng, st *State, in ssa.Instruction)                          // before each instruction
	Return  func(e *Eng, st *State, fn *ssa.Function, ret *Term)
	MapNext func(e *Eng, st *State, m, k, v *Term)
	MapEnd  func(st *State, m *Term)                     // a map iteration is complete
	Append  func(e *Eng, st *State, s *Term, xs []*Term) // elements appended to a slice
	Sorted  func(e *Eng, st *State, s *Term)
	// every append, with the elements if they are known
	Appended func(e *Eng, st *State, s *Term, xs []*Term, src, res *Term)
	HasKey   func(st *State, m, k *Term) bool // k is known to be a key of m
	NonNil   func(st *State, t *Term) bool    // invariants supplied by the check
}

// Obligation is a proof obligation met by the interpreter.
type Obligation struct {
	kind   string
	fn     *ssa.Function
	pos    token.Pos
	detail string
	ok     bool
	seen   int
}

// Eng interprets functions over abstract states.
type Eng struct {
	w           *World
	hooks       Hooks
	obl         map[string]*Obligation
	steps       int
	maxSteps    int
	failed      string // why the analysis is undecided
	funcs       map[*ssa.Function]bool
	inline      func(fn *ssa.Function) bool
	maxStates   int
	loopIters   int
	joins       int
	entryActive map[*ssa.Function]bool
	debug       bool
	strong      bool                  // widening forgets derived bounds
	argTypes    map[string]types.Type // the types of enumeration arguments, at the start of a contract
	coarseRet   bool                  // results of different dynamic types are not kept apart
	panics      []Outcome             // ways the outermost function panics
	appTyp      types.Type            // the type of the slice being appended to
}

func newEng(w *World) *Eng {
	return &Eng{w: w, obl: map[string]*Obligation{}, maxSteps: 4000000, funcs: map[*ssa.Function]bool{}, maxStates: envInt("MAXST", 16),
		debug: os.Getenv("AIDEBUG") != ""}
}

type undecided struct{ msg string }

func (e *Eng) giveUp(format string, args ...any) { panic(undecided{fmt.Sprintf(format, args...)}) }

func (e *Eng) oblige(st *State, kind string, in ssa.Instruction, ok bool, detail func() string) {
	fn := in.Parent()
	key := fmt.Sprintf("%s|%s|%d", kind, fn.String(), infoOf(fn).instNum[in])
	o := e.obl[key]
	if o == nil {
		o = &Obligation{kind: kind, fn: fn, pos: in.Pos(), ok: true}
		if !o.pos.IsValid() {
			o.pos = fn.Pos()
		}
		e.obl[key] = o
	}
	o.seen++
	if !ok && o.ok {
		o.ok = false
		o.detail = detail()
		if e.debug {
			fmt.Fprintln(os.Stderr, "FAILED", kind, e.w.pos(o.pos), o.detail)
			st.dump()
		}
	}
}

// fresh names a value created at an instruction; every execution on a path
// gets its own name.
func (e *Eng) fresh(st *State, what string, in ssa.Instruction, typ types.Type) *Term {
	return mkSym(e.freshName(st, what, in), typ)
}

func (e *Eng) freshName(st *State, what string, in ssa.Instruction) string {
	n := what
	if in != nil && st.fr != nil {
		n = fmt.Sprintf("%s@%s:%s%d", what, st.fr.ctx, in.Parent().Name(), infoOf(in.Parent()).instNum[in])
	}
	k := st.occ[n]
	st.occ[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

// ---------------------------------------------------------------------------
// function activation

// run interprets fn from st and returns its outcomes.
func (e *Eng) run(st *State, fn *ssa.Function, args, bindings []*Term, ctx string) []Outcome {
	if len(fn.Blocks) == 0 {
		e.giveUp("no body for %s", fn)
	}
	e.funcs[fn] = true
	fi := infoOf(fn)
	if fi.bad != "" {
		e.giveUp("%s: %s", fn, fi.bad)
	}
	fr := &Frame{fn: fn, parent: st.fr, ctx: ctx, regs: map[ssa.Value]*Term{}, args: args}
	if len(args) != len(fn.Params) {
		e.giveUp("call of %s with %d arguments", fn, len(args))
	}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[p] = bindings[i]
	}
	st = st.clone()
	st.fr = fr
	_, _, outs := e.region(fi, nil, fn.Blocks[0], []*State{st})
	// deferred calls of panicking paths
	var res []Outcome
	for len(outs) > 0 {
		o := outs[0]
		outs = outs[1:]
		if o.panic != nil && len(o.st.fr.defers) > 0 {
			outs = append(outs, e.unwind(fi, o)...)
			continue
		}
		res = append(res, o)
	}
	for i := range res {
		if e.hooks.Return != nil && res[i].panic == nil {
			e.hooks.Return(e, res[i].st, fn, res[i].ret)
		}
		res[i].st.fr = res[i].st.fr.parent
		if res[i].panic != nil && res[i].st.fr == nil {
			e.panics = append(e.panics, res[i])
		}
	}
	return e.mergeOutcomes(res, ctx+"/"+fn.Name())
}

// unwind runs the deferred calls of a panicking path.
func (e *Eng) unwind(fi *funcInfo, o Outcome) []Outcome {
	st := o.st.clone()
	ds := st.fr.defers
	d := ds[len(ds)-1]
	st.fr.defers = ds[:len(ds)-1]
	st.panick = o.panic
	st.recov = false
	var res []Outcome
	for _, r := range e.callValue(st, d.fn, d.args, d.inst, true) {
		r.st = r.st.clone()
		if r.panic != nil { // a new panic replaces the old one
			r.st.panick, r.st.recov = nil, false
			res = append(res, Outcome{st: r.st, panic: r.panic})
			continue
		}
		if r.st.recov {
			r.st.panick, r.st.recov = nil, false
			res = append(res, e.finishRecovered(fi, r.st)...)
			continue
		}
		r.st.panick = nil
		res = append(res, Outcome{st: r.st, panic: o.panic})
	}
	return res
}

// finishRecovered runs the remaining deferred calls and the recover block.
func (e *Eng) finishRecovered(fi *funcInfo, st *State) []Outcome {
	if n := len(st.fr.defers); n > 0 {
		d := st.fr.defers[n-1]
		st.fr.defers = st.fr.defers[:n-1]
		var res []Outcome
		for _, r := range e.callValue(st, d.fn, d.args, d.inst, true) {
			if r.panic != nil {
				res = append(res, r)
				continue
			}
			res = append(res, e.finishRecovered(fi, r.st.clone())...)
		}
		return res
	}
	fn := st.fr.fn
	if fn.Recover == nil {
		return []Outcome{{st: st, ret: zeroValue(fn.Signature.Results())}}
	}
	_, _, outs := e.region(fi, nil, fn.Recover, []*State{st})
	return outs
}

type edgeState struct {
	to *ssa.BasicBlock
	st *State
}

// region interprets the blocks of a loop body (or of the whole function) from
// start. It returns the states leaving the region, those going back to the
// header, and the outcomes of returns and panics.
func (e *Eng) region(fi *funcInfo, loop *Loop, start *ssa.BasicBlock, init []*State) (exits, backs []edgeState, outs []Outcome) {
	pending := map[*ssa.BasicBlock][]*State{start: init}
	first := true
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || fi.rpo[x] < fi.rpo[b] {
				b = x
			}
		}
		sts := pending[b]
		delete(pending, b)
		put := func(es []edgeState) {
			for _, x := range es {
				switch {
				case loop != nil && x.to == loop.header:
					backs = append(backs, x)
				case loop != nil && !loop.blocks[x.to]:
					exits = append(exits, x)
				default:
					pending[x.to] = append(pending[x.to], x.st)
				}
			}
		}
		if l := fi.loops[b]; l != nil && (loop == nil || b != loop.header || !first) && l != loop {
			ex, o := e.loop(fi, l, sts)
			outs = append(outs, o...)
			put(ex)
			first = false
			continue
		}
		first = false
		if len(sts) > 1 {
			for _, s := range sts {
				s.pruneRegs(fi, b)
			}
			sts = e.mergeStates(sts, fmt.Sprintf("%s:%s.b%d", sts[0].fr.ctx, b.Parent().Name(), b.Index), e.maxStates)
		}
		for _, st := range sts {
			es, o := e.block(fi, b, st)
			outs = append(outs, o...)
			put(es)
		}
	}
	return
}

// loopResult is what one iteration makes of one state at the loop head.
type loopResult struct {
	of    *State
	exits []edgeState
	outs  []Outcome
}

// loop finds the invariant states at the head of l and returns the states that
// leave it.
func (e *Eng) loop(fi *funcInfo, l *Loop, entry []*State) (exits []edgeState, outs []Outcome) {
	name := fmt.Sprintf("%s:%s.L%d", entry[0].fr.ctx, l.header.Parent().Name(), l.header.Index)
	stored := map[string]*State{}
	coarse := false
	key := func(st *State) string { return e.stateKey(st, coarse) }
	join := func(st *State, widen bool) bool {
		if e.hooks.AtHead != nil {
			e.hooks.AtHead(st)
		}
		st.pruneRegs(fi, l.header)
		if e.hooks.Norm != nil {
			e.hooks.Norm(st)
		}
		st = e.renamePhis(st, name)
		k := key(st)
		old := stored[k]
		if old == nil {
			e.gc(st)
			stored[k] = st
			return true
		}
		n, changed := e.join(name, old, st, widen)
		stored[k] = n
		return changed
	}
	// the first iteration is interpreted on its own
	var exits0 []edgeState
	var outs0 []Outcome
	first := entry
	if len(first) > 1 {
		for _, s := range first {
			s.pruneRegs(fi, l.header)
		}
		first = e.mergeStates(first, name+"0", e.maxStates)
	}
	for _, st := range first {
		st = st.clone()
		if e.hooks.AtHead != nil {
			e.hooks.AtHead(st)
		}
		if e.hooks.Head != nil {
			e.hooks.Head(e, st, l, name, false)
		}
		st.pruneRegs(fi, l.header)
		ex, bk, o := e.region(fi, l, l.header, []*State{st})
		exits0 = append(exits0, ex...)
		outs0 = append(outs0, o...)
		for _, b := range bk {
			s := b.st.clone()
			if e.hooks.Head != nil {
				e.hooks.Head(e, s, l, name, true)
			}
			join(s, false)
		}
	}
	if len(stored) == 0 {
		return exits0, outs0
	}
	results := map[string]*loopResult{}
	var backs []*State
	for iter := 0; ; iter++ {
		e.loopIters++
		if iter > 60 {
			e.giveUp("loop %s does not stabilise", name)
		}
		var keys []string
		for k := range stored {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		changed := false
		for _, k := range keys {
			if r := results[k]; r != nil && r.of == stored[k] {
				continue // nothing new
			}
			r := &loopResult{of: stored[k]}
			var bk []edgeState
			r.exits, bk, r.outs = e.region(fi, l, l.header, []*State{stored[k].clone()})
			results[k] = r
			for _, b := range bk {
				s := b.st.clone()
				if e.hooks.Head != nil {
					e.hooks.Head(e, s, l, name, true)
				}
				backs = append(backs, s)
			}
		}
		if ctDebug && len(keys) > 1 {
			fmt.Printf("LOOP %s iter %d keys %d backs %d\n", name, iter, len(keys), len(backs))
			if iter > 4 {
				for _, k := range keys {
					fmt.Println("   K", k)
				}
			}
		}
		e.strong = iter >= 12
		for _, s := range backs {
			if e.debug && iter >= 57 {
				k := key(s)
				fmt.Println("UNSTABLE old", k)
				if stored[k] != nil {
					stored[k].dump()
				}
				fmt.Println("UNSTABLE new")
				s.dump()
			}
			if join(s, iter >= 3) {
				changed = true
			}
		}
		backs = nil
		e.strong = false
		if !changed {
			exits = append([]edgeState(nil), exits0...)
			outs = append([]Outcome(nil), outs0...)
			for _, k := range keys {
				exits = append(exits, results[k].exits...)
				outs = append(outs, results[k].outs...)
			}
			return
		}
		if len(stored) > 40 && !coarse {
			coarse = true
			old := stored
			stored = map[string]*State{}
			results = map[string]*loopResult{}
			for _, k := range keys {
				join(old[k], false)
			}
		}
	}
}

// block interprets one basic block.
func (e *Eng) block(fi *funcInfo, b *ssa.BasicBlock, st *State) (edges []edgeState, outs []Outcome) {
	type item struct {
		st  *State
		idx int
	}
	work := []item{{st.clone(), 0}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
	instrs:
		for i := it.idx; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			e.steps++
			if e.steps > e.maxSteps {
				e.giveUp("step limit reached in %s", b.Parent())
			}
			if e.hooks.Instr != nil {
				e.hooks.Instr(e, st, in)
			}
			switch x := in.(type) {
			case *ssa.Jump:
				edges = append(edges, e.edge(b, b.Succs[0], st))
				break instrs
			case *ssa.If:
				c := e.val(st, x.Cond)
				t, f := st, st.clone()
				if t.assume(c, true) {
					edges = append(edges, e.edge(b, b.Succs[0], t))
				}
				if f.assume(c, false) {
					edges = append(edges, e.edge(b, b.Succs[1], f))
				}
				break instrs
			case *ssa.Return:
				rs := make([]*Term, len(x.Results))
				for k, r := range x.Results {
					rs[k] = e.val(st, r)
				}
				outs = append(outs, Outcome{st: st, ret: mkTuple(rs...)})
				break instrs
			case *ssa.Panic:
				outs = append(outs, Outcome{st: st, panic: e.val(st, x.X)})
				break instrs
			default:
				res, o := e.instr(st, in)
				outs = append(outs, o...)
				if len(res) == 1 {
					st = res[0]
					continue
				}
				for k := len(res) - 1; k >= 0; k-- {
					work = append(work, item{res[k], i + 1})
				}
				break instrs
			}
		}
	}
	return
}

// edge moves st along the edge from b to s, evaluating the phis of s.
func (e *Eng) edge(b, s *ssa.BasicBlock, st *State) edgeState {
	pi := -1
	for i, p := range s.Preds {
		if p == b {
			pi = i
			break
		}
	}
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range s.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.val(st, ph.Edges[pi]))
	}
	for i, ph := range phis {
		st.fr.regs[ph] = vals[i]
	}
	return edgeState{s, st}
}

// val evaluates an operand.
func (e *Eng) val(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if _, ok := x.Type().Underlying().(*types.Struct); ok {
				return zeroValue(x.Type())
			}
			if _, ok := x.Type().Underlying().(*types.Array); ok {
				return zeroValue(x.Type())
			}
			return tNil
		}
		if isIntType(x.Type()) {
			if i := constant.ToInt(x.Value); i.Kind() == constant.Int {
				return mkConst(i)
			}
		}
		return mkConst(x.Value)
	case *ssa.Global:
		return mkGlobal(x)
	case *ssa.Function:
		return mkFn(x, nil)
	case *ssa.Builtin:
		return mkOp("builtin:"+x.Name(), x.Type())
	}
	if t, ok := st.fr.regs[v]; ok {
		return t
	}
	e.giveUp("no value for %s in %s", v.Name(), v.Parent())
	return nil
}

func (e *Eng) checkDeref(st *State, p *Term, in ssa.Instruction) bool {
	if p.kind == KField || p.kind == KElem {
		return true // checked when it was formed
	}
	isNil, known := st.isNil(p)
	if !known && e.hooks.NonNil != nil && e.hooks.NonNil(st, p) {
		known, isNil = true, false
	}
	e.oblige(st, "nil dereference", in, known && !isNil, func() string { return "pointer " + p.String() + " may be nil" })
	if known && isNil {
		return false
	}
	st.setNil(p, false)
	return true
}

// instr interprets one non-control instruction.
func (e *Eng) instr(st *State, in ssa.Instruction) ([]*State, []Outcome) {
	one := func() ([]*State, []Outcome) { return []*State{st}, nil }
	set := func(v ssa.Value, t *Term) ([]*State, []Outcome) {
		st.fr.regs[v] = t
		return one()
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		return one()
	case *ssa.Alloc:
		return set(x, mkAlloc(e.freshName(st, allocName(x), x), deref(x.Type())))
	case *ssa.BinOp:
		return set(x, e.binop(st, x, x.Op, e.val(st, x.X), e.val(st, x.Y), x.X.Type(), x.Type()))
	case *ssa.UnOp:
		v := e.val(st, x.X)
		switch x.Op {
		case token.MUL:
			if !e.checkDeref(st, v, x) {
				return nil, nil
			}
			v = typed(v, x.X.Type())
			if deref(v.typ) == nil {
				return set(x, mkOp("load", x.Type(), v, st.verAll))
			}
			if sts := st.tableRead(v); sts != nil {
				var res []*State
				for _, s := range sts {
					s.st.fr.regs[x] = s.val
					res = append(res, s.st)
				}
				return res, nil
			}
			r := st.load(v)
			if e.hooks.Loaded != nil {
				e.hooks.Loaded(e, st, v, r, x)
			}
			return set(x, r)
		case token.NOT:
			return set(x, mkNot(v))
		case token.SUB:
			if k, ok := v.isInt(); ok {
				return set(x, cInt(-k))
			}
			return set(x, mkOp("neg", x.Type(), v))
		case token.XOR:
			if k, ok := v.isInt(); ok {
				return set(x, cInt(^k))
			}
			return set(x, mkOp("inv", x.Type(), v))
		default:
			e.giveUp("unsupported operation %s in %s", x, x.Parent())
		}
	case *ssa.Store:
		p, v := e.val(st, x.Addr), e.val(st, x.Val)
		if !e.checkDeref(st, p, x) {
			return nil, nil
		}
		if e.hooks.Fork != nil {
			if sts := e.hooks.Fork(e, st, p, v, x); sts != nil {
				for _, s := range sts {
					s.store(p, v)
				}
				return sts, nil
			}
		}
		if e.hooks.Store != nil {
			e.hooks.Store(e, st, p, v, x)
		}
		st.store(p, v)
		return one()
	case *ssa.FieldAddr:
		p := e.val(st, x.X)
		if !e.checkDeref(st, p, x) {
			return nil, nil
		}
		return set(x, mkField(typed(p, x.X.Type()), x.Field))
	case *ssa.Field:
		v := e.val(st, x.X)
		if v.kind == KAgg {
			return set(x, v.args[x.Field])
		}
		return set(x, mkOp("fld", x.Type(), v, cInt(int64(x.Field))))
	case *ssa.IndexAddr:
		s, i := e.val(st, x.X), e.val(st, x.Index)
		et := deref(x.Type())
		if a := deref(x.X.Type()); a != nil {
			if arr, ok := a.Underlying().(*types.Array); ok {
				if !e.checkDeref(st, s, x) {
					return nil, nil
				}
				if !e.inBounds(st, x, i, cInt(arr.Len())) {
					return nil, nil
				}
				return set(x, mkElem(s, i, et))
			}
		}
		if !e.inBounds(st, x, i, st.length(s)) {
			return nil, nil
		}
		return set(x, st.elemPtr(s, i, et))
	case *ssa.Index:
		s, i := e.val(st, x.X), e.val(st, x.Index)
		if s.kind == KAgg {
			if !e.inBounds(st, x, i, cInt(int64(len(s.args)))) {
				return nil, nil
			}
			if k, ok := i.isInt(); ok {
				return set(x, s.args[k])
			}
			return set(x, mkOp("index", x.Type(), s, i))
		}
		if arr, ok := x.X.Type().Underlying().(*types.Array); ok {
			if !e.inBounds(st, x, i, cInt(arr.Len())) {
				return nil, nil
			}
			return set(x, mkOp("index", x.Type(), s, i))
		}
		return e.strIndex(st, x, s, i)
	case *ssa.Lookup:
		m, k := e.val(st, x.X), e.val(st, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			return e.strIndex(st, x, m, k)
		}
		return e.lookup(st, x, m, k)
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var o ssa.Value
		if c, ok := in.(*ssa.ChangeInterface); ok {
			o = c.X
		} else {
			o = in.(*ssa.ChangeType).X
		}
		return set(in.(ssa.Value), e.val(st, o))
	case *ssa.Convert:
		return set(x, e.convert(st, e.val(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MakeInterface:
		return set(x, mkIface(x.X.Type(), e.val(st, x.X)))
	case *ssa.MakeClosure:
		bs := make([]*Term, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = e.val(st, b)
		}
		return set(x, mkFn(x.Fn.(*ssa.Function), bs))
	case *ssa.MakeSlice:
		n := e.val(st, x.Len)
		c := e.val(st, x.Cap)
		e.oblige(st, "slice length", x, st.provesLE(tZero, n, 0) && st.provesLE(n, c, 0), func() string {
			return "make with length " + n.String() + " and capacity " + c.String()
		})
		if k, ok := n.isInt(); ok && k == 0 {
			return set(x, mkLit(x.Type()))
		}
		et := sliceElem(x.Type())
		a := mkAlloc(e.freshName(st, "make", x), types.NewArray(et, 1<<30))
		return set(x, mkOp("sl", x.Type(), a, tZero, n))
	case *ssa.MakeMap:
		a := mkAlloc(e.freshName(st, "map", x), x.Type())
		st.heap[mkOp("ents", nil, a)] = tUnit
		return set(x, mkOp("mapobj", x.Type(), a))
	case *ssa.MapUpdate:
		m, k, v := e.val(st, x.Map), e.val(st, x.Key), e.val(st, x.Value)
		e.mapUpdate(st, x, m, k, v)
		return one()
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Extract:
		t := e.val(st, x.Tuple)
		if t.kind == KTuple {
			return set(x, t.args[x.Index])
		}
		return set(x, mkOp(fmt.Sprintf("res%d", x.Index), x.Type(), t))
	case *ssa.Range:
		m := e.val(st, x.X)
		it := mkAlloc(e.freshName(st, "iter", x), types.Typ[types.Int])
		st.heap[mkOp("iterof", nil, it)] = m
		return set(x, it)
	case *ssa.Next:
		return e.next(st, x)
	case *ssa.Call:
		outs := e.call(st, x.Common(), x)
		var res []*State
		var os []Outcome
		for _, o := range outs {
			if o.panic != nil {
				o.st = o.st.clone()
				os = append(os, o)
				continue
			}
			n := o.st.clone()
			if x.Common().Signature().Results().Len() == 1 {
				n.fr.regs[x] = o.ret.args[0]
			} else {
				n.fr.regs[x] = o.ret
			}
			res = append(res, n)
		}
		return res, os
	case *ssa.Defer:
		f, args := e.callee(st, x.Common())
		st.fr.defers = append(st.fr.defers, deferred{f, args, x})
		return one()
	case *ssa.RunDefers:
		return e.runDefers(st)
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		e.giveUp("concurrency construct %s in %s", in, in.Parent())
	}
	e.giveUp("unsupported instruction %T %s in %s", in, in, in.Parent())
	return nil, nil
}

func allocName(x *ssa.Alloc) string {
	if x.Comment != "" {
		return x.Comment
	}
	return "new"
}

func (e *Eng) runDefers(st *State) ([]*State, []Outcome) {
	n := len(st.fr.defers)
	if n == 0 {
		return []*State{st}, nil
	}
	d := st.fr.defers[n-1]
	st.fr.defers = st.fr.defers[:n-1]
	var res []*State
	var outs []Outcome
	for _, o := range e.callValue(st, d.fn, d.args, d.inst, true) {
		s := o.st.clone()
		if o.panic != nil {
			outs = append(outs, Outcome{st: s, panic: o.panic})
			continue
		}
		r, os := e.runDefers(s)
		res = append(res, r...)
		outs = append(outs, os...)
	}
	return res, outs
}

// typed gives an untyped pointer term the static type of its operand.
func typed(p *Term, t types.Type) *Term {
	if p.typ == nil && p.kind == KOp {
		return mkOp(p.op, t, p.args...)
	}
	return p
}

func (e *Eng) inBounds(st *State, in ssa.Instruction, i, n *Term) bool {
	ok := st.provesLE(tZero, i, 0) && st.provesLE(i, n, -1)
	e.oblige(st, "index out of range", in, ok, func() string {
		lo, hi := st.bounds(i)
		return fmt.Sprintf("index %s in [%d,%d] not proved below length %s", i, lo, hi, n)
	})
	if !ok {
		return st.addLE(tZero, i, 0) && st.addLE(i, n, -1)
	}
	return true
}

func (e *Eng) strIndex(st *State, x ssa.Instruction, s, i *Term) ([]*State, []Outcome) {
	if !e.inBounds(st, x, i, st.length(s)) {
		return nil, nil
	}
	v := x.(ssa.Value)
	st.fr.regs[v] = st.strAt(s, i)
	return []*State{st}, nil
}

// strAt is the byte s[i].
func (st *State) strAt(s, i *Term) *Term {
	k, isC := i.isInt()
	if isC {
		if c, ok := st.strConst(s); ok && k >= 0 && int(k) < len(c) {
			return cInt(int64(c[k]))
		}
		if s.isOp("concat") {
			if c, ok := s.args[0].isStr(); ok && int(k) < len(c) {
				return cInt(int64(c[k]))
			}
		}
	}
	if s.isOp("slice") {
		bl, kl := linParts(s.args[1])
		bi, ki := linParts(i)
		if bl == nil {
			return st.strAt(s.args[0], mkLin(bi, ki+kl))
		}
	}
	return mkOp("index", types.Typ[types.Uint8], s, i)
}

func (e *Eng) slice(st *State, x *ssa.Slice) ([]*State, []Outcome) {
	s := e.val(st, x.X)
	var n *Term
	isArr := false
	if a := deref(x.X.Type()); a != nil {
		arr := a.Underlying().(*types.Array)
		n = cInt(arr.Len())
		isArr = true
		if !e.checkDeref(st, s, x) {
			return nil, nil
		}
	} else {
		n = st.length(s)
	}
	lo, hi := tZero, n
	if x.Low != nil {
		lo = e.val(st, x.Low)
	}
	if x.High != nil {
		hi = e.val(st, x.High)
	}
	if x.Low != nil || x.High != nil {
		ok1 := st.provesLE(tZero, lo, 0)
		ok2 := st.provesLE(lo, hi, 0)
		ok3 := st.provesLE(hi, n, 0)
		// The capacity may exceed the length, but relying on it is not accepted.
		e.oblige(st, "slice bounds out of range", x, ok1 && ok2 && ok3, func() string {
			return fmt.Sprintf("slice [%s:%s] of length %s not proved in range", lo, hi, n)
		})
		if !(st.addLE(tZero, lo, 0) && st.addLE(lo, hi, 0) && st.addLE(hi, n, 0)) {
			return nil, nil
		}
	}
	var r *Term
	switch {
	case isArr:
		r = mkOp("sl", x.Type(), s, lo, hi)
	default:
		r = st.sliceTerm(s, lo, hi, x.Type())
	}
	st.fr.regs[x] = r
	return []*State{st}, nil
}

func (st *State) sliceTerm(s, lo, hi *Term, typ types.Type) *Term {
	l, lc := lo.isInt()
	h, hc := hi.isInt()
	if lc && l == 0 {
		if n := st.length(s); n == hi {
			return s
		}
	}
	if c, ok := st.strConst(s); ok && lc && hc && h <= int64(len(c)) && l <= h {
		return cStr(c[l:h])
	}
	if lc && hc && l == h {
		if isStrT(s) {
			return cStr("")
		}
		return mkLit(typ)
	}
	if s.isOp("sl") {
		bl, kl := linParts(s.args[1])
		if bl == nil {
			b1, k1 := linParts(lo)
			b2, k2 := linParts(hi)
			return mkOp("sl", typ, s.args[0], mkLin(b1, k1+kl), mkLin(b2, k2+kl))
		}
	}
	if s.isOp("lit") && lc && hc && h <= int64(len(s.args)) && l <= h {
		return mkLit(typ, s.args[l:h]...)
	}
	if s.isOp("concat") && lc && hi == st.length(s) {
		if c, ok := s.args[0].isStr(); ok && l <= int64(len(c)) {
			return mkConcat(append([]*Term{cStr(c[l:])}, s.args[1:]...)...)
		}
	}
	if s.isOp("slice") {
		// a slice of a slice
		bl, kl := linParts(s.args[1])
		b1, k1 := linParts(lo)
		b2, k2 := linParts(hi)
		if bl == nil {
			return mkOp("slice", typ, s.args[0], mkLin(b1, k1+kl), mkLin(b2, k2+kl))
		}
		if b1 == nil && (b2 == nil || mkLin(b2, k2) == st.length(s)) {
			h := s.args[2]
			if b2 == nil {
				h = mkLin(bl, kl+k2)
			}
			return mkOp("slice", typ, s.args[0], mkLin(bl, kl+k1), h)
		}
	}
	return mkOp("slice", typ, s, lo, hi)
}

func (e *Eng) convert(st *State, v *Term, from, to types.Type) *Term {
	fu, tu := from.Underlying(), to.Underlying()
	tb, _ := tu.(*types.Basic)
	fb, _ := fu.(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		if fb != nil && fb.Info()&types.IsString != 0 {
			return v
		}
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			if k, ok := v.isInt(); ok {
				return cStr(string(rune(k)))
			}
			return mkOp("runestr", types.Typ[types.String], v)
		}
		if sl, ok := fu.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return st.bytesAsString(v)
			}
			if es, ok := st.elems(v); ok {
				var parts []*Term
				for _, x := range es {
					parts = append(parts, e.convert(st, x, types.Typ[types.Int32], types.Typ[types.String]))
				}
				return mkConcat(parts...)
			}
			if v.isOp("runes") {
				return v.args[0]
			}
			return mkOp("runesstr", types.Typ[types.String], v)
		}
	}
	if sl, ok := tu.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
			if v.isOp("str") {
				return mkOp("bytes", to, v)
			}
			return mkOp("bytes", to, v)
		}
		return mkOp("runes", to, v)
	}
	if tb != nil && tb.Info()&types.IsInteger != 0 && fb != nil && fb.Info()&types.IsInteger != 0 {
		if k, ok := v.isInt(); ok {
			return cInt(truncTo(to, k))
		}
		if st.set(v).subsetOf(typeSet(to)) || tb.Kind() == types.Int || tb.Kind() == types.Int64 || tb.Kind() == types.Uint {
			return v
		}
		return mkOp("conv", to, v)
	}
	if v.kind == KConst {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	return mkOp("convert", to, v)
}

func (e *Eng) binop(st *State, in ssa.Instruction, op token.Token, a, b *Term, xt, rt types.Type) *Term {
	if a.kind == KConst && b.kind == KConst {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return cBool(constant.Compare(a.cv, op, b.cv))
		case token.SHL, token.SHR:
			if k, ok := b.isInt(); ok {
				r := constant.Shift(a.cv, op, uint(k))
				if v, ok := constant.Int64Val(r); ok {
					return cInt(truncTo(rt, v))
				}
			}
		case token.QUO, token.REM:
			if isIntType(rt) {
				if k, ok := b.isInt(); ok && k != 0 {
					if op == token.QUO {
						op = token.QUO_ASSIGN
					}
					return mkConst(constant.BinaryOp(a.cv, op, b.cv))
				}
			}
		default:
			r := constant.BinaryOp(a.cv, op, b.cv)
			if r.Kind() == constant.Int {
				if v, ok := constant.Int64Val(r); ok {
					return cInt(truncTo(rt, v))
				}
			}
			return mkConst(r)
		}
	}
	str := isStringType(xt)
	switch op {
	case token.ADD:
		if str {
			return mkConcat(a, b)
		}
		if k, ok := b.isInt(); ok {
			return e.addConst(st, a, k, rt)
		}
		if k, ok := a.isInt(); ok {
			return e.addConst(st, b, k, rt)
		}
		if ba, ka := linParts(a); true {
			if bb, kb := linParts(b); ka != 0 || kb != 0 {
				return mkLin(e.binop(st, in, op, ba, bb, xt, rt), ka+kb)
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
		t := mkOp("add", rt, a, b)
		sa, sb := st.set(a), st.set(b)
		lo, hi := int64(minI), int64(maxI)
		if sa.min() > minI && sb.min() > minI {
			lo = sa.min() + sb.min()
		}
		if sa.max() < maxI && sb.max() < maxI {
			hi = sa.max() + sb.max()
		}
		st.ints[t] = st.set(t).inter(rangeSet(lo, hi))
		st.clo = nil
		if l, h := st.bounds(b); true {
			if h < inf {
				st.addLE(t, a, h)
			}
			if l > -inf {
				st.addLE(a, t, -l)
			}
		}
		if l, h := st.bounds(a); true {
			if h < inf {
				st.addLE(t, b, h)
			}
			if l > -inf {
				st.addLE(b, t, -l)
			}
		}
		return t
	case token.SUB:
		if k, ok := b.isInt(); ok {
			return e.addConst(st, a, -k, rt)
		}
		if isIntType(rt) {
			return st.sub(a, b)
		}
		return mkOp("sub", rt, a, b)
	case token.EQL:
		return mkEq(a, b)
	case token.NEQ:
		return mkNot(mkEq(a, b))
	case token.LSS:
		return mkCmp("lt", a, b)
	case token.GTR:
		return mkCmp("lt", b, a)
	case token.LEQ:
		return mkCmp("le", a, b)
	case token.GEQ:
		return mkCmp("le", b, a)
	}
	names := map[token.Token]string{token.MUL: "mul", token.QUO: "quo", token.REM: "rem", token.AND: "and",
		token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}
	n := names[op]
	if n == "quo" || n == "rem" {
		ok := !st.set(b).has(0)
		e.oblige(st, "division by zero", in, ok || !isIntType(rt), func() string { return "divisor " + b.String() + " may be zero" })
	}
	switch n {
	case "or", "and", "xor":
		if k, ok := a.isInt(); ok && k == 0 {
			if n == "and" {
				return cInt(0)
			}
			return b
		}
		if k, ok := b.isInt(); ok && k == 0 {
			if n == "and" {
				return cInt(0)
			}
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	if bt, ok := rt.Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
		if n == "and" {
			return mkOp("band", rt, a, b)
		}
		if n == "or" {
			return mkOp("bor", rt, a, b)
		}
	}
	r := mkOp(n, rt, a, b)
	if _, ok := a.isInt(); ok {
		a, b = b, a
	}
	if k, ok := b.isInt(); ok && n == "mul" && k > 0 && isIntType(rt) {
		lo, hi := st.bounds(a)
		if lo > -inf/k {
			st.restrict(r, rangeSet(lo*k, maxI))
		}
		if hi < inf/k {
			st.restrict(r, rangeSet(minI, hi*k))
		}
	}
	return r
}

func (e *Eng) addConst(st *State, a *Term, k int64, rt types.Type) *Term {
	b, o := linParts(a)
	// small types may wrap around
	if ts := typeSet(rt); !st.set(a).shift(k).subsetOf(ts) && ts.size() < 1<<33 {
		return mkOp("conv", rt, mkOp("add", types.Typ[types.Int], a, cInt(k)))
	}
	return mkLin(b, o+k)
}

func mkCmp(op string, a, b *Term) *Term {
	if a == b {
		return cBool(op == "le")
	}
	return mkOp(op, types.Typ[types.Bool], a, b)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---------------------------------------------------------------------------
// maps

func mapEnts(st *State, m *Term) ([]*Term, bool) {
	if !m.isOp("mapobj") {
		return nil, false
	}
	v, ok := st.heap[mkOp("ents", nil, m.args[0])]
	if !ok {
		v, ok = baseHeap[mkOp("ents", nil, m.args[0])]
	}
	if !ok || v.kind != KTuple {
		return nil, false
	}
	return v.args, true
}

func (e *Eng) lookup(st *State, x *ssa.Lookup, m, k *Term) ([]*State, []Outcome) {
	vt := x.X.Type().Underlying().(*types.Map).Elem()
	fin := func(s *State, v, ok *Term) *State {
		if x.CommaOk {
			s.fr.regs[x] = mkTuple(v, ok)
		} else {
			s.fr.regs[x] = v
		}
		return s
	}
	if n, known := st.isNil(m); known && n {
		return []*State{fin(st, zeroValue(vt), tFalse)}, nil
	}
	if ents, ok := mapEnts(st, m); ok {
		var res []*State
		if isInt(k) && allConst(ents) {
			// group the keys by value
			groups := map[*Term]IntSet{}
			var order []*Term
			all := IntSet{}
			for i := 0; i < len(ents); i += 2 {
				kv, _ := ents[i].isInt()
				if _, ok := groups[ents[i+1]]; !ok {
					order = append(order, ents[i+1])
				}
				groups[ents[i+1]] = groups[ents[i+1]].union(single(kv))
				all = all.union(single(kv))
			}
			for _, v := range order {
				s := st.clone()
				if s.restrict(k, groups[v]) {
					res = append(res, fin(s, v, tTrue))
				}
			}
			if st.restrict(k, all.complement()) {
				res = append(res, fin(st, zeroValue(vt), tFalse))
			}
			return res, nil
		}
		rest := st
		for i := len(ents) - 2; i >= 0; i -= 2 {
			eq := mkEq(ents[i], k)
			s := rest.clone()
			if s.assume(eq, true) {
				res = append(res, fin(s, ents[i+1], tTrue))
			}
			if !rest.assume(eq, false) {
				return res, nil
			}
		}
		return append(res, fin(rest, zeroValue(vt), tFalse)), nil
	}
	p := mkElem(m, k, vt)
	if v, ok := st.heap[p]; ok {
		return []*State{fin(st, v, tTrue)}, nil
	}
	tag := st.tag(p)
	has := mkOp("maphas", types.Typ[types.Bool], m, k, tag)
	s2 := st.clone()
	var res []*State
	if e.hooks.HasKey != nil && e.hooks.HasKey(st, m, k) && st.assume(has, true) {
		return []*State{fin(st, mkOp("mapget", vt, m, k, tag), tTrue)}, nil
	}
	if st.assume(has, true) {
		res = append(res, fin(st, mkOp("mapget", vt, m, k, tag), tTrue))
	}
	if s2.assume(has, false) {
		res = append(res, fin(s2, zeroValue(vt), tFalse))
	}
	return res, nil
}

func allConst(ents []*Term) bool {
	for i := 0; i < len(ents); i += 2 {
		if ents[i].kind != KConst {
			return false
		}
	}
	return true
}

func (e *Eng) mapUpdate(st *State, x ssa.Instruction, m, k, v *Term) {
	isNil, known := st.isNil(m)
	e.oblige(st, "write to nil map", x, known && !isNil, func() string { return "map " + m.String() + " may be nil" })
	mt := x.(*ssa.MapUpdate).Map.Type().Underlying().(*types.Map)
	if e.hooks.Store != nil {
		e.hooks.Store(e, st, mkElem(m, k, mt.Elem()), v, x)
	}
	if ents, ok := mapEnts(st, m); ok {
		ne := append([]*Term{}, ents...)
		for i := 0; i < len(ne); i += 2 {
			if ne[i] == k {
				ne[i+1] = v
				st.heap[mkOp("ents", nil, m.args[0])] = mkTuple(ne...)
				return
			}
		}
		ne = append(ne, k, v)
		st.heap[mkOp("ents", nil, m.args[0])] = mkTuple(ne...)
		return
	}
	p := mkElem(m, k, mt.Elem())
	st.invalidate(p, m)
	st.heap[p] = v
}

// ---------------------------------------------------------------------------
// interfaces

func (e *Eng) typeAssert(st *State, x *ssa.TypeAssert) ([]*State, []Outcome) {
	v := e.val(st, x.X)
	fin := func(s *State, val *Term, ok bool) *State {
		if x.CommaOk {
			s.fr.regs[x] = mkTuple(val, cBool(ok))
		} else {
			s.fr.regs[x] = val
		}
		return s
	}
	var res []*State
	fail := func(s *State) {
		if x.CommaOk {
			res = append(res, fin(s, zeroValue(x.AssertedType), false))
			return
		}
		e.oblige(s, "failed type assertion", x, false, func() string {
			return fmt.Sprintf("%s may not hold %s", v, shortType(x.AssertedType))
		})
	}
	if !x.CommaOk {
		e.oblige(st, "failed type assertion", x, true, nil)
	}
	if v == tNil {
		fail(st)
		return res, nil
	}
	if ift, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		if dt, ok := st.dynOf(v); ok {
			if types.Implements(dt, ift) {
				if n, k := st.isNil(v); !k || !n {
					if !k {
						s := st.clone()
						if s.setNil(v, true) {
							fail(s)
						}
						st.setNil(v, false)
					}
					res = append(res, fin(st, v, true))
				} else {
					fail(st)
				}
			} else {
				fail(st)
			}
			return res, nil
		}
		c := mkOp("implements", types.Typ[types.Bool], v, mkSym("type:"+shortType(x.AssertedType), types.Typ[types.Int]))
		s := st.clone()
		// a value statically known to implement it only fails when nil
		if types.Implements(x.X.Type(), ift) {
			if s.setNil(v, true) {
				fail(s)
			}
			if st.setNil(v, false) {
				res = append(res, fin(st, v, true))
			}
			return res, nil
		}
		if s.assume(c, false) {
			fail(s)
		}
		if st.assume(c, true) && st.setNil(v, false) {
			res = append(res, fin(st, v, true))
		}
		return res, nil
	}
	id := typeID(x.AssertedType)
	s := st.clone()
	if st.assumeDyn(v, id, true) {
		res = append(res, fin(st, e.unbox(st, v, x.AssertedType), true))
	}
	if s.assumeDyn(v, id, false) {
		fail(s)
	}
	return res, nil
}

// unbox is the value of dynamic type t held by the interface v. Pointers held
// by interfaces are assumed not to be nil.
func (e *Eng) unbox(st *State, v *Term, t types.Type) *Term {
	if v.kind == KIface {
		return v.args[0]
	}
	u := mkOp("unbox", t, v)
	if _, ok := t.Underlying().(*types.Pointer); ok {
		st.setNil(u, false)
	}
	return u
}

// ---------------------------------------------------------------------------
// iteration

func (e *Eng) next(st *State, x *ssa.Next) ([]*State, []Outcome) {
	it := e.val(st, x.Iter)
	m := st.heap[mkOp("iterof", nil, it)]
	tt := x.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	stop := st.clone()
	stop.fr.regs[x] = mkTuple(tFalse, zeroOf(kt), zeroOf(vt))
	if x.IsString {
		pos := mkOp("iterpos", nil, it)
		cur := st.heap[pos]
		if cur == nil {
			cur = tZero
		}
		n := st.length(m)
		var res []*State
		if stop.addLE(n, cur, 0) {
			res = append(res, stop)
		}
		if st.addLE(cur, n, -1) {
			r := mkOp("runeat", types.Typ[types.Int32], m, cur)
			if c, ok := st.strConst(m); ok {
				if i, ok := cur.isInt(); ok && int(i) < len(c) {
					for j, rr := range c[i:] {
						if j == 0 {
							r = cInt(int64(rr))
						}
						break
					}
				}
			}
			if r.kind != KConst {
				st.restrict(r, rangeSet(0, 0x10FFFF))
			}
			nx := e.fresh(st, "strpos", x, types.Typ[types.Int])
			st.addLE(cur, nx, -1)
			st.addLE(nx, cur, 4)
			st.addLE(nx, n, 0)
			st.heap[pos] = nx
			st.fr.regs[x] = mkTuple(tTrue, cur, r)
			res = append(res, st)
		}
		return res, nil
	}
	if isInvalid(kt) {
		kt = m.typ.Underlying().(*types.Map).Key()
	}
	if m.typ != nil {
		if mt, ok := m.typ.Underlying().(*types.Map); ok {
			kt, vt = mt.Key(), mt.Elem()
		}
	}
	k := e.fresh(st, "mapkey", x, kt)
	p := mkElem(m, k, vt)
	tag := st.tag(p)
	v := mkOp("mapget", vt, m, k, tag)
	if e.hooks.MapEnd != nil {
		e.hooks.MapEnd(stop, m)
	}
	if !st.assume(mkOp("maphas", types.Typ[types.Bool], m, k, tag), true) {
		return []*State{stop}, nil
	}
	if e.hooks.MapNext != nil {
		e.hooks.MapNext(e, st, m, k, v)
	}
	st.fr.regs[x] = mkTuple(tTrue, k, v)
	return []*State{stop, st}, nil
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

func zeroOf(t types.Type) *Term {
	if t == nil || isInvalid(t) {
		return tNil
	}
	return zeroValue(t)
}

// ---------------------------------------------------------------------------
// calls

// callee evaluates the function value and arguments of a call.
func (e *Eng) callee(st *State, cc *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if cc.IsInvoke() {
		recv := e.val(st, cc.Value)
		args = append(args, recv)
		for _, a := range cc.Args {
			args = append(args, e.val(st, a))
		}
		return mkOp("method:"+cc.Method.FullName(), cc.Method.Type(), recv), args
	}
	for _, a := range cc.Args {
		args = append(args, e.val(st, a))
	}
	return e.val(st, cc.Value), args
}

func (e *Eng) call(st *State, cc *ssa.CallCommon, in ssa.Instruction) []Outcome {
	f, args := e.callee(st, cc)
	return e.callValue(st, f, args, in, false)
}

func commonOf(in ssa.Instruction) *ssa.CallCommon { return in.(ssa.CallInstruction).Common() }

// callValue calls the function value f.
func (e *Eng) callValue(st *State, f *Term, args []*Term, in ssa.Instruction, deferred bool) []Outcome {
	cc := commonOf(in)
	site := fmt.Sprintf("%s/%d", st.fr.ctx, infoOf(in.Parent()).instNum[in])
	c := &Call{args: args, instr: in, site: site, fnVal: f, sig: cc.Signature(), deferred: deferred}
	if f.kind == KOp && strings.HasPrefix(f.op, "builtin:") {
		return e.builtin(st, strings.TrimPrefix(f.op, "builtin:"), c)
	}
	if f.kind == KOp && strings.HasPrefix(f.op, "method:") {
		recv := args[0]
		c.meth = cc.Method
		if !e.checkDeref2(st, recv, in) {
			return nil
		}
		if dt, ok := st.dynOf(recv); ok {
			fn := e.w.prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name())
			if fn != nil {
				a := append([]*Term{e.unbox(st, recv, dt)}, args[1:]...)
				return e.callFunc(st, fn, a, nil, c)
			}
		}
		c.iface = recv
		c.name = strings.TrimPrefix(f.op, "method:")
		if e.hooks.Call != nil {
			if outs, ok := e.hooks.Call(e, st, c); ok {
				return outs
			}
		}
		// a known small set of dynamic types is split
		if fct, ok := st.dyn[recv]; ok && len(fct.in) > 0 && len(fct.in) <= 32 {
			var outs []Outcome
			for _, id := range fct.in {
				s := st.clone()
				if !s.assumeDyn(recv, id, true) {
					continue
				}
				dt := typeByID[id]
				fn := e.w.prog.LookupMethod(dt, cc.Method.Pkg(), cc.Method.Name())
				if fn == nil {
					e.giveUp("no method %s on %s", cc.Method.Name(), dt)
				}
				a := append([]*Term{e.unbox(s, recv, dt)}, args[1:]...)
				c2 := *c
				c2.iface, c2.meth = nil, nil
				outs = append(outs, e.callFunc(s, fn, a, nil, &c2)...)
			}
			return outs
		}
		return e.unknownCall(st, c)
	}
	if f.kind == KFn {
		return e.callFunc(st, f.fn, args, f.args, c)
	}
	if !e.checkDeref2(st, f, in) {
		return nil
	}
	c.name = ""
	if e.hooks.Call != nil {
		if outs, ok := e.hooks.Call(e, st, c); ok {
			return outs
		}
	}
	return e.unknownCall(st, c)
}

func (e *Eng) checkDeref2(st *State, p *Term, in ssa.Instruction) bool {
	isNil, known := st.isNil(p)
	if !known && e.hooks.NonNil != nil && e.hooks.NonNil(st, p) {
		known, isNil = true, false
	}
	e.oblige(st, "call of nil", in, known && !isNil, func() string { return p.String() + " may be nil" })
	if known && isNil {
		return false
	}
	st.setNil(p, false)
	return true
}

func funcName(fn *ssa.Function) string {
	if o := fn.Object(); o != nil {
		if f, ok := o.(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

// callFunc calls a known function.
func (e *Eng) callFunc(st *State, fn *ssa.Function, args, bindings []*Term, c *Call) []Outcome {
	c.fn = fn
	c.name = funcName(fn)
	c.args = args
	for f := st.fr; f != nil; f = f.parent {
		if f.fn == fn {
			c.rec = true
		}
	}
	if e.hooks.Call != nil {
		if outs, ok := e.hooks.Call(e, st, c); ok {
			return outs
		}
	}
	if outs, ok := e.model(st, c); ok {
		return outs
	}
	if fn.Blocks != nil && (fn.Pkg == nil || inModule(fn.Pkg.Pkg.Path())) && !c.rec {
		return e.run(st, fn, args, bindings, c.site)
	}
	return e.unknownCall(st, c)
}

// results makes fresh results for a call.
func (e *Eng) results(st *State, c *Call) *Term {
	var rs []*Term
	n := c.sig.Results().Len()
	for i := 0; i < n; i++ {
		rs = append(rs, e.fresh(st, fmt.Sprintf("r%d:%s", i, shortName(c)), c.instr, c.sig.Results().At(i).Type()))
	}
	return mkTuple(rs...)
}

func shortName(c *Call) string {
	if c.fn != nil {
		return c.fn.Name()
	}
	if c.meth != nil {
		return c.meth.Name()
	}
	return "fn"
}

// unknownCall is the worst case: any result, and any reachable memory changed.
func (e *Eng) unknownCall(st *State, c *Call) []Outcome {
	st = st.clone()
	st.havocAll(e.freshName(st, "mem", c.instr), c.args)
	return []Outcome{{st: st, ret: e.results(st, c)}}
}

func (e *Eng) builtin(st *State, name string, c *Call) []Outcome {
	ret := func(t *Term) []Outcome { return []Outcome{{st: st, ret: mkTuple(t)}} }
	a := c.args
	switch name {
	case "len":
		if m := a[0]; m.isOp("mapobj") {
			if ents, ok := mapEnts(st, m); ok && allConst(ents) {
				return ret(cInt(int64(len(ents) / 2)))
			}
		}
		return ret(st.length(a[0]))
	case "cap":
		t := mkOp("cap", types.Typ[types.Int], a[0])
		st.addLE(st.length(a[0]), t, 0)
		return ret(t)
	case "append":
		typ := c.sig.Results().At(0).Type()
		if len(a) == 1 {
			return ret(a[0])
		}
		b := a[1]
		if isStrT(b) {
			b = mkOp("bytes", typ, b)
		} else if es, ok := st.elems(b); ok {
			b = mkLit(typ, es...)
			if e.hooks.Append != nil {
				e.appTyp = typ
				e.hooks.Append(e, st, a[0], es)
			}
		}
		s := a[0]
		if s.isOp("sl") {
			if es, ok := st.elems(s); ok {
				s = mkLit(typ, es...)
			}
		}
		res := mkCat(typ, s, b)
		if e.hooks.Appended != nil {
			es, ok := st.elems(b)
			if !ok {
				es = nil
			} else if es == nil {
				es = []*Term{}
			}
			e.hooks.Appended(e, st, a[0], es, b, res)
		}
		return ret(res)
	case "copy":
		n := e.fresh(st, "copied", c.instr, types.Typ[types.Int])
		st.addLE(tZero, n, 0)
		st.addLE(n, st.length(a[0]), 0)
		st.addLE(n, st.length(a[1]), 0)
		if a[0].isOp("sl") {
			r := root(a[0].args[0])
			for p := range st.heap {
				if root(p) == r {
					delete(st.heap, p)
				}
			}
			st.hav[r] = e.fresh(st, "tag", c.instr, types.Typ[types.Int])
		}
		return ret(n)
	case "delete":
		if e.hooks.Store != nil {
			e.hooks.Store(e, st, mkElem(a[0], a[1], types.Typ[types.Int]), tNil, c.instr)
		}
		if a[0].isOp("mapobj") {
			st.hav[a[0].args[0]] = e.fresh(st, "tag", c.instr, types.Typ[types.Int])
			delete(st.heap, mkOp("ents", nil, a[0].args[0]))
		}
		return ret(tNil)
	case "recover":
		if st.panick != nil && !st.recov {
			v := st.panick
			st.recov = true
			return ret(v)
		}
		return ret(tNil)
	case "print", "println":
		return ret(tNil)
	case "min", "max":
		if len(a) == 2 && isInt(a[0]) {
			s1, s2 := st.clone(), st
			le := mkCmp("le", a[0], a[1])
			var outs []Outcome
			x, y := a[0], a[1]
			if name == "max" {
				x, y = y, x
			}
			if s1.assume(le, true) {
				outs = append(outs, Outcome{st: s1, ret: mkTuple(x)})
			}
			if s2.assume(le, false) {
				outs = append(outs, Outcome{st: s2, ret: mkTuple(y)})
			}
			return outs
		}
	case "ssa:wrapnilchk":
		e.checkDeref(st, a[0], c.instr)
		return ret(a[0])
	}
	e.giveUp("builtin %s", name)
	return nil
}

func (st *State) dump() {
	var fr []string
	for f := st.fr; f != nil; f = f.parent {
		fr = append(fr, f.fn.Name())
	}
	fmt.Fprintln(os.Stderr, "  stack:", strings.Join(fr, " < "))
	if st.fr != nil {
		fi := infoOf(st.fr.fn)
		var rs []ssa.Value
		for r := range st.fr.regs {
			rs = append(rs, r)
		}
		sort.Slice(rs, func(i, j int) bool { return fi.regNum[rs[i]] < fi.regNum[rs[j]] })
		for _, r := range rs {
			fmt.Fprintf(os.Stderr, "  %s = %s\n", r.Name(), st.fr.regs[r])
		}
	}
	var ls []string
	for p, v := range st.heap {
		if baseObjs[root(p)] || root(p).kind == KGlobal {
			continue
		}
		ls = append(ls, fmt.Sprintf("  [%s] = %s", p, v))
	}
	sort.Strings(ls)
	for k, v := range st.ghost {
		ls = append(ls, fmt.Sprintf("  ghost %s = %s", k, v))
	}
	for t, s := range st.ints {
		ls = append(ls, fmt.Sprintf("  %s in %s", t, s))
	}
	for k, c := range st.dbm {
		ls = append(ls, fmt.Sprintf("  %s - %s <= %d", k[0], k[1], c))
	}
	for t, n := range st.nils {
		ls = append(ls, fmt.Sprintf("  nil(%s)=%v", t, n))
	}
	for t, b := range st.bools {
		ls = append(ls, fmt.Sprintf("  %s = %v", t, b))
	}
	for t, d := range st.dyn {
		var a []string
		for _, id := range d.in {
			a = append(a, shortType(typeByID[id]))
		}
		var o []string
		for _, id := range d.out {
			o = append(o, shortType(typeByID[id]))
		}
		ls = append(ls, fmt.Sprintf("  dyn(%s) in %v out %v", t, a, o))
	}
	for _, l := range ls {
		fmt.Fprintln(os.Stderr, l)
	}
	for _, t := range traceList(st.trace) {
		fmt.Fprintln(os.Stderr, "  event", t)
	}
}
