package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// dead facts

// gc drops the cells and facts of st that nothing can refer to any more.
func (e *Eng) gc(st *State) {
	reach := map[*Term]bool{}
	seen := map[*Term]bool{}
	mark := func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		walkTerm(t, seen, func(x *Term) { reach[x] = true })
	}
	for f := st.fr; f != nil; f = f.parent {
		for _, t := range f.regs {
			mark(t)
		}
		for _, t := range f.args {
			mark(t)
		}
		for _, d := range f.defers {
			mark(d.fn)
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, t := range st.ghost {
		mark(t)
	}
	mark(st.trace)
	mark(st.panick)
	mark(st.verAll)
	var cells []*Term
	for p := range st.heap {
		cells = append(cells, p)
	}
	kept := map[*Term]bool{}
	for ch := true; ch; {
		ch = false
		for _, p := range cells {
			if kept[p] {
				continue
			}
			r := root(p)
			ok := reach[r] || r.kind == KGlobal || baseObjs[r]
			if !ok && r.kind != KAlloc && r.kind != KSym {
				ok = e.liveTerm(st, r, reach, nil)
			}
			if ok && hasSymIndex(p) {
				walkTerm(p, map[*Term]bool{}, func(x *Term) {
					if (x.kind == KSym || x.kind == KAlloc) && !reach[x] {
						ok = false
					}
				})
			}
			if ok {
				kept[p] = true
				mark(p)
				mark(st.heap[p])
				if h := st.hav[r]; h != nil {
					mark(h)
				}
				ch = true
			}
		}
	}
	for _, p := range cells {
		if !kept[p] {
			delete(st.heap, p)
		}
	}
	for a, h := range st.hav {
		if !reach[a] {
			delete(st.hav, a)
		} else {
			mark(h)
		}
	}
	for a := range st.esc {
		if !reach[a] {
			delete(st.esc, a)
		}
	}
	for _, v := range st.ver {
		mark(v)
	}
	st.clo = nil
	memo := map[*Term]bool{}
	live := func(t *Term) bool { return e.liveTerm(st, t, reach, memo) }
	for t := range st.ints {
		if !live(t) && !st.inDBM(t) {
			delete(st.ints, t)
		}
	}
	// eliminate dead variables of the difference bounds
	for {
		var dead *Term
		for k := range st.dbm {
			for _, x := range k {
				if x != tZero && !live(x) && (dead == nil || x.id < dead.id) {
					dead = x
				}
			}
		}
		if dead == nil {
			break
		}
		type ed struct {
			o *Term
			c int64
		}
		var in, out []ed // o - dead <= c ; dead - o <= c
		for k, c := range st.dbm {
			if k[1] == dead {
				in = append(in, ed{k[0], c})
				delete(st.dbm, k)
				st.clo = nil
			} else if k[0] == dead {
				out = append(out, ed{k[1], c})
				delete(st.dbm, k)
			}
		}
		if u := upper(st, dead); u < inf {
			out = append(out, ed{tZero, u})
		}
		if l := lower(st, dead); l > -inf {
			in = append(in, ed{tZero, -l})
		}
		for _, a := range in {
			for _, b := range out {
				if a.o == b.o {
					continue
				}
				st.addBound(a.o, b.o, a.c+b.c)
			}
		}
		delete(st.ints, dead)
	}
	for t := range st.ints {
		if !live(t) || st.ints[t].equal(defaultSet(t)) {
			delete(st.ints, t)
		}
	}
	for t := range st.nils {
		if !live(t) {
			delete(st.nils, t)
		}
	}
	for t := range st.dyn {
		if !live(t) {
			delete(st.dyn, t)
		}
	}
	for t := range st.bools {
		if !live(t) {
			delete(st.bools, t)
		}
	}
	for t := range st.strs {
		if !live(t) {
			delete(st.strs, t)
		}
	}
	// names that are free again
	max := map[string]int{}
	for t := range reach {
		if t.kind == KSym || t.kind == KAlloc {
			n, k := t.op, 0
			if i := strings.LastIndexByte(n, '#'); i >= 0 {
				if v, err := strconv.Atoi(n[i+1:]); err == nil {
					n, k = n[:i], v
				}
			}
			if k+1 > max[n] {
				max[n] = k + 1
			}
		}
	}
	no := map[string]int{}
	for n := range st.occ {
		if m := max[n]; m > 0 {
			no[n] = m
		}
	}
	st.occ = no
}

func (st *State) inDBM(t *Term) bool {
	for k := range st.dbm {
		if k[0] == t || k[1] == t {
			return true
		}
	}
	return false
}

// addBound records x - y <= c without checking consistency.
func (st *State) addBound(x, y *Term, c int64) {
	if x == tZero {
		if -c > lower(st, y) {
			if s := st.set(y).inter(rangeSet(-c, maxI)); !s.empty() {
				st.ints[y] = s
			}
		}
		return
	}
	if y == tZero {
		if c < upper(st, x) {
			if s := st.set(x).inter(rangeSet(minI, c)); !s.empty() {
				st.ints[x] = s
			}
		}
		return
	}
	k := [2]*Term{x, y}
	if o, ok := st.dbm[k]; !ok || c < o {
		st.dbm[k] = c
	}
}

// liveTerm reports whether t can still be formed from the reachable terms.
func (e *Eng) liveTerm(st *State, t *Term, reach, memo map[*Term]bool) bool {
	if reach[t] {
		return true
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := true
	switch t.kind {
	case KSym, KAlloc:
		r = strings.HasPrefix(t.op, "type:")
	case KOp:
		if t.op == "init" {
			p := t.args[0]
			_, has := st.heap[p]
			r = !has && p.kind != KElem && st.tag(p) == t.args[1] && e.liveTerm(st, p, reach, memo)
		} else if t.op == "decr" || t.op == "decw" {
			r = false
		} else {
			for _, a := range t.args {
				if !e.liveTerm(st, a, reach, memo) {
					r = false
					break
				}
			}
		}
	default:
		for _, a := range t.args {
			if !e.liveTerm(st, a, reach, memo) {
				r = false
				break
			}
		}
	}
	if memo != nil {
		memo[t] = r
	}
	return r
}

// ---------------------------------------------------------------------------
// renaming

// mapTerms applies m to every term of st.
func (st *State) mapTerms(m map[*Term]*Term) *State {
	memo := map[*Term]*Term{}
	f := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return subst(t, m, memo)
	}
	n := *st
	var fix func(fr *Frame) *Frame
	fix = func(fr *Frame) *Frame {
		if fr == nil {
			return nil
		}
		p := fix(fr.parent)
		ch := p != fr.parent
		nf := *fr
		nf.parent = p
		nf.regs = make(map[ssa.Value]*Term, len(fr.regs))
		for k, v := range fr.regs {
			nf.regs[k] = f(v)
			ch = ch || nf.regs[k] != v
		}
		nf.args = append([]*Term(nil), fr.args...)
		for i, a := range fr.args {
			nf.args[i] = f(a)
			ch = ch || nf.args[i] != a
		}
		nf.defers = nil
		for _, d := range fr.defers {
			nd := deferred{fn: f(d.fn), inst: d.inst}
			ch = ch || nd.fn != d.fn
			for _, a := range d.args {
				nd.args = append(nd.args, f(a))
				ch = ch || f(a) != a
			}
			nf.defers = append(nf.defers, nd)
		}
		if !ch {
			return fr
		}
		return &nf
	}
	n.fr = fix(st.fr)
	if n.fr == st.fr && st.fr != nil {
		c := *st.fr
		c.regs = cp(st.fr.regs)
		c.defers = append([]deferred(nil), st.fr.defers...)
		n.fr = &c
	}
	n.heap = make(map[*Term]*Term, len(st.heap))
	for p, v := range st.heap {
		n.heap[f(p)] = f(v)
	}
	n.ver = make(map[string]*Term, len(st.ver))
	for k, v := range st.ver {
		n.ver[k] = f(v)
	}
	n.verAll = f(st.verAll)
	n.hav = make(map[*Term]*Term, len(st.hav))
	for p, v := range st.hav {
		n.hav[f(p)] = f(v)
	}
	n.esc = make(map[*Term]bool, len(st.esc))
	for p := range st.esc {
		n.esc[f(p)] = true
	}
	n.clo = nil
	n.ints = make(map[*Term]IntSet, len(st.ints))
	for t, s := range st.ints {
		n.ints[f(t)] = s
	}
	n.dbm = make(map[[2]*Term]int64, len(st.dbm))
	for k, c := range st.dbm {
		n.dbm[[2]*Term{f(k[0]), f(k[1])}] = c
	}
	n.nils = make(map[*Term]bool, len(st.nils))
	for t, v := range st.nils {
		n.nils[f(t)] = v
	}
	n.dyn = make(map[*Term]DynFact, len(st.dyn))
	for t, v := range st.dyn {
		n.dyn[f(t)] = v
	}
	n.bools = make(map[*Term]bool, len(st.bools))
	for t, v := range st.bools {
		n.bools[f(t)] = v
	}
	n.strs = make(map[*Term]*Term, len(st.strs))
	for t, v := range st.strs {
		n.strs[f(t)] = v
	}
	n.ghost = make(map[string]*Term, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = f(v)
	}
	n.occ = cp(st.occ)
	n.trace = f(st.trace)
	n.panick = f(st.panick)
	return &n
}

func (st *State) allTerms(f func(*Term)) {
	seen := map[*Term]bool{}
	w := func(t *Term) { walkTerm(t, seen, f) }
	for fr := st.fr; fr != nil; fr = fr.parent {
		for _, t := range fr.regs {
			w(t)
		}
		for _, t := range fr.args {
			w(t)
		}
		for _, d := range fr.defers {
			w(d.fn)
			for _, a := range d.args {
				w(a)
			}
		}
	}
	for p, v := range st.heap {
		w(p)
		w(v)
	}
	for _, v := range st.ver {
		w(v)
	}
	w(st.verAll)
	for _, v := range st.hav {
		w(v)
	}
	for t := range st.ints {
		w(t)
	}
	for k := range st.dbm {
		w(k[0])
		w(k[1])
	}
	for t := range st.nils {
		w(t)
	}
	for t := range st.dyn {
		w(t)
	}
	for t := range st.bools {
		w(t)
	}
	for t := range st.strs {
		w(t)
	}
	for _, v := range st.ghost {
		w(v)
	}
	w(st.trace)
	w(st.panick)
}

func phiPrefix(name string) string { return "φ" + name + "." }

// renamePhis renames the join symbols of name that occur in st, so that a new
// join at the same point can use their names.
func (e *Eng) renamePhis(st *State, name string) *State {
	pre := phiPrefix(name)
	var found []*Term
	taken := map[string]bool{}
	st.allTerms(func(t *Term) {
		if t.kind != KSym && t.kind != KAlloc {
			return
		}
		if strings.HasPrefix(t.op, pre) {
			found = append(found, t)
		}
		taken[t.op] = true
	})
	if len(found) == 0 {
		return st
	}
	sort.Slice(found, func(i, j int) bool { return found[i].op < found[j].op })
	m := map[*Term]*Term{}
	for _, t := range found {
		n := ""
		for k := 0; ; k++ {
			n = fmt.Sprintf("old%d:%s", k, t.op)
			if !taken[n] {
				break
			}
		}
		taken[n] = true
		m[t] = mk(Term{kind: t.kind, op: n, typ: t.typ})
	}
	return st.mapTerms(m)
}

// ---------------------------------------------------------------------------
// keys and signatures

// stateKey partitions the states at a program point.
func (e *Eng) stateKey(st *State, coarse bool) string {
	var sb strings.Builder
	if st.fr != nil {
		fmt.Fprintf(&sb, "t%d|d%d|", st.trace.id, len(st.fr.defers))
	}
	if st.panick != nil {
		fmt.Fprintf(&sb, "p%v|", st.recov)
	}
	if e.hooks.Key != nil {
		sb.WriteString(e.hooks.Key(st))
	}
	if r := st.ghost["$ret"]; r != nil {
		sb.WriteString("|r")
		for _, a := range r.args {
			if e.coarseRet && a.kind == KIface {
				sb.WriteString("i")
			} else {
				sb.WriteString(shape(st, a))
			}
		}
	}
	if r := st.ghost["$panic"]; r != nil {
		sb.WriteString("|P" + shape(st, r))
	}
	if coarse {
		return sb.String()
	}
	if st.fr == nil {
		return sb.String()
	}
	fi := infoOf(st.fr.fn)
	var rs []string
	for v, t := range st.fr.regs {
		if b, ok := t.isBool(); ok {
			if _, isPhi := v.(*ssa.Phi); isPhi {
				rs = append(rs, fmt.Sprintf("%d=%v", fi.regNum[v], b))
			}
		}
	}
	for p, v := range st.heap {
		if b, ok := v.isBool(); ok && !hasSymIndex(p) {
			rs = append(rs, fmt.Sprintf("c%d=%v", p.id, b))
		}
	}
	sort.Strings(rs)
	sb.WriteString("|" + strings.Join(rs, ","))
	return sb.String()
}

func shape(st *State, t *Term) string {
	switch t.kind {
	case KConst:
		if t.cv.Kind() == constant.String {
			if s, _ := t.isStr(); s == "" {
				return "''"
			}
			return "s"
		}
		return t.cv.ExactString()
	case KNil:
		return "nil"
	case KIface:
		return "i" + strconv.Itoa(typeID(t.typ)) + shape(st, t.args[0])
	case KTuple:
		s := "("
		for _, a := range t.args {
			s += shape(st, a) + ","
		}
		return s + ")"
	}
	if isPtrLike(t) {
		if n, k := st.isNil(t); k {
			return fmt.Sprint("n", n)
		}
	}
	return "?"
}

var frameSigs = map[*Frame]string{}

func frameSig(f *Frame, cache bool) string {
	if f == nil {
		return ""
	}
	if s, ok := frameSigs[f]; ok && cache {
		return s
	}
	fi := infoOf(f.fn)
	type rv struct{ n, id int }
	var rs []rv
	for v, t := range f.regs {
		rs = append(rs, rv{fi.regNum[v], t.id})
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].n < rs[j].n })
	var sb strings.Builder
	sb.WriteString(f.ctx)
	for _, r := range rs {
		fmt.Fprintf(&sb, ",%d:%d", r.n, r.id)
	}
	for _, d := range f.defers {
		fmt.Fprintf(&sb, ";d%d", d.fn.id)
		for _, a := range d.args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	sb.WriteString("|" + frameSig(f.parent, true))
	if cache {
		frameSigs[f] = sb.String()
	}
	return sb.String()
}

func sortedIDs[V any](m map[*Term]V, f func(*Term, V) string) string {
	ks := make([]*Term, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(strconv.Itoa(k.id))
		sb.WriteByte(':')
		sb.WriteString(f(k, m[k]))
		sb.WriteByte(',')
	}
	return sb.String()
}

// coreSig is a signature of everything except the integer facts.
func coreSig(st *State) string {
	var sb strings.Builder
	sb.WriteString(frameSig(st.fr, false))
	tid := func(_ *Term, v *Term) string { return strconv.Itoa(v.id) }
	tb := func(_ *Term, v bool) string { return strconv.FormatBool(v) }
	sb.WriteString("\nH" + sortedIDs(st.heap, tid))
	sb.WriteString("\nV" + strconv.Itoa(st.verAll.id) + sortedIDs(st.hav, tid))
	sb.WriteString(strKeys(st.ver))
	sb.WriteString("\nN" + sortedIDs(st.nils, tb))
	sb.WriteString("\nB" + sortedIDs(st.bools, tb))
	sb.WriteString("\nS" + sortedIDs(st.strs, tid))
	sb.WriteString("\nE" + sortedIDs(st.esc, tb))
	sb.WriteString("\nY" + sortedIDs(st.dyn, func(_ *Term, d DynFact) string { return fmt.Sprint(d.in == nil, d.in, d.out) }))
	sb.WriteString("\nG" + strKeys(st.ghost))
	fmt.Fprintf(&sb, "\nT%d,%v,%v", st.trace.id, st.panick, st.recov)
	var ds []string
	for k, c := range st.dbm {
		ds = append(ds, fmt.Sprintf("%d-%d<=%d", k[0].id, k[1].id, c))
	}
	sort.Strings(ds)
	sb.WriteString("\nD" + strings.Join(ds, ","))
	return sb.String()
}

func strKeys(m map[string]*Term) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+strconv.Itoa(v.id))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// ---------------------------------------------------------------------------
// merging

// exactMerge merges states that differ in the values of at most one integer.
func (e *Eng) exactMerge(sts []*State) []*State {
	groups := map[string][]*State{}
	var order []string
	for _, st := range sts {
		s := coreSig(st)
		if _, ok := groups[s]; !ok {
			order = append(order, s)
		}
		groups[s] = append(groups[s], st)
	}
	var out []*State
	for _, s := range order {
		g := groups[s]
		for ch := true; ch && len(g) > 1; {
			ch = false
		pairs:
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if m, ok := mergeInts(g[i], g[j]); ok {
						g[i] = m
						g = append(g[:j], g[j+1:]...)
						ch = true
						break pairs
					}
				}
			}
		}
		out = append(out, g...)
	}
	return out
}

func mergeInts(a, b *State) (*State, bool) {
	var diff *Term
	for _, m := range []map[*Term]IntSet{a.ints, b.ints} {
		for t := range m {
			if t == diff || a.set(t).equal(b.set(t)) {
				continue
			}
			if diff != nil {
				return nil, false
			}
			diff = t
		}
	}
	n := a.clone()
	if diff != nil {
		n.ints[diff] = a.set(diff).union(b.set(diff))
		n.clo = nil
		n.noteMerge(diff)
	}
	for k, v := range b.occ {
		if n.occ[k] < v {
			n.occ[k] = v
		}
	}
	return n, true
}

// noteMerge is called when facts about t were weakened.
func (st *State) noteMerge(t *Term) {}

// mergeStates reduces the number of states at one program point.
func (e *Eng) mergeStates(sts []*State, name string, max int) []*State {
	if len(sts) < 2 {
		return sts
	}
	for _, st := range sts {
		if e.hooks.Norm != nil {
			e.hooks.Norm(st)
		}
		e.gc(st)
	}
	sts = e.exactMerge(sts)
	for _, coarse := range []bool{false, true} {
		if len(sts) <= max {
			return sts
		}
		groups := map[string]*State{}
		var order []string
		for i, st := range sts {
			st = e.renamePhis(st, name)
			sts[i] = st
			k := e.stateKey(st, coarse)
			o := groups[k]
			if o == nil {
				groups[k] = st
				order = append(order, k)
				continue
			}
			n, _ := e.join(name, o, st, false)
			groups[k] = n
		}
		sts = sts[:0]
		for _, k := range order {
			sts = append(sts, groups[k])
		}
	}
	return sts
}

// mergeOutcomes reduces the outcomes of a call.
func (e *Eng) mergeOutcomes(outs []Outcome, name string) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	var sts []*State
	for _, o := range outs {
		st := o.st.clone()
		if o.panic != nil {
			st.ghost["$panic"] = o.panic
		} else {
			st.ghost["$ret"] = o.ret
		}
		sts = append(sts, st)
	}
	if sts[0].fr == nil {
		for _, st := range sts {
			e.gc(st)
		}
		return unghost(e.exactMergeNoFrame(sts))
	}
	return unghost(e.mergeStates(sts, name, e.maxStates))
}

func (e *Eng) exactMergeNoFrame(sts []*State) []*State { return e.exactMerge(sts) }

func unghost(sts []*State) []Outcome {
	var res []Outcome
	for _, st := range sts {
		o := Outcome{st: st, ret: st.ghost["$ret"], panic: st.ghost["$panic"]}
		delete(st.ghost, "$ret")
		delete(st.ghost, "$panic")
		res = append(res, o)
	}
	return res
}

// ---------------------------------------------------------------------------
// joining two states

type joiner struct {
	whys     string // why the result is weaker
	e        *Eng
	name     string
	pre      string
	o, n     *State
	out      *State
	memo     map[[2]*Term]*Term
	so, sn   map[*Term]*Term // joined symbol -> term on each side
	order    []*Term
	oldPhis  map[*Term]bool
	names    map[string]bool
	fwd, rev map[*Term]*Term
	aO, aN   map[*Term]bool
	queue    [][3]*Term
	lostO    []*Term
	lostN    []*Term
	memoO    map[*Term]*Term
	memoN    map[*Term]*Term
}

func (e *Eng) join(name string, o, n *State, widen bool) (*State, bool) {
	e.joins++
	e.gc(n)
	j := &joiner{e: e, name: name, pre: phiPrefix(name), o: o, n: n,
		memo: map[[2]*Term]*Term{}, so: map[*Term]*Term{}, sn: map[*Term]*Term{},
		oldPhis: map[*Term]bool{}, names: map[string]bool{}, fwd: map[*Term]*Term{}, rev: map[*Term]*Term{},
		aO: map[*Term]bool{}, aN: map[*Term]bool{}, memoO: map[*Term]*Term{}, memoN: map[*Term]*Term{}}
	o.allTerms(func(t *Term) {
		if t.kind == KSym || t.kind == KAlloc {
			if strings.HasPrefix(t.op, j.pre) {
				j.oldPhis[t] = true
				j.names[t.op] = true
			}
			if t.kind == KAlloc {
				j.aO[t] = true
			}
		}
	})
	n.allTerms(func(t *Term) {
		if t.kind == KAlloc {
			j.aN[t] = true
		}
	})
	out := newState()
	j.out = out
	if joinSpy != nil {
		joinSpy(j)
	}
	// tags first: they take part in the naming of loaded values
	out.verAll = j.join(o.verAll, n.verAll, "tag", types.Typ[types.Int])
	for _, k := range unionKeys(o.ver, n.ver) {
		a, b := o.ver[k], n.ver[k]
		if a == nil {
			a = o.verAll
		}
		if b == nil {
			b = n.verAll
		}
		out.ver[k] = j.join(a, b, "tag."+k, types.Typ[types.Int])
	}
	out.fr = j.frame(o.fr, n.fr, "", true)
	for _, k := range unionKeys(o.ghost, n.ghost) {
		a, b := o.ghost[k], n.ghost[k]
		if a == nil || b == nil {
			continue
		}
		out.ghost[k] = j.join(a, b, "ghost."+k, e.argTypes[k])
	}
	out.trace = o.trace
	if o.trace != n.trace {
		out.trace = j.join(o.trace, n.trace, "trace", nil)
	}
	out.panick, out.recov = o.panick, o.recov
	if o.panick != n.panick && o.panick != nil && n.panick != nil {
		out.panick = j.join(o.panick, n.panick, "panic", nil)
	}
	// heap cells with fixed locations
	type cell struct {
		p *Term
		s string
	}
	var cells []cell
	done := map[*Term]bool{}
	for _, h := range []map[*Term]*Term{o.heap, n.heap} {
		for p := range h {
			if done[p] {
				continue
			}
			done[p] = true
			if hasSymIndex(p) {
				if o.heap[p] == nil || n.heap[p] == nil {
					continue
				}
			}
			r := root(p)
			if r.kind == KAlloc && !(j.aO[r] && j.aN[r]) {
				continue // handled when the objects are paired
			}
			cells = append(cells, cell{p, p.String()})
		}
	}
	sort.Slice(cells, func(i, k int) bool {
		if cells[i].s != cells[k].s {
			return cells[i].s < cells[k].s
		}
		return cells[i].p.id < cells[k].p.id
	})
	for _, c := range cells {
		a, ok1 := j.cellVal(o, c.p)
		b, ok2 := j.cellVal(n, c.p)
		if !ok1 || !ok2 {
			continue
		}
		v := j.join(a, b, c.s, deref2(c.p.typ))
		out.heap[c.p] = v
	}
	for len(j.queue) > 0 {
		q := j.queue[0]
		j.queue = j.queue[1:]
		j.object(q[0], q[1], q[2])
	}
	// identical objects
	for a := range j.aO {
		if !j.aN[a] {
			continue
		}
		j.objTag(a, a, a)
	}
	j.escapes(o, j.lostO, j.fwd)
	j.escapes(n, j.lostN, j.rev)
	for k, v := range o.occ {
		out.occ[k] = v
	}
	for k, v := range n.occ {
		if out.occ[k] < v {
			out.occ[k] = v
		}
	}
	j.facts(widen)
	e.gc(out)
	if !j.changed() {
		return o, false
	}
	return out, true
}

// escapes marks the objects that the symbols standing for lost values may
// point to.
func (j *joiner) escapes(st *State, lost []*Term, pair map[*Term]*Term) {
	t := State{heap: st.heap, esc: map[*Term]bool{}}
	t.escape(lost...)
	for a := range t.esc {
		if c := pair[a]; c != nil {
			a = c
		}
		j.out.escape(a)
	}
}

func deref2(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return deref(t)
}

func unionKeys(a, b map[string]*Term) []string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func (j *joiner) cellVal(st *State, p *Term) (*Term, bool) {
	if v, ok := st.heap[p]; ok {
		return v, true
	}
	if p.kind == KOp { // pseudo cells have no default
		v, ok := baseHeap[p]
		return v, ok
	}
	return st.load(p), true
}

func (j *joiner) objTag(a, b, c *Term) {
	ta, tb := j.o.hav[a], j.n.hav[b]
	if ta != nil || tb != nil {
		if ta == nil {
			ta = tUnit
		}
		if tb == nil {
			tb = tUnit
		}
		j.out.hav[c] = j.join(ta, tb, "hav."+c.op, types.Typ[types.Int])
	}
	if j.o.esc[a] || j.n.esc[b] {
		j.out.esc[c] = true
	}
}

// object joins the cells of the paired objects a and b into those of c.
func (j *joiner) object(a, b, c *Term) {
	j.objTag(a, b, c)
	paths := map[*Term]bool{}
	toC := func(from *Term, h map[*Term]*Term) {
		for p := range h {
			if root(p) == from {
				paths[subst(p, map[*Term]*Term{from: c}, map[*Term]*Term{})] = true
			}
		}
	}
	toC(a, j.o.heap)
	toC(b, j.n.heap)
	var ps []*Term
	for p := range paths {
		if !hasSymIndex(p) {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, k int) bool { return ps[i].String() < ps[k].String() })
	for _, p := range ps {
		va, ok1 := j.cellVal(j.o, subst(p, map[*Term]*Term{c: a}, map[*Term]*Term{}))
		vb, ok2 := j.cellVal(j.n, subst(p, map[*Term]*Term{c: b}, map[*Term]*Term{}))
		if ok1 && ok2 {
			j.out.heap[p] = j.join(va, vb, p.String(), deref2(p.typ))
		}
	}
}

func (j *joiner) frame(a, b *Frame, loc string, top bool) *Frame {
	if a == b && !top {
		return a
	}
	if a == nil || b == nil {
		if a != b {
			j.e.giveUp("joining states of different activations")
		}
		return nil
	}
	if a.fn != b.fn || a.ctx != b.ctx || len(a.defers) != len(b.defers) {
		j.e.giveUp("joining states of different activations (%s, %s)", a.fn, b.fn)
	}
	nf := *a
	nf.regs = map[ssa.Value]*Term{}
	fi := infoOf(a.fn)
	var vs []ssa.Value
	for v := range a.regs {
		if _, ok := b.regs[v]; ok {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, k int) bool { return fi.regNum[vs[i]] < fi.regNum[vs[k]] })
	for _, v := range vs {
		nf.regs[v] = j.join(a.regs[v], b.regs[v], fmt.Sprintf("%sr%d", loc, fi.regNum[v]), v.Type())
	}
	nf.args = make([]*Term, len(a.args))
	for i := range a.args {
		nf.args[i] = j.join(a.args[i], b.args[i], fmt.Sprintf("%sa%d", loc, i), nil)
	}
	nf.defers = nil
	for i, d := range a.defers {
		nd := deferred{inst: d.inst, fn: j.join(d.fn, b.defers[i].fn, fmt.Sprintf("%sd%d", loc, i), nil)}
		for k := range d.args {
			nd.args = append(nd.args, j.join(d.args[k], b.defers[i].args[k], fmt.Sprintf("%sd%d.%d", loc, i, k), nil))
		}
		nf.defers = append(nf.defers, nd)
	}
	nf.parent = j.frame(a.parent, b.parent, loc+"^", false)
	return &nf
}

var structural = map[string]bool{"sub": true, "mapobj": true, "sl": true, "init": true, "len": true, "unbox": true, "index": true,
	"slice": true, "str": true, "bytes": true, "mapget": true, "maphas": true, "fld": true, "runeat": true, "cap": true, "bytestr": true, "builder": true, "filepos": true, "runestr": true, "toklit": true, "tokpos": true}

func (j *joiner) join(a, b *Term, loc string, typ types.Type) *Term {
	if a == b {
		return a
	}
	k := [2]*Term{a, b}
	if r, ok := j.memo[k]; ok {
		return r
	}
	r := j.join1(a, b, loc, typ)
	j.memo[k] = r
	return r
}

func (j *joiner) join1(a, b *Term, loc string, typ types.Type) *Term {
	parts := func() []*Term {
		xs := make([]*Term, len(a.args))
		for i := range xs {
			var t types.Type
			xs[i] = j.join(a.args[i], b.args[i], fmt.Sprintf("%s.%d", loc, i), t)
		}
		return xs
	}
	if a.kind == b.kind && len(a.args) == len(b.args) {
		switch a.kind {
		case KIface:
			if types.Identical(a.typ, b.typ) {
				return mkIface(a.typ, j.join(a.args[0], b.args[0], loc+".v", a.typ))
			}
		case KAgg:
			if types.Identical(a.typ, b.typ) {
				return mkAgg(a.typ, parts())
			}
		case KTuple:
			return mkTuple(parts()...)
		case KFn:
			if a.fn == b.fn {
				return mkFn(a.fn, parts())
			}
		case KField:
			if a.off == b.off {
				x := j.join(a.args[0], b.args[0], loc+".p", a.args[0].typ)
				if derefStruct(x.typ) != nil {
					return mkField(x, int(a.off))
				}
			}
		case KLin:
			if a.off == b.off {
				return mkLin(j.join(a.args[0], b.args[0], loc+".l", a.args[0].typ), a.off)
			}
		case KOp:
			if a.op == b.op && (structural[a.op] || strings.HasPrefix(a.op, "node:")) && (a.typ == nil) == (b.typ == nil) && (a.typ == nil || types.Identical(a.typ, b.typ)) && depth(a) < 12 && depth(b) < 12 {
				return mkOp(a.op, a.typ, parts()...)
			}
		case KAlloc:
			if types.Identical(a.typ, b.typ) && !j.aN[a] && !j.aO[b] && j.fwd[a] == nil && j.rev[b] == nil && !baseObjs[a] && !baseObjs[b] {
				c := a
				if !j.oldPhis[a] || j.so[a] != nil {
					c = mk(Term{kind: KAlloc, op: j.fresh(loc), typ: a.typ})
				}
				j.fwd[a], j.rev[b] = c, c
				j.define(c, a, b)
				j.queue = append(j.queue, [3]*Term{a, b, c})
				return c
			}
		}
	}
	// the whole of something and a part of it
	if b.isOp("slice") && b.args[0] == a {
		return mkOp("slice", b.typ, a, j.join(tZero, b.args[1], loc+".1", nil), j.join(j.o.length(a), b.args[2], loc+".2", nil))
	}
	if a.isOp("slice") && a.args[0] == b {
		return mkOp("slice", a.typ, b, j.join(a.args[1], tZero, loc+".1", nil), j.join(a.args[2], j.n.length(b), loc+".2", nil))
	}
	// a new symbol for either value
	var s *Term
	if a.kind == KSym && j.oldPhis[a] && j.so[a] == nil {
		s = a
	} else {
		if typ == nil {
			typ = a.typ
			if typ == nil {
				typ = b.typ
			}
			if a.kind == KIface || b.kind == KIface {
				typ = types.NewInterfaceType(nil, nil)
			}
			if typ != nil && isIntType(typ) && b.typ != nil && isIntType(b.typ) && b.kind != KConst && !typeSet(b.typ).subsetOf(typeSet(typ)) {
				typ = b.typ
				if !typeSet(a.typ).subsetOf(typeSet(typ)) {
					typ = types.Typ[types.Int]
				}
			}
			if a.kind == KConst {
				switch a.cv.Kind() {
				case constant.Int:
					typ = types.Typ[types.Int]
					if b.kind != KConst && b.typ != nil {
						typ = b.typ
					}
				case constant.String:
					typ = types.Typ[types.String]
				case constant.Bool:
					typ = types.Typ[types.Bool]
				}
			}
		}
		s = mkSym(j.fresh(loc), typ)
	}
	j.define(s, a, b)
	// objects that were paired keep their cells under the joined name; others
	// become reachable only through unknown values
	j.lostO = append(j.lostO, a)
	j.lostN = append(j.lostN, b)
	return s
}

func depth(t *Term) int {
	d := 0
	for _, a := range t.args {
		if x := depth(a); x > d {
			d = x
		}
		if d > 20 {
			return d
		}
	}
	return d + 1
}

func (j *joiner) fresh(loc string) string {
	n := j.pre + loc
	for j.names[n] {
		n += "'"
	}
	j.names[n] = true
	return n
}

func (j *joiner) define(c, a, b *Term) {
	j.so[c], j.sn[c] = a, b
	j.order = append(j.order, c)
}

// eval maps a joined term to its value on one side.
func (j *joiner) eval(c *Term, st *State, side, memo map[*Term]*Term) *Term {
	if !c.hasSym {
		return c
	}
	if r, ok := side[c]; ok {
		return r
	}
	if c.kind == KSym || c.kind == KAlloc {
		return c
	}
	if r, ok := memo[c]; ok {
		return r
	}
	na := make([]*Term, len(c.args))
	ch := false
	for i, a := range c.args {
		na[i] = j.eval(a, st, side, memo)
		ch = ch || na[i] != a
	}
	r := c
	switch {
	case c.isOp("len"):
		r = st.length(na[0])
	case c.isOp("sub"):
		r = st.sub(na[0], na[1])
	case c.isOp("init") && j.out.tag(c.args[0]) == c.args[1] && deref2(na[0].typ) != nil:
		r = st.load(na[0])
	case c.isOp("eq"):
		r = mkEq(na[0], na[1])
	case c.isOp("index") && isStrT(na[0]):
		r = st.strAt(na[0], na[1])
	case c.isOp("unbox") && na[0].kind == KIface:
		r = na[0].args[0]
	case ch:
		r = rebuild(c, na)
	}
	memo[c] = r
	return r
}

// isLen holds for lengths, and for indices kept in a list, whose relations to
// loop counters matter even where intervals imply them at first.
func isLen(t *Term) bool {
	return t.isOp("len") || t.isOp("sub") || t.isOp("init") && t.args[0].kind == KElem && t.typ != nil && isBasic(t.typ, types.Int)
}

func (j *joiner) facts(widen bool) {
	o, n, out := j.o, j.n, j.out
	inv := func(side map[*Term]*Term) (map[*Term]*Term, map[*Term][]*Term) {
		first := map[*Term]*Term{}
		all := map[*Term][]*Term{}
		for _, c := range j.order {
			t := side[c]
			if t.kind == KConst || t.kind == KNil {
				continue
			}
			if first[t] == nil {
				first[t] = c
			}
			all[t] = append(all[t], c)
		}
		return first, all
	}
	fo, ao := inv(j.so)
	fn, an := inv(j.sn)
	mo, mn := map[*Term]*Term{}, map[*Term]*Term{}
	evO := func(c *Term) *Term { return j.eval(c, o, j.so, j.memoO) }
	evN := func(c *Term) *Term { return j.eval(c, n, j.sn, j.memoN) }

	// what is live in the joined state
	collect := func(f func(add func(t *Term))) []*Term {
		set := map[*Term]bool{}
		f(func(t *Term) { set[t] = true })
		var xs []*Term
		for t := range set {
			xs = append(xs, t)
		}
		sort.Slice(xs, func(i, k int) bool { return xs[i].id < xs[k].id })
		return xs
	}
	cands := func(add func(t *Term), t *Term, isNew bool) {
		add(t)
		if isNew {
			add(subst(t, fn, mn))
			for _, c := range an[t] {
				add(c)
			}
		} else {
			add(subst(t, fo, mo))
			for _, c := range ao[t] {
				add(c)
			}
		}
	}
	// dynamic types and nilness
	for _, c := range collect(func(add func(*Term)) {
		for t := range o.nils {
			cands(add, t, false)
		}
		for t := range n.nils {
			cands(add, t, true)
		}
		for _, c := range j.order {
			if c.kind == KSym && c.typ != nil && isPtrLike(c) {
				add(c)
			}
		}
	}) {
		if _, known := out.isNil(c); known {
			continue
		}
		a, ka := o.isNil(evO(c))
		b, kb := n.isNil(evN(c))
		if ka && kb && a == b {
			out.nils[c] = a
		}
	}
	for _, c := range collect(func(add func(*Term)) {
		for t := range o.dyn {
			cands(add, t, false)
		}
		for t := range n.dyn {
			cands(add, t, true)
		}
		for _, c := range j.order {
			if c.kind == KSym && c.typ != nil {
				if _, ok := c.typ.Underlying().(*types.Interface); ok {
					add(c)
				}
			}
		}
	}) {
		if c.kind == KIface {
			continue
		}
		a, b := dynFact(o, evO(c)), dynFact(n, evN(c))
		var d DynFact
		switch {
		case a.in != nil && b.in != nil:
			d.in = []int{}
			for _, x := range a.in {
				d.in = insSorted(d.in, x)
			}
			for _, x := range b.in {
				d.in = insSorted(d.in, x)
			}
			if len(d.in) == 0 {
				continue
			}
		case a.in == nil && b.in == nil:
			for _, x := range a.out {
				if hasInt(b.out, x) {
					d.out = append(d.out, x)
				}
			}
		case a.in != nil:
			for _, x := range b.out {
				if !hasInt(a.in, x) {
					d.out = append(d.out, x)
				}
			}
		default:
			for _, x := range a.out {
				if !hasInt(b.in, x) {
					d.out = append(d.out, x)
				}
			}
		}
		if d.in != nil || len(d.out) > 0 {
			out.dyn[c] = d
		}
	}
	// constant strings
	for _, c := range collect(func(add func(*Term)) {
		for t := range o.strs {
			cands(add, t, false)
		}
		for t := range n.strs {
			cands(add, t, true)
		}
	}) {
		if c.kind == KConst {
			continue
		}
		a, oka := o.strConst(evO(c))
		b, okb := n.strConst(evN(c))
		if oka && okb && a == b {
			out.strs[c] = cStr(a)
		}
	}
	// integers
	atoms := collect(func(add0 func(*Term)) {
		add := func(t *Term) {
			b, _ := linParts(t)
			if b != nil && isInt(b) {
				add0(b)
			}
		}
		for t := range o.ints {
			cands(add, t, false)
		}
		for t := range n.ints {
			cands(add, t, true)
		}
		for k := range o.dbm {
			cands(add, k[0], false)
			cands(add, k[1], false)
		}
		for k := range n.dbm {
			cands(add, k[0], true)
			cands(add, k[1], true)
		}
		for _, c := range j.order {
			if c.kind != KSym || c.typ == nil {
				continue
			}
			if isIntType(c.typ) {
				if !strings.HasPrefix(c.op, j.pre+"tag") && !strings.HasPrefix(c.op, j.pre+"hav") {
					add(c)
				}
				continue
			}
			switch u := c.typ.Underlying().(type) {
			case *types.Slice:
				add(mkOp("len", types.Typ[types.Int], c))
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					add(mkOp("len", types.Typ[types.Int], c))
				}
			}
		}
	})
	if len(atoms) == 0 {
		goto bools
	}
	{
		if o.clo == nil {
			o.clo = newClosure(o)
		}
		if n.clo == nil {
			n.clo = newClosure(n)
		}
		co, cn := o.clo, n.clo
		rel := map[*Term]bool{}
		for k := range o.dbm {
			rel[k[0]], rel[k[1]] = true, true
		}
		for k := range n.dbm {
			rel[k[0]], rel[k[1]] = true, true
		}
		po, pn := make([]*Term, len(atoms)), make([]*Term, len(atoms))
		for i, c := range atoms {
			po[i], pn[i] = evO(c), evN(c)
			if !isInt(po[i]) || !isInt(pn[i]) {
				po[i] = nil
				continue
			}
			so := o.set(po[i]).inter(co.interval(o, po[i]))
			sn := n.set(pn[i]).inter(cn.interval(n, pn[i]))
			u := so.union(sn)
			if widen && po[i] == c {
				if s := o.set(c); !s.equal(so) {
					so, u = s, s.union(sn) // tightening would undo the widening
				}
			}
			if widen && po[i] == c && !sn.subsetOf(so) && !so.empty() {
				u = widenSet(so, u, isChar(c), isEnum(c))
			}
			u = u.inter(defaultSet(c))
			if u.empty() {
				u = defaultSet(c)
			}
			if !u.equal(defaultSet(c)) {
				out.ints[c] = u
				out.clo = nil
			}
		}
		for i, x := range atoms {
			if po[i] == nil {
				continue
			}
			for k, y := range atoms {
				if i == k || po[k] == nil {
					continue
				}
				if isChar(x) && !rel[x] || isChar(y) && !rel[y] || isEnum(x) || isEnum(y) {
					continue
				}
				d1 := co.dist(o, po[i], po[k])
				if d1 >= inf/2 {
					continue
				}
				d2 := cn.dist(n, pn[i], pn[k])
				if d2 >= inf/2 {
					continue
				}
				if widen && j.e.strong {
					bx, kx := linParts(po[i])
					by, ky := linParts(po[k])
					c, ok := o.dbm[[2]*Term{bx, by}]
					if !ok {
						continue
					}
					d1 = c + kx - ky
				}
				d := max(d1, d2)
				same := po[i] == x && pn[i] == x && po[k] == y && pn[k] == y
				if !same && (po[i].kind != KConst || po[k].kind != KConst || pn[i].kind != KConst || pn[k].kind != KConst) &&
					byRange(o, po[i], po[k], d1) && byRange(n, pn[i], pn[k], d2) && (!isLen(x) && !isLen(y) || d > 0 || d < -1 || byRange(out, x, y, d)) {
					continue
				}
				if d > 1<<16 {
					continue
				}
				if widen && (j.e.strong || po[i] == x && po[k] == y) && d2 > d1 {
					switch {
					case d <= -1:
						d = -1
					case d <= 0:
						d = 0
					case d <= 1:
						d = 1
					default:
						continue
					}
				}
				if ux, ly := upper(out, x), lower(out, y); ux < inf && ly > -inf && d >= ux-ly {
					continue
				}
				out.dbm[[2]*Term{x, y}] = d
				out.clo = nil
			}
		}
		out.reduceDBM()
	}
bools:
	for _, c := range collect(func(add func(*Term)) {
		for t := range o.bools {
			cands(add, t, false)
		}
		for t := range n.bools {
			cands(add, t, true)
		}
		for _, c := range j.order {
			if c.kind == KSym && c.typ != nil {
				if b, ok := c.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
					add(c)
				}
			}
		}
	}) {
		if c.kind == KConst {
			continue
		}
		if _, known := out.decide(c); known {
			continue
		}
		a, ka := o.decide(evO(c))
		b, kb := n.decide(evN(c))
		if ka && kb && a == b {
			out.bools[c] = a
		}
	}
}

func dynFact(st *State, t *Term) DynFact {
	if t.kind == KIface {
		return DynFact{in: []int{typeID(t.typ)}}
	}
	if n, k := st.isNil(t); k && n {
		return DynFact{in: []int{}}
	}
	return st.dyn[t]
}

// reduceDBM removes bounds that follow from two others.
func (st *State) reduceDBM() {
	if len(st.dbm) < 3 {
		return
	}
	type pr = [2]*Term
	var ks []pr
	nodes := map[*Term]bool{}
	for k := range st.dbm {
		ks = append(ks, k)
		nodes[k[0]], nodes[k[1]] = true, true
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if st.dbm[a] != st.dbm[b] {
			return st.dbm[a] > st.dbm[b]
		}
		if a[0].id != b[0].id {
			return a[0].id < b[0].id
		}
		return a[1].id < b[1].id
	})
	for _, k := range ks {
		c := st.dbm[k]
		for z := range nodes {
			if z == k[0] || z == k[1] {
				continue
			}
			c1, ok1 := st.dbm[pr{k[0], z}]
			c2, ok2 := st.dbm[pr{z, k[1]}]
			if ok1 && ok2 && c1+c2 <= c {
				delete(st.dbm, k)
				break
			}
		}
	}
}

func widenSet(old, u IntSet, char, enum bool) IntSet {
	if enum && old.size() > 1 && len(u) < 40 && u.min() >= -1 && u.max() < 256 {
		return u
	}
	if char && u.subsetOf(runeSet) && u.size() > 64 && len(u) < 40 {
		return u // characters: finitely many classes
	}
	lo, hi := u.min(), u.max()
	if hi > old.max() {
		switch {
		case hi <= 0:
			hi = 0
		case hi <= 1:
			hi = 1
		default:
			hi = maxI
		}
	}
	if lo < old.min() {
		switch {
		case lo >= 1:
			lo = 1
		case lo >= 0:
			lo = 0
		case lo >= -1:
			lo = -1
		default:
			lo = minI
		}
	}
	if lo == u.min() && hi == u.max() {
		// only the inside grew
		return rangeSet(lo, hi)
	}
	return rangeSet(lo, hi)
}

// isChar reports whether t holds a character rather than a count or offset.
func isChar(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int32 || b.Kind() == types.Uint8)
}

// isEnum reports whether t holds a value of an enumeration.
func isEnum(t *Term) bool {
	if t.typ == nil {
		return false
	}
	n, ok := types.Unalias(t.typ).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() != "go/token"
}

// byRange reports whether x - y <= d follows from the ranges of x and y.
func byRange(st *State, x, y *Term, d int64) bool {
	bx, kx := linParts(x)
	by, ky := linParts(y)
	if bx == by {
		return false
	}
	u, l := kx, ky
	if bx != nil {
		if u = upper(st, bx); u >= inf {
			return false
		}
		u += kx
	}
	if by != nil {
		if l = lower(st, by); l <= -inf {
			return false
		}
		l += ky
	}
	return d >= u-l
}

// closure is the shortest-path closure of the difference bounds of a state.
type closure struct {
	idx map[*Term]int
	d   []int64
	n   int
}

func newClosure(st *State) *closure {
	c := &closure{idx: map[*Term]int{tZero: 0}}
	add := func(t *Term) {
		if _, ok := c.idx[t]; !ok {
			c.idx[t] = len(c.idx)
		}
	}
	for k := range st.dbm {
		add(k[0])
		add(k[1])
	}
	n := len(c.idx)
	c.n = n
	c.d = make([]int64, n*n)
	for i := range c.d {
		c.d[i] = inf
	}
	for i := 0; i < n; i++ {
		c.d[i*n+i] = 0
	}
	for k, v := range st.dbm {
		c.d[c.idx[k[0]]*n+c.idx[k[1]]] = v
	}
	for t, i := range c.idx {
		if i == 0 {
			continue
		}
		if u := upper(st, t); u < inf {
			c.d[i*n] = min(c.d[i*n], u)
		}
		if l := lower(st, t); l > -inf {
			c.d[i] = min(c.d[i], -l)
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			a := c.d[i*n+k]
			if a >= inf {
				continue
			}
			for j := 0; j < n; j++ {
				b := c.d[k*n+j]
				if b < inf && a+b < c.d[i*n+j] {
					c.d[i*n+j] = a + b
				}
			}
		}
	}
	return c
}

func (c *closure) base(st *State, x, y *Term) int64 {
	if x == y {
		return 0
	}
	i, ok1 := c.idx[x]
	j, ok2 := c.idx[y]
	if ok1 && ok2 {
		return c.d[i*c.n+j]
	}
	var u, l int64
	if ok1 {
		u = c.d[i*c.n]
	} else {
		u = upper(st, x)
	}
	if ok2 {
		l = c.d[j]
	} else if lo := lower(st, y); lo > -inf {
		l = -lo
	} else {
		l = inf
	}
	if u >= inf || l >= inf {
		return inf
	}
	return u + l
}

func (c *closure) dist(st *State, x, y *Term) int64 {
	bx, kx := linParts(x)
	by, ky := linParts(y)
	if bx == nil {
		bx = tZero
	}
	if by == nil {
		by = tZero
	}
	d := c.base(st, bx, by)
	if d >= inf {
		return inf
	}
	return d + kx - ky
}

func (c *closure) interval(st *State, x *Term) IntSet {
	lo, hi := int64(minI), int64(maxI)
	if d := c.dist(st, x, tZero); d < inf {
		hi = d
	}
	if d := c.dist(st, tZero, x); d < inf {
		lo = -d
	}
	if lo > hi {
		return IntSet{}
	}
	return rangeSet(lo, hi)
}

// changed reports whether the joined state is weaker than the old one.
func (j *joiner) changed() bool {
	o, out := j.o, j.out
	if frameSig(o.fr, false) != frameSig(out.fr, false) {
		j.why("registers")
		return true
	}
	if o.verAll != out.verAll || o.trace != out.trace || o.panick != out.panick {
		j.why("trace or version")
		return true
	}
	for k, v := range o.ghost {
		if out.ghost[k] != v {
			j.why("ghost " + k)
			return true
		}
	}
	for k, v := range out.ver {
		ov := o.ver[k]
		if ov == nil {
			ov = o.verAll
		}
		if ov != v {
			j.why("version " + k)
			return true
		}
	}
	for a, t := range out.hav {
		if o.hav[a] != t {
			j.why("object " + a.op)
			return true
		}
	}
	for a := range out.esc {
		if !o.esc[a] {
			j.why("escape of " + a.op)
			return true
		}
	}
	for p, v := range o.heap {
		w, ok := out.heap[p]
		if !ok && p.kind != KOp {
			w = out.load(p)
		}
		if w != v {
			j.why("cell " + p.String())
			return true
		}
	}
	for p, w := range out.heap {
		v, ok := o.heap[p]
		if !ok && p.kind != KOp {
			v = o.load(p)
		}
		if w != v {
			j.why("cell " + p.String())
			return true
		}
	}
	for t, s := range o.ints {
		if !out.set(t).subsetOf(s) {
			lo, hi := out.bounds(t)
			if !out.set(t).inter(rangeSet(max(lo, minI), min(hi, maxI))).subsetOf(s) {
				j.why("values of " + t.String() + fmt.Sprint(o.set(t), out.set(t), j.n.set(t)))
				return true
			}
		}
	}
	for k, c := range o.dbm {
		if out.baseDist(k[0], k[1]) > c {
			j.why(fmt.Sprintf("bound %s - %s", k[0], k[1]))
			return true
		}
	}
	for t, v := range o.nils {
		if w, k := out.isNil(t); !k || w != v {
			j.why("nilness of " + t.String())
			return true
		}
	}
	for t, v := range o.bools {
		if w, k := out.decide(t); !k || w != v {
			j.why("truth of " + t.String())
			return true
		}
	}
	for t, v := range o.strs {
		if w, ok := out.strConst(t); !ok || cStr(w) != v {
			j.why("string " + t.String())
			return true
		}
	}
	for t, d := range o.dyn {
		w := dynFact(out, t)
		if d.in != nil {
			if w.in == nil {
				j.why("type of " + t.String())
				return true
			}
			for _, x := range w.in {
				if !hasInt(d.in, x) {
					j.why("type of " + t.String())
					return true
				}
			}
			continue
		}
		for _, x := range d.out {
			if w.in != nil && !hasInt(w.in, x) || w.in == nil && hasInt(w.out, x) {
				continue
			}
			j.why("type of " + t.String())
			return true
		}
	}
	return false
}

var joinTrace func(name, what string)

func (j *joiner) why(what string) {
	j.whys = what
	if joinTrace != nil {
		joinTrace(j.name, what)
	}
}
