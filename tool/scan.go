package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ScanRun is one abstract execution of Scan from an invariant state.
type ScanRun struct {
	pre  *State
	st   *State
	ret  *Term // (pos, tok, lit)
	errs *Term // number of errors reported by this call
}

// ScanInfo is the result of analysing the scanner: the states between Scan
// calls and everything a Scan call can do in them.
type ScanInfo struct {
	w        *World
	e        *Eng
	obj      *Term // the Scanner
	src      *Term
	file     *Term
	mode     *Term
	errh     *Term
	initOuts []Outcome
	states   map[string]*State
	runs     []ScanRun
	iters    int
	initErrs int
}

// isField returns the location of a field of the analysed object by name.
func fieldPtr(obj *Term, name string) *Term {
	st := derefStruct(obj.typ)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkField(obj, i)
		}
	}
	// an unexported field under another name
	want, found := privateFields[name], -1
	for i := 0; i < st.NumFields() && want != ""; i++ {
		t := st.Field(i).Type()
		if want[0] == '[' {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				t = sl.Elem()
			} else {
				continue
			}
		}
		if strings.HasSuffix(typeName(t), strings.TrimPrefix(want, "[]")) {
			if found >= 0 {
				return nil
			}
			found = i
		}
	}
	if found >= 0 {
		return mkField(obj, found)
	}
	return nil
}

var privateFields = map[string]string{"parserMode": "parser.Mode", "resolvers": "[]bibtex.Resolver", "renderers": "[]render.NodeRenderer"}

const errCount = "errs"

func (st *State) count(name string) {
	v := st.ghost[name]
	if v == nil {
		v = tZero
	}
	st.ghost[name] = mkLin(v, 1)
}

// smallCells lists constant cells of enumerated types, which partition states.
func smallCells(st *State) string {
	var ks []string
	for p, v := range st.heap {
		if hasSymIndex(p) || p.typ == nil || baseObjs[root(p)] {
			continue
		}
		t := deref(p.typ)
		if t == nil {
			continue
		}
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			continue
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			if v.kind == KConst {
				ks = append(ks, fmt.Sprintf("%d=%s", p.id, v))
			}
		case b.Kind() == types.Int32:
			if v.kind == KConst {
				ks = append(ks, fmt.Sprintf("%d=%s", p.id, v))
			} else if upper(st, v) < 0 {
				ks = append(ks, fmt.Sprintf("%d<0", p.id))
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

// scanHooks models the caller-supplied error handler.
func (si *ScanInfo) hooks() Hooks {
	return Hooks{
		Key: smallCells,
		Call: func(e *Eng, st *State, c *Call) ([]Outcome, bool) {
			if c.fn == nil && c.fnVal == si.errh && c.meth == nil {
				st = st.clone()
				st.count(errCount)
				return []Outcome{{st: st, ret: tUnit}}, true
			}
			return nil, false
		},
	}
}

func newScanInfo(w *World) *ScanInfo {
	e := newEng(w)
	si := &ScanInfo{w: w, e: e, states: map[string]*State{}}
	e.hooks = si.hooks()
	return si
}

// analyse runs Init on a scanner in an arbitrary state and then any number of
// Scan calls.
func (si *ScanInfo) analyse(st *State) {
	w, e := si.w, si.e
	initFn, scanFn := w.fn("scanner", "Scanner.Init"), w.fn("scanner", "Scanner.Scan")
	typ := w.typ("scanner", "Scanner")
	if initFn == nil || scanFn == nil || typ == nil {
		e.giveUp("scanner.Scanner with Init and Scan not found")
	}
	st = st.clone()
	si.obj = mkAlloc("S", typ)
	st.hav[si.obj] = mkSym("before", types.Typ[types.Int])
	ps := initFn.Params
	if len(ps) != 5 {
		e.giveUp("Scanner.Init has %d parameters", len(ps))
	}
	si.file = mkSym("file", ps[1].Type())
	si.src = mkSym("src", ps[2].Type())
	si.errh = mkSym("errh", ps[3].Type())
	si.mode = mkSym("mode", ps[4].Type())
	st.setNil(si.file, false)
	size := mkOp("filesize", types.Typ[types.Int], si.file)
	n := mkOp("len", types.Typ[types.Int], si.src)
	st.addLE(size, n, 0)
	st.addLE(n, size, 0)
	st.ghost[errCount] = tZero
	st.ghost["S"], st.ghost["file"], st.ghost["src"], st.ghost["mode"], st.ghost["errh"] = si.obj, si.file, si.src, si.mode, si.errh
	for _, noHandler := range []bool{false, true} {
		s := st.clone()
		errh := si.errh
		if noHandler {
			errh = tNil
			s.ghost["nohandler"] = tTrue
		} else {
			s.setNil(si.errh, false)
		}
		si.initOuts = append(si.initOuts, e.run(s, initFn, []*Term{si.obj, si.file, si.src, errh, si.mode}, nil, "Init")...)
	}
	add := func(s *State, widen bool) bool {
		s = s.clone()
		s.ghost[errCount] = tZero
		s.fr = driverFrame
		s = e.renamePhis(s, "driver")
		k := e.hooks.Key(s)
		if s.ghost["nohandler"] != nil {
			k = "nohandler " + k
		}
		old := si.states[k]
		if old == nil {
			e.gc(s)
			si.states[k] = s
			return true
		}
		nw, ch := e.join("driver", old, s, widen)
		si.states[k] = nw
		return ch
	}
	for _, o := range si.initOuts {
		if o.panic != nil {
			e.obligeGlobal("panic in Init", initFn, false, "Init can panic although the file size matches: "+o.panic.String())
			continue
		}
		add(o.st, false)
	}
	for si.iters = 0; ; si.iters++ {
		if si.iters > 40 {
			e.giveUp("the scanner states do not stabilise")
		}
		si.runs = nil
		changed := false
		for _, k := range keysOf(si.states) {
			pre := si.states[k]
			s := pre.clone()
			s.fr = nil
			for _, o := range e.run(s, scanFn, []*Term{si.obj}, nil, "Scan") {
				if o.panic != nil {
					e.obligeGlobal("panic in Scan", scanFn, false, "Scan can panic: "+o.panic.String())
					continue
				}
				si.runs = append(si.runs, ScanRun{pre: pre, st: o.st, ret: o.ret, errs: o.st.ghost[errCount]})
			}
		}
		for _, r := range si.runs {
			if add(r.st, si.iters >= 3) {
				changed = true
			}
		}
		if !changed {
			return
		}
	}
}

// driverFrame stands for the caller of the analysed functions.
var driverFrame *Frame

func (e *Eng) obligeGlobal(kind string, fn *ssa.Function, ok bool, detail string) {
	key := kind + "|" + fn.String() + "|" + detail
	if ok {
		key = kind + "|" + fn.String()
	}
	if e.obl[key] == nil {
		e.obl[key] = &Obligation{kind: kind, fn: fn, pos: fn.Pos(), ok: ok, detail: detail, seen: 1}
	}
}
