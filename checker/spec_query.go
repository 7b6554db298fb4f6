package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C12: queries are values ----

func runBuilders(p *Program, r *Result) {
	n, err := p.Named("", "Query")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	s := n.Underlying().(*types.Struct)
	rule := "changes-only-its-field"
	// field -> the parameter it is set from, or -1 for true, -2 for its negation
	for op, sets := range map[string]map[string]int{
		"With": {"index": 1, "indexSelector": 2}, "Filter": {"filterFunc": 1}, "Order": {"orderLessFunc": 1},
		"Reverse": {"reverse": -2}, "Offset": {"offset": 1}, "Limit": {"limit": 1},
		"After": {"afterSelector": 1, "isAfter": -1}, "Intersects": {"intersects": 1},
	} {
		fn := r.anchor(p.Method(n, op))
		if fn == nil {
			continue
		}
		c := calleeName(fn)
		_, ptr := ptrElem(fn.Params[0].Type())
		r.Check(!ptr, rule, c, p.Pos(fn.Pos()), "the call works on the query it is called on, not on a copy")
		if ptr {
			continue
		}
		for f := range sets {
			if fieldIndex(n, f) < 0 {
				r.Fail("unresolved anchor: Query.%s", f)
			}
		}
		for _, q := range r.Paths(p, fn, PathOpt{Spec: &Spec{TrackLists: true}}) {
			tt := q.M.TT
			if !r.PathCheck(q, len(q.Res) == 1, rule, c, q.Pos, "no query is returned") {
				continue
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i).Name()
				got := tt.Fld(q.Res[0], i, s.Field(i).Type())
				old := tt.Fld(q.Params[0], i, s.Field(i).Type())
				from, set := sets[f]
				ok := false
				switch {
				case !set:
					ok = got == old
				case from == -1:
					ok = got == tt.True
				case from == -2:
					ok = got == tt.Not(old)
					for _, v := range []bool{true, false} {
						if q.Is(old, v) && got == tt.boolTerm(!v) {
							ok = true
						}
					}
				case f == "filterFunc":
					ok = got.K == KFunc && len(got.Args) == 1 && got.Args[0] == q.Params[1]
				case f == "intersects":
					ok = sharesNothing(q, got, old, q.Params[1])
				default:
					ok = got == q.Params[from]
				}
				what := "it changes " + f
				if set {
					what = f + " is not what the call asks for"
				}
				r.PathCheck(q, ok, rule, c+": "+f, q.Pos, what)
			}
			for k := range q.St.heap {
				base := k
				for base.K == KFldAddr || base.K == KIdxAddr {
					base = base.Args[0]
				}
				if base.K != KAlloc {
					r.PathCheck(q, false, rule, c, q.Pos, "it writes to memory that other queries use: "+k.String())
				}
			}
		}
	}
	fn := r.anchor(p.Func("", "newQuery"))
	if fn != nil {
		c := calleeName(fn)
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i).Name()
				got := q.M.TT.Fld(q.Res[0], i, s.Field(i).Type())
				ok := true
				switch f {
				case "table":
					ok = got == q.Params[0]
				case "index":
					ok = got == q.Params[1]
				case "indexSelector", "afterSelector":
				case "reverse", "isAfter":
					ok = got == q.M.TT.False || got.K == KZero
				case "offset", "limit":
					ok = got.isInt(0) || got.K == KZero
				default:
					v, k := q.Nil(got)
					ok = k && v || got.K == KZero
				}
				r.PathCheck(q, ok, "starts-plain", c+": "+f, q.Pos, "a new query comes with "+f+" = "+got.String())
			}
		}
	}
	if fn := r.anchor(tableMethod(p, "Query")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{Event: func(n string, _ *ssa.Function) bool { return n == "bond.newQuery" }}) {
			es := q.Filter("newQuery")
			ok := len(es) == 1 && es[0].Args[0] == q.Params[0] && isFieldLoad(es[0].Args[1], q.Params[0], "primaryIndex") && q.Res[0] == es[0].Res
			r.PathCheck(q, ok, "starts-plain", calleeName(fn), q.Pos, "the query is not one of this table by its primary index")
		}
	}
	r.Need("changes-only-its-field", 11*8)
}

// sharesNothing: got is a new list of old's and add's elements, in that order.
func sharesNothing(q *PathRec, got, old, add *Term) bool {
	if got.K != KAcc {
		return false
	}
	base, more, other := false, false, 0
	// a copy first?
	for _, t := range q.St.tups("did:sub") {
		if t.Args[0] != got {
			continue
		}
		switch x := t.Args[1]; {
		case x == add:
			more = true
		case x == old && t.Data == "base":
			other++ // appended to the old list's memory
		case x == old:
			base = true // copied
		case x.K == KApp && x.Op == "slice" && x.Args[0] == old:
			l := q.M.TT.Len(old)
			full := x.Args[2] == l || x.Args[2] == q.M.TT.Nil || x.Args[2].K == KHole
			base = (x.Args[1].isInt(0) || x.Args[1] == q.M.TT.Nil) && full && x.Args[3] == l
			if !base {
				other++
			}
		case strings.Contains(x.Op, "lone"):
			base = len(x.Args) > 0 && x.Args[len(x.Args)-1] == old
		default:
			other++
		}
	}
	return base && more && other == 0
}

func init() {
	register(&Property{ID: "C12", Run: runBuilders})
}

// ---- C11: what a query returns ----

// QRun is the monitor of the execution of a query.
//
//	list[o|p](L)   rows were added to L knowing that the offset is passed (o), or not (p)
//	open           a row was added although the limit may be reached already
//	sorted(L)      L was sorted with the query's order
//	walked(L)      the loop over L ended without finding the After row
//	early[o|l]     the offset or limit was applied to the keys
//	reversed(L)    the keys were reversed
//	tested         the entry was compared with the After row
type QRun struct {
	name  string
	p     *Program
	qt    *types.Named
	q     *Term
	ctx   *Term
	batch *Term
	out   *Term
	in    bool // in the callback of the scan
	cells []*Term
	key   *Term // of the entry the callback gets
}

func (w *QRun) c(s string) string { return w.name + ": " + s }

func (w *QRun) f(m *Machine, name string) *Term {
	i := fieldIndex(w.qt, name)
	if i < 0 {
		m.fail("unresolved anchor: Query.%s", name)
		return m.TT.Hole
	}
	return m.TT.Fld(w.q, i, w.q.Typ.Underlying().(*types.Struct).Field(i).Type())
}

func (w *QRun) isNil(m *Machine, st *State, name string) (bool, bool) {
	return m.isNil(st, w.f(m, name))
}

func (w *QRun) is(m *Machine, st *State, name string, v bool) bool {
	x, k := m.truth(st, w.f(m, name))
	return k && x == v
}

// zero: offset or limit is known to be zero.
func (w *QRun) zero(m *Machine, st *State, name string) bool {
	t := w.f(m, name)
	if v, k := m.truth(st, m.TT.Eq(t, m.TT.Int(0))); k {
		return v
	}
	v, k := m.truth(st, m.TT.Lt(m.TT.Int(0), t))
	return k && !v
}

func (w *QRun) nilKnown(m *Machine, st *State, name string) bool {
	v, k := w.isNil(m, st, name)
	return k && v
}

func (w *QRun) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	switch ev.Name {
	case "bond.Query.selectorWithAfter":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		return true, []Outcome{m.okOutcome(st, ev, tt.App("withAfter", ev.Sig.Results().At(0).Type(), w.q)), m.errOutcome(bad, ev, nil)}
	case "bond._table.ScanIndexForEach":
		return true, w.scan(m, st, ev)
	case "bond.Index.Intersect":
		return true, w.intersect(m, st, ev)
	case "bond._table.get":
		return true, w.get(m, st, ev)
	case "dynamic":
		switch {
		case ev.Val == w.f(m, "filterFunc") && len(ev.Args) == 1:
			return true, []Outcome{{st, tt.App("passes", types.Typ[types.Bool], ev.Args[0])}}
		case ev.Val == w.f(m, "orderLessFunc") && len(ev.Args) == 2:
			return true, []Outcome{{st, tt.App("less", types.Typ[types.Bool], ev.Args...)}}
		case w.in && ev.Sig.Params().Len() == 0 && ev.Sig.Results().Len() == 2:
			m.age(st, ev.Site, ev.Ctx)
			bad := st.clone()
			row := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
			st.add(&Tup{Tag: "row", Args: []*Term{row}})
			return true, []Outcome{m.okOutcome(st, ev, row), m.errOutcome(bad, ev, nil)}
		}
	case "slices.Reverse":
		st.add(&Tup{Tag: "reversed", Args: []*Term{ev.Args[0]}})
		return true, []Outcome{{st, nil}}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		l := unwrap(ev.Args[0])
		f := ev.Args[1]
		ok := m.emptyList(st, l)
		if f.K == KFunc && !ok {
			i, j := tt.Sym(ev.Site, ev.Ctx, 1, types.Typ[types.Int]), tt.Sym(ev.Site, ev.Ctx, 2, types.Typ[types.Int])
			args := []*Term{i, j}
			var et types.Type
			if s, isS := l.Typ.Underlying().(*types.Slice); isS {
				et = s.Elem()
			}
			if strings.HasPrefix(ev.Name, "slices.") {
				args = nil
			}
			for _, o := range m.callClosure(st.clone(), ev, f, args, 0) {
				ok = o.res != nil && o.res == tt.App("less", types.Typ[types.Bool], tt.Elem(l, i, et), tt.Elem(l, j, et))
				if !ok {
					break
				}
			}
		}
		m.Check(st, ok, "sorted-by-its-order", w.c("sort"), ev.Pos, "the rows are not sorted by the query's order")
		st.add(&Tup{Tag: "sorted", Args: []*Term{l}})
		return true, []Outcome{{st, nil}}
	}
	if opKind(ev) == "Deserialize" && len(ev.Args) == 2 {
		src, dst := ev.Args[0], ev.Args[1]
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		m.havocArgs(bad, ev)
		if addr, _ := m.pointee(st, dst); addr != nil {
			m.havoc(st, addr, tt.App("row", derefType(addr.Typ), src))
		}
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	return false, nil
}

// usesBatch: the optional batch is passed on.
func (w *QRun) usesBatch(t *Term) bool { return t == w.batch }

func (w *QRun) scan(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	const rule = "scans-its-selection"
	c := w.c("scan")
	m.Check(st, ev.Args[1] == w.f(m, "index"), rule, c, ev.Pos, "it is not the query's index that is scanned")
	m.Check(st, ev.Args[4] == w.f(m, "reverse"), rule, c, ev.Pos, "the direction is not the query's")
	m.Check(st, w.usesBatch(ev.Args[5]), rule, c, ev.Pos, "the scan does not read through the given batch")
	inScanAfter := false
	if ev.Args[2].K == KApp && ev.Args[2].Op == "withAfter" {
		inScanAfter = true
		m.Check(st, w.is(m, st, "isAfter", true) && w.nilKnown(m, st, "orderLessFunc"), rule, c, ev.Pos, "the scan starts at the After row although the rows are sorted later, or there is none")
	} else {
		m.Check(st, ev.Args[2] == w.f(m, "indexSelector"), rule, c, ev.Pos, "it is not the query's selection that is scanned")
	}
	f := ev.Args[3]
	if f.K != KFunc {
		m.Check(st, false, rule, c, ev.Pos, "the callback is unknown")
		return nil
	}
	// integers the callback keeps
	w.cells = nil
	for _, b := range f.Args {
		if e, ok := ptrElem(b.Typ); ok && isInteger(e) {
			w.cells = append(w.cells, b)
		}
	}
	fn := f.Obj.(*ssa.Function)
	st.add(&Tup{Tag: "cells", Args: f.Args})
	states := []*State{st}
	seen := map[string]bool{m.stateKey(st): true}
	w.in = true
	for i := 0; i < len(states) && m.err == nil; i++ {
		s := states[i].clone()
		m.age(s, ev.Site, ev.Ctx)
		for _, cell := range w.cells {
			e, _ := ptrElem(cell.Typ)
			s.add(&Tup{Tag: "pre", Args: []*Term{cell, m.load(s, cell, e)}})
		}
		var args []*Term
		for j, pv := range fn.Params {
			args = append(args, tt.Call(ev.Site, ev.Ctx, 1000+j, pv.Type()))
		}
		w.key = args[0]
		for _, o := range split(m, m.callFunc(ev.Ctx, s, ev.Site, fn, args, f.Args, fn.Signature)) {
			w.scanned(m, o, inScanAfter, ev)
			if e, k := m.isNil(o.st, o.res.Args[1]); k && !e {
				continue // the scan fails
			}
			for _, tag := range []string{"row", "kept", "incd", "pre", "fact", "part"} {
				for _, t := range o.st.tups(tag) {
					o.st.del(t)
				}
			}
			for f := range o.st.facts {
				if f.K == KApp && f.Op == "<" {
					delete(o.st.facts, f)
				}
			}
			m.gc(o.st)
			if k := m.stateKey(o.st); !seen[k] {
				seen[k] = true
				states = append(states, o.st)
			}
		}
	}
	w.in = false
	var outs []Outcome
	for _, s := range states {
		for _, t := range s.tups("cells") {
			s.del(t)
		}
		if inScanAfter {
			s.add(&Tup{Tag: "scanafter"})
		}
		m.age(s, ev.Site, ev.Ctx)
		bad := s.clone()
		outs = append(outs, m.okOutcome(s, ev), m.errOutcome(bad, ev, nil))
	}
	return outs
}

// split decides whether the scan goes on.
func split(m *Machine, outs []Outcome) []Outcome {
	var res []Outcome
	for _, o := range outs {
		if _, k := m.truth(o.st, o.res.Args[0]); k {
			res = append(res, o)
			continue
		}
		for _, v := range []bool{true, false} {
			if st := o.st.clone(); m.assume(st, o.res.Args[0], v) {
				res = append(res, Outcome{st, m.TT.Tuple(m.TT.boolTerm(v), o.res.Args[1])})
			}
		}
	}
	return res
}

// mentions finds a fact about a comparison of x, possibly with a constant
// added, with the query's field.
func (w *QRun) lessThan(m *Machine, st *State, x *Term, field string) (v, known bool) {
	if x != nil && x.isInt(0) {
		if w.zero(m, st, field) {
			return false, true
		}
		if v, k := m.truth(st, m.TT.Eq(w.f(m, field), m.TT.Int(0))); k && !v {
			return true, true
		}
	}
	return w.truth(m, st, m.TT.Lt(x, w.f(m, field)))
}

// truth also knows what was found out in the callback.
func (w *QRun) truth(m *Machine, st *State, t *Term) (v, known bool) {
	if v, k := m.truth(st, t); k {
		return v, k
	}
	for _, x := range st.tups("fact") {
		if x.Args[0] == t {
			return x.Data == "true", true
		}
	}
	return false, false
}

// scanned judges one way the callback ended.
func (w *QRun) scanned(m *Machine, o Outcome, inScanAfter bool, ev *Event) {
	st, tt := o.st, m.TT
	cont, err := o.res.Args[0], o.res.Args[1]
	if e, k := m.isNil(st, err); !k || !e {
		m.Check(st, k, "row-kept-or-dropped", w.c("callback"), ev.Pos, "it may report an error without one")
		return
	}
	var row *Term
	for _, t := range st.tups("row") {
		row = t.Args[0]
	}
	kept := len(st.tups("kept")) > 0
	pre, post := map[*Term]*Term{}, map[*Term]*Term{}
	for _, t := range st.tups("pre") {
		pre[t.Args[0]] = t.Args[1]
	}
	for _, cell := range w.cells {
		e, _ := ptrElem(cell.Typ)
		post[cell] = m.load(st, cell, e)
	}
	noFilter, noSort := w.nilKnown(m, st, "filterFunc"), w.nilKnown(m, st, "orderLessFunc")
	filtered := false
	if row != nil {
		v, k := w.truth(m, st, tt.App("passes", types.Typ[types.Bool], row))
		filtered = k && !v
		if kept {
			m.Check(st, k && v || noFilter, "row-kept-or-dropped", w.c("filter"), ev.Pos, "a row is kept that does not pass the filter")
		}
	}
	isAfterRow := w.equalsAfter(st)
	if isAfterRow || w.differsFromAfter(st) {
		st.add(&Tup{Tag: "tested"})
	}
	skipped := false
	for _, cell := range w.cells {
		if v, k := w.lessThan(m, st, pre[cell], "offset"); k && v {
			skipped = true
		}
	}
	skipped = skipped && !kept && !filtered && !isAfterRow
	switch {
	case kept:
	case filtered, isAfterRow && inScanAfter && noSort:
	case skipped:
		m.Check(st, noFilter && noSort, "offset-after-filter-and-sort", w.c("offset"), ev.Pos, "rows are skipped for the offset before they are filtered or sorted")
		m.Check(st, !inScanAfter || len(st.tups("tested")) > 0, "after-row-left-out", w.c("offset"), ev.Pos, "the After row may be counted for the offset")
	default:
		m.Check(st, false, "row-kept-or-dropped", w.c("callback"), ev.Pos, "a row is left out")
	}
	if kept {
		m.Check(st, !inScanAfter || len(st.tups("tested")) > 0, "after-row-left-out", w.c("callback"), ev.Pos, "the After row itself may be kept")
		passed := false
		for _, cell := range w.cells {
			if v, k := w.lessThan(m, st, pre[cell], "offset"); k && !v {
				passed = true
			}
		}
		for _, t := range st.tups("kept") {
			d := "p"
			if passed && noFilter && noSort {
				d = "o"
			}
			st.add(&Tup{Tag: "list", Args: []*Term{t.Args[1]}, Data: d})
		}
	}
	// the counter
	compared := map[*Term]bool{}
	for _, ft := range st.tups("fact") {
		fact := ft.Args[0]
		for _, name := range []string{"offset", "limit"} {
			if termContains(fact, w.f(m, name)) {
				for _, cell := range w.cells {
					if pre[cell] != nil && (termContains(fact, pre[cell]) || termContains(fact, post[cell])) && pre[cell].K != KConst {
						compared[cell] = true
					}
				}
			}
		}
	}
	for _, cell := range w.cells {
		if !compared[cell] && len(w.cells) > 1 {
			continue
		}
		inc := w.incremented(m, st, pre[cell], post[cell])
		want := kept || skipped
		m.Check(st, inc == want || pre[cell] == post[cell] && !want, "counts-rows", w.c("count"), ev.Pos, "the rows are not counted as they are kept or skipped")
	}
	cv, ck := w.truth(m, st, cont)
	if !ck {
		m.Check(st, false, "stops-at-limit", w.c("callback"), ev.Pos, "it is not clear when the scan stops")
		return
	}
	reached, below := false, false
	lim, off := w.f(m, "limit"), w.f(m, "offset")
	for _, cell := range w.cells {
		n := post[cell]
		lo, lk := w.truth(m, st, tt.Lt(n, off))
		for _, d := range []*Term{tt.App("-", off.Typ, n, off), n} {
			v, k := w.truth(m, st, tt.Lt(d, lim))
			if d == n && !w.zero(m, st, "offset") {
				continue
			}
			if k && !v && (lk && !lo || w.zero(m, st, "offset")) {
				reached = true
			}
			if k && v {
				below = true
			}
		}
		if lk && lo {
			below = true
		}
	}
	if !cv {
		m.Check(st, reached && noSort && !w.zero(m, st, "limit"), "stops-at-limit", w.c("callback"), ev.Pos, "the scan stops before the limit is reached")
		return
	}
	if kept && !below {
		st.add(&Tup{Tag: "open"})
	}
}

func (w *QRun) incremented(m *Machine, st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if x, ok := a.intVal(); ok {
		if y, ok := b.intVal(); ok {
			return y == x+1
		}
	}
	if m.TT.addConstTerm(a, 1) == b {
		return true
	}
	n := 0
	for range st.tups("incd") {
		n++
	}
	return n == 1
}

// equalsAfter: all parts of the entry's key are known to be the After row's.
func (w *QRun) equalsAfter(st *State) bool {
	parts := map[string]bool{}
	for _, x := range st.tups("part") {
		for _, s := range []string{"Index", "IndexOrder", "PrimaryKey"} {
			if x.Data == s+":true" || x.Data == ":true" {
				parts[s] = true
			}
		}
	}
	return len(parts) == 3
}

func (w *QRun) differsFromAfter(st *State) bool {
	for _, x := range st.tups("part") {
		if strings.HasSuffix(x.Data, ":false") {
			return true
		}
	}
	return false
}

func (w *QRun) afterFact(m *Machine, t, key *Term) bool {
	return t.K == KApp && t.Op == "bytes.Equal" && termContains(t, key) && termContains(t, w.f(m, "afterSelector"))
}

// lastFieldName is the field of the decoded key that is compared.
func lastFieldName(t, key *Term) string {
	name := ""
	for _, a := range t.Args {
		n := "?"
		switch {
		case a.K == KFld:
			n = fieldName(a.Args[0].Typ, a.N)
		case a == key, a.K == KApp && (a.Op == "key" || strings.HasPrefix(a.Op, "conv")):
			n = ""
		}
		if n != name && name != "" {
			return "?"
		}
		name = n
	}
	return name
}

func (w *QRun) onAppend(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
	pos := m.P.Pos(site.Pos())
	for _, e := range elems {
		w.took(m, st, list, e)
		if w.in {
			for _, t := range st.tups("row") {
				if t.Args[0] == e {
					m.Check(st, len(st.tups("kept")) == 0, "row-kept-or-dropped", w.c("callback"), pos, "a row is kept twice")
					st.add(&Tup{Tag: "kept", Args: []*Term{e, list}})
				}
			}
			continue
		}
		if e.K == KApp && e.Op == "row" {
			v, k := m.truth(st, m.TT.App("passes", types.Typ[types.Bool], e))
			m.Check(st, k && v || w.nilKnown(m, st, "filterFunc"), "row-kept-or-dropped", w.c("filter"), pos, "a row is kept that does not pass the filter")
			m.Check(st, len(st.tups("todo")) > 0, "row-kept-or-dropped", w.c("intersection"), pos, "a row is kept twice")
			for _, t := range st.tups("todo") {
				m.Check(st, e.Args[0] == t.Args[0], "row-kept-or-dropped", w.c("intersection"), pos, "the row that is kept is another one")
				st.del(t)
			}
			st.add(&Tup{Tag: "list", Args: []*Term{list}, Data: "p"})
		}
	}
}

// The other queries are walked over, in one loop or several: each is checked
// for what is not supported, and its index and selector are collected.
//
//	other(q1)        the one at hand
//	good[f]          it does not have the option f
//	took[f](L)       its f was added to L
//	bad[f]           some query may have the option f
//	missed[f]        some query's f was not collected
//	full[f](L)       L has the f of all of them
var noOptions = []string{"filterFunc", "orderLessFunc", "isAfter", "offset", "limit", "intersects"}

func (w *QRun) onOther(m *Machine, st *State, elem *Term) {
	if len(st.tups("other")) == 0 {
		for _, tag := range []string{"bad", "missed"} {
			for _, t := range st.tups(tag) {
				st.del(t)
			}
		}
	}
	w.endOther(st)
	st.add(&Tup{Tag: "other", Args: []*Term{elem}})
}

func (w *QRun) endOther(st *State) {
	for _, t := range st.tups("other") {
		st.del(t)
		for _, f := range noOptions {
			if g := (&Tup{Tag: "good", Data: f}); st.has(g) {
				st.del(g)
			} else {
				st.add(&Tup{Tag: "bad", Data: f})
			}
		}
		for _, f := range []string{"index", "indexSelector"} {
			if st.find("took", func(t *Tup) bool { return t.Data == f }) == nil {
				st.add(&Tup{Tag: "missed", Data: f})
			}
		}
		for _, t := range st.tups("took") {
			st.del(t)
			st.add(&Tup{Tag: "~took", Args: t.Args, Data: t.Data})
		}
	}
}

func (w *QRun) doneOthers(st *State) {
	if len(st.tups("other")) == 0 {
		return
	}
	w.endOther(st)
	for _, f := range noOptions {
		if !st.has(&Tup{Tag: "bad", Data: f}) {
			st.add(&Tup{Tag: "checked", Data: f})
		}
	}
	for _, t := range st.tups("~took") {
		st.del(t)
		if !st.has(&Tup{Tag: "missed", Data: t.Data}) {
			st.add(&Tup{Tag: "full", Args: t.Args, Data: t.Data})
		}
	}
}

// took: a field of the other query is added to a list.
func (w *QRun) took(m *Machine, st *State, list, e *Term) {
	for _, t := range st.tups("other") {
		if e.K == KFld && e.Args[0] == t.Args[0] {
			f := fieldName(e.Args[0].Typ, e.N)
			if st.find("took", func(t *Tup) bool { return t.Data == f }) != nil {
				f = "?" // twice
			}
			st.add(&Tup{Tag: "took", Args: []*Term{baseArray(list)}, Data: f})
		}
	}
}

// goodFact: a branch on an option of the other query.
func (w *QRun) goodFact(m *Machine, st *State, t *Term, v bool) {
	for _, o := range st.tups("other") {
		elem := o.Args[0]
		for _, f := range noOptions {
			i := fieldIndex(w.qt, f)
			x := m.TT.Fld(elem, i, elem.Typ.Underlying().(*types.Struct).Field(i).Type())
			if !termContains(t, x) {
				continue
			}
			none := false
			if b, ok := x.Typ.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				none = t == x && !v
			} else if t.K == KApp && t.Op == "==" {
				a, b := t.Args[0], t.Args[1]
				none = v && (a == m.TT.Nil || b == m.TT.Nil || a.isInt(0) || b.isInt(0))
			} else if t.K == KApp && t.Op == "<" {
				none = !v && t.Args[0].isInt(0)
			}
			if none {
				st.add(&Tup{Tag: "good", Data: f})
			}
		}
	}
}

func (w *QRun) onNext(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if it.cont == w.f(m, "intersects") {
		w.onOther(m, st, it.elem)
	}
	if w.isValues(st, it.cont) {
		w.nothingTodo(m, st, hdr)
		st.add(&Tup{Tag: "todo", Args: []*Term{it.elem}})
	}
}

func (w *QRun) isValues(st *State, t *Term) bool {
	for _, v := range st.tups("values") {
		if v.Args[0] == t {
			return true
		}
	}
	return false
}

func (w *QRun) nothingTodo(m *Machine, st *State, hdr *ssa.BasicBlock) {
	for _, t := range st.tups("todo") {
		m.Check(st, false, "row-kept-or-dropped", w.c("intersection"), m.P.Pos(hdr.Parent().Pos()), "a row is left out")
		st.del(t)
	}
}

func (w *QRun) onDone(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if it.cont == nil {
		return
	}
	if w.isValues(st, it.cont) {
		w.nothingTodo(m, st, hdr)
	}
	if it.cont == w.f(m, "intersects") {
		w.doneOthers(st)
	}
	st.add(&Tup{Tag: "walked", Args: []*Term{it.cont}})
}

func (w *QRun) intersect(m *Machine, st *State, ev *Event) []Outcome {
	const rule = "scans-its-selection"
	tt := m.TT
	c := w.c("intersection")
	m.Check(st, ev.Recv == w.f(m, "index") && ev.Args[2] == w.f(m, "indexSelector"), rule, c, ev.Pos, "it is not the query's own selection that is intersected")
	full := func(l *Term, f string) bool { return st.has(&Tup{Tag: "full", Args: []*Term{baseArray(l)}, Data: f}) }
	m.Check(st, full(ev.Args[3], "index"), rule, w.c("indexes"), ev.Pos, "the indexes of the other queries are not all given")
	m.Check(st, full(ev.Args[4], "indexSelector"), rule, w.c("selectors"), ev.Pos, "the selections of the other queries are not all given")
	m.Check(st, w.usesBatch(ev.Args[5]), rule, c, ev.Pos, "the intersection does not read through the given batch")
	for _, f := range noOptions {
		m.Check(st, st.has(&Tup{Tag: "checked", Data: f}), "refuses-unsupported", w.c(f), ev.Pos, "queries with an option that is not supported are intersected")
	}
	m.age(st, ev.Site, ev.Ctx)
	bad := st.clone()
	v := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
	st.add(&Tup{Tag: "keys", Args: []*Term{v}})
	return []Outcome{m.okOutcome(st, ev, v), m.errOutcome(bad, ev, nil)}
}

func (w *QRun) get(m *Machine, st *State, ev *Event) []Outcome {
	stages, base := w.peel(m, st, ev.Args[0])
	c := w.c("intersection")
	ok := false
	for _, t := range st.tups("keys") {
		ok = ok || t.Args[0] == base
	}
	m.Check(st, ok, "scans-its-selection", c, ev.Pos, "the rows that are read are not those of the intersection")
	m.Check(st, mustExist(m, st, ev), "scans-its-selection", c, ev.Pos, "an entry whose row is missing is given an empty one")
	rev, known := m.truth(st, w.f(m, "reverse"))
	did := false
	for _, t := range st.tups("reversed") {
		did = did || t.Args[0] == base
	}
	empty := false
	if v, k := m.truth(st, m.TT.Lt(m.TT.Int(0), m.TT.addConstTerm(m.TT.Len(base), -1))); k && !v {
		empty = true // one row or none
	}
	m.Check(st, known && (did == rev || rev && (empty || did)), "scans-its-selection", w.c("direction"), ev.Pos, "the keys are not in the query's direction")
	if stages != "" {
		m.Check(st, w.nilKnown(m, st, "filterFunc") && w.nilKnown(m, st, "orderLessFunc") && w.is(m, st, "isAfter", false), "offset-after-filter-and-sort", c, ev.Pos, "the offset or limit is applied before the rows are filtered, sorted or cut at the After row")
	}
	for _, s := range stages {
		st.add(&Tup{Tag: "early", Data: string(s)})
	}
	m.age(st, ev.Site, ev.Ctx)
	bad := st.clone()
	v := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
	st.add(&Tup{Tag: "values", Args: []*Term{v}})
	return []Outcome{m.okOutcome(st, ev, v), m.errOutcome(bad, ev, nil)}
}

// peel takes the cuts off a list: a for After, o for offset, l for limit, in
// the order they were made; x for one that is wrong.
func (w *QRun) peel(m *Machine, st *State, t *Term) (string, *Term) {
	tt := m.TT
	lim, off := w.f(m, "limit"), w.f(m, "offset")
	stages := ""
	for t.K == KApp && t.Op == "slice" {
		x, lo, hi := t.Args[0], t.Args[1], t.Args[2]
		if lo.isInt(0) && (hi.isInt(0) || hi.K == KApp && hi.Op == "min" && (hi.Args[0].isInt(0) || hi.Args[1].isInt(0))) {
			break
		}
		n := tt.Len(x)
		noLo := lo == tt.Nil || lo.isInt(0) || lo.K == KHole
		noHi := hi == tt.Nil || hi == n || hi.K == KHole
		s := "x"
		switch {
		case noLo && noHi:
			s = ""
			if v, k := m.truth(st, tt.Lt(lim, n)); k && !v && hi == n {
				s = "l"
			}
		case noLo && (isConvOf(hi, lim) || isMin(hi, lim, n)):
			s = "l"
		case noHi && isConvOf(lo, off):
			s = "o"
		case noHi:
			// behind the After row
			if w.atAfter(m, st, x, lo) {
				s = "a"
			}
		}
		stages = s + stages
		t = x
	}
	return stages, t
}

func isMin(t, a, b *Term) bool {
	for t.K == KApp && strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t.K == KApp && t.Op == "min" && len(t.Args) == 2 && (isConvOf(t.Args[0], a) && isConvOf(t.Args[1], b) || isConvOf(t.Args[0], b) && isConvOf(t.Args[1], a))
}

func isConvOf(t, x *Term) bool {
	for t.K == KApp && strings.HasPrefix(t.Op, "conv") && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t == x
}

// atAfter: the row before the one numbered end is known to be the After row.
func (w *QRun) atAfter(m *Machine, st *State, list, end *Term) bool {
	for _, t := range st.tups("at") {
		if t.Args[0] == list && m.TT.addConstTerm(t.Args[1], 1) == end {
			return true
		}
	}
	return false
}

// result judges what the caller gets.
func (w *QRun) result(m *Machine, st *State, t *Term, pos string) {
	tt := m.TT
	c := w.c("result")
	stages, base := w.peel(m, st, t)
	m.Check(st, !strings.Contains(stages, "x"), "cut-as-asked", c, pos, "the rows are cut at other places than the After row, offset and limit: "+t.String())
	if base.K != KAcc {
		// an empty list: what was cut off?
		var cut *Term
		by := ""
		for f, v := range st.facts {
			if f.K != KApp || f.Op != "<" && f.Op != "==" || len(f.Args) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				l := findSub(f.Args[i], func(x *Term) bool { return x.K == KApp && x.Op == "len" })
				if l == nil {
					continue
				}
				x := l.Args[0]
				switch {
				case f.Op == "<" && !v && i == 1 && isConvOf(f.Args[1], l) && isConvOf(f.Args[0], w.f(m, "offset")): // !(offset < len)
					cut, by = x, "o"
				case f.Op == "==" && v && f.Args[i] == l:
					if w.atAfter(m, st, x, f.Args[1-i]) && cut == nil {
						cut, by = x, "a"
					}
				}
			}
		}
		if cut == nil {
			if m.emptyList(st, base) || base.K == KApp && base.Op == "make" {
				// no row was kept
				n := 0
				for _, l := range st.tups("list") {
					if l.Args[0].K == KAcc {
						n++
					}
				}
				m.Check(st, n == 0, "cut-as-asked", c, pos, "rows are left out of the result")
				if len(st.tups("values")) == 0 {
					for _, k := range st.tups("keys") {
						m.Check(st, m.emptyList(st, k.Args[0]), "cut-as-asked", c, pos, "rows are left out of the result")
					}
				}
				return
			}
			m.Check(st, false, "cut-as-asked", c, pos, "the result is not made of the rows that were kept: "+t.String())
			return
		}
		more, b := w.peel(m, st, cut)
		stages, base = more+by+stages, b
		for _, k := range st.tups("keys") {
			if k.Args[0] == base {
				// no row to read
				m.Check(st, w.nilKnown(m, st, "filterFunc") && w.nilKnown(m, st, "orderLessFunc") && w.is(m, st, "isAfter", false), "offset-after-filter-and-sort", c, pos, "the offset is applied before the rows are filtered, sorted or cut at the After row")
				return
			}
		}
		if by == "a" {
			// nothing is left for the offset and limit to cut
			stages += "ol"
		} else if by == "o" {
			stages += "l"
		}
	}
	order := map[rune]int{'a': 1, 'o': 2, 'l': 3}
	last := 0
	for _, s := range stages {
		m.Check(st, order[s] >= last, "cut-in-order", c, pos, "the After row, offset and limit are not applied in that order: "+stages)
		last = order[s]
	}
	has := func(tag, data string) bool {
		for _, x := range st.tups(tag) {
			if (data == "" || x.Data == data) && (len(x.Args) == 0 || x.Args[0] == base) {
				return true
			}
		}
		return false
	}
	any := has("list", "")
	if !any {
		return
	}
	m.Check(st, w.nilKnown(m, st, "orderLessFunc") || has("sorted", ""), "sorted-by-its-order", c, pos, "the rows are not sorted")
	// After
	if !w.is(m, st, "isAfter", false) && len(st.tups("scanafter")) == 0 {
		// the list that was searched
		found := strings.Contains(stages, "a")
		m.Check(st, found || has("walked", ""), "after-row-left-out", c, pos, "the rows up to the After row are not left out")
	}
	// offset
	if !w.zero(m, st, "offset") {
		in := has("list", "o") && !has("list", "p")
		early := len(st.tups("early")) > 0 && has2(st, "early", "o")
		n := strings.Count(stages, "o")
		if in {
			n++
		}
		if early {
			n++
		}
		m.Check(st, n == 1, "offset-applied-once", c, pos, "the offset is not applied once")
	}
	if !w.zero(m, st, "limit") {
		short, known := m.truth(st, tt.Lt(w.f(m, "limit"), tt.Len(t)))
		ok := strings.Contains(stages, "l") || known && !short || has2(st, "early", "l") || len(st.tups("values")) == 0 && len(st.tups("open")) == 0
		m.Check(st, ok, "limit-applied", c, pos, "more rows than the limit may be returned")
	}
}

func has2(st *State, tag, data string) bool {
	for _, x := range st.tups(tag) {
		if x.Data == data {
			return true
		}
	}
	return false
}

func (w *QRun) run(p *Program, r *Result, fn *ssa.Function) {
	w.name = calleeName(fn)
	spec := &Spec{Call: w.call, OnAppend: w.onAppend, OnNext: w.onNext, OnDone: w.onDone}
	// a list that is made long enough and filled by index
	spec.OnMake = func(m *Machine, st *State, list, n *Term) {
		if n == m.TT.Len(w.f(m, "intersects")) {
			st.add(&Tup{Tag: "~made", Args: []*Term{list}})
		}
	}
	spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
		if addr.K != KIdxAddr || !st.has(&Tup{Tag: "~made", Args: []*Term{baseArray(addr.Args[0])}}) {
			return
		}
		for _, t := range st.tups("other") {
			if t.Args[0].K == KElem && t.Args[0].Args[1] == addr.Args[1] {
				w.took(m, st, baseArray(addr.Args[0]), val)
			}
		}
	}
	spec.KeepFact = func(m *Machine, t *Term) bool {
		if termContains(t, w.f(m, "afterSelector")) || t.K == KApp && t.Op == "passes" {
			return true
		}
		for _, f := range []string{"offset", "limit", "filterFunc", "orderLessFunc", "isAfter", "reverse"} {
			if termContains(t, w.f(m, f)) {
				return true
			}
		}
		if t.K == KApp && t.Op == "<" && t.Args[0].isInt(0) && findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "len" }) != nil {
			return true
		}
		return t.K == KApp && t.Op == "==" && findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "len" }) != nil
	}
	spec.OnFact = func(m *Machine, st *State, t *Term, v bool) {
		w.goodFact(m, st, t, v)
		if w.in && t.K == KApp && (t.Op == "passes" || t.Op == "<" || t.Op == "bytes.Equal") {
			st.add(&Tup{Tag: "fact", Args: []*Term{t}, Data: fmt.Sprint(v)})
			if w.afterFact(m, t, w.key) {
				st.add(&Tup{Tag: "part", Data: fmt.Sprint(lastFieldName(t, w.key), ":", v)})
			}
		}
		if v && t.K == KApp && t.Op == "bytes.Equal" && termContains(t, w.f(m, "afterSelector")) {
			after := w.f(m, "afterSelector")
			for i, x := range t.Args {
				y := t.Args[1-i]
				if x.K == KApp && y.K == KApp && x.Op == "call" && y.Op == "call" && len(x.Args) == 3 && len(y.Args) == 3 && x.Args[0] == y.Args[0] && x.Args[2] == after && y.Args[2].K == KElem {
					st.add(&Tup{Tag: "at", Args: []*Term{y.Args[2].Args[0], y.Args[2].Args[1]}})
				}
			}
		}
		if !v && t.K == KApp && t.Op == "<" && len(st.tups("keys")) > 0 && len(st.tups("values")) == 0 && w.is(m, st, "reverse", true) && !termContains(t, w.f(m, "offset")) && !termContains(t, w.f(m, "limit")) {
			// the loop that swaps the ends is over
			for _, x := range st.tups("keys") {
				st.add(&Tup{Tag: "reversed", Args: []*Term{x.Args[0]}})
			}
		}
		if !v && t.K == KApp && t.Op == "passes" {
			for _, x := range st.tups("todo") {
				if termContains(t, x.Args[0]) {
					st.del(x)
				}
			}
		}
	}
	spec.OnCounter = func(m *Machine, st *State, val *Term) func(*Term) {
		if !w.in {
			return nil
		}
		old := st.find("pre", func(t *Tup) bool { return m.TT.addConstTerm(t.Args[1], 1) == val })
		if old == nil {
			return nil
		}
		return func(name *Term) { st.add(&Tup{Tag: "incd", Args: []*Term{name}}) }
	}
	fill := spec.OnStore
	spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
		fill(m, st, addr, val, site)
		if addr == w.out {
			w.result(m, st, val, m.P.Pos(site.Pos()))
			st.add(&Tup{Tag: "stored"})
		}
		if addr.K == KIdxAddr {
			for _, t := range st.tups("keys") {
				if t.Args[0] == addr.Args[0] {
					st.add(&Tup{Tag: "reversed", Args: []*Term{t.Args[0]}})
				}
			}
		}
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		if _, kind := m.retErr(st, res); kind != "err" {
			m.Check(st, len(st.tups("stored")) > 0, "result-stored", w.name, pos, "success is reported without a result")
		}
	}
	r.Interpret(p, spec, fn, func(m *Machine, st *State, params []*Term) {
		w.q, w.ctx, w.out, w.batch = params[0], params[1], params[2], params[3]
	})
}

// ---- the selection behind the After row ----

// AfterSel is the monitor of selectorWithAfter.
//
//	part(x)        the point or range at hand
//	cmp(a,b):rel   how two keys compare
//	out(L)         what was chosen goes to L
type AfterSel struct {
	QRun
	types map[int64]string
}

func (w *AfterSel) kind(st *State) string {
	for t, v := range st.facts {
		if !v || t.K != KApp {
			continue
		}
		if t.Op == "==" {
			for i := 0; i < 2; i++ {
				if x := t.Args[i]; x.K == KApp && x.Op == "seltype" {
					if n, ok := t.Args[1-i].intVal(); ok {
						return strings.TrimPrefix(w.types[n], "SelectorType")
					}
				}
			}
		}
	}
	return ""
}

// rel returns the relations of two keys that are possible.
func (w *AfterSel) rel(m *Machine, st *State, a, b *Term) string {
	tt := m.TT
	out := ""
	cmp := func(x, y *Term) *Term {
		for _, t := range st.tups("cmp") {
			if t.Args[1] == x && t.Args[2] == y {
				return t.Args[0]
			}
		}
		return nil
	}
	known := func(t *Term) (bool, bool) { return w.truth(m, st, t) }
	for _, r := range "<=>" {
		ok := true
		no := func(c *Term, lt, eq, gt bool) {
			if c == nil {
				return
			}
			for _, f := range []struct {
				t *Term
				v bool
			}{{tt.Lt(c, tt.Int(0)), lt}, {tt.Lt(tt.Int(0), c), gt}, {tt.Eq(c, tt.Int(0)), eq}, {tt.Eq(c, tt.Int(-1)), lt}, {tt.Eq(c, tt.Int(1)), gt}} {
				if v, k := known(f.t); k && v != f.v {
					ok = false
				}
			}
		}
		no(cmp(a, b), r == '<', r == '=', r == '>')
		no(cmp(b, a), r == '>', r == '=', r == '<')
		if v, k := known(tt.BytesEqual(a, b)); k && v != (r == '=') {
			ok = false
		}
		if ok {
			out += string(r)
		}
	}
	return out
}

// keyOf is the index key of a row, as compared on the path.
func (w *AfterSel) keyOf(m *Machine, st *State, row *Term) *Term {
	for _, t := range st.tups("key") {
		if t.Args[1] == row {
			return t.Args[0]
		}
	}
	return nil
}

func (w *AfterSel) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	sel := w.f(m, "indexSelector")
	switch ev.Name {
	case "bond.encodeIndexKey":
		k := tt.App("indexkey", ev.Sig.Results().At(0).Type(), ev.Args[1])
		m.Check(st, unwrap(ev.Args[0]) == w.f(m, "table") && ev.Args[2] == w.f(m, "index"), "starts-at-after", w.name, ev.Pos, "the key of another index is compared")
		st.add(&Tup{Tag: "key", Args: []*Term{k, ev.Args[1]}})
		return true, []Outcome{{st, k}}
	case "bytes.Compare":
		c := tt.App("bytes.Compare", types.Typ[types.Int], ev.Args...)
		st.add(&Tup{Tag: "cmp", Args: []*Term{c, ev.Args[0], ev.Args[1]}})
		return true, []Outcome{{st, c}}
	case "bond.NewSelectorPoint", "bond.NewSelectorPoints", "bond.NewSelectorRange", "bond.NewSelectorRanges":
		v := tt.App(strings.TrimPrefix(ev.Name, "bond.NewSelector"), ev.Sig.Results().At(0).Type(), ev.Args...)
		return true, []Outcome{{st, v}}
	}
	if ev.Recv == sel && len(ev.Args) == 0 {
		switch n := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]; n {
		case "Type":
			return true, []Outcome{{st, tt.App("seltype", ev.Sig.Results().At(0).Type(), sel)}}
		case "Point", "Points", "Ranges":
			return true, []Outcome{{st, tt.App("of", ev.Sig.Results().At(0).Type(), sel)}}
		case "Range":
			return true, []Outcome{{st, tt.Tuple(tt.App("lower", ev.Sig.Results().At(0).Type(), sel), tt.App("upper", ev.Sig.Results().At(0).Type(), sel))}}
		}
	}
	return false, nil
}

func (w *AfterSel) isParts(m *Machine, t *Term) bool {
	return t != nil && t.K == KApp && t.Op == "of" && t.Args[0] == w.f(m, "indexSelector")
}

func (w *AfterSel) next(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if w.isParts(m, it.cont) {
		w.end(m, st, m.P.Pos(hdr.Parent().Pos()))
		st.add(&Tup{Tag: "part", Args: []*Term{it.elem}})
	}
}

func (w *AfterSel) done(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if w.isParts(m, it.cont) {
		w.end(m, st, m.P.Pos(hdr.Parent().Pos()))
		st.add(&Tup{Tag: "all"})
	}
}

// end judges what became of a point or range.
func (w *AfterSel) end(m *Machine, st *State, pos string) {
	tt := m.TT
	after := w.f(m, "afterSelector")
	for _, t := range st.tups("part") {
		st.del(t)
		x := t.Args[0]
		var got *Term
		n := 0
		for _, o := range st.tups("chose") {
			got = o.Args[0]
			n++
			st.del(o)
		}
		const rule = "starts-at-after"
		kind := w.kind(st)
		c := w.c(kind)
		ak := w.keyOf(m, st, after)
		ok := n <= 1
		switch kind {
		case "Points":
			xk := w.keyOf(m, st, x)
			r := "<=>"
			if ak != nil && xk != nil {
				r = w.rel(m, st, ak, xk)
			}
			switch {
			case n == 1 && got == x:
				ok = ok && r == "<"
			default:
				ok = ok && !strings.Contains(r, "<")
				// the same point, after which there may be rows?
				same, k := false, false
				for _, f := range st.tups("fact") {
					if g := f.Args[0]; g.Op == "bytes.Equal" && (g.Args[0] != ak && g.Args[1] != ak) && termContains(g, ak) && termContains(g, xk) {
						same, k = f.Data == "true", true
					}
				}
				ok = ok && k && (same && n == 1 && got == after || !same && n == 0)
			}
		case "Ranges":
			et := x.Typ.Underlying().(*types.Slice).Elem()
			lo, up := tt.Elem(x, tt.Int(0), et), tt.Elem(x, tt.Int(1), et)
			lk, uk := w.keyOf(m, st, lo), w.keyOf(m, st, up)
			rl, ru := "<=>", "<=>"
			if ak != nil && lk != nil {
				rl = w.rel(m, st, ak, lk)
			}
			if ak != nil && uk != nil {
				ru = w.rel(m, st, ak, uk)
			}
			switch {
			case n == 1 && got == x:
				ok = ok && rl == "<"
			case n == 1:
				es, k := m.listElems(st, got)
				ok = ok && k && len(es) == 2 && es[0] == after && es[1] == up && !strings.Contains(rl, "<") && !strings.Contains(ru, ">")
			default:
				ok = ok && !strings.Contains(rl, "<") && ru == ">"
			}
		default:
			ok = false
		}
		m.Check(st, ok, rule, c, pos, "the part of the selection behind the After row is not what is scanned")
		for _, tag := range []string{"cmp", "fact", "key"} {
			for _, t := range st.tups(tag) {
				if tag == "fact" || termContains(t.Args[0], x) {
					st.del(t)
				}
			}
		}
	}
}

func (w *AfterSel) ret(m *Machine, st *State, res []*Term, pos string) {
	const rule = "starts-at-after"
	_, kind := m.retErr(st, res)
	k := w.kind(st)
	after := w.f(m, "afterSelector")
	if kind == "err" {
		m.Check(st, k == "", rule, w.c("error"), pos, "selections that can be continued are refused")
		return
	}
	t := unwrap(res[0])
	sel := w.f(m, "indexSelector")
	ok := t.K == KApp && t.Op == k && kind == "nil"
	if ok {
		switch k {
		case "Point":
			ok = t.Args[0] == after
		case "Range":
			ok = t.Args[0] == after && t.Args[1].K == KApp && t.Args[1].Op == "upper" && t.Args[1].Args[0] == sel
		default:
			l := t.Args[len(t.Args)-1]
			chosen := len(st.tups("out"))
			ok = len(st.tups("all")) > 0 && (chosen == 0 && m.emptyList(st, l) || chosen == 1 && st.has(&Tup{Tag: "out", Args: []*Term{l}}))
		}
	}
	m.Check(st, ok, rule, w.c(k), pos, "the part of the selection behind the After row is not what is scanned: "+t.String())
	if k != "Point" {
		_, known := m.truth(st, w.f(m, "reverse"))
		m.Check(st, known, "after-honours-direction", w.name, pos, "what is behind the After row in reverse is not scanned")
	}
}

func (w *AfterSel) run(p *Program, r *Result, fn *ssa.Function) {
	w.name = calleeName(fn)
	types, err := enumConsts(p, "", "SelectorType")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	w.types = types
	spec := &Spec{Call: w.call, OnNext: w.next, OnDone: w.done, OnReturn: w.ret, TrackLists: true}
	spec.KeepFact = func(m *Machine, t *Term) bool {
		return t == w.f(m, "reverse") || findSub(t, func(x *Term) bool { return x.K == KApp && (x.Op == "seltype" || x.Op == "bytes.Compare") }) != nil
	}
	spec.OnFact = func(m *Machine, st *State, t *Term, v bool) {
		if t.K == KApp && (t.Op == "<" || t.Op == "==" || t.Op == "bytes.Equal") && len(st.tups("part")) > 0 {
			st.add(&Tup{Tag: "fact", Args: []*Term{t}, Data: fmt.Sprint(v)})
		}
	}
	spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
		if len(st.tups("part")) == 0 {
			return
		}
		for _, e := range elems {
			st.add(&Tup{Tag: "chose", Args: []*Term{e}})
		}
		for _, t := range st.tups("out") {
			st.del(t)
		}
		st.add(&Tup{Tag: "out", Args: []*Term{list}})
	}
	r.Interpret(p, spec, fn, func(m *Machine, st *State, params []*Term) { w.q = params[0] })
}

func runQuery(p *Program, r *Result) {
	n, err := p.Named("", "Query")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	fn := r.anchor(p.Method(n, "Execute"))
	if fn == nil {
		return
	}
	(&QRun{p: p, qt: n}).run(p, r, fn)
	if fn := r.anchor(p.Method(n, "selectorWithAfter")); fn != nil {
		(&AfterSel{QRun: QRun{p: p, qt: n}}).run(p, r, fn)
	}
}

func init() {
	register(&Property{ID: "C11", Run: runQuery})
}
