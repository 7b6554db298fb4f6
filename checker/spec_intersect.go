package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C40: Intersect. It is followed as a computation on sets: each iterator is
// one over the rows of an index in a selection, a map is empty, being filled
// with keys of the current iterator, or what the intersection is so far.
type intersection struct {
	r                      *Result
	name                   string
	recv, sel, idxs, sels  *Term
	keys, sorted, selected string
}

func runIntersect(p *Program, r *Result) {
	w := &intersection{r: r, name: "bond.Index.Intersect", keys: "keys-in-every-selection", sorted: "keys-ascend", selected: "selection-of-its-index"}
	fn := r.anchor(p.Find(w.name))
	if fn == nil {
		return
	}
	spec := &Spec{Call: w.call, OnFact: w.onFact, OnMapSet: w.onMapSet, OnAppend: w.onAppend, OnReturn: w.onReturn, TrackLists: true}
	spec.OnMake = func(m *Machine, st *State, list, n *Term) {
		st.add(&Tup{Tag: "rowbuf", Args: []*Term{list}})
	}
	spec.OnBuiltin = func(m *Machine, st *State, name string, args []*Term, site ssa.Instruction) {
		if name == "clear" && len(args) == 1 {
			w.forget(st, args[0])
		}
	}
	spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
		if addr.K == KIdxAddr && addr.Typ != nil {
			if _, isSlice := addr.Args[0].Typ.Underlying().(*types.Slice); !isSlice {
				return // the arguments of a call
			}
			if e, ok := ptrElem(addr.Typ); ok && isByteSlice(e) {
				w.listed(m, st, addr.Args[0], val, p.Pos(site.Pos()))
			}
		}
	}
	spec.KeepFact = func(m *Machine, t *Term) bool {
		return t.K == KApp && t.Op == "==" && findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "len" }) != nil
	}
	// what is two generations old is gone
	spec.OnAge = func(m *Machine, st *State, sub map[*Term]*Term) {
		for _, old := range sub {
			w.forget(st, old)
		}
	}
	r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) {
		w.recv, w.sel, w.idxs, w.sels = ps[0], ps[3], ps[4], ps[5]
	})
	r.Need(w.keys, 1)
	r.Need(w.sorted, 1)
	r.Need(w.selected, 1)
}

func (w *intersection) forget(st *State, mp *Term) {
	for _, tag := range []string{"fill", "full", "old"} {
		for _, t := range st.tups(tag) {
			if t.Args[0] == mp {
				st.del(t)
			}
		}
	}
}

// isFull: the map is the intersection so far.
func (w *intersection) isFull(st *State, mp *Term) bool {
	if st.has(&Tup{Tag: "full", Args: []*Term{mp}}) {
		return true
	}
	for _, t := range st.tups("full") {
		if t.Args[0].K == KHole {
			return w.unused(st, mp)
		}
	}
	return false
}

func (w *intersection) unused(st *State, mp *Term) bool {
	if st.find("all:deleted", func(t *Tup) bool { return t.Args[0] == mp && t.Args[1] == mp && t.Args[2].K == KHole }) != nil {
		w.forget(st, mp)
	}
	for _, tag := range []string{"fill", "full", "old"} {
		for _, t := range st.tups(tag) {
			if t.Args[0] == mp {
				return false
			}
		}
	}
	return mp.K != KParam && mp.K != KLoad && mp.K != KCall
}

// row is the current row of the iterator that is at one.
func (w *intersection) row(st *State) *Tup {
	ts := st.tups("row")
	if len(ts) != 1 {
		return nil
	}
	return ts[0]
}

// isKey: k is the primary key of the current row.
func (w *intersection) isKey(st *State, k *Term) bool {
	row := w.row(st)
	k = stripConv(k)
	return row != nil && k != nil && k.K == KApp && k.Op == "ToDataKeyBytes" && stripConv(k.Args[0]) == row.Args[1]
}

func (w *intersection) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	switch ev.Name {
	case "bond.Index.Iter":
		first := ev.Recv == w.recv && ev.Args[1] == w.sel
		other := ev.Recv != nil && ev.Recv.K == KElem && ev.Recv.Args[0] == w.idxs && ev.Args[1].K == KElem && ev.Args[1].Args[0] == w.sels && ev.Args[1].Args[1] == ev.Recv.Args[1]
		m.Check(st, first || other, w.selected, w.name, ev.Pos, "an index is scanned with a selector that was not given for it")
		recv := ev.Recv
		m.age(st, ev.Site, ev.Ctx)
		it := m.freshNoAge(ev)
		data := "other"
		if first {
			data = "first"
		}
		st.add(&Tup{Tag: "iter", Data: data, Args: []*Term{it, recv}})
		return true, []Outcome{{st, it}}
	case "iface:bond.Iterator.First", "iface:bond.Iterator.Next", "iface:bond.Iterator.Last", "iface:bond.Iterator.Prev":
		if row := w.row(st); row != nil {
			m.Check(st, len(st.tups("handled")) > 0, w.keys, w.name, ev.Pos, "it goes on although a key that is in every selection so far may have been left out")
		}
		moved := st.has(&Tup{Tag: "moved", Args: []*Term{ev.Recv}})
		begin := strings.HasSuffix(ev.Name, "First") || strings.HasSuffix(ev.Name, "Last")
		if begin == moved {
			m.Check(st, false, w.keys, w.name, ev.Pos, "rows of the selection may be left out")
		}
		for _, tag := range []string{"row", "handled", "present", "rowbuf", "shared"} {
			for _, t := range st.tups(tag) {
				st.del(t)
			}
		}
		st.add(&Tup{Tag: "moved", Args: []*Term{ev.Recv}})
		m.age(st, ev.Site, ev.Ctx)
		end := st.clone()
		st.add(&Tup{Tag: "row", Args: []*Term{ev.Recv, m.TT.Call(ev.Site, ev.Ctx, 77, bytesType)}})
		w.finish(m, end, ev.Recv)
		return true, []Outcome{{st, m.TT.True}, {end, m.TT.False}}
	case "iface:bond.Iterator.Valid":
		row := w.row(st)
		return true, []Outcome{{st, m.TT.boolTerm(row != nil && row.Args[0] == ev.Recv)}}
	case "iface:bond.Iterator.Key":
		if row := w.row(st); row != nil && row.Args[0] == ev.Recv {
			return true, []Outcome{{st, row.Args[1]}}
		}
	case "bond.KeyBytes.ToDataKeyBytes":
		bufs, own := m.listElems(st, ev.Args[0])
		for _, buf := range bufs {
			own = own && (buf == m.TT.Nil || st.has(&Tup{Tag: "rowbuf", Args: []*Term{baseArray(buf)}}) || noRoom(buf))
		}
		if !own {
			st.add(&Tup{Tag: "shared"})
		}
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc", "golang.org/x/exp/slices.SortFunc":
		w.sort(m, st, ev)
	}
	return false, nil
}

// noRoom: whatever is appended to the buffer goes elsewhere.
func noRoom(buf *Term) bool {
	l := buf
	for l.K == KApp && l.Op == "slice" {
		l = l.Args[0]
	}
	if l.K != KAlloc {
		return false
	}
	t := l.Typ
	if e, ok := ptrElem(t); ok {
		t = e
	}
	a, ok := t.Underlying().(*types.Array)
	return ok && a.Len() == 0
}

// finish: the iterator is at its end.
func (w *intersection) finish(m *Machine, st *State, it *Term) {
	var x *Tup
	for _, t := range st.tups("iter") {
		if t.Args[0] == it {
			x = t
		}
	}
	if x == nil {
		return
	}
	// what was the intersection is not any more
	for _, t := range st.tups("full") {
		st.del(t)
		if t.Args[0].K != KHole {
			st.add(&Tup{Tag: "old", Args: t.Args})
		}
	}
	full := m.TT.Hole
	for _, t := range st.tups("fill") {
		full = t.Args[0]
		st.del(t)
	}
	st.add(&Tup{Tag: "full", Args: []*Term{full}})
	if x.Data == "first" {
		st.add(&Tup{Tag: "begun"})
	} else {
		st.add(&Tup{Tag: "did:inter", Args: []*Term{x.Args[1]}})
	}
}

func (w *intersection) first(st *State) bool {
	row := w.row(st)
	for _, t := range st.tups("iter") {
		if row != nil && t.Args[0] == row.Args[0] {
			return t.Data == "first"
		}
	}
	return false
}

func (w *intersection) onFact(m *Machine, st *State, t *Term, v bool) {
	if t.K != KApp {
		return
	}
	if (t.Op == "has" || t.Op == "lookup") && w.isKey(st, t.Args[1]) && w.isFull(st, t.Args[0]) && !w.first(st) {
		if v {
			st.add(&Tup{Tag: "present"})
		} else {
			st.add(&Tup{Tag: "handled"})
		}
	}
	if t.Op == "==" && v {
		for i, x := range t.Args {
			if x.K != KApp || x.Op != "len" || !t.Args[1-i].isInt(0) {
				continue
			}
			if w.isFull(st, x.Args[0]) {
				st.add(&Tup{Tag: "none"})
			} else if st.has(&Tup{Tag: "old", Args: []*Term{x.Args[0]}}) {
				w.forget(st, x.Args[0])
			}
		}
	}
}

func (w *intersection) onMapSet(m *Machine, st *State, mp, k, v *Term, site ssa.Instruction) {
	pos := m.P.Pos(site.Pos())
	if v == nil {
		// what is not needed any more may be emptied
		for _, it := range st.iters {
			if it.started && it.cont == mp && it.idx == k && !st.has(&Tup{Tag: "full", Args: []*Term{mp}}) && !st.has(&Tup{Tag: "fill", Args: []*Term{mp}}) {
				st.add(&Tup{Tag: "did:deleted", Args: []*Term{mp, k}})
				return
			}
		}
		m.Check(st, false, w.keys, w.name, pos, "a key is taken out again")
		return
	}
	if !m.Check(st, w.isKey(st, k), w.keys, w.name, pos, "a key is collected that is not the primary key of the row") {
		return
	}
	copied := k.K == KApp && strings.HasPrefix(k.Op, "conv")
	m.Check(st, copied || len(st.tups("shared")) == 0, w.keys, w.name, pos, "the keys share memory")
	if v == m.TT.False {
		m.Check(st, false, w.keys, w.name, pos, "a key is marked as one that is not there")
	}
	mine := w.unused(st, mp) || st.has(&Tup{Tag: "fill", Args: []*Term{mp}})
	m.Check(st, mine, w.keys, w.name, pos, "keys are collected together with those of an earlier selection")
	if !w.first(st) {
		m.Check(st, len(st.tups("present")) > 0, w.keys, w.name, pos, "a key is collected that may not be in the selections before")
	}
	for _, t := range st.tups("all:deleted") {
		st.del(t)
	}
	st.add(&Tup{Tag: "fill", Args: []*Term{mp}})
	st.add(&Tup{Tag: "handled"})
}

func (w *intersection) onAppend(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
	if s, ok := list.Typ.Underlying().(*types.Slice); !ok || !isByteSlice(s.Elem()) {
		return
	}
	pos := m.P.Pos(site.Pos())
	m.Check(st, whole == nil, w.keys, w.name, pos, "the result has more than the keys that were found")
	for _, e := range elems {
		w.listed(m, st, list, e, pos)
	}
}

func (w *intersection) listed(m *Machine, st *State, list, e *Term, pos string) {
	e = stripConv(e)
	ok := false
	for _, it := range st.iters {
		ok = ok || it.started && it.idx == e && w.isFull(st, it.cont)
	}
	m.Check(st, ok, w.keys, w.name, pos, "the result has another key than those in every selection")
	st.add(&Tup{Tag: "did:listed", Args: []*Term{e}})
	for _, t := range st.tups("sorted") {
		st.del(t)
	}
}

func (w *intersection) sort(m *Machine, st *State, ev *Event) {
	tt := m.TT
	l := unwrap(ev.Args[0])
	f := ev.Args[1]
	i, j := tt.Sym(ev.Site, ev.Ctx, 1, types.Typ[types.Int]), tt.Sym(ev.Site, ev.Ctx, 2, types.Typ[types.Int])
	var et types.Type = bytesType
	a, b := tt.Elem(l, i, et), tt.Elem(l, j, et)
	args, less := []*Term{i, j}, true
	if !strings.HasPrefix(ev.Name, "sort.") {
		args, less = []*Term{a, b}, false
	}
	ok := f.K == KFunc
	if ok && !m.emptyList(st, l) {
		isA := func(t *Term) bool { _, k := elemKey(t); return t == a || k == i }
		isB := func(t *Term) bool { _, k := elemKey(t); return t == b || k == j }
		for _, o := range m.callClosure(st.clone(), ev, f, args, 0) {
			ok = ok && keysAscend(o.res, isA, isB, less)
		}
	}
	m.Check(st, ok, w.sorted, w.name, ev.Pos, "the keys are not sorted in ascending order")
	if ok {
		st.add(&Tup{Tag: "sorted"})
	}
}

// keysAscend: res says whether the first is less than the second (or, if not
// less, compares them).
func keysAscend(res *Term, isA, isB func(*Term) bool, less bool) bool {
	cmp := func(t *Term) bool {
		return t != nil && t.K == KApp && t.Op == "bytes.Compare" && isA(t.Args[0]) && isB(t.Args[1])
	}
	rev := func(t *Term) bool {
		return t != nil && t.K == KApp && t.Op == "bytes.Compare" && isB(t.Args[0]) && isA(t.Args[1])
	}
	if !less {
		return cmp(res)
	}
	if res == nil || res.K != KApp || len(res.Args) != 2 {
		return false
	}
	x, y := res.Args[0], res.Args[1]
	switch res.Op {
	case "==":
		return cmp(x) && y.isInt(-1) || cmp(y) && x.isInt(-1) || rev(x) && y.isInt(1) || rev(y) && x.isInt(1)
	case "<":
		if x.K == KApp && strings.HasPrefix(x.Op, "conv") && y.K == KApp && strings.HasPrefix(y.Op, "conv") {
			return isA(stripConv(x)) && isB(stripConv(y)) // as strings
		}
		return cmp(x) && y.isInt(0) || rev(y) && x.isInt(0)
	}
	return false
}

func (w *intersection) onReturn(m *Machine, st *State, res []*Term, pos string) {
	if _, k := m.retErr(st, res); k == "err" {
		return
	}
	isZero := func(l *Term) bool {
		v, k := m.truth(st, m.TT.Eq(m.TT.Len(l), m.TT.Int(0)))
		return k && v
	}
	none := len(st.tups("none")) > 0
	all := st.find("all:inter", func(t *Tup) bool {
		return (t.Args[0] == w.idxs || t.Args[0] == w.sels) && (t.Args[1].K == KHole || t.Args[1].K == KElem && t.Args[1].Args[0] == w.idxs && t.Args[1].Args[1].K == KHole)
	})
	m.Check(st, len(st.tups("begun")) > 0, w.keys, w.name, pos, "it does not look at its own selection")
	m.Check(st, none || all != nil || isZero(w.idxs) || isZero(w.sels), w.keys, w.name, pos, "it returns although not every selection was looked at")
	if res[0] == m.TT.Nil || m.emptyList(st, res[0]) && none {
		m.Check(st, none, w.keys, w.name, pos, "it returns no keys although there may be some")
		return
	}
	listed := st.find("all:listed", func(t *Tup) bool { return w.isFull(st, t.Args[0]) && t.Args[1].K == KHole })
	m.Check(st, listed != nil || none, w.keys, w.name, pos, "a key that is in every selection may be missing from the result")
	m.Check(st, len(st.tups("sorted")) > 0 || none, w.sorted, w.name, pos, "the keys are not sorted")
}

func init() {
	register(&Property{ID: "C40", Run: runIntersect})
}
