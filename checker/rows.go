package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rows is the monitor of the operations that read and write the rows of a
// table. Each group of rules can be switched on by itself.
type Rows struct {
	name string // of the entry point, for reports

	Durable bool // what was written is committed, with sync, before success
	Atomic  bool // one batch, nothing after the commit, the caller's batch is left to the caller
	Index   bool // a row and its index entries change together
	Exist   bool // Insert, Update: the row must (not) exist
	Dups    bool // several rows with one key in a call
	Reads   bool // reads go through the given batch
	Negs    bool // a failed read is not absence
	Polls   bool // cancellation
	Open    bool // iterators, batches, closers are closed
	Errs    bool // errors are returned
	Filter  bool // what is stored is in the filter
	Hint    bool // the filter's yes is checked against the store

	mode string // "insert", "update", "upsert", "delete", "unsafeinsert", "unsafeupdate", "reindex", "read"

	// Boundary functions: not entered
	Bound map[string]bool

	optBatch *Term // the variadic parameter with the caller's batch
	extB     *Term // the caller's batch
	ctxParam *Term
	params   []*Term
	recv     *Term
	rowType  types.Type
}

func (w *Rows) tracking() bool { return w.Index || w.Exist || w.Dups || w.Negs || w.Filter }

// run analyses one entry point.
func (w *Rows) run(p *Program, r *Result, fn *ssa.Function) *Machine {
	w.name = calleeName(fn)
	spec := &Spec{TrackLists: w.Index}
	spec.Call = w.call
	spec.OnFact = w.onFact
	spec.OnReturn = w.onReturn
	spec.OnDone = w.onDone
	if w.Index {
		spec.OnAge = w.onAge
	}
	if w.Dups {
		spec.OnCounter = w.onCounter
	}
	spec.OnSelect = w.onSelect
	spec.Inline = func(f *ssa.Function) bool { return !w.Bound[calleeName(f)] }
	spec.KeepFact = w.keepFact
	m, _ := r.Interpret(p, spec, fn, func(m *Machine, st *State, params []*Term) {
		w.params = params
		w.recv = params[0]
		w.optBatch, w.ctxParam, w.extB = nil, nil, nil
		for i, pv := range fn.Params {
			switch {
			case typeName(pv.Type()) == "context.Context":
				w.ctxParam = params[i]
			}
			if s, ok := pv.Type().(*types.Slice); ok {
				if tp, ok := s.Elem().(*types.TypeParam); ok && w.rowType == nil {
					w.rowType = tp
				}
			}
			if s, ok := pv.Type().(*types.Slice); ok && typeName(s.Elem()) == "bond.Batch" {
				w.optBatch = params[i]
				w.extB = m.TT.Elem(params[i], m.TT.Int(0), s.Elem())
			}
			if typeName(pv.Type()) == "bond.Batch" {
				w.extB = params[i]
			}
		}
	})
	return m
}

func (w *Rows) keepFact(m *Machine, t *Term) bool {
	// the type of a batch decides how reads are done
	if w.Reads {
		s := subject(t)
		if s.K == KApp && strings.HasSuffix(s.Op, "Batch.Type") {
			return true
		}
		if w.extB != nil && (s == w.extB || s.K == KApp && s.Op == "len" && s.Args[0] == w.optBatch) {
			return true
		}
	}
	if w.mode == "read" && t.K == KApp && t.Op == "==" {
		for i := 0; i < 2; i++ {
			if x := t.Args[i]; t.Args[1-i].K == KNil && (x.K == KCall || x.K == KOld) && x.Typ != nil && isErrorType(x.Typ) {
				return true
			}
		}
	}
	return false
}

// storedRow is the row that the database holds under a key.
func (w *Rows) storedRow(m *Machine, key *Term) *Term {
	return m.TT.App("row", w.rowType, m.TT.App("stored", types.NewSlice(types.Typ[types.Byte]), key))
}

func (w *Rows) construct(what string) string { return w.name + ": " + what }

func (w *Rows) isExternal(t *Term) bool {
	return w.optBatch != nil && t.K == KElem && t.Args[0] == w.optBatch || w.extB != nil && t == w.extB
}

func isInternalBatch(t *Term) bool {
	if t.K != KCall && t.K != KOld {
		return false
	}
	ci, ok := t.Site.(ssa.CallInstruction)
	if !ok {
		return false
	}
	cc := ci.Common()
	n := ""
	if cc.IsInvoke() {
		n = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		n = f.Name()
	}
	return n == "Batch" || n == "newBatch"
}

func (w *Rows) batchName(t *Term) string {
	switch {
	case w.isExternal(t):
		return "the caller's batch"
	case isInternalBatch(t):
		return "the internal batch"
	}
	return t.String()
}

// ---- keys ----

// elemKey splits a key that is an element of a key array.
func elemKey(k *Term) (arr, idx *Term) {
	if k.K == KElem {
		return k.Args[0], k.Args[1]
	}
	return nil, nil
}

func (w *Rows) known(st *State, tag string, k *Term) bool {
	return st.has(&Tup{Tag: tag, Args: []*Term{k}})
}

// fail forks off the failure of a call.
func (w *Rows) fails(m *Machine, st *State, ev *Event, what string) Outcome {
	s := st.clone()
	o := m.errOutcome(s, ev, nil)
	if w.Errs {
		s.add(&Tup{Tag: "failed", Data: what, Pos: ev.Pos})
	}
	return o
}

func (w *Rows) rowEvent(m *Machine, st *State, what string, pos string) {
	if !w.Polls || w.ctxParam == nil {
		return
	}
	c := w.construct(what)
	m.Check(st, len(st.tups("cancelled")) == 0, "no-work-after-cancel", c, pos, "a row is processed although the context was found cancelled")
	m.Check(st, len(st.tups("polled")) > 0, "poll-before-row", c, pos, "a row is processed without looking at the context first")
	for _, t := range st.tups("polled") {
		st.del(t)
	}
}

func (w *Rows) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if w.ctxParam != nil && ev.Recv == w.ctxParam {
		switch ev.Name {
		case "iface:context.Context.Done":
			return true, []Outcome{{st, tt.App("ctx.Done", ev.Sig.Results().At(0).Type(), ev.Recv)}}
		case "iface:context.Context.Err":
			if len(st.tups("cancelled")) > 0 {
				return true, []Outcome{m.errOutcome(st, ev, nil)}
			}
			bad := st.clone()
			bo := m.errOutcome(bad, ev, nil)
			if w.Polls || w.Negs {
				bad.add(&Tup{Tag: "cancelled"})
			}
			if w.Polls {
				st.add(&Tup{Tag: "polled"})
			}
			return true, []Outcome{bo, m.okOutcome(st, ev)}
		}
	}
	// a slice of []byte keys that a sort orders
	if strings.HasPrefix(ev.Name, "sort.") || strings.Contains(ev.Name, "slices.Sort") {
		return w.sortCall(m, st, ev)
	}
	if ev.Name == "dynamic" && ev.Val != nil && w.mode == "upsert" && ev.Val.K == KParam {
		// onConflict
		for _, t := range st.tups("dup-pending") {
			st.del(t)
		}
		return true, w.mergeCall(m, st, ev)
	}
	if ev.Name == "dynamic" {
		if ok, outs := w.userCall(m, st, ev); ok {
			return true, outs
		}
	}
	kind := opKind(ev)
	if w.Bound[ev.Name] && kind != "OnInsert" && kind != "OnUpdate" && kind != "OnDelete" {
		return true, w.boundRead(m, st, ev)
	}
	if kind == "" {
		return false, nil
	}
	if ev.Fn != nil && m.P.InModule(ev.Fn) && !strings.HasPrefix(kind, "On") {
		return false, nil // its body is interpreted
	}
	m.age(st, ev.Site, ev.Ctx)
	switch kind {
	case "Batch":
		b := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		if w.Open {
			st.add(&Tup{Tag: "open", Args: []*Term{b}, Data: "batch", Pos: ev.Pos})
		}
		if w.Atomic {
			w.atomicNewBatch(m, st, ev, b)
		}
		return true, []Outcome{{st, b}}
	case "Set", "Delete", "DeleteRange":
		return true, w.write(m, st, ev, kind)
	case "Commit", "Apply", "Reset":
		return true, w.batchOp(m, st, ev, kind)
	case "StoreClose":
		return true, w.closeBatch(m, st, ev)
	case "Get":
		w.lookup(m, st, ev, ev.Args[0])
		return true, w.get(m, st, ev)
	case "Iter", "NewIter":
		return true, w.iter(m, st, ev)
	case "Position":
		if len(ev.Args) > 0 {
			w.lookup(m, st, ev, ev.Args[0])
		}
		return true, w.position(m, st, ev)
	case "Valid":
		return true, w.valid(m, st, ev)
	case "IterKey":
		if w.mode == "read" && w.name == "bond.Index.Intersect" {
			w.rowEvent(m, st, "index entry", ev.Pos)
		}
		k := tt.App("iterkey", ev.Sig.Results().At(0).Type(), ev.Recv)
		if t := st.find("~pos", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			k = tt.App("iterkey", ev.Sig.Results().At(0).Type(), ev.Recv, t.Args[1])
		}
		return true, []Outcome{{st, k}}
	case "IterValue":
		v := tt.App("itervalue", ev.Sig.Results().At(0).Type(), ev.Recv, tt.Sym(ev.Site, ev.Ctx, 0, nil))
		if t := st.find("~pos", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			if w.known(st, "~present", t.Args[1]) {
				v = tt.App("stored", ev.Sig.Results().At(0).Type(), t.Args[1])
			} else {
				v = tt.App("itervalue", ev.Sig.Results().At(0).Type(), ev.Recv, t.Args[1])
			}
		}
		return true, []Outcome{{st, v}}
	case "IterError":
		bad := w.fails(m, st, ev, "Iterator.Error")
		for _, s := range []*State{bad.st, st} {
			for _, t := range s.tups("neg") {
				if t.Args[0] == ev.Recv {
					s.del(t)
				}
			}
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case "IterClose", "Closer":
		return true, w.closeRes(m, st, ev, kind)
	case "Serialize":
		_, content := m.pointee(st, ev.Args[0])
		if content == nil {
			content = ev.Args[0]
		}
		bad := w.fails(m, st, ev, "Serialize")
		return true, []Outcome{m.okOutcome(st, ev, tt.App("ser", ev.Sig.Results().At(0).Type(), content)), bad}
	case "Deserialize":
		bad := w.fails(m, st, ev, "Deserialize")
		if addr, _ := m.pointee(st, ev.Args[1]); addr != nil {
			rt := derefType(addr.Typ)
			m.store(st, addr, tt.App("row", rt, ev.Args[0]))
			m.havoc(bad.st, addr, tt.Call(ev.Site, ev.Ctx, 77, rt))
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case "FilterMayContain":
		key := ev.Args[1]
		no := st.clone()
		if w.Hint {
			w.unasked(m, st, "another key is looked up in the filter", ev.Pos)
			st.add(&Tup{Tag: "asked", Args: []*Term{key}, Pos: ev.Pos})
		}
		if w.tracking() {
			no.add(&Tup{Tag: "~absent", Args: []*Term{key}})
		}
		return true, []Outcome{{st, tt.True}, {no, tt.False}}
	case "FilterAdd":
		if w.Filter {
			w.filterAdd(m, st, ev)
		}
		return true, []Outcome{{st, nil}}
	case "OnInsert", "OnUpdate", "OnDelete":
		return true, w.indexOp(m, st, ev, kind)
	}
	return false, nil
}

// mergeCall is a call of the conflict function. What the merges before it
// merged is summarised: whether a stored row was among it.
func (w *Rows) mergeCall(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	args := []*Term{ev.Val}
	for _, a := range ev.Args {
		inner := findSub(a, func(t *Term) bool { return t.K == KApp && t.Op == "call" && t.Args[0] == ev.Val })
		switch {
		case inner == nil && a.K == KElem:
			args = append(args, a.Args[0]) // which of the rows does not matter
		case inner == nil:
			args = append(args, a)
		default:
			op := "mergedNew"
			if findSub(a, func(t *Term) bool { return t.K == KApp && t.Op == "row" }) != nil {
				op = "row"
			}
			args = append(args, tt.App(op, a.Typ))
		}
	}
	return []Outcome{{st, tt.App("call", ev.Sig.Results().At(0).Type(), args...)}}
}

// ---- writes ----

func (w *Rows) write(m *Machine, st *State, ev *Event, kind string) []Outcome {
	tt := m.TT
	// db.Set(k, v, opt, batch) writes to the batch
	target := ev.Recv
	if es, whole := m.variadic(st, ev); whole == nil && len(es) > 0 {
		if v, k := m.isNil(st, es[0]); !k || !v {
			target = es[0]
		}
	}
	bad := w.fails(m, st, ev, kind)
	if w.Atomic {
		w.atomicWrite(m, st, ev, target, kind)
	}
	if w.Durable {
		if w.isExternal(target) || isInternalBatch(target) {
			st.add(&Tup{Tag: "dirty", Args: []*Term{target}, Pos: ev.Pos})
			bad.st.add(&Tup{Tag: "dirty", Args: []*Term{target}, Pos: ev.Pos})
		} else {
			opt := ev.Args[1]
			if kind != "Delete" {
				opt = ev.Args[2]
			}
			m.Check(st, isSyncOption(m, st, opt), "commit-with-sync", w.construct(kind), ev.Pos, "written without sync")
		}
	}
	if kind != "DeleteRange" {
		key := ev.Args[0]
		var row *Term
		if kind == "Set" {
			row = ev.Args[1]
			if row.K == KApp && row.Op == "ser" {
				row = row.Args[0]
			}
		}
		if w.mode != "reindex" {
			w.rowWrite(m, st, ev, kind, key, row, target)
		}
	}
	_ = tt
	return []Outcome{m.okOutcome(st, ev), bad}
}

func (w *Rows) rowWrite(m *Machine, st *State, ev *Event, kind string, key, row, batch *Term) {
	c := w.construct(kind + " of a row")
	w.rowEvent(m, st, kind+" of a row", ev.Pos)
	absent, present := w.known(st, "~absent", key), w.known(st, "~present", key)
	if w.Negs {
		w.negCheck(m, st, c, ev.Pos)
	}
	if w.Exist {
		switch w.mode {
		case "insert":
			m.Check(st, absent && !present, "insert-only-absent", c, ev.Pos, "a row is inserted under a key that was not found to be absent")
		case "update":
			m.Check(st, present && !absent, "update-only-present", c, ev.Pos, "a row is updated under a key that was not found to be present")
		case "upsert":
			m.Check(st, present != absent, "upsert-knows", c, ev.Pos, "a row is upserted although it is not known whether it exists")
			if present && kind == "Set" {
				ok := row != nil && findSub(row, func(t *Term) bool { return t.K == KApp && t.Op == "call" }) != nil || row != nil && row.K == KSym
				m.Check(st, ok, "upsert-resolves-conflict", c, ev.Pos, "an existing row is overwritten without the conflict function")
			}
			if absent && kind == "Set" && row != nil {
				bad := findSub(row, func(t *Term) bool { return t.K == KApp && t.Op == "row" })
				m.Check(st, bad == nil, "upsert-resolves-conflict", c, ev.Pos, "a new row is merged with a row that is not stored")
			}
		}
	}
	if w.Dups && kind == "Set" {
		w.dupCheck(m, st, ev, key, c)
	}
	if w.Index {
		need := &Tup{Tag: "need", Pos: ev.Pos}
		switch {
		case kind == "Delete":
			need.Data = "OnDelete"
			switch {
			case present:
				need.Args = []*Term{w.storedRow(m, key), batch}
			case absent:
				need = nil
				st.add(&Tup{Tag: "del-any"})
				for _, t := range st.tups("indexed") { // done before: nothing was stored then either
					if t.Data == "OnDelete" {
						st.del(t)
						st.del(&Tup{Tag: "del-any"})
					}
				}
			default:
				need.Args = []*Term{w.storedRow(m, key), batch}
			}
		case w.mode == "unsafeinsert" || absent && !present:
			need.Data, need.Args = "OnInsert", []*Term{row, batch}
		case w.mode == "unsafeupdate":
			need.Data, need.Args = "OnUpdate", []*Term{row, w.pairedOld(m, row), batch}
		default:
			need.Data, need.Args = "OnUpdate", []*Term{row, w.storedRow(m, key), batch}
		}
		if need != nil && len(st.tups("noidx")) == 0 {
			have := &Tup{Tag: "indexed", Data: need.Data, Args: need.Args}
			if st.has(have) {
				st.del(have)
			} else {
				st.add(need)
			}
		}
		m.Check(st, true, "row-and-indexes", c, ev.Pos, "")
	}
	if w.Filter && kind == "Set" {
		w.filterNeed(m, st, ev, key, absent, present)
	}
}

// pairedOld is the old row that belongs to a new one in UnsafeUpdate: the
// element of the other parameter with the same index.
func (w *Rows) pairedOld(m *Machine, row *Term) *Term {
	if row.K != KElem || row.Args[0].K != KParam {
		return m.TT.Nil
	}
	for _, p := range w.params {
		if p != row.Args[0] && p.Typ != nil && row.Args[0].Typ != nil && types.Identical(p.Typ, row.Args[0].Typ) {
			return m.TT.Elem(p, row.Args[1], row.Typ)
		}
	}
	return m.TT.Nil
}

// ---- index maintenance ----

func (w *Rows) indexOp(m *Machine, st *State, ev *Event, kind string) []Outcome {
	bad := w.fails(m, st, ev, kind)
	nrows := 1
	if kind == "OnUpdate" {
		nrows = 2
	}
	// table, row(s), batch, buffers
	if len(ev.Args) < nrows+2 {
		m.fail("%s: unexpected arguments of %s", ev.Pos, kind)
		return nil
	}
	batch := ev.Args[1+nrows]
	if w.Durable {
		st.add(&Tup{Tag: "dirty", Args: []*Term{batch}, Pos: ev.Pos})
		bad.st.add(&Tup{Tag: "dirty", Args: []*Term{batch}, Pos: ev.Pos})
	}
	if w.Atomic {
		w.atomicWrite(m, st, ev, batch, kind)
	}
	if w.Index {
		args := []*Term{ev.Recv}
		if kind == "OnUpdate" {
			args = append(args, ev.Args[2], ev.Args[1], batch) // new, old
		} else {
			args = append(args, ev.Args[1], batch)
		}
		if kind == "OnDelete" && len(st.tups("del-any")) > 0 {
			// nothing is stored: there is nothing to keep in step
		} else {
			st.add(&Tup{Tag: "did:index", Data: kind, Args: args, Pos: ev.Pos})
		}
	}
	return []Outcome{m.okOutcome(st, ev), bad}
}

// coversIndexes reports whether a container holds all secondary indexes.
func (w *Rows) coversIndexes(m *Machine, st *State, cont *Term) bool {
	if w.mode == "reindex" {
		return len(w.params) > 1 && cont == w.params[1]
	}
	isAll := func(t *Term) bool {
		return t.K == KLoad && t.Args[0].K == KFldAddr && t.Args[0].Args[0] == w.recv &&
			fieldName(t.Args[0].Args[0].Typ, t.Args[0].N) == "secondaryIndexes"
	}
	if isAll(cont) {
		return true
	}
	for _, t := range st.tups("all:in") {
		if len(t.Args) == 3 && t.Args[1] == cont && t.Args[2] == m.TT.Hole && isAll(t.Args[0]) {
			return true
		}
	}
	return false
}

func (w *Rows) onDone(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if !w.Index || it.cont == nil {
		return
	}
	var mine []*Tup
	for _, t := range st.tups("all:index") {
		if t.Args[0] == it.cont {
			mine = append(mine, t)
		}
	}
	covers := false
	isIdx := it.elem != nil && it.elem.Typ != nil && typeName(it.elem.Typ) == "bond.Index"
	if isIdx {
		covers = w.coversIndexes(m, st, it.cont)
	}
	for _, t := range mine {
		st.del(t)
		if t.Args[1] != m.TT.Hole || !covers || len(st.tups("noidx")) > 0 {
			continue
		}
		done := &Tup{Tag: "indexed", Data: t.Data, Args: t.Args[2:], Pos: t.Pos}
		need := &Tup{Tag: "need", Data: t.Data, Args: t.Args[2:]}
		if st.has(need) {
			st.del(need)
		} else {
			st.add(done)
		}
	}
	if w.mode == "reindex" && covers {
		if !it.started || len(mine) > 0 && mine[0].Data == "OnInsert" && mine[0].Args[1] == m.TT.Hole {
			for _, t := range st.tups("row-pending") {
				st.del(t)
			}
		}
		for _, t := range st.tups("indexed") {
			st.del(t)
		}
	}
	if covers && !it.started {
		w.noIndexes(st)
	}
	// for one row whose absence was established
	for _, t := range st.tups("del-any") {
		if covers {
			st.del(t)
		}
	}
}

// noIndexes: there are no secondary indexes at all.
func (w *Rows) noIndexes(st *State) {
	st.add(&Tup{Tag: "noidx"})
	for _, tag := range []string{"need", "indexed", "del-any"} {
		for _, t := range st.tups(tag) {
			st.del(t)
		}
	}
}

// emptyList is the list that a fact says is empty, if it says that.
func emptyFact(t *Term, v bool) *Term {
	if t.K != KApp || len(t.Args) != 2 {
		return nil
	}
	for i := 0; i < 2; i++ {
		l, o := t.Args[i], t.Args[1-i]
		if !isLen(l) {
			continue
		}
		switch {
		case t.Op == "==" && v && o.isInt(0), t.Op == "<" && i == 0 && v && o.isInt(1), t.Op == "<" && i == 1 && !v && o.isInt(0):
			return l.Args[0]
		}
	}
	return nil
}

// onAge: the next row is begun. What is still to be done for this one cannot
// be done any more, it is enough to know that there is such a row.
func (w *Rows) onAge(m *Machine, st *State, sub map[*Term]*Term) {
	for _, tag := range []string{"need", "indexed"} {
		for _, t := range st.tups(tag) {
			if len(t.Args) == 0 {
				continue
			}
			for l := range sub {
				if t.Args[0].mentions(l) {
					st.del(t)
					st.add(&Tup{Tag: tag, Data: t.Data, Pos: t.Pos})
					break
				}
			}
		}
	}
}

// ---- duplicates ----

func (w *Rows) onFact(m *Machine, st *State, t *Term, v bool) {
	tt := m.TT
	if w.Index {
		if l := emptyFact(t, v); l != nil && w.mode != "reindex" && w.coversIndexes(m, st, l) {
			w.noIndexes(st)
		}
	}
	if w.Filter && v && t == tt.Eq(w.filterTerm(m), tt.Nil) {
		for _, u := range st.tups("unfiltered") {
			st.del(u)
		}
	}
	if t.K == KApp && t.Op == "bytes.Equal" && w.tracking() {
		a, b := t.Args[0], t.Args[1]
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			ik, k := p[0], p[1]
			if ik.K == KApp && ik.Op == "iterkey" && len(ik.Args) == 2 && ik.Args[1] == k {
				if v {
					st.add(&Tup{Tag: "~present", Args: []*Term{k}})
				} else {
					st.add(&Tup{Tag: "~absent", Args: []*Term{k}})
				}
			}
		}
		if w.Dups {
			ka, ia := elemKey(a)
			kb, ib := elemKey(b)
			if ka != nil && ka == kb && w.mode == "upsert" {
				// one row against each of those after it
				for _, p := range [][2]*Term{{ia, ib}, {ib, ia}} {
					if !st.has(&Tup{Tag: "~from", Args: p[:]}) {
						continue
					}
					if v {
						st.add(&Tup{Tag: "dup-pending"})
					} else {
						st.add(&Tup{Tag: "~differs", Args: []*Term{ka, p[1], p[0]}})
					}
				}
			}
			if ka != nil && ka == kb {
				// adjacent?
				for _, p := range [][2]*Term{{ia, ib}, {ib, ia}} {
					lo, hi := p[0], p[1]
					if hi == tt.addConstTerm(lo, 1) || lo == tt.addConstTerm(hi, -1) {
						if v {
							st.add(&Tup{Tag: "dup-pending"})
						} else {
							st.add(&Tup{Tag: "~differs", Args: []*Term{ka, lo, hi}})
						}
					}
				}
			}
		}
	}
	if w.Dups && t.K == KApp && t.Op == "<" && !v && !isLen(t.Args[0]) && (t.Args[0].K != KConst || t.Args[0].isInt(0)) {
		st.add(&Tup{Tag: "~notless", Args: []*Term{t.Args[0], t.Args[1]}})
	}
	if w.Dups && v && t.K == KApp && t.Op == "==" {
		for i := range t.Args {
			if l, _ := splitConst(t.Args[i]); l != nil && isLen(l) && !t.Args[1-i].isInt(0) {
				st.add(&Tup{Tag: "~notless", Args: []*Term{t.Args[1-i], t.Args[i]}})
			}
		}
	}
	if w.Negs && t.K == KApp && t.Op == "==" {
		// the error of Close is looked at
		for _, tp := range st.tups("negclose") {
			if t.Args[0] == tp.Args[0] || t.Args[1] == tp.Args[0] {
				st.del(tp)
				if !v && t == tt.Eq(tp.Args[0], tt.Nil) {
					st.add(&Tup{Tag: "readfailed", Args: tp.Args, Pos: tp.Pos})
				}
			}
		}
	}
}

// onCounter: a counter that counts from the index of a row on.
func (w *Rows) onCounter(m *Machine, st *State, val *Term) func(*Term) {
	x, n := splitConst(val)
	if n != 1 || x == nil || x.K != KSym || w.mode != "upsert" {
		return nil
	}
	prev := st.find("~from", func(t *Tup) bool { return t.Args[0] == x })
	return func(name *Term) {
		switch {
		case name.Site != x.Site:
			if !hasOld(x) {
				st.add(&Tup{Tag: "~from", Args: []*Term{name, x}})
			}
		case prev != nil && !hasOld(prev.Args[1]):
			st.add(&Tup{Tag: "~from", Args: []*Term{name, prev.Args[1]}})
		}
	}
}

func isLen(t *Term) bool { return t.K == KApp && t.Op == "len" }

func (tt *Terms) addConstTerm(x *Term, n int64) *Term {
	if v, ok := x.intVal(); ok {
		return tt.Int(v + n)
	}
	if x.K == KApp && (x.Op == "+" || x.Op == "-") && len(x.Args) == 2 {
		if k, ok := x.Args[1].intVal(); ok {
			if x.Op == "-" {
				k = -k
			}
			return tt.addConst(x.Args[0], n+k, x.Typ)
		}
	}
	return tt.addConst(x, n, types.Typ[types.Int])
}

func (w *Rows) dupCheck(m *Machine, st *State, ev *Event, key *Term, c string) {
	arr, idx := elemKey(key)
	if arr == nil || w.mode == "unsafeinsert" || w.mode == "unsafeupdate" {
		return
	}
	first, last := false, false // differs from the previous, from the next
	if idx.isInt(0) {
		first = true
	}
	for _, t := range st.tups("~differs") {
		if t.Args[0] != arr {
			continue
		}
		if t.Args[2] == idx {
			first = true
		}
		if t.Args[1] == idx || w.mode == "upsert" && !hasOld(t.Args[1]) {
			last = true
		}
	}
	for _, t := range st.tups("~notless") {
		if t.Args[0].isInt(0) && t.Args[1] == idx {
			first = true // !(0 < i)
		}
		// !(i < len(keys)-1), !(i+1 < len(keys))
		l, b := splitConst(t.Args[1])
		x, a := splitConst(t.Args[0])
		ix, ia := splitConst(idx)
		if l == nil && b > 1 { // an array whose length is a constant
			for _, n := range []int64{b, b + 1} {
				for _, v := range st.env {
					if v.K == KApp && v.Op == "slice" && v.Args[2].isInt(n) && sameArray(v, arr) {
						l, b = v, b-n
					}
				}
			}
		} else if l != nil && !isLen(l) && l.K != KSym {
			continue
		}
		if l == nil || hasOld(t.Args[0]) {
			continue
		}
		if x == ix && b-(a-ia) == -1 || w.mode == "upsert" && (b == 0 || b == -1) {
			last = true
		}
	}
	sorted := false
	for _, t := range st.tups("sorted") {
		if sameArray(t.Args[0], arr) {
			sorted = true
		}
	}
	switch w.mode {
	case "insert":
		m.Check(st, sorted && (first || last), "insert-rejects-duplicates", c, ev.Pos, "a row is inserted without comparing its key with its neighbour in the sorted keys")
		m.Check(st, len(st.tups("dup-pending")) == 0, "insert-rejects-duplicates", c, ev.Pos, "a row is inserted although its key is a duplicate")
	case "update":
		m.Check(st, sorted && last, "update-last-wins", c, ev.Pos, "a row is updated that is not the last one given for its key")
		m.Check(st, len(st.tups("unstable")) == 0, "update-last-wins", c, ev.Pos, "the keys were ordered by a sort that is not stable")
	case "upsert":
		m.Check(st, sorted && last, "upsert-folds-duplicates", c, ev.Pos, "a row is upserted before all rows given for its key were merged")
		m.Check(st, len(st.tups("dup-pending")) == 0, "upsert-folds-duplicates", c, ev.Pos, "a row given for the same key is dropped without the conflict function")
		m.Check(st, len(st.tups("unstable")) == 0, "upsert-folds-duplicates", c, ev.Pos, "the keys were ordered by a sort that is not stable")
	}
	for _, t := range st.tups("dup-pending") {
		st.del(t)
	}
}

func baseArray(t *Term) *Term {
	for t.K == KApp && (t.Op == "slice" || t.Op == "mut") {
		t = t.Args[0]
	}
	return t
}

func sameArray(a, b *Term) bool { return baseArray(a) == baseArray(b) }

// sortCall recognises sorts whose less function orders a slice of byte
// slices in ascending order.
func (w *Rows) sortCall(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	if !w.Dups && !w.Negs && !w.Exist {
		return false, nil
	}
	stable := strings.Contains(ev.Name, "Stable")
	var fns []*Term
	for _, a := range ev.Args {
		fns = append(fns, m.funcsIn(st, a, 0)...)
	}
	for _, a := range ev.Args {
		// an interface holding a struct of functions
		x := a
		if x.K == KIface {
			x = x.Args[0]
		}
		fns = append(fns, m.funcsIn(st, x, 0)...)
	}
	for _, f := range fns {
		fn, ok := f.Obj.(*ssa.Function)
		if !ok || fn.Signature.Params().Len() != 2 || fn.Signature.Results().Len() != 1 {
			continue
		}
		i := m.TT.Sym(ev.Site, ev.Ctx, 901, types.Typ[types.Int])
		j := m.TT.Sym(ev.Site, ev.Ctx, 902, types.Typ[types.Int])
		outs := m.callClosure(st.clone(), ev, f, []*Term{i, j}, 0)
		if len(outs) != 1 || outs[0].res == nil {
			continue
		}
		if arr := ascendingLess(m, outs[0].res, i, j); arr != nil {
			st.add(&Tup{Tag: "sorted", Args: []*Term{baseArray(arr)}})
			if !stable {
				st.add(&Tup{Tag: "unstable"})
			}
		}
	}
	return false, nil
}

// ascendingLess: Compare(a[i], a[j]) < 0, in any spelling.
func ascendingLess(m *Machine, t, i, j *Term) *Term {
	cmpOf := func(t *Term) (arr *Term, swapped bool) {
		if t.K != KApp || t.Op != "bytes.Compare" {
			return nil, false
		}
		a, ia := elemKey(t.Args[0])
		b, ib := elemKey(t.Args[1])
		if a == nil || a != b {
			return nil, false
		}
		switch {
		case ia == i && ib == j:
			return a, false
		case ia == j && ib == i:
			return a, true
		}
		return nil, false
	}
	if t.K == KApp && t.Op == "<" {
		if a, sw := cmpOf(t.Args[0]); a != nil && !sw && t.Args[1].isInt(0) {
			return a
		}
		if a, sw := cmpOf(t.Args[1]); a != nil && sw && t.Args[0].isInt(0) {
			return a
		}
	}
	if t.K == KApp && t.Op == "==" {
		for _, p := range [][2]*Term{{t.Args[0], t.Args[1]}, {t.Args[1], t.Args[0]}} {
			if a, sw := cmpOf(p[0]); a != nil && (!sw && p[1].isInt(-1) || sw && p[1].isInt(1)) {
				return a
			}
		}
	}
	return nil
}

// ---- batches ----

func (w *Rows) atomicNewBatch(m *Machine, st *State, ev *Event, b *Term) {
	if w.mode == "reindex" {
		return
	}
	c := w.construct("internal batch")
	for _, t := range st.tups("wrote") {
		m.Check(st, t.Args[0] == b, "one-batch", c, ev.Pos, "a second batch is made after rows were written to the first")
	}
}

func (w *Rows) atomicWrite(m *Machine, st *State, ev *Event, target *Term, what string) {
	if w.mode == "reindex" {
		m.Check(st, w.isExternal(target) || isInternalBatch(target) || what == "DeleteRange", "writes-to-batch", w.construct(what), ev.Pos, "written to "+w.batchName(target)+" instead of the batch")
		return
	}
	c := w.construct(what)
	m.Check(st, w.isExternal(target) || isInternalBatch(target), "writes-to-batch", c, ev.Pos, "written to "+target.String()+" instead of the batch")
	if w.externalGiven(m, st) {
		m.Check(st, w.isExternal(target), "writes-to-batch", c, ev.Pos, "written to "+w.batchName(target)+" although the caller gave a batch")
	}
	for _, t := range st.tups("wrote") {
		m.Check(st, t.Args[0] == target, "one-batch", c, ev.Pos, "rows of one call are written to different batches")
	}
	m.Check(st, len(st.tups("committed")) == 0, "nothing-after-commit", c, ev.Pos, "written after the batch was committed")
	st.add(&Tup{Tag: "wrote", Args: []*Term{target}})
}

// externalGiven reports whether it is known that the caller gave a batch.
func (w *Rows) externalGiven(m *Machine, st *State) bool {
	if w.extB == nil {
		return false
	}
	v, k := m.isNil(st, w.extB)
	return k && !v
}

func (w *Rows) batchOp(m *Machine, st *State, ev *Event, kind string) []Outcome {
	b := ev.Recv
	if kind == "Apply" {
		b = ev.Args[0]
	}
	c := w.construct(kind)
	if w.Atomic {
		m.Check(st, !w.isExternal(b), "caller-commits", c, ev.Pos, kind+" of the caller's batch")
	}
	if kind == "Reset" {
		return []Outcome{{st, nil}}
	}
	bad := w.fails(m, st, ev, kind)
	if w.Durable && !w.isExternal(b) {
		opt := ev.Args[len(ev.Args)-1]
		m.Check(st, isSyncOption(m, st, opt), "commit-with-sync", c, ev.Pos, "committed without sync")
		for _, t := range st.tups("dirty") {
			if t.Args[0] == b {
				st.del(t)
			}
		}
	}
	if w.Atomic && w.mode != "reindex" {
		m.Check(st, len(st.tups("committed")) == 0, "one-commit", c, ev.Pos, "committed twice")
		st.add(&Tup{Tag: "committed"})
	}
	return []Outcome{m.okOutcome(st, ev), bad}
}

// isSyncOption: the package's Sync value, or a literal with Sync set.
func isSyncOption(m *Machine, st *State, t *Term) bool {
	if t.K == KLoad && t.Args[0].K == KGlobal {
		if g, ok := t.Args[0].Obj.(*ssa.Global); ok {
			return pkgName(g.Pkg.Pkg) == "bond" && g.Name() == "Sync" || g.Pkg.Pkg.Path() == "github.com/cockroachdb/pebble" && g.Name() == "Sync"
		}
	}
	if t.K == KStruct && len(t.Args) == 1 {
		return t.Args[0] == m.TT.True
	}
	return false
}

func (w *Rows) closeBatch(m *Machine, st *State, ev *Event) []Outcome {
	if w.Atomic {
		m.Check(st, !w.isExternal(ev.Recv), "caller-closes", w.construct("Close"), ev.Pos, "the caller's batch is closed")
	}
	if w.Open {
		st.del(&Tup{Tag: "open", Args: []*Term{ev.Recv}, Data: "batch"})
		for _, t := range st.tups("open") {
			if t.Args[0] == ev.Recv {
				st.del(t)
			}
		}
	}
	return []Outcome{m.okOutcome(st, ev, m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type()))}
}

// ---- reads ----

// readThrough checks where a read goes.
func (w *Rows) readThrough(m *Machine, st *State, ev *Event, what string) {
	if !w.Reads {
		return
	}
	es, whole := m.variadic(st, ev)
	var b *Term // nil: the database
	if recv, _ := method(ev); recv != "bond.DB" && recv != "bond._db" {
		if ev.Recv == w.extB || isInternalBatch(ev.Recv) {
			b = ev.Recv
		}
	}
	if len(es) > 0 {
		b = es[0]
	}
	w.readCheck(m, st, ev, what, b, whole)
}

func (w *Rows) readCheck(m *Machine, st *State, ev *Event, what string, b, whole *Term) {
	c := w.construct(what)
	if whole != nil && whole == w.optBatch {
		// handed on as it is: the database takes the first one
		m.Check(st, true, "reads-through-batch", c, ev.Pos, "")
		return
	}
	if b != nil {
		if v, k := m.isNil(st, b); k && v {
			b = nil
		}
	}
	if b != nil && w.mode == "read" && isDatabase(b) {
		b = nil
	}
	// is there a batch to read from?
	var want *Term
	switch {
	case w.externalGiven(m, st):
		want = w.extB
	default:
		if t := st.find("wrote", func(t *Tup) bool { return true }); t != nil {
			want = t.Args[0]
		}
	}
	if w.mode == "read" {
		if want != nil {
			m.Check(st, b == want, "reads-through-batch", c, ev.Pos, "the caller's batch is not consulted")
		} else if b != nil {
			m.Check(st, b == w.extB, "reads-through-batch", c, ev.Pos, "reads from "+b.String())
		} else {
			// no batch, or an unknown one
			given := w.extB != nil && !w.knownNoBatch(m, st)
			m.Check(st, !given, "reads-through-batch", c, ev.Pos, "the caller's batch may be ignored")
		}
		return
	}
	// a write: only batches of type read-write can be read
	var cur *Term
	switch {
	case w.externalGiven(m, st):
		cur = w.extB
	default:
		for _, e := range m.liveBatches(st) {
			cur = e
		}
	}
	if b != nil {
		m.Check(st, b == cur || cur == nil, "reads-through-batch", c, ev.Pos, "reads from "+b.String())
		rw, k := m.batchReadWrite(st, b)
		m.Check(st, k && rw, "reads-through-batch", c, ev.Pos, "reads from a batch that may be write-only")
		return
	}
	if cur != nil {
		rw, k := m.batchReadWrite(st, cur)
		m.Check(st, k && !rw, "reads-through-batch", c, ev.Pos, "rows in "+w.batchName(cur)+" are not seen")
	}
}

func (w *Rows) knownNoBatch(m *Machine, st *State) bool {
	if v, k := m.isNil(st, w.extB); k && v {
		return true
	}
	if w.optBatch == nil {
		return false
	}
	l := m.TT.App("len", types.Typ[types.Int], w.optBatch)
	v, k := m.truth(st, m.TT.Eq(l, m.TT.Int(0)))
	if k && v {
		return true
	}
	v, k = m.truth(st, m.TT.App("<", types.Typ[types.Bool], m.TT.Int(0), l))
	return k && !v
}

// isDatabase: the database itself, in whatever role.
func isDatabase(t *Term) bool {
	if t.Typ != nil && (typeName(t.Typ) == "bond.DB" || typeName(t.Typ) == "bond._db") {
		return true
	}
	return t.K == KApp && strings.HasSuffix(t.Op, ".DB")
}

// liveBatches are the internal batches that local variables hold.
func (m *Machine) liveBatches(st *State) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	note := func(t *Term) {
		if t != nil && t.K == KCall && isInternalBatch(t) && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, v := range st.env {
		note(v)
	}
	for _, v := range st.heap {
		note(v)
	}
	for _, d := range st.defers {
		note(d.fn)
	}
	return out
}

// batchReadWrite: what is known of the type of a batch.
func (m *Machine) batchReadWrite(st *State, b *Term) (rw, known bool) {
	for f, v := range st.facts {
		if f.K != KApp || f.Op != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			x, c := f.Args[i], f.Args[1-i]
			if x.K == KApp && strings.HasSuffix(x.Op, "Batch.Type") && len(x.Args) == 1 && x.Args[0] == b {
				if n, ok := c.intVal(); ok {
					// BatchTypeWriteOnly is 0, BatchTypeReadWrite 1
					if v {
						return n == 1, true
					}
					return n == 0, true
				}
			}
		}
	}
	return false, false
}

func (w *Rows) get(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	w.readThrough(m, st, ev, "Get")
	key := ev.Args[0]
	bad := w.fails(m, st, ev, "Get")
	nf := st.clone()
	var nfErr *Term
	for _, imp := range m.P.SSA.AllPackages() {
		if imp.Pkg.Path() == "github.com/cockroachdb/pebble" {
			if g, ok := imp.Members["ErrNotFound"].(*ssa.Global); ok {
				nfErr = tt.Load(tt.Global(g), g.Type().(*types.Pointer).Elem())
			}
		}
	}
	if nfErr == nil {
		m.fail("pebble.ErrNotFound not found")
		return nil
	}
	if w.tracking() {
		nf.add(&Tup{Tag: "~absent", Args: []*Term{key}})
		st.add(&Tup{Tag: "~present", Args: []*Term{key}})
	}
	closer := tt.Call(ev.Site, ev.Ctx, 1, ev.Sig.Results().At(1).Type())
	if w.Open {
		st.add(&Tup{Tag: "open", Args: []*Term{closer}, Data: "closer of Get", Pos: ev.Pos})
	}
	if w.Negs {
		bad.st.add(&Tup{Tag: "readfailed", Pos: ev.Pos})
	}
	if e := resErr(bad.res); e != nil {
		m.assume(bad.st, tt.App("errors.Is", types.Typ[types.Bool], e, nfErr), false)
		m.assume(bad.st, tt.Eq(e, nfErr), false)
	}
	return []Outcome{
		m.okOutcome(st, ev, tt.App("stored", ev.Sig.Results().At(0).Type(), key), closer),
		m.errOutcome(nf, ev, nfErr),
		bad,
	}
}

func (w *Rows) iter(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	w.readThrough(m, st, ev, "Iter")
	it := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
	if w.Open {
		st.add(&Tup{Tag: "open", Args: []*Term{it}, Data: "iterator", Pos: ev.Pos})
	}
	if hasErr(ev.Sig) {
		bad := w.fails(m, st, ev, "NewIter")
		for _, t := range bad.st.tups("open") {
			if t.Args[0] == it {
				bad.st.del(t)
			}
		}
		return []Outcome{m.okOutcome(st, ev, it), bad}
	}
	return []Outcome{{st, it}}
}

func (w *Rows) forgetPos(st *State, it *Term) {
	for _, t := range st.tups("~pos") {
		if t.Args[0] == it {
			st.del(t)
		}
	}
	for _, t := range st.tups("neg") {
		if t.Args[0] == it {
			st.del(t)
		}
	}
}

func (w *Rows) position(m *Machine, st *State, ev *Event) []Outcome {
	_, name := method(ev)
	w.forgetPos(st, ev.Recv)
	if w.Index && w.mode == "reindex" {
		w.rowPending(m, st, ev.Pos)
	}
	if name == "SeekGE" && w.Exist {
		w.boundsCheck(m, st, ev)
	}
	no := st.clone()
	if w.tracking() && name == "SeekGE" {
		st.add(&Tup{Tag: "~pos", Args: []*Term{ev.Recv, ev.Args[0]}})
		no.add(&Tup{Tag: "~absent", Args: []*Term{ev.Args[0]}})
	}
	if w.Negs {
		no.add(&Tup{Tag: "neg", Args: []*Term{ev.Recv}, Pos: ev.Pos})
	}
	return []Outcome{{st, m.TT.True}, {no, m.TT.False}}
}

func (w *Rows) boundsCheck(m *Machine, st *State, ev *Event) {}

// rowPending: a row was read by ReIndex; it must have been indexed before the
// next one is read.
func (w *Rows) rowPending(m *Machine, st *State, pos string) {
	m.Check(st, len(st.tups("row-pending")) == 0, "reindex-covers-rows", w.construct("rows"), pos, "a row was read but not added to every index")
}

func (w *Rows) valid(m *Machine, st *State, ev *Event) []Outcome {
	no := st.clone()
	if w.Index && w.mode == "reindex" {
		st.add(&Tup{Tag: "row-pending"})
	}
	if w.Negs {
		no.add(&Tup{Tag: "neg", Args: []*Term{ev.Recv}, Pos: ev.Pos})
		for _, t := range st.tups("neg") {
			if t.Args[0] == ev.Recv {
				st.del(t)
			}
		}
	}
	return []Outcome{{st, m.TT.True}, {no, m.TT.False}}
}

func (w *Rows) negCheck(m *Machine, st *State, c, pos string) {
	n := len(st.tups("neg")) + len(st.tups("negclose")) + len(st.tups("readfailed"))
	m.Check(st, n == 0, "failed-read-is-not-absence", c, pos, "acts on a read that found nothing without looking at the iterator's error")
}

func (w *Rows) closeRes(m *Machine, st *State, ev *Event, kind string) []Outcome {
	for _, t := range st.tups("open") {
		if t.Args[0] == ev.Recv {
			st.del(t)
		}
	}
	e := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
	if w.Negs {
		for _, t := range st.tups("neg") {
			if t.Args[0] == ev.Recv {
				st.del(t)
				st.add(&Tup{Tag: "negclose", Args: []*Term{e}, Pos: t.Pos})
			}
		}
	}
	return []Outcome{{st, e}}
}

// ---- filter ----

// lookup: a key is looked up in the store. If the filter was asked, it was
// asked about that key.
func (w *Rows) lookup(m *Machine, st *State, ev *Event, key *Term) {
	if !w.Hint {
		return
	}
	for _, t := range st.tups("asked") {
		m.Check(st, t.Args[0] == key, "filter-asked-about-the-key", w.construct("MayContain"), t.Pos, "the filter is asked about another key than the one looked up at "+ev.Pos)
		st.del(t)
	}
}

// unasked: the filter said that a key may be there, and it was not looked up.
func (w *Rows) unasked(m *Machine, st *State, what, pos string) {
	for _, t := range st.tups("asked") {
		m.Check(st, false, "filter-yes-is-looked-up", w.construct("MayContain"), t.Pos, "the filter says the key may be there, but it is not looked up before "+what+" ("+pos+")")
		st.del(t)
	}
}

func (w *Rows) filterAdd(m *Machine, st *State, ev *Event) {
	key := ev.Args[1]
	need := &Tup{Tag: "unfiltered", Args: []*Term{key}}
	if st.has(need) {
		st.del(need)
	} else {
		st.add(&Tup{Tag: "~filtered", Args: []*Term{key}})
	}
}

func (w *Rows) filterNeed(m *Machine, st *State, ev *Event, key *Term, absent, present bool) {
	c := w.construct("Set of a row")
	m.Check(st, true, "stored-keys-in-filter", c, ev.Pos, "")
	if present && !absent || w.mode == "update" || w.mode == "unsafeupdate" {
		return // it was added when it was inserted
	}
	if st.has(&Tup{Tag: "~filtered", Args: []*Term{key}}) {
		return
	}
	if v, k := m.isNil(st, w.filterTerm(m)); k && v {
		return
	}
	st.add(&Tup{Tag: "unfiltered", Args: []*Term{key}, Pos: ev.Pos})
}

func (w *Rows) filterTerm(m *Machine) *Term {
	pt, ok := ptrElem(w.recv.Typ)
	if !ok {
		return m.TT.Hole
	}
	s, ok := pt.Underlying().(*types.Struct)
	if !ok {
		return m.TT.Hole
	}
	for i := 0; i < s.NumFields(); i++ {
		if typeName(s.Field(i).Type()) == "bond.Filter" {
			ft := s.Field(i).Type()
			return m.TT.Load(m.TT.FldAddr(w.recv, i, types.NewPointer(ft)), ft)
		}
	}
	return m.TT.Hole
}

// ---- cancellation ----

func (w *Rows) onSelect(m *Machine, st *State, site *ssa.Select, chans []*Term, chosen int) {
	if !w.Polls && !w.Negs {
		return
	}
	idx := -1
	for i, c := range chans {
		if c.K == KApp && c.Op == "ctx.Done" {
			idx = i
		}
	}
	if idx < 0 {
		return
	}
	if chosen == idx {
		st.add(&Tup{Tag: "cancelled"})
	} else if w.Polls {
		st.add(&Tup{Tag: "polled"})
	}
}

// ---- the end ----

func (w *Rows) onReturn(m *Machine, st *State, res []*Term, pos string) {
	e, kind := w.retKind(m, st, res)
	c := w.construct("return")
	success := kind != "err"
	if w.Polls {
		m.Check(st, !success || len(st.tups("cancelled")) == 0, "cancel-is-an-error", c, pos, "returns without an error although the context was found cancelled")
	}
	if w.Errs && success {
		for _, t := range st.tups("failed") {
			m.report(st, "errors-returned", w.construct(t.Data), t.Pos, "its error is not returned")
		}
	}
	if w.Errs {
		m.Check(st, true, "errors-returned", c, pos, "")
	}
	if w.Open {
		for _, t := range st.tups("open") {
			if w.transferred(m, st, res, t.Args[0]) {
				continue
			}
			m.report(st, "closed-on-every-path", w.construct(t.Data), t.Pos, "not closed when the function returns at "+pos)
		}
		m.Check(st, true, "closed-on-every-path", c, pos, "")
	}
	if w.Negs {
		for _, t := range st.tups("negclose") {
			if len(st.tups("cancelled")) == 0 && e != t.Args[0] && (e == nil || !termContains(e, t.Args[0])) {
				m.report(st, "failed-read-is-not-absence", c, t.Pos, "the iterator's error is not looked at before returning at "+pos)
			}
		}
		for _, t := range st.tups("neg") {
			if len(st.tups("cancelled")) > 0 {
				continue
			}
			m.report(st, "failed-read-is-not-absence", c, t.Pos, "the iterator's error is not looked at before returning at "+pos)
		}
		if success || isBondNotFound(m, e) {
			for _, t := range st.tups("readfailed") {
				if len(t.Args) > 0 && e != nil && (e == t.Args[0] || termContains(e, t.Args[0])) {
					continue
				}
				m.report(st, "failed-read-is-not-absence", c, t.Pos, "a failed read is reported as absence at "+pos)
			}
		}
		m.Check(st, true, "failed-read-is-not-absence", c, pos, "")
	}
	if w.Durable {
		if success {
			for _, t := range st.tups("dirty") {
				if w.isExternal(t.Args[0]) {
					continue
				}
				m.report(st, "committed-before-success", c, t.Pos, fmt.Sprintf("what was written to %s is not committed when the function returns without an error at %s", w.batchName(t.Args[0]), pos))
			}
		}
		m.Check(st, true, "committed-before-success", c, pos, "")
	}
	if w.Atomic && w.mode != "reindex" {
		m.Check(st, success || len(st.tups("committed")) == 0, "error-means-nothing-written", c, pos, "returns an error although the batch was committed")
	}
	if w.Index && w.mode == "reindex" && success {
		w.rowPending(m, st, pos)
	}
	if w.Index && success {
		if len(st.tups("noidx")) == 0 {
			for _, t := range st.tups("need") {
				m.report(st, "row-and-indexes", w.construct(t.Data), t.Pos, "the row changes but "+t.Data+" is not called for every index with that row and the one it replaces ("+t.String()+")")
			}
			for _, t := range st.tups("indexed") {
				m.report(st, "row-and-indexes", w.construct(t.Data), t.Pos, t.Data+" is called for a row that does not change that way ("+t.String()+")")
			}
		}
		m.Check(st, true, "row-and-indexes", c, pos, "")
	}
	if w.Hint {
		m.Check(st, true, "filter-yes-is-looked-up", w.construct("return"), pos, "")
		if success || isFoundErr(m, e) {
			w.unasked(m, st, "the function returns", pos)
		}
	}
	if w.Filter && success {
		for _, t := range st.tups("unfiltered") {
			m.report(st, "stored-keys-in-filter", w.construct("Set of a row"), t.Pos, "the key is not added to the filter")
		}
	}
	if w.Dups && success && w.mode == "insert" {
		m.Check(st, len(st.tups("dup-pending")) == 0, "insert-rejects-duplicates", c, pos, "returns without an error although a key was given twice")
	}
}

// isFoundErr: the error says that a key is or is not there.
func isFoundErr(m *Machine, e *Term) bool {
	return e != nil && findSub(e, func(t *Term) bool { return t.K == KGlobal }) != nil
}

func (w *Rows) retKind(m *Machine, st *State, res []*Term) (*Term, string) {
	if w.name != "" && m.entry != nil && !hasErr(m.entry.Signature) {
		return nil, "nil"
	}
	if len(res) == 0 {
		return nil, "nil"
	}
	e := res[len(res)-1]
	if v, k := m.isNil(st, e); k {
		if v {
			return e, "nil"
		}
		return e, "err"
	}
	return e, "unknown"
}

// transferred: the resource is part of the result, so the caller closes it.
func (w *Rows) transferred(m *Machine, st *State, res []*Term, x *Term) bool {
	seen := map[*Term]bool{}
	var in func(t *Term) bool
	in = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if in(a) {
				return true
			}
		}
		if t.K == KAlloc {
			for k, v := range st.heap {
				if underAddr(k, t) && in(v) {
					return true
				}
			}
		}
		return false
	}
	for _, r := range res {
		if in(r) {
			return true
		}
	}
	return false
}

func isBondNotFound(m *Machine, e *Term) bool {
	if e == nil {
		return false
	}
	return findSub(e, func(t *Term) bool {
		if t.K == KLoad && t.Args[0].K == KGlobal {
			if g, ok := t.Args[0].Obj.(*ssa.Global); ok {
				return g.Name() == "ErrNotFound"
			}
		}
		return false
	}) != nil
}
