package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C38: every row that is given is handled, under its own key ----

// itemWatch follows functions that do something for each of the items they
// are given.
//
//	scope(C)         C is the list (or number) of items at hand
//	keys(K, C)       K[i] is the key of C[i]
//	order(K, O)      K was sorted: K[i] is the key of C[O[i]]
//	~up(x, n)        the items before x+n are handled
//	~dup(K, x)       K[x] and K[x+1] are equal
//	~same(x, y)      the keys x, ..., y are equal
//	done(C)          all items of C are handled
//	covered(L)       the items of L were handled, chunk by chunk
type itemWatch struct {
	settle func(m *Machine, st *State) // before the next item
	p      *Program
	r      *Result
	name   string
	mode   string // "write", "get", "values", ""
	rule   string

	items *Term // the parameter with the items
	recv  *Term
	must  *Term // the parameter that makes a missing row an error
	// item says what position a store or append handles
	onStore  func(m *Machine, st *State, arr, i, val *Term, pos string)
	onAppend func(m *Machine, st *State, list, elem *Term, pos string)
	call     func(m *Machine, st *State, ev *Event) (bool, []Outcome)
	ret      func(m *Machine, st *State, res []*Term, pos string)

	perRound bool // an append handles the item of the loop's round

	swaps map[*Term]*swapInfo // while a swap function runs
	si    *Term
	sj    *Term
}

type swapInfo struct{ ij, ji bool }

func (w *itemWatch) scope(st *State) *Term {
	for _, t := range st.tups("scope") {
		return t.Args[0]
	}
	return nil
}

func (w *itemWatch) setScope(st *State, c *Term) {
	for _, tag := range []string{"scope", "~up", "~same", "done"} {
		for _, t := range st.tups(tag) {
			st.del(t)
		}
	}
	if c != nil {
		st.add(&Tup{Tag: "scope", Args: []*Term{c}})
	}
}

// isCount: t is the number of items at hand.
func (w *itemWatch) isCount(st *State, t *Term) bool {
	c := w.scope(st)
	if c == nil {
		return false
	}
	if t == c {
		return true
	}
	return isLen(t) && w.isItems(st, t.Args[0])
}

// isItems: l has as many elements as there are items.
func (w *itemWatch) isItems(st *State, l *Term) bool {
	c := w.scope(st)
	if l == c {
		return true
	}
	if l.K == KApp && l.Op == "slice" && l.Args[1].isInt(0) && w.isCount(st, l.Args[2]) {
		return true
	}
	return st.find("keys", func(u *Tup) bool { return u.Args[0] == l && u.Args[1] == c }) != nil ||
		st.find("vals", func(u *Tup) bool { return u.Args[0] == l && u.Args[1] == c }) != nil
}

// to: the items before e are handled, or are superseded by the next.
func (w *itemWatch) to(m *Machine, st *State, e *Term) bool {
	if e.isInt(0) {
		return true
	}
	if st.find("~up", func(t *Tup) bool { return m.TT.addConstTerm(t.Args[0], off(t.Args[1])) == e }) != nil {
		return true
	}
	prev := m.TT.addConstTerm(e, -1)
	if st.find("~dup", func(t *Tup) bool { return t.Args[1] == prev }) == nil {
		return false
	}
	return w.to(m, st, prev)
}

// handle: something is done for item e.
func (w *itemWatch) handle(m *Machine, st *State, e *Term) {
	if !w.to(m, st, e) {
		return
	}
	st.add(&Tup{Tag: "~up", Args: []*Term{e, m.TT.Int(1)}})
	for _, t := range st.tups("~same") {
		if t.Args[0] == e {
			st.add(&Tup{Tag: "~up", Args: []*Term{t.Args[1], m.TT.Int(1)}})
		}
	}
}

func (w *itemWatch) onCounter(m *Machine, st *State, val *Term) func(*Term) {
	if w.settle != nil {
		w.settle(m, st)
	}
	var ups []int64
	if u := st.find("~round", func(t *Tup) bool { return m.TT.addConstTerm(t.Args[0], 1) == val }); w.perRound && u != nil && len(st.tups("put")) > 0 {
		ups = append(ups, 0)
	}
	for _, n := range []int64{0, 1} {
		if w.to(m, st, m.TT.addConstTerm(val, n)) {
			ups = append(ups, n)
		}
	}
	x, n := splitConst(val)
	var same []*Term
	if n == 0 && x != nil && !hasOld(x) {
		same = append(same, x)
	}
	prev := m.TT.addConstTerm(val, -1)
	if st.find("~dup", func(t *Tup) bool { return t.Args[1] == prev }) != nil {
		for _, t := range st.tups("~same") {
			if t.Args[1] == prev && !hasOld(t.Args[0]) {
				same = append(same, t.Args[0])
			}
		}
	}
	if ups == nil && same == nil {
		return nil
	}
	return func(name *Term) {
		for _, n := range ups {
			st.add(&Tup{Tag: "~up", Args: []*Term{name, m.TT.Int(n)}})
			if w.perRound {
				st.add(&Tup{Tag: "~round", Args: []*Term{m.TT.addConstTerm(name, n)}})
				for _, t := range st.tups("put") {
					st.del(t)
				}
			}
		}
		for _, x := range same {
			if x != name && !hasOld(x) {
				st.add(&Tup{Tag: "~same", Args: []*Term{x, name}})
			}
		}
	}
}

func (w *itemWatch) onFact(m *Machine, st *State, t *Term, v bool) {
	if t.K != KApp || len(t.Args) != 2 {
		return
	}
	all := func() { st.add(&Tup{Tag: "done", Args: []*Term{w.scope(st)}}) }
	switch t.Op {
	case "<":
		if !v && w.isCount(st, t.Args[1]) && w.to(m, st, t.Args[0]) {
			all()
		}
		if !v && t.Args[0].isInt(0) && w.isCount(st, t.Args[1]) || v && t.Args[1].isInt(1) && w.isCount(st, t.Args[0]) {
			all()
		}
	case "==":
		for i, x := range t.Args {
			if v && w.isCount(st, x) && w.to(m, st, t.Args[1-i]) {
				all()
			}
		}
	case "bytes.Equal":
		for i, x := range t.Args {
			if x.K == KApp && x.Op == "keyat" && x.Args[0] == t.Args[1-i] {
				w.found(st, x.Args[0], v)
			}
		}
		a, i := elemKey(t.Args[0])
		b, j := elemKey(t.Args[1])
		if !v || a == nil || a != b {
			return
		}
		for _, p := range [][2]*Term{{i, j}, {j, i}} {
			if p[1] == m.TT.addConstTerm(p[0], 1) || p[0] == m.TT.addConstTerm(p[1], -1) {
				st.add(&Tup{Tag: "~dup", Args: []*Term{a, p[0]}})
			}
		}
	}
}

// found: key is among the stored rows, or it is not.
func (w *itemWatch) found(st *State, key *Term, v bool) {
	tag := map[bool]string{true: "~there", false: "~gone"}[v]
	st.add(&Tup{Tag: tag, Args: []*Term{key}})
}

// own: row belongs to key.
func (w *itemWatch) own(st *State, key, row *Term) (item *Term, ok bool) {
	if key.K == KApp && key.Op == "keyof" {
		if a, i := elemKey(key.Args[0]); a != nil && a == w.scope(st) {
			return i, row == nil || row == key.Args[0]
		}
		return nil, row == nil || row == key.Args[0]
	}
	k, i := elemKey(key)
	if k == nil {
		return nil, false
	}
	u := st.find("keys", func(t *Tup) bool { return t.Args[0] == k })
	if u == nil {
		return nil, false
	}
	if row == nil || row.K == KApp && row.Op == "merged" {
		return i, true
	}
	return i, w.rowAt(st, u.Args[1], k, row) == i
}

// rowAt is the position of row among the (sorted) keys k of the rows c.
func (w *itemWatch) rowAt(st *State, c, k, row *Term) *Term {
	l, x := elemKey(row)
	if l == nil || l != c {
		return nil
	}
	o := st.find("order", func(t *Tup) bool { return t.Args[0] == k })
	if o == nil {
		if len(st.tups("order")) > 0 {
			return nil
		}
		return x
	}
	if ol, oi := elemKey(x); ol == o.Args[1] {
		return oi
	}
	return nil
}

// boundaries are the functions that are analysed by themselves.
func (w *itemWatch) boundary(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	res := func(i int) *Term { return tt.Call(ev.Site, ev.Ctx, i, ev.Sig.Results().At(i).Type()) }
	name := ev.Name
	if i := strings.LastIndexByte(name, '.'); strings.HasPrefix(name, "iface:bond.") {
		name = "bond._db" + name[i:]
	}
	switch name {
	case "bond._table.key":
		return true, []Outcome{{st, tt.App("keyof", ev.Sig.Results().At(0).Type(), ev.Args[0])}}
	case "bond._table.keysExternal":
		m.age(st, ev.Site, ev.Ctx)
		k := res(0)
		st.add(&Tup{Tag: "keys", Args: []*Term{k, ev.Args[0]}})
		for _, t := range st.tups("order") {
			st.del(t)
		}
		w.room(m, st, ev)
		return true, []Outcome{{st, k}}
	case "bond._table.sortKeys":
		m.age(st, ev.Site, ev.Ctx)
		o := res(0)
		st.add(&Tup{Tag: "order", Args: []*Term{ev.Args[0], o}})
		return true, []Outcome{{st, o}}
	case "bond._table.reorderValues":
		st.add(&Tup{Tag: "reordered", Args: []*Term{ev.Args[0], ev.Args[1]}})
		return true, []Outcome{{st, nil}}
	case "bond._db.getKeyArray", "bond._db.getValueArray":
		m.age(st, ev.Site, ev.Ctx)
		b := res(0)
		st.add(&Tup{Tag: "room", Args: []*Term{b, ev.Args[0]}})
		return true, []Outcome{{st, b}}
	case "bond._db.putKeyArray", "bond._db.putValueArray":
		return true, []Outcome{{st, nil}}
	case "bond.batched":
		return true, w.batched(m, st, ev)
	}
	return false, nil
}

// room: the list that is to hold the keys of a chunk has buffers for them.
func (w *itemWatch) room(m *Machine, st *State, ev *Event) {
	c, b := ev.Args[0], baseArray(ev.Args[1])
	u := st.find("room", func(t *Tup) bool { return t.Args[0] == b })
	if u == nil {
		w.r.Check(false, "room-for-every-key", w.name, ev.Pos, "it is not known how many keys the list has room for")
		return
	}
	n := u.Args[1]
	ok := n == m.TT.Len(c)
	if c.K == KApp && c.Op == "chunk" {
		ok = ok || n == m.TT.Len(c.Args[0]) || n == c.Args[1]
	}
	m.Check(st, ok, "room-for-every-key", w.name, ev.Pos, "the list of key buffers may be shorter than the list of rows: keys share memory with what others use")
}

// batched: the function is called with each chunk.
func (w *itemWatch) batched(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	items, size, f := ev.Args[0], ev.Args[1], ev.Args[2]
	m.age(st, ev.Site, ev.Ctx)
	c := w.name + ": chunks"
	var outs []Outcome
	none := st.clone()
	chunk := tt.App("chunk", items.Typ, items, size)
	outer := w.scope(st)
	w.setScope(st, chunk)
	st.add(&Tup{Tag: "inchunk"})
	for _, o := range m.callClosure(st, ev, f, []*Term{chunk}, 0) {
		if v, k := m.isNil(o.st, o.res); k && !v {
			w.setScope(o.st, outer)
			outs = append(outs, m.errOutcome(o.st, ev, o.res))
			continue
		}
		m.Check(o.st, len(o.st.tups("done")) > 0, w.rule, c, ev.Pos, "a chunk is taken for done although not every row of it was handled")
		for _, t := range o.st.tups("plain") {
			// a chunk has to see the rows of those before
			v, k := m.truth(o.st, tt.Lt(size, tt.Len(items)))
			m.Check(o.st, k && !v || len(o.st.tups("read")) == 0, "chunks-see-the-previous", c, t.Pos, "the batch cannot be read from although there may be several chunks: a chunk does not see the rows of those before it")
		}
		w.setScope(o.st, outer)
		o.st.del(&Tup{Tag: "inchunk"})
		o.st.add(&Tup{Tag: "covered", Args: []*Term{items}})
		outs = append(outs, m.okOutcome(o.st, ev))
	}
	m.assume(none, tt.Eq(tt.Len(items), tt.Int(0)), true)
	none.add(&Tup{Tag: "covered", Args: []*Term{items}})
	outs = append(outs, m.okOutcome(none, ev))
	return outs
}

// stored is the row that a serialized value comes from.
func serializedRow(t *Term) *Term {
	if t.K == KApp && t.Op == "ser" {
		return t.Args[0]
	}
	return t
}

func (w *itemWatch) event(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if w.call != nil {
		if ok, outs := w.call(m, st, ev); ok {
			return true, outs
		}
	}
	if ok, outs := w.boundary(m, st, ev); ok {
		return true, outs
	}
	if w.mode == "" {
		return false, nil
	}
	if ev.Name == "dynamic" && ev.Val != nil && ev.Val.K == KParam && len(ev.Args) == 2 && w.mode == "write" {
		return true, w.merge(m, st, ev)
	}
	kind := opKind(ev)
	if kind == "" || ev.Fn != nil && m.P.InModule(ev.Fn) && !strings.HasPrefix(kind, "On") {
		return false, nil
	}
	m.age(st, ev.Site, ev.Ctx)
	fail := func() Outcome { return m.errOutcome(st.clone(), ev, nil) }
	switch kind {
	case "Batch":
		if v, ok := ev.Args[0].intVal(); ok && v == m.P.constInt("BatchTypeWriteOnly") && len(st.tups("plain")) == 0 {
			st.add(&Tup{Tag: "plain", Pos: ev.Pos})
		} else if !ok {
			st.add(&Tup{Tag: "plain", Pos: ev.Pos})
		}
		return true, []Outcome{{st, tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())}}
	case "Iter", "Get":
		st.add(&Tup{Tag: "read"})
		return false, nil
	case "Set", "Delete":
		if w.mode != "write" {
			return false, nil
		}
		var row *Term
		if kind == "Set" {
			row = serializedRow(ev.Args[1])
		}
		bad := fail()
		i, ok := w.own(st, ev.Args[0], row)
		m.Check(st, ok, "row-under-its-own-key", w.name+": "+kind, ev.Pos, "what is written under a key is not the row that the key was made from")
		if i != nil {
			w.handle(m, st, i)
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case "Serialize":
		_, content := m.pointee(st, ev.Args[0])
		if content == nil {
			content = ev.Args[0]
		}
		bad := fail()
		return true, []Outcome{m.okOutcome(st, ev, tt.App("ser", ev.Sig.Results().At(0).Type(), content)), bad}
	case "Deserialize":
		bad := fail()
		if addr, _ := m.pointee(st, ev.Args[1]); addr != nil {
			rt := derefType(addr.Typ)
			m.store(st, addr, tt.App("row", rt, ev.Args[0]))
			m.havoc(bad.st, addr, tt.Call(ev.Site, ev.Ctx, 77, rt))
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case "Position":
		for _, tag := range []string{"~at", "~err"} {
			for _, t := range st.tups(tag) {
				st.del(t)
			}
		}
		if strings.HasSuffix(ev.Name, "SeekGE") {
			st.add(&Tup{Tag: "~at", Args: []*Term{ev.Recv, ev.Args[0]}})
		}
		no := st.clone()
		if t := no.find("~at", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			w.found(no, t.Args[1], false)
		}
		return true, []Outcome{{st, tt.True}, {no, tt.False}}
	case "Valid":
		if t := st.find("~at", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			no := st.clone()
			w.found(no, t.Args[1], false)
			return true, []Outcome{{st, tt.True}, {no, tt.False}}
		}
		return false, nil
	case "IterValue", "IterKey":
		op := map[string]string{"IterValue": "valueat", "IterKey": "keyat"}[kind]
		if t := st.find("~at", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil && (op == "valueat" || w.mode == "values") {
			return true, []Outcome{{st, tt.App(op, ev.Sig.Results().At(0).Type(), t.Args[1])}}
		}
		return false, nil
	case "FilterMayContain":
		no := st.clone()
		if len(ev.Args) > 1 {
			w.found(no, ev.Args[1], false)
		}
		return true, []Outcome{{st, tt.True}, {no, tt.False}}
	case "FilterAdd":
		return true, []Outcome{{st, nil}}
	case "IterError":
		// it stays while the iterator stays
		if t := st.find("~err", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			return true, []Outcome{{st, t.Args[1]}}
		}
		bad := m.errOutcome(st.clone(), ev, tt.App("errorf", ev.Sig.Results().At(0).Type(), ev.Recv))
		ok := m.okOutcome(st, ev)
		for _, o := range []Outcome{ok, bad} {
			o.st.add(&Tup{Tag: "~err", Args: []*Term{ev.Recv, o.res}})
		}
		return true, []Outcome{ok, bad}
	case "OnInsert", "OnUpdate", "OnDelete", "IterClose", "Closer", "StoreClose", "Commit":
		bad := fail()
		return true, []Outcome{m.okOutcome(st, ev), bad}
	}
	return false, nil
}

// merge: the conflict function is given the row that is there, and the next.
func (w *itemWatch) merge(m *Machine, st *State, ev *Event) []Outcome {
	m.age(st, ev.Site, ev.Ctx)
	c := w.name + ": conflict function"
	rule := "conflict-of-the-rows-with-one-key"
	old, row := ev.Args[0], ev.Args[1]
	ok := false
	var at *Term
	for _, t := range st.tups("keys") {
		if y := w.rowAt(st, t.Args[1], t.Args[0], row); y != nil {
			at = y
		}
	}
	if at != nil {
		ok = w.to(m, st, at)
		for _, t := range st.tups("~same") {
			ok = ok || t.Args[1] == at || m.TT.addConstTerm(t.Args[1], 1) == at
		}
	}
	m.Check(st, ok, rule, c, ev.Pos, "the second row that is given to it is not the next given row with that key")
	first := true
	for _, t := range st.tups("keys") {
		if x := w.rowAt(st, t.Args[1], t.Args[0], old); x != nil && at != nil {
			first = at == m.TT.addConstTerm(x, 1)
			for _, u := range st.tups("~same") {
				first = first || u.Args[0] == x && m.TT.addConstTerm(u.Args[1], 1) == at
			}
		} else if l, _ := elemKey(old); l != nil && l == t.Args[1] {
			first = false
		}
	}
	m.Check(st, first, rule, c, ev.Pos, "the first row that is given to it is not the one that is there before the second")
	return []Outcome{{st, m.TT.App("merged", ev.Sig.Results().At(0).Type(), m.TT.Sym(ev.Site, ev.Ctx, 0, nil))}}
}

func (w *itemWatch) keep(m *Machine, t *Term) bool {
	if t == w.must {
		return true
	}
	if t.K != KApp {
		return false
	}
	if t.Op == "==" || t.Op == "<" {
		for _, x := range t.Args {
			if isLen(x) {
				return true
			}
		}
	}
	return false
}

func (w *itemWatch) interpret(fn *ssa.Function, pre func(m *Machine, st *State, ps []*Term)) {
	w.name = calleeName(fn)
	spec := &Spec{Call: w.event, OnCounter: w.onCounter, OnFact: w.onFact, KeepFact: w.keep}
	spec.Inline = func(f *ssa.Function) bool { return w.mode != "get" || calleeName(f) != "bond._table.get" }
	spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
		if addr.K != KIdxAddr {
			return
		}
		if t := addr.Args[0].Typ; t != nil {
			if _, arr := t.Underlying().(*types.Pointer); arr {
				return // the arguments of an append
			}
		}
		if w.swaps != nil {
			l := baseArray(addr.Args[0])
			s := w.swaps[l]
			if s == nil {
				s = &swapInfo{}
				w.swaps[l] = s
			}
			a, x := elemKey(val)
			same := a != nil && baseArray(a) == l
			s.ij = s.ij || same && addr.Args[1] == w.si && x == w.sj
			s.ji = s.ji || same && addr.Args[1] == w.sj && x == w.si
			return
		}
		if w.onStore != nil {
			w.onStore(m, st, addr.Args[0], addr.Args[1], val, m.P.Pos(site.Pos()))
		}
	}
	spec.OnMake = func(m *Machine, st *State, list, n *Term) {
		if c := w.scope(st); c != nil && w.isCount(st, n) {
			st.add(&Tup{Tag: "vals", Args: []*Term{list, c}})
		}
	}
	if w.onAppend != nil {
		spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
			for _, e := range elems {
				w.onAppend(m, st, list, e, m.P.Pos(site.Pos()))
			}
			if whole != nil {
				w.onAppend(m, st, list, nil, m.P.Pos(site.Pos()))
			}
		}
	}
	spec.OnReturn = w.ret
	w.r.Interpret(w.p, spec, fn, func(m *Machine, st *State, ps []*Term) {
		w.recv = ps[0]
		pre(m, st, ps)
	})
}

func runRowKeys(p *Program, r *Result) {
	rule := "every-row-is-handled"
	for _, e := range []string{"Insert", "Update", "Upsert", "Delete", "UnsafeInsert", "UnsafeUpdate"} {
		fn := r.anchor(p.Find("bond._table." + e))
		if fn == nil {
			continue
		}
		w := &itemWatch{p: p, r: r, mode: "write", rule: rule}
		w.ret = func(m *Machine, st *State, res []*Term, pos string) {
			if _, k := m.retErr(st, res); k == "err" {
				return
			}
			ok := len(st.tups("done")) > 0 || st.find("covered", func(t *Tup) bool { return t.Args[0] == w.items }) != nil
			m.Check(st, ok, rule, w.name, pos, "success is reported although not every given row was handled")
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = ps[2]
			w.setScope(st, ps[2])
		})
	}
	r.Need(rule, 6)
	r.Need("row-under-its-own-key", 6)
}

// sortArg asks what a sort does: how many elements it sorts, which lists it
// swaps, and by what.
func (w *itemWatch) sortArg(m *Machine, st *State, ev *Event, i, j *Term) (n, less *Term, swaps map[*Term]*swapInfo) {
	x := ev.Args[0]
	it, ok := ev.Sig.Params().At(0).Type().Underlying().(*types.Interface)
	if !ok || it.NumMethods() < 3 {
		return nil, nil, nil
	}
	for k := 0; k < it.NumMethods(); k++ {
		f := it.Method(k)
		sig := f.Type().(*types.Signature)
		args := []*Term{i, j}[:sig.Params().Len()]
		if f.Name() == "Swap" {
			w.swaps, w.si, w.sj = map[*Term]*swapInfo{}, i, j
		}
		outs := m.invoke(ev.Ctx, st.clone(), ev.Site, f, ev.Sig.Params().At(0).Type(), x, args, sig)
		switch {
		case f.Name() == "Swap":
			if len(outs) == 1 {
				swaps = w.swaps
			}
			w.swaps = nil
		case len(outs) != 1:
		case f.Name() == "Len":
			n = outs[0].res
		case f.Name() == "Less":
			less = outs[0].res
		}
	}
	return n, less, swaps
}

func runItemHelpers(p *Program, r *Result) {
	rule := "every-row-is-handled"
	pos := "row-under-its-own-key"
	// the keys of the rows, in their order
	if fn := r.anchor(p.Find("bond._table.keysExternal")); fn != nil {
		w := &itemWatch{p: p, r: r, rule: rule}
		var into *Term
		put := func(m *Machine, st *State, i, val *Term, where string) {
			if val == nil || val.K != KApp || val.Op != "keyof" {
				return
			}
			l, e := elemKey(val.Args[0])
			m.Check(st, l == w.items && (i == nil || e == i), pos, w.name, where, "the key of a row is put where another row's key belongs")
			if l == w.items {
				if i == nil {
					m.Check(st, w.to(m, st, e), pos, w.name, where, "the keys are not put in the order of their rows")
				}
				w.handle(m, st, e)
			}
		}
		w.onStore = func(m *Machine, st *State, arr, i, val *Term, where string) {
			into = baseArray(arr)
			put(m, st, i, val, where)
		}
		w.onAppend = func(m *Machine, st *State, list, elem *Term, where string) { put(m, st, nil, elem, where) }
		w.ret = func(m *Machine, st *State, res []*Term, where string) {
			m.Check(st, len(st.tups("done")) > 0, rule, w.name, where, "not every row has a key")
			if into != nil {
				t := res[0]
				ok := baseArray(t) == into && w.isItems(st, t)
				m.Check(st, ok, rule, w.name, where, "the list that is returned is not that of the rows' keys")
			}
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = ps[1]
			w.setScope(st, ps[1])
		})
	}
	// sorting
	if fn := r.anchor(p.Find("bond._table.sortKeys")); fn != nil {
		w := &itemWatch{p: p, r: r, rule: rule}
		w.call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if strings.HasSuffix(ev.Name, "utils.ArrayN") {
				m.age(st, ev.Site, ev.Ctx)
				o := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
				if w.isCount(st, ev.Args[0]) {
					st.add(&Tup{Tag: "ident", Args: []*Term{o}})
				}
				return true, []Outcome{{st, o}}
			}
			if w.swaps != nil || !strings.HasPrefix(ev.Name, "sort.") && !strings.HasPrefix(ev.Name, "slices.Sort") {
				return false, nil
			}
			i, j := m.TT.Sym(ev.Site, ev.Ctx, 901, types.Typ[types.Int]), m.TT.Sym(ev.Site, ev.Ctx, 902, types.Typ[types.Int])
			n, _, swaps := w.sortArg(m, st, ev, i, j)
			both := 0
			for l, s := range swaps {
				if s.ij && s.ji && (l == baseArray(w.items) || w.known(st, "ident", l)) {
					both++
				}
			}
			m.Check(st, both == 2 && len(swaps) == 2, pos, w.name, ev.Pos, "the keys and the positions of their rows are not moved together")
			m.Check(st, n != nil && w.isCount(st, n), pos, w.name, ev.Pos, "not all keys are sorted")
			st.add(&Tup{Tag: "swapped"})
			return true, []Outcome{{st, nil}}
		}
		w.ret = func(m *Machine, st *State, res []*Term, where string) {
			m.Check(st, len(st.tups("swapped")) == 0 || w.known(st, "ident", res[0]), pos, w.name, where, "what is returned is not where the rows of the sorted keys are")
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = ps[1]
			w.setScope(st, ps[1])
		})
	}
	// and sorting back
	if fn := r.anchor(p.Find("bond._table.reorderValues")); fn != nil {
		w := &itemWatch{p: p, r: r, rule: rule}
		back := "values-in-the-order-of-the-points"
		var order *Term
		w.call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if w.swaps != nil || !strings.HasPrefix(ev.Name, "sort.") && !strings.HasPrefix(ev.Name, "slices.Sort") {
				return false, nil
			}
			i, j := m.TT.Sym(ev.Site, ev.Ctx, 901, types.Typ[types.Int]), m.TT.Sym(ev.Site, ev.Ctx, 902, types.Typ[types.Int])
			n, less, swaps := w.sortArg(m, st, ev, i, j)
			both := 0
			for l, s := range swaps {
				if s.ij && s.ji && (l == w.items || l == order) {
					both++
				}
			}
			m.Check(st, both == 2 && len(swaps) == 2, back, w.name, ev.Pos, "the values and their positions are not moved together")
			m.Check(st, n != nil && w.isCount(st, n), back, w.name, ev.Pos, "not all values are moved back")
			up := less != nil && less == m.TT.Lt(m.TT.Elem(order, i, types.Typ[types.Int]), m.TT.Elem(order, j, types.Typ[types.Int]))
			m.Check(st, up, back, w.name, ev.Pos, "the values are not sorted by their positions")
			st.add(&Tup{Tag: "swapped"})
			return true, []Outcome{{st, nil}}
		}
		w.ret = func(m *Machine, st *State, res []*Term, where string) {
			m.Check(st, len(st.tups("swapped")) > 0 || len(st.tups("done")) > 0, back, w.name, where, "the values are not moved back")
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items, order = ps[1], ps[2]
			w.setScope(st, ps[1])
		})
		r.Need(back, 1)
	}
	if fn := r.anchor(p.Find("bond/utils.ArrayN")); fn != nil {
		w := &itemWatch{p: p, r: r, rule: rule}
		var into *Term
		w.onStore = func(m *Machine, st *State, arr, i, val *Term, where string) {
			into = baseArray(arr)
			m.Check(st, val == i, pos, w.name, where, "a position is not its own")
			w.handle(m, st, i)
		}
		w.onAppend = func(m *Machine, st *State, list, elem *Term, where string) {
			ok := elem != nil && w.to(m, st, elem) && !w.known(st, "~up", elem, m.TT.Int(1)) && (list.K == KAcc || m.emptyList(st, list))
			m.Check(st, ok, pos, w.name, where, "a position is not its own")
			if ok {
				w.handle(m, st, elem)
			}
		}
		w.ret = func(m *Machine, st *State, res []*Term, where string) {
			m.Check(st, len(st.tups("done")) > 0 && (into == nil || baseArray(res[0]) == into), rule, w.name, where, "not every position is set")
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = ps[0]
			w.setScope(st, ps[0])
		})
	}
}

// mustExist: the rows that t.get is asked for have to be there.
func mustExist(m *Machine, st *State, ev *Event) bool {
	for i := 0; i < ev.Sig.Params().Len() && i < len(ev.Args); i++ {
		if types.Identical(ev.Sig.Params().At(i).Type(), types.Typ[types.Bool]) {
			v, k := m.truth(st, ev.Args[i])
			return v && k
		}
	}
	return true
}

// emptied: t holds nothing.
func emptied(t *Term) bool {
	return t.K == KApp && t.Op == "slice" && t.Args[1].isInt(0) && t.Args[2].isInt(0) || t.K == KNil
}

// runPoints: Get of several points returns the rows in the order of the
// points, with the table's stand-in for those that are not there.
func runPoints(p *Program, r *Result) {
	back := "values-in-the-order-of-the-points"
	value := "value-of-its-own-key"
	rule := "every-row-is-handled"
	if fn := r.anchor(p.Find("bond._table.get")); fn != nil {
		w := &itemWatch{p: p, r: r, rule: rule, mode: "values"}
		var values *Term
		is := func(st *State, tag string, i *Term) bool {
			return st.find(tag, func(t *Tup) bool {
				k, e := elemKey(t.Args[0])
				return k == w.items && e == i
			}) != nil
		}
		w.settle = func(m *Machine, st *State) {
			for _, t := range st.tups("left") {
				i := t.Args[0]
				m.Check(st, is(st, "~gone", i) && !is(st, "~there", i), value, w.name, t.Pos, "the value of a key is empty although that is not known to be missing")
				if w.must != nil {
					v, k := m.truth(st, w.must)
					m.Check(st, k && !v, value, w.name+": missing row", t.Pos, "a row that is not there is left out although that is to be an error")
				}
				st.del(t)
			}
		}
		w.onStore = func(m *Machine, st *State, arr, i, val *Term, where string) {
			if baseArray(arr) != values {
				return
			}
			for _, t := range st.tups("left") {
				if t.Args[0] == i {
					st.del(t)
				}
			}
			ok := false
			if emptied(val) {
				st.add(&Tup{Tag: "left", Args: []*Term{i}, Pos: where})
				ok = true
			}
			if val.K == KApp && (val.Op == "cats" || val.Op == "append") && len(val.Args) == 2 {
				v := val.Args[1]
				if v.K == KApp && v.Op == "valueat" {
					k, e := elemKey(v.Args[0])
					ok = emptied(val.Args[0]) && k == w.items && e == i && is(st, "~there", i)
				}
			}
			m.Check(st, ok, value, w.name, where, "what is put at the place of a key is not what is stored under it")
			w.handle(m, st, i)
		}
		w.ret = func(m *Machine, st *State, res []*Term, where string) {
			if _, k := m.retErr(st, res); k == "err" {
				return
			}
			w.settle(m, st)
			t := res[0]
			m.Check(st, len(st.tups("done")) > 0, value, w.name, where, "a value may be left from before for a key")
			if v, k := m.truth(st, m.TT.Eq(m.TT.Len(w.items), m.TT.Int(0))); k && v {
				return
			}
			o := st.find("order", func(u *Tup) bool { return u.Args[0] == w.items })
			if o == nil {
				m.Check(st, baseArray(t) == values && w.isItems(st, t), back, w.name, where, "what is returned are not the values of the keys")
				return
			}
			ok := baseArray(t) == values && w.isItems(st, t)
			u := st.find("reordered", func(u *Tup) bool {
				return u.Args[1] == o.Args[1] && baseArray(u.Args[0]) == values && w.isItems(st, u.Args[0])
			})
			m.Check(st, ok && u != nil, back, w.name, where, "the values are not returned in the order in which the keys were given")
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items, values = ps[1], ps[3]
			if len(ps) > 4 && types.Identical(ps[4].Typ, types.Typ[types.Bool]) {
				w.must = ps[4]
			}
			w.setScope(st, ps[1])
		})
		r.Need(value, 1)
	}
	if fn := r.anchor(p.Find("bond._table.Get")); fn != nil {
		w := &itemWatch{p: p, r: r, rule: rule, mode: "get"}
		w.call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if ev.Name != "bond._table.get" {
				return false, nil
			}
			m.age(st, ev.Site, ev.Ctx)
			bad := m.errOutcome(st.clone(), ev, nil)
			v := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
			if u := st.find("keys", func(t *Tup) bool { return t.Args[0] == ev.Args[0] }); u != nil {
				st.add(&Tup{Tag: "vals", Args: []*Term{v, u.Args[1]}})
			}
			return true, []Outcome{m.okOutcome(st, ev, v), bad}
		}
		w.onAppend = func(m *Machine, st *State, list, elem *Term, where string) {
			u := st.find("vals", func(t *Tup) bool { return t.Args[1] == w.scope(st) })
			if u == nil {
				return
			}
			next := func(e *Term) bool {
				return w.to(m, st, e) && st.find("~up", func(t *Tup) bool { return t.Args[0] == e && t.Args[1].isInt(1) }) == nil
			}
			var at *Term
			if elem != nil && elem.K == KApp && elem.Op == "row" {
				if l, e := elemKey(elem.Args[0]); l == u.Args[0] {
					at = e
				}
			} else if elem != nil && elem.K == KLoad {
				for f, v := range st.facts {
					if !v || f.K != KApp || f.Op != "==" {
						continue
					}
					for i, x := range f.Args {
						if isLen(x) && f.Args[1-i].isInt(0) {
							if l, e := elemKey(x.Args[0]); l == u.Args[0] && next(e) {
								at = e
							}
						}
					}
				}
			}
			m.Check(st, at != nil && next(at), back, w.name, where, "the rows are not returned one for each point, in the order of the points")
			if at != nil {
				w.handle(m, st, at)
			}
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = nil
		})
	}
}

// runBatched: the function is given one part of the items after the other,
// up to the last.
//
//	last(c)      the last part that was given to it
//	~at(n, x)    the parts end at n*x
//	~rest(l)     l are the items behind the parts
//	all          the parts end with the items
type chunkWatch struct {
	r     *Result
	name  string
	items *Term
	ints  []*Term
}

type polynom map[string]int64

func (a polynom) add(b polynom, n int64) polynom {
	o := polynom{}
	for k, v := range a {
		o[k] += v
	}
	for k, v := range b {
		o[k] += n * v
	}
	for k, v := range o {
		if v == 0 {
			delete(o, k)
		}
	}
	return o
}

func (a polynom) eq(b polynom) bool { return len(a.add(b, -1)) == 0 }

// atLeast: a >= 0 for certain, as a is a number.
func (a polynom) constant() (int64, bool) {
	switch len(a) {
	case 0:
		return 0, true
	case 1:
		v, ok := a[""]
		return v, ok
	}
	return 0, false
}

func (w *chunkWatch) poly(st *State, t *Term) polynom {
	t = stripConv(t)
	if n, ok := t.intVal(); ok {
		return polynom{}.add(polynom{"": n}, 1)
	}
	if t.K == KApp && len(t.Args) == 2 {
		switch t.Op {
		case "+":
			return w.poly(st, t.Args[0]).add(w.poly(st, t.Args[1]), 1)
		case "-":
			return w.poly(st, t.Args[0]).add(w.poly(st, t.Args[1]), -1)
		case "*":
			a, b := w.poly(st, t.Args[0]), w.poly(st, t.Args[1])
			o := polynom{}
			for k, x := range a {
				for l, y := range b {
					fs := append(strings.Split(k, "\x00"), strings.Split(l, "\x00")...)
					var gs []string
					for _, f := range fs {
						if f != "" {
							gs = append(gs, f)
						}
					}
					sort.Strings(gs)
					o[strings.Join(gs, "\x00")] += x * y
				}
			}
			return o.add(nil, 1)
		}
	}
	if isLen(t) {
		if s, e := w.span(st, t.Args[0]); s != nil {
			return e.add(s, -1)
		}
	}
	return polynom{t.String(): 1}
}

// span is where a part of the items begins and ends.
func (w *chunkWatch) span(st *State, t *Term) (from, to polynom) {
	switch {
	case t == w.items:
		return polynom{}, polynom{"len": 1}
	case st.has(&Tup{Tag: "~rest", Args: []*Term{t}}):
		return polynom{"from " + t.String(): 1}, polynom{"len": 1}
	case t.K == KApp && t.Op == "slice":
		s, e := w.span(st, t.Args[0])
		if s == nil {
			return nil, nil
		}
		if t.Args[2] != nil && t.Args[2].K != KNil {
			e = s.add(w.poly(st, t.Args[2]), 1)
		}
		return s.add(w.poly(st, t.Args[1]), 1), e
	}
	return nil, nil
}

// positive: the facts say p > 0 (strict) or p >= 0.
func (w *chunkWatch) positive(st *State, p polynom, strict bool) bool {
	enough := func(d polynom, min int64) bool {
		n, ok := d.constant()
		return ok && n >= min
	}
	min := int64(0)
	if strict {
		min = 1
	}
	if enough(p, min) {
		return true
	}
	for f, v := range st.facts {
		if f.K != KApp || len(f.Args) != 2 || f.Op != "<" && f.Op != "==" || f.Typ == nil {
			continue
		}
		if t := f.Args[0].Typ; t != nil && !isInteger(t) {
			continue
		}
		a, b := w.poly(st, f.Args[0]), w.poly(st, f.Args[1])
		switch {
		case f.Op == "<" && v: // b - a >= 1
			if enough(p.add(b.add(a, -1), -1), min-1) {
				return true
			}
		case f.Op == "<": // a - b >= 0
			if enough(p.add(a.add(b, -1), -1), min) {
				return true
			}
		case v:
			if enough(p.add(a.add(b, -1), -1), min) || enough(p.add(b.add(a, -1), -1), min) {
				return true
			}
		}
	}
	return false
}

var lenPoly = polynom{"len": 1}

// last is where the part c ends; what is left of a division counts if the part
// is the last.
func (w *chunkWatch) end(st *State, c *Term) (from, to polynom) {
	from, to = w.span(st, c)
	if from == nil {
		return nil, nil
	}
	for k, n := range to {
		if n != 1 || strings.Contains(k, "\x00") {
			continue
		}
		for _, x := range w.ints {
			mod := w.modName(st, x)
			if k != mod || !w.multiple(from, x) {
				continue
			}
			// from <= len < from+x
			px := w.poly(st, x)
			if w.positive(st, lenPoly.add(from, -1), false) && w.positive(st, from.add(px, 1).add(lenPoly, -1), true) {
				to = to.add(polynom{k: 1}, -1).add(lenPoly, 1).add(from, -1)
			}
		}
	}
	return from, to
}

// modName is what is left of the number of items when divided by x.
func (w *chunkWatch) modName(st *State, x *Term) string {
	return "(len(" + w.items.String() + ")%" + x.String() + ")"
}

func (w *chunkWatch) multiple(p polynom, x *Term) bool {
	for k := range p {
		ok := false
		for _, f := range strings.Split(k, "\x00") {
			ok = ok || f == x.String()
		}
		if !ok {
			return false
		}
	}
	return true
}

// reached: the parts end at p.
func (w *chunkWatch) reached(st *State, p polynom) bool {
	if len(st.tups("begun")) == 0 && len(p) == 0 {
		return true
	}
	if len(st.tups("all")) > 0 && p.eq(lenPoly) {
		return true
	}
	for _, t := range st.tups("last") {
		if hasOld(t.Args[0]) {
			continue
		}
		if _, e := w.end(st, t.Args[0]); e != nil && e.eq(p) {
			return true
		}
	}
	for _, t := range st.tups("~at") {
		if w.poly(st, t.Args[0]).eq(p) && t.Args[1].isInt(1) || w.times(st, t.Args[0], t.Args[1]).eq(p) {
			return true
		}
	}
	for _, t := range st.tups("~rest") {
		if s, _ := w.span(st, t.Args[0]); s.eq(p) {
			return true
		}
	}
	return false
}

func (w *chunkWatch) times(st *State, a, b *Term) polynom {
	return w.poly(st, &Term{K: KApp, Op: "*", Args: []*Term{a, b}})
}

// resolve puts in what the numbers that were given a name in the round are.
func (w *chunkWatch) resolve(m *Machine, st *State, t *Term) *Term {
	sub := map[*Term]*Term{}
	for _, u := range st.tups("~is") {
		if !hasOld(u.Args[1]) {
			sub[u.Args[0]] = u.Args[1]
		}
	}
	for i := 0; i < 3; i++ {
		t = m.TT.rewrite(t, sub)
	}
	return t
}

// smaller tells the cases apart in which a part ends at the smaller of two.
func (w *chunkWatch) smaller(m *Machine, st *State, c *Term, f func(*State, *Term) []Outcome) []Outcome {
	if c.K != KApp || c.Op != "slice" || c.Args[2] == nil || c.Args[2].K != KApp || c.Args[2].Op != "min" || len(c.Args[2].Args) != 2 {
		return f(st, c)
	}
	a, b := c.Args[2].Args[0], c.Args[2].Args[1]
	var outs []Outcome
	for _, v := range []bool{true, false} {
		s := st.clone()
		if !m.assume(s, m.TT.Lt(a, b), v) {
			continue
		}
		x := b
		if v {
			x = a
		}
		args := append([]*Term{}, c.Args...)
		args[2] = x
		outs = append(outs, f(s, m.TT.App("slice", c.Typ, args...))...)
	}
	return outs
}

func runBatched(p *Program, r *Result) {
	rule := "every-row-is-handled"
	fn := r.anchor(p.Find("bond.batched"))
	if fn == nil {
		return
	}
	w := &chunkWatch{r: r, name: "bond.batched"}
	var f *Term
	spec := &Spec{KeepFact: func(*Machine, *Term) bool { return true }}
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if ev.Name != "dynamic" || ev.Val != f || len(ev.Args) != 1 {
			return false, nil
		}
		return true, w.smaller(m, st, w.resolve(m, st, ev.Args[0]), func(st *State, c *Term) []Outcome {
			s, e := w.end(st, c)
			m.Check(st, s != nil && w.reached(st, s), rule, w.name, ev.Pos, "the part that is handled next does not begin where the one before it ended: rows are left out or handled twice")
			for _, tag := range []string{"last", "~at", "~rest", "all", "done"} {
				if tag == "~rest" {
					continue // other slices are cut from it
				}
				for _, t := range st.tups(tag) {
					st.del(t)
				}
			}
			st.add(&Tup{Tag: "begun"})
			if e != nil && e.eq(lenPoly) {
				st.add(&Tup{Tag: "all"})
			}
			st.add(&Tup{Tag: "last", Args: []*Term{c}})
			bad := m.errOutcome(st.clone(), ev, nil)
			bad.st.add(&Tup{Tag: "failed"})
			return []Outcome{m.okOutcome(st, ev), bad}
		})
	}
	done := func(m *Machine, st *State) bool {
		ok := len(st.tups("all")) > 0 || w.reached(st, lenPoly)
		empty, known := m.truth(st, m.TT.Eq(m.TT.Len(w.items), m.TT.Int(0)))
		ok = ok || known && empty || w.positive(st, polynom{}.add(lenPoly, -1), false)
		for _, t := range st.tups("~at") {
			ok = ok || w.positive(st, w.times(st, t.Args[0], t.Args[1]).add(lenPoly, -1), false)
		}
		for _, t := range st.tups("~rest") {
			v, k := m.truth(st, m.TT.Eq(m.TT.Len(t.Args[0]), m.TT.Int(0)))
			ok = ok || k && v
		}
		return ok
	}
	spec.OnFact = func(m *Machine, st *State, _ *Term, _ bool) {
		if done(m, st) {
			st.add(&Tup{Tag: "done"})
		}
	}
	cands := func(m *Machine) []*Term { return append([]*Term{m.TT.Int(1)}, w.ints...) }
	spec.OnCounter = func(m *Machine, st *State, val *Term) func(*Term) {
		var at, past []*Term
		for _, x := range cands(m) {
			v := w.times(st, val, x)
			if w.reached(st, v) {
				at = append(at, x)
			}
			if len(st.tups("all")) > 0 && w.positive(st, v.add(lenPoly, -1), false) {
				past = append(past, x)
			}
		}
		return func(name *Term) {
			inner := true // val is not made of what was renamed together with it
			for _, l := range val.leaves {
				if l.K == KSym && l.Site != nil && l.Site.Block() == name.Site.Block() {
					inner = false
				}
			}
			for _, b := range name.Site.Block().Preds {
				if name.Site.Block().Dominates(b) {
					inner = false // it grows
				}
			}
			if inner && !hasOld(val) {
				st.add(&Tup{Tag: "~is", Args: []*Term{name, val}})
			}
			for _, t := range st.tups("last") {
				st.del(t)
			}
			for _, x := range at {
				st.add(&Tup{Tag: "~at", Args: []*Term{name, x}})
			}
			for _, x := range past {
				l := m.TT.Len(w.items)
				if x.isInt(1) {
					m.assume(st, m.TT.Lt(name, l), false)
					continue
				}
				for _, y := range []*Term{m.TT.App("*", types.Typ[types.Int], name, x), m.TT.App("*", types.Typ[types.Int], x, name)} {
					m.assume(st, m.TT.Lt(y, l), false)
				}
			}
		}
	}
	spec.OnAdvance = func(m *Machine, st *State, val *Term) func(*Term) {
		s, e := w.span(st, val)
		if s == nil || !e.eq(lenPoly) || !w.reached(st, s) {
			return nil
		}
		return func(name *Term) {
			for _, t := range st.tups("last") {
				st.del(t)
			}
			for _, t := range st.tups("all") {
				st.del(t)
			}
			st.add(&Tup{Tag: "~rest", Args: []*Term{name}})
		}
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		if len(st.tups("failed")) > 0 {
			v, k := m.isNil(st, res[0])
			m.Check(st, k && !v, rule, w.name, pos, "the error of a part is not returned")
			return
		}
		if v, k := m.isNil(st, res[0]); k && !v {
			return
		}
		ok := len(st.tups("done")) > 0 || done(m, st)
		m.Check(st, ok, rule, w.name, pos, "it returns although the last rows were not handled")
	}
	r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) {
		w.items, f, w.ints = ps[0], ps[len(ps)-1], nil
		for _, x := range ps {
			if x.Typ != nil && isInteger(x.Typ) {
				w.ints = append(w.ints, x)
			}
		}
	})
}

// runBufferLists: the lists of buffers for keys and values.
func runBufferLists(p *Program, r *Result) {
	rule := "one-buffer-for-each-key"
	for _, name := range []string{"getKeyArray", "getValueArray"} {
		fn := r.anchor(p.Find("bond._db." + name))
		if fn == nil {
			continue
		}
		w := &itemWatch{p: p, r: r, rule: rule}
		w.call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if !strings.HasSuffix(ev.Name, "Pool.Get") {
				return false, nil
			}
			m.age(st, ev.Site, ev.Ctx)
			b := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
			st.add(&Tup{Tag: "~got", Args: []*Term{b}})
			return true, []Outcome{{st, b}}
		}
		w.onAppend = func(m *Machine, st *State, list, elem *Term, pos string) {
			ok := elem != nil && elem.K == KApp && elem.Op == "slice" && elem.Args[1].isInt(0) && elem.Args[2].isInt(0)
			if ok {
				u := st.find("~got", func(t *Tup) bool { return t.Args[0] == elem.Args[0] })
				ok = u != nil
				if u != nil {
					st.del(u)
				}
			}
			m.Check(st, ok, rule, w.name, pos, "a buffer is not one that was taken from the pool for this place only")
			m.Check(st, list.K == KAcc || m.emptyList(st, list), rule, w.name, pos, "the list may hold buffers from before")
			st.add(&Tup{Tag: "put"})
		}
		w.ret = func(m *Machine, st *State, res []*Term, pos string) {
			short, known := m.truth(st, m.TT.Lt(m.TT.Len(res[0]), w.items))
			m.Check(st, len(st.tups("done")) > 0 || known && !short, rule, w.name, pos, "there may be fewer buffers than asked for")
		}
		w.perRound = true
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = ps[1]
			w.setScope(st, ps[1])
		})
	}
	r.Need(rule, 2)
	for _, name := range []string{"putKeyArray", "putValueArray"} {
		fn := r.anchor(p.Find("bond._db." + name))
		if fn == nil {
			continue
		}
		w := &itemWatch{p: p, r: r, rule: rule}
		w.call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if !strings.HasSuffix(ev.Name, "Pool.Put") || len(ev.Args) != 1 {
				return false, nil
			}
			x := ev.Args[0]
			if x.K == KApp && x.Op == "slice" && x.Args[1].isInt(0) {
				x = x.Args[0]
			}
			if baseArray(x) == w.items {
				m.Check(st, len(st.tups("list")) == 0, rule, w.name, ev.Pos, "the list is put back twice")
				st.add(&Tup{Tag: "list"})
				return true, []Outcome{{st, nil}}
			}
			l, e := elemKey(x)
			ok := l != nil && baseArray(l) == w.items && w.to(m, st, e) && !w.known(st, "~up", e, m.TT.Int(1))
			m.Check(st, ok, rule, w.name, ev.Pos, "a buffer is put back twice, or another one than those of the list")
			m.Check(st, len(st.tups("list")) == 0, rule, w.name, ev.Pos, "the list is used after it was put back")
			if ok {
				w.handle(m, st, e)
			}
			return true, []Outcome{{st, nil}}
		}
		w.interpret(fn, func(m *Machine, st *State, ps []*Term) {
			w.items = ps[1]
			w.setScope(st, ps[1])
		})
	}
}

func (w *itemWatch) known(st *State, tag string, args ...*Term) bool {
	return st.has(&Tup{Tag: tag, Args: args})
}

func init() {
	register(&Property{ID: "C38", Run: func(p *Program, r *Result) {
		runRowKeys(p, r)
		runItemHelpers(p, r)
		runPoints(p, r)
		runBatched(p, r)
		runBufferLists(p, r)
	}})
}
