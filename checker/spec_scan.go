package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Scan is the monitor of a scan that hands rows to a callback.
//
//	cur(P)       the iterator's position; no cur: not positioned yet
//	deliv(P)     the entry at P was handed to the callback
//	ik(P,L)      a copy of the index key at P was added to the list L
//	dk(P,L)      the row key of the entry at P was added to the list L
//	list(L)[r]   L holds index keys ("ik") or row keys ("dk") of one batch
//	spent(L)     the entries of L were delivered
//	rows(V)      V are the rows of the row keys of the current batch
//	qnext(i)     the next entry of the batch to be delivered is number i
//	stop[why]    the callback ended the scan
type Scan struct {
	name    string
	idx     *Term
	sel     *Term
	reverse *Term
	iter    *Term
	cb      *Term // the callback
	ctx     *Term
	now     *Term // the callback's entry while it runs: a position, or an index
	nowIdx  bool
}

func (w *Scan) c(what string) string { return w.name + ": " + what }

// entryOf finds the position that a key was read at: "ik" for a copy of the
// index key, "live" for the iterator's own bytes, "dk" for the row's key.
func entryOf(k *Term) (kind string, p *Term) {
	switch {
	case k.K != KApp:
	case k.Op == "iterkey":
		return "live", k.Args[0]
	case k.Op == "ToDataKeyBytes":
		if kind, p := entryOf(k.Args[0]); kind == "live" || kind == "ik" {
			return "dk", p
		}
	case k.Op == "cats" && emptyBytes(k.Args[0]):
		if kind, p := entryOf(k.Args[1]); kind == "live" {
			return "ik", p
		} else if kind != "" {
			return kind, p
		}
	}
	return "", nil
}

func emptyBytes(t *Term) bool {
	return t.K == KNil || t.K == KZero || t.K == KApp && t.Op == "slice" && t.Args[2].isInt(0)
}

func (w *Scan) cur(st *State) *Term {
	for _, t := range st.tups("cur") {
		return t.Args[0]
	}
	return nil
}

func (w *Scan) valid(p *Term) func(m *Machine, st *State) (bool, bool) {
	return func(m *Machine, st *State) (bool, bool) {
		return m.truth(st, m.TT.App("valid", types.Typ[types.Bool], p))
	}
}

func (w *Scan) move(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	_, name := method(ev)
	p := w.cur(st)
	rev, known := m.truth(st, w.reverse)
	want := map[bool]map[bool]string{true: {false: "First", true: "Last"}, false: {false: "Next", true: "Prev"}}[p == nil]
	if known {
		m.Check(st, name == want[rev], "scan-direction", w.c(name), ev.Pos, name+" where "+want[rev]+" is due")
	} else {
		m.Check(st, false, "scan-direction", w.c(name), ev.Pos, name+" whatever the direction of the scan is")
	}
	m.Check(st, len(st.tups("stop")) == 0, "stops-when-told", w.c(name), ev.Pos, "the scan goes on after the callback ended it")
	if p != nil {
		if v, k := w.valid(p)(m, st); !k || v {
			deliv := st.has(&Tup{Tag: "deliv", Args: []*Term{p}})
			ik := len(w.about(st, "ik", p)) > 0
			dk := len(w.about(st, "dk", p)) > 0
			m.Check(st, deliv && ik == dk || ik && dk, "every-entry-delivered", w.c(name), ev.Pos, "the iterator leaves an entry that was neither delivered nor remembered")
		}
		if w.now == nil {
			// the main loop: the rest of the batch was delivered
			w.endBatch(m, st, ev.Pos)
		}
	}
	for _, tag := range []string{"cur", "deliv", "ik", "dk"} {
		for _, t := range st.tups(tag) {
			st.del(t)
		}
	}
	np := tt.mk(&Term{K: KCall, Site: ev.Site, Ctx: ev.Ctx, N: 77, Typ: types.Typ[types.Int]})
	st.add(&Tup{Tag: "cur", Args: []*Term{np}})
	return []Outcome{{st, tt.App("valid", types.Typ[types.Bool], np)}}
}

func (w *Scan) about(st *State, tag string, p *Term) []*Tup {
	var out []*Tup
	for _, t := range st.tups(tag) {
		if t.Args[0] == p {
			out = append(out, t)
		}
	}
	return out
}

// endBatch: the main loop moves on, so all of the batch was delivered.
func (w *Scan) endBatch(m *Machine, st *State, pos string) {
	rest := "the scan moves on before the rows that were read ahead are delivered"
	for _, v := range st.tups("rows") {
		n := m.TT.Len(v.Args[0])
		done := m.leq(st, n, m.TT.Int(0))
		for _, q := range st.tups("qnext") {
			done = done || m.leq(st, n, q.Args[0])
		}
		m.Check(st, done, "every-entry-delivered", w.c("rest of a batch"), pos, rest)
	}
	for _, l := range st.tups("list") {
		m.Check(st, len(st.tups("rows")) > 0, "every-entry-delivered", w.c("rest of a batch"), pos, rest)
		st.add(&Tup{Tag: "spent", Args: []*Term{l.Args[0]}})
		st.del(l)
	}
	for _, tag := range []string{"rows", "qnext", "ik", "dk"} {
		for _, t := range st.tups(tag) {
			st.del(t)
		}
	}
}

func (w *Scan) listOf(st *State, role string) *Term {
	for _, t := range st.tups("list") {
		if t.Data == role {
			return t.Args[0]
		}
	}
	return nil
}

func (w *Scan) onAppend(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
	pos := m.P.Pos(site.Pos())
	for _, e := range elems {
		kind, p := entryOf(e)
		if kind == "" {
			continue
		}
		if !m.Check(st, kind != "live", "every-entry-delivered", w.c("read ahead"), pos, "the iterator's own bytes are remembered, which it overwrites") {
			continue
		}
		role := kind
		if st.has(&Tup{Tag: "spent", Args: []*Term{list}}) {
			m.Check(st, false, "row-of-entry", w.c("read ahead"), pos, "entries are added to those of an earlier batch")
		}
		for _, t := range st.tups("list") {
			m.Check(st, (t.Data == role) == (t.Args[0] == list), "row-of-entry", w.c("read ahead"), pos, "index keys and row keys are mixed up")
		}
		m.Check(st, len(st.tups("rows")) == 0, "row-of-entry", w.c("read ahead"), pos, "entries are remembered after the rows of the batch were read")
		first := !st.has(&Tup{Tag: "list", Args: []*Term{list}, Data: role})
		st.add(&Tup{Tag: "list", Args: []*Term{list}, Data: role})
		m.Check(st, p == w.cur(st), "row-of-entry", w.c("read ahead"), pos, "the entry that is remembered is not the one the iterator is at")
		m.Check(st, len(w.about(st, role, p)) == 0, "every-entry-delivered", w.c("read ahead"), pos, "an entry is remembered twice")
		if first {
			m.Check(st, w.now == p && !w.nowIdx, "row-of-entry", w.c("read ahead"), pos, "the first row of a batch is not the one that was asked for")
		}
		st.add(&Tup{Tag: role, Args: []*Term{p, list}})
	}
}

func (w *Scan) onNewList(m *Machine, st *State, list *Term) {
	for _, tag := range []string{"list", "spent"} {
		for _, t := range st.tups(tag) {
			if t.Args[0] == list {
				st.del(t)
			}
		}
	}
}

// callback: an entry is handed to the user.
func (w *Scan) callback(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	m.Check(st, len(st.tups("stop")) == 0, "stops-when-told", w.c("callback"), ev.Pos, "an entry is delivered after the callback ended the scan")
	key := ev.Args[0]
	if key.K == KApp && (key.Op == "conv:KeyBytes" || key.Op == "conv:bond.KeyBytes") {
		key = key.Args[0]
	}
	queue := false
	var at *Term
	kind, p := entryOf(key)
	switch {
	case kind == "live" || kind == "ik":
		at = p
		m.Check(st, p == w.cur(st), "every-entry-delivered", w.c("callback"), ev.Pos, "the entry that is delivered is not the one the iterator is at")
		if v, k := w.valid(p)(m, st); !k || !v {
			m.Check(st, false, "every-entry-delivered", w.c("callback"), ev.Pos, "an entry is delivered although the iterator may be at its end")
		}
		m.Check(st, !st.has(&Tup{Tag: "deliv", Args: []*Term{p}}), "every-entry-delivered", w.c("callback"), ev.Pos, "an entry is delivered twice")
		m.Check(st, len(st.tups("rows")) == 0, "every-entry-delivered", w.c("callback"), ev.Pos, "rows that were read ahead are left out")
		st.add(&Tup{Tag: "deliv", Args: []*Term{p}})
	case key.K == KElem && key.Args[0] == w.listOf(st, "ik"):
		queue = true
		at = key.Args[1]
		ok := false
		for _, q := range st.tups("qnext") {
			ok = ok || q.Args[0] == at
			st.del(q)
		}
		m.Check(st, ok, "every-entry-delivered", w.c("callback"), ev.Pos, "the rows that were read ahead are not delivered one after the other")
		st.add(&Tup{Tag: "qnext", Args: []*Term{w.inc(m, at)}})
	default:
		m.Check(st, false, "every-entry-delivered", w.c("callback"), ev.Pos, "what is delivered is not a key of the scan: "+key.String())
		return nil
	}
	var fns []*Term
	for _, a := range ev.Args[1:] {
		fns = append(fns, m.funcsIn(st, a, 0)...)
	}
	m.Check(st, len(fns) == 1, "row-of-entry", w.c("callback"), ev.Pos, "the callback is not given a way to read its row")
	w.now, w.nowIdx = at, queue
	states := []*State{st}
	// the callback may read its row any number of times
	seen := map[string]bool{m.stateKey(st): true}
	var failed []*State
	for i := 0; i < len(states) && m.err == nil; i++ {
		for j, f := range fns {
			for _, o := range m.callClosure(states[i].clone(), ev, f, []*Term{}, j) {
				w.gotRow(m, o, at, queue, ev)
				// an unsuccessful read ends the row
				if o.res != nil && o.res.K == KTuple {
					if v, known := m.isNil(o.st, o.res.Args[len(o.res.Args)-1]); known && !v {
						failed = append(failed, o.st)
						continue
					}
				}
				m.gc(o.st)
				if k := m.stateKey(o.st); !seen[k] {
					seen[k] = true
					states = append(states, o.st)
				}
			}
		}
	}
	w.now = nil
	var outs []Outcome
	// what a callback whose read failed may do is to end the scan
	for _, s := range failed {
		m.age(s, ev.Site, ev.Ctx)
		o := m.errOutcome(s, ev, nil)
		s.add(&Tup{Tag: "stop", Args: []*Term{o.res.Args[1]}, Data: "err"})
		outs = append(outs, o)
	}
	for _, s := range states {
		if !queue && len(s.tups("rows")) > 0 {
			if len(s.tups("qnext")) == 0 {
				s.add(&Tup{Tag: "qnext", Args: []*Term{tt.Int(1)}})
			}
		}
		m.age(s, ev.Site, ev.Ctx)
		bad := s.clone()
		o := m.errOutcome(bad, ev, nil)
		bad.add(&Tup{Tag: "stop", Args: []*Term{o.res.Args[1]}, Data: "err"})
		outs = append(outs, o)
		no := s.clone()
		no.add(&Tup{Tag: "stop", Data: "told"})
		outs = append(outs, m.okOutcome(no, ev, tt.False), m.okOutcome(s, ev, tt.True))
	}
	return outs
}

func (w *Scan) inc(m *Machine, t *Term) *Term {
	if n, ok := t.intVal(); ok {
		return m.TT.Int(n + 1)
	}
	b, k := splitConst(t)
	return m.TT.addConst(b, k+1, types.Typ[types.Int])
}

// gotRow: what the callback gets when it reads its row.
func (w *Scan) gotRow(m *Machine, o Outcome, at *Term, queue bool, ev *Event) {
	if o.res == nil || o.res.K != KTuple {
		return
	}
	if v, k := m.isNil(o.st, o.res.Args[len(o.res.Args)-1]); !k || !v {
		return
	}
	row := o.res.Args[0]
	ok, msg := false, "the row that is read is not that of the entry: "+row.String()
	if row.K == KApp && row.Op == "row" {
		src := row.Args[0]
		switch {
		case src.K == KApp && src.Op == "itervalue":
			ok = !queue && src.Args[0] == at && w.cur(o.st) == at
			prim := false
			for t, v := range o.st.facts {
				if v && t.K == KApp && t.Op == "==" {
					for i := 0; i < 2; i++ {
						if isFieldLoad(t.Args[i], w.idx, "IndexID") && t.Args[1-i].isInt(0) {
							prim = true
						}
					}
				}
			}
			if !prim {
				ok, msg = false, "the value of an index entry is taken for the row"
			}
		case src.K == KElem:
			cur := false
			for _, t := range o.st.tups("rows") {
				cur = cur || t.Args[0] == src.Args[0]
			}
			if !cur {
				msg = "the row is one of another batch"
			}
			ok = cur && (queue && src.Args[1] == at || !queue && src.Args[1].isInt(0))
		}
	}
	m.Check(o.st, ok, "row-of-entry", w.c("Lazy.Get"), ev.Pos, msg)
}

func (w *Scan) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if w.ctx != nil && ev.Recv == w.ctx {
		switch ev.Name {
		case "iface:context.Context.Done":
			return true, []Outcome{{st, tt.App("ctx.Done", ev.Sig.Results().At(0).Type(), ev.Recv)}}
		case "iface:context.Context.Err":
			bad := st.clone()
			return true, []Outcome{m.errOutcome(bad, ev, nil), m.okOutcome(st, ev)}
		}
	}
	if ev.Name == "dynamic" && ev.Val == w.cb {
		return true, w.callback(m, st, ev)
	}
	switch ev.Name {
	case "bond.Index.Iter":
		m.age(st, ev.Site, ev.Ctx)
		m.Check(st, ev.Recv == w.idx && len(ev.Args) > 1 && ev.Args[1] == w.sel, "scan-over-selection", w.c("Iter"), ev.Pos, "the scan does not run over the selection it was asked for")
		w.iter = tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		return true, []Outcome{{st, w.iter}}
	case "bond._table.get":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		dk := w.listOf(st, "dk")
		m.Check(st, dk != nil && ev.Args[0] == dk, "row-of-entry", w.c("read ahead"), ev.Pos, "the rows that are read are not those of the entries")
		m.Check(st, mustExist(m, st, ev), "row-of-entry", w.c("read ahead"), ev.Pos, "an entry whose row is missing is given an empty one")
		for _, t := range st.tups("rows") {
			m.Check(st, false, "row-of-entry", w.c("read ahead"), ev.Pos, "a batch is read although one is under way")
			st.del(t)
		}
		v := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		st.add(&Tup{Tag: "rows", Args: []*Term{v}})
		if dk != nil {
			// a list with an entry has a row
			m.assume(st, tt.Eq(tt.Len(v), tt.Int(0)), false)
		}
		return true, []Outcome{m.okOutcome(st, ev, v), m.errOutcome(bad, ev, nil)}
	}
	if ev.Fn != nil && m.P.InModule(ev.Fn) {
		return false, nil
	}
	switch k := opKind(ev); k {
	case "Position":
		if ev.Recv == w.iter {
			m.age(st, ev.Site, ev.Ctx)
			return true, w.move(m, st, ev)
		}
	case "Valid", "IterKey", "IterValue":
		if ev.Recv == w.iter {
			p := w.cur(st)
			if p == nil {
				m.Check(st, false, "every-entry-delivered", w.c(k), ev.Pos, "the iterator is used before it is positioned")
				return false, nil
			}
			name := map[string]string{"Valid": "valid", "IterKey": "iterkey", "IterValue": "itervalue"}[k]
			return true, []Outcome{{st, tt.App(name, ev.Sig.Results().At(0).Type(), p)}}
		}
	case "Deserialize":
		if len(ev.Args) == 2 {
			src, dst := ev.Args[0], ev.Args[1]
			m.age(st, ev.Site, ev.Ctx)
			bad := st.clone()
			m.havocArgs(bad, ev)
			if addr, _ := m.pointee(st, dst); addr != nil {
				m.havoc(st, addr, tt.App("row", derefType(addr.Typ), src))
			}
			return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
		}
	}
	return false, nil
}

func (w *Scan) onReturn(m *Machine, st *State, res []*Term, pos string) {
	_, kind := m.retErr(st, res)
	stops := st.tups("stop")
	for _, t := range stops {
		if t.Data == "err" {
			m.Check(st, kind == "err", "callback-error-returned", w.c("return"), pos, "the callback's error is not returned")
		}
	}
	if kind == "err" || len(stops) > 0 {
		return
	}
	p := w.cur(st)
	if !m.Check(st, p != nil, "every-entry-delivered", w.c("return"), pos, "the scan succeeds without looking at an entry") {
		return
	}
	v, k := w.valid(p)(m, st)
	m.Check(st, k && !v, "every-entry-delivered", w.c("return"), pos, "the scan succeeds before the iterator is at its end")
	w.endBatch(m, st, pos)
}

func (w *Scan) run(p *Program, r *Result, fn *ssa.Function) {
	w.name = calleeName(fn)
	spec := &Spec{Call: w.call, OnAppend: w.onAppend, OnNewList: w.onNewList, OnReturn: w.onReturn}
	spec.Inline = func(f *ssa.Function) bool {
		n := calleeName(f)
		return n != "bond.Index.Iter" && n != "bond._table.get"
	}
	spec.KeepFact = func(m *Machine, t *Term) bool {
		if t == w.reverse || t.K == KApp && t.Op == "valid" {
			return true
		}
		for _, a := range t.Args {
			if isFieldLoad(a, w.idx, "IndexID") {
				return true
			}
		}
		return t.K == KApp && (t.Op == "<" || t.Op == "==") && findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "len" }) != nil
	}
	spec.OnCounter = func(m *Machine, st *State, val *Term) func(*Term) {
		var hit []*Tup
		for _, t := range st.tups("qnext") {
			if t.Args[0] == val {
				hit = append(hit, t)
				st.del(t)
			}
		}
		if hit == nil {
			return nil
		}
		return func(name *Term) { st.add(&Tup{Tag: "qnext", Args: []*Term{name}}) }
	}
	r.Interpret(p, spec, fn, func(m *Machine, st *State, params []*Term) {
		for i, pv := range fn.Params {
			switch {
			case typeName(pv.Type()) == "context.Context":
				w.ctx = params[i]
			case typeName(derefType(pv.Type())) == "bond.Index":
				w.idx = params[i]
			case typeName(pv.Type()) == "bond.Selector":
				w.sel = params[i]
			}
			if b, ok := pv.Type().(*types.Basic); ok && b.Kind() == types.Bool {
				w.reverse = params[i]
			}
			if _, ok := pv.Type().Underlying().(*types.Signature); ok {
				w.cb = params[i]
			}
		}
		if w.idx == nil || w.sel == nil || w.reverse == nil || w.cb == nil {
			m.fail("%s: unexpected parameters", w.name)
		}
	})
}

func init() {
	register(&Property{ID: "C10", Run: func(p *Program, r *Result) {
		fn := r.anchor(tableMethod(p, "ScanIndexForEach"))
		if fn == nil {
			return
		}
		(&Scan{}).run(p, r, fn)
		for _, op := range []string{"ScanIndex", "Scan", "ScanForEach"} {
			if fn := r.anchor(tableMethod(p, op)); fn != nil {
				runScanForward(p, r, fn)
			}
		}
		r.Need("scan-direction", 4)
		r.Need("row-of-entry", 2)
	}})
}

// runScanForward: the other scans hand what they were given to ScanIndexForEach;
// those that collect rows add the row of every entry, once, in the order given.
func runScanForward(p *Program, r *Result, fn *ssa.Function) {
	name, fpos := calleeName(fn), p.Pos(fn.Pos())
	inner := "bond._table.ScanIndexForEach"
	param := func(params []*Term, pred func(t types.Type) bool) *Term {
		for i, pv := range fn.Params {
			if i > 0 && pred(pv.Type()) {
				return params[i]
			}
		}
		return nil
	}
	isList := func(t types.Type) bool {
		e, ok := ptrElem(t)
		if !ok {
			return false
		}
		_, ok = e.Underlying().(*types.Slice)
		return ok
	}
	var params []*Term
	opt := PathOpt{Event: func(n string, _ *ssa.Function) bool { return n == inner }}
	opt.Pre = func(m *Machine, st *State, ps []*Term) { params = ps }
	opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if ev.Name != inner || len(ev.Args) < 6 {
			return false, nil
		}
		same := func(i int, pred func(t types.Type) bool) {
			want := param(params, pred)
			if want != nil {
				m.Check(st, ev.Args[i] == want, "scan-over-selection", name, ev.Pos, "what the caller asked for is not passed on: "+ev.Args[i].String())
			}
		}
		same(0, func(t types.Type) bool { return typeName(t) == "context.Context" })
		same(1, func(t types.Type) bool { return typeName(derefType(t)) == "bond.Index" })
		same(2, func(t types.Type) bool { return typeName(t) == "bond.Selector" })
		same(4, func(t types.Type) bool { b, ok := t.(*types.Basic); return ok && b.Kind() == types.Bool })
		same(5, func(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok })
		cb := param(params, func(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok })
		if cb != nil {
			m.Check(st, ev.Args[3] == cb, "scan-over-selection", name, ev.Pos, "the callback is not the caller's")
		}
		out := param(params, isList)
		f := ev.Args[3]
		if out != nil && f.K == KFunc {
			lt := out.Typ.Underlying().(*types.Pointer).Elem()
			for _, o := range m.callClosure(st.clone(), ev, f, nil, 0) {
				var row *Term
				for _, t := range o.st.tups("row") {
					row = t.Args[0]
				}
				added := m.load(o.st, out, lt)
				ok := added.K == KAcc || added.K == KApp && added.Op == "append"
				got := row != nil
				adds := o.st.tups("added")
				ret, stop := o.res.Args[0], o.res.Args[1]
				rv, rk := m.truth(o.st, ret)
				ev, ek := m.isNil(o.st, stop)
				if got {
					m.Check(o.st, ok && len(adds) == 1 && adds[0].Args[0] == row && adds[0].Args[1] == added, "every-entry-collected", name, fpos, "the row of an entry is not added to the result once")
					m.Check(o.st, rk && rv && ek && ev, "every-entry-collected", name, fpos, "collecting the rows stops before the end")
				} else {
					m.Check(o.st, ek && !ev, "every-entry-collected", name, fpos, "an entry whose row was not read is left out of the result")
				}
			}
		}
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	base := opt.Call
	opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if ev.Name == "dynamic" && ev.Sig.Params().Len() == 0 && ev.Sig.Results().Len() == 2 {
			m.age(st, ev.Site, ev.Ctx)
			bad := st.clone()
			v := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
			st.add(&Tup{Tag: "row", Args: []*Term{v}})
			return true, []Outcome{m.okOutcome(st, ev, v), m.errOutcome(bad, ev, nil)}
		}
		return base(m, st, ev)
	}
	opt.Spec = &Spec{OnAppend: func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
		for _, e := range elems {
			st.add(&Tup{Tag: "added", Args: []*Term{e, list}})
		}
	}}
	for _, q := range r.Paths(p, fn, opt) {
		n := 0
		for _, e := range q.Evs {
			if e.Name == inner {
				n++
				err, ek := q.Err()
				if e.Res != nil && ek != "err" {
					ie := resErr(e.Res)
					if ie == nil {
						continue
					}
					v, k := q.M.isNil(q.St, ie)
					r.PathCheck(q, k && v || err == ie, "callback-error-returned", name, q.Pos, "the error of the scan is not returned")
				}
			}
		}
		if _, ek := q.Err(); ek == "nil" {
			r.PathCheck(q, n == 1, "scan-over-selection", name, q.Pos, "nothing is scanned")
		}
	}
}
