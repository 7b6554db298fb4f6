package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- routes: what the database and a batch hand on to the storage engine ----

const pebblePkg = "github.com/cockroachdb/pebble"

func isEngine(name string) bool {
	return strings.HasPrefix(name, pebblePkg+".DB.") || strings.HasPrefix(name, pebblePkg+".Batch.")
}

func lastName(name string) string { return name[strings.LastIndexByte(name, '.')+1:] }

// fieldOf is t.name of a struct value or of what a pointer points to.
func (q *PathRec) field(t *Term, name string) *Term {
	if t == nil || t.Typ == nil {
		return nil
	}
	if _, ok := ptrElem(t.Typ); ok {
		return q.M.loadPath(q.St, t, name)
	}
	if i := fieldIndex(t.Typ, name); i >= 0 {
		return q.M.TT.Fld(t, i, t.Typ.Underlying().(*types.Struct).Field(i).Type())
	}
	return nil
}

func unwrap(t *Term) *Term {
	for t != nil && t.K == KIface && len(t.Args) == 1 {
		t = t.Args[0]
	}
	return t
}

// runRoutes checks that the methods of a type hand an operation on unchanged:
// to the batch if one is given, and to the engine otherwise.
func runRoutes(p *Program, r *Result, rule, typ string, methods ...string) {
	n, err := p.Named("", typ)
	if err != nil {
		r.Fail("%v", err)
		return
	}
	for _, name := range methods {
		fn := r.anchor(p.Method(n, name))
		if fn == nil {
			continue
		}
		c := calleeName(fn)
		nargs := 0
		batchArg := -1
		for i, pv := range fn.Params {
			switch {
			case i == 0 || typeName(pv.Type()) == "bond.WriteOptions":
			case fn.Signature.Variadic() && i == len(fn.Params)-1:
				batchArg = i
			default:
				nargs++
			}
		}
		isBatch := typ == "_batch"
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			tt := q.M.TT
			var hits []*PathEv
			onBatch := false
			for _, e := range q.Evs {
				if e.Recv == nil {
					continue
				}
				eng := isEngine(e.Name)
				via := strings.HasPrefix(e.Name, "iface:bond.") && batchArg >= 0 && e.Recv.K == KElem && e.Recv.Args[0] == q.Params[batchArg] && e.Recv.Args[1].isInt(0)
				if !eng && !via {
					continue
				}
				hits = append(hits, e)
				onBatch = via
				want := name
				if eng && name == "Iter" {
					want = "NewIter"
				}
				r.PathCheck(q, lastName(e.Name) == want, rule, c, e.Pos, "it performs "+lastName(e.Name))
				if eng {
					f := map[bool]string{true: "Batch", false: "pebble"}[isBatch]
					r.PathCheck(q, isFieldLoad(e.Recv, q.Params[0], f), rule, c, e.Pos, "it does not go to its own "+f)
				}
				for i := 0; i < nargs && i < len(e.Args); i++ {
					a := e.Args[i]
					ok := a == q.Params[i+1]
					if name == "Iter" && !ok {
						ok = a.K == KFldAddr && a.Args[0] == q.Params[i+1]
					}
					r.PathCheck(q, ok, rule, c, e.Pos, "it is not handed its argument: "+a.String())
				}
			}
			if !r.PathCheck(q, len(hits) == 1, rule, c, q.Pos, "it is not handed on exactly once") {
				continue
			}
			h := hits[0]
			if batchArg >= 0 && !isBatch && !onBatch {
				b := q.Params[batchArg]
				none := q.Is(tt.Eq(tt.Len(b), tt.Int(0)), true)
				bt := b.Typ.Underlying().(*types.Slice).Elem()
				if v, k := q.Nil(tt.mk(&Term{K: KElem, Args: []*Term{b, tt.Int(0)}, Typ: bt})); k && v {
					none = true
				}
				r.PathCheck(q, none, rule, c, h.Pos, "it goes to the database although a batch is given")
			}
			switch {
			case name == "Iter" && !onBatch:
				x := unwrap(q.Res[0])
				in := unwrap(q.field(x, "Iterator"))
				if in == nil {
					in = x
				}
				first := h.Res
				ok := false
				if first != nil && first.K == KTuple {
					if v, k := q.Nil(first.Args[1]); k && v {
						ok = in == first.Args[0]
					} else {
						ok = q.field(in, "err") == first.Args[1]
					}
				}
				r.PathCheck(q, ok, rule, c, q.Pos, "the engine's iterator, or its error, is not what the caller gets")
				if q.field(x, "opts") != nil {
					r.PathCheck(q, q.field(x, "opts") == q.Params[1], rule, c, q.Pos, "the iterator does not keep its options")
				}
			case h.Res != nil && h.Res.K == KTuple:
				for i, x := range h.Res.Args {
					r.PathCheck(q, i < len(q.Res) && sameErr(q, q.Res[i], x), rule, c, q.Pos, "its result is not what the caller gets")
				}
			case h.Res != nil:
				r.PathCheck(q, len(q.Res) == 1 && sameErr(q, q.Res[0], h.Res), rule, c, q.Pos, "its result is not what the caller gets")
			}
		}
	}
}

// ---- C01: synchronous means synchronous ----

func isGlobal(t *Term, pkg, name string) bool {
	if t == nil || t.K != KLoad || t.Args[0].K != KGlobal {
		return false
	}
	g, ok := t.Args[0].Obj.(*ssa.Global)
	return ok && g.Name() == name && g.Pkg != nil && g.Pkg.Pkg.Path() == pkg
}

// runSyncOptions: who asks for a synchronous write gets one.
func runSyncOptions(p *Program, r *Result) {
	rule := "sync-means-sync"
	sites := 0
	for _, fn := range p.AllFuncs() {
		if fn.Parent() != nil || !p.InModule(fn) {
			continue
		}
		has := false
		for _, f := range withClosures(fn) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() != nil && durableWrite(calleeName(ci.Common().StaticCallee())) {
						has = true
						sites++
					}
					if st, ok := in.(*ssa.Store); ok {
						checkSyncStore(p, r, fn, st)
					}
				}
			}
		}
		if !has {
			continue
		}
		c := calleeName(fn)
		opt := PathOpt{ForgetConds: true}
		opt.Spec = &Spec{KeepFact: func(m *Machine, t *Term) bool {
			return findSub(t, func(x *Term) bool { return x.Typ != nil && typeName(x.Typ) == "bond.WriteOptions" }) != nil
		}}
		q := &PathRec{}
		opt.Pre = func(m *Machine, st *State, params []*Term) { q.M, q.Params = m, params }
		opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if durableWrite(ev.Name) && len(ev.Args) > 0 {
				q.St = st
				o := ev.Args[len(ev.Args)-1]
				m.Check(st, syncOK(q, fn, o), rule, c, ev.Pos, "a write that must be synchronous may be handed to the engine as "+o.String())
			}
			return false, nil
		}
		r.Paths(p, fn, opt)
	}
	if sites < 4 {
		r.Fail("only %d writes to the engine found", sites)
	}
	r.Check(true, "sync-constants", "bond", "", "")
	if !r.syncInit(p) {
		r.Report(&Violation{Rule: "sync-constants", Construct: "bond.Sync", Msg: "bond.Sync does not ask for a synchronous write"})
	}
}

func withClosures(fn *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{fn}
	for _, a := range fn.AnonFuncs {
		out = append(out, withClosures(a)...)
	}
	return out
}

// durableWrite: the calls of the engine that write to its log.
func durableWrite(name string) bool {
	switch name {
	case pebblePkg + ".Batch.Commit":
		return true
	case pebblePkg + ".DB.Set", pebblePkg + ".DB.Delete", pebblePkg + ".DB.DeleteRange", pebblePkg + ".DB.Apply", pebblePkg + ".DB.Merge", pebblePkg + ".DB.SingleDelete", pebblePkg + ".DB.LogData":
		return true
	}
	return false
}

func syncOK(q *PathRec, fn *ssa.Function, opt *Term) bool {
	if v, k := q.Nil(opt); k && v {
		return true // the engine's default is to sync
	}
	if isGlobal(opt, pebblePkg, "Sync") {
		return true
	}
	for i, pv := range fn.Params {
		if typeName(pv.Type()) != "bond.WriteOptions" {
			continue
		}
		want := q.Params[i]
		asked := q.field(want, "Sync")
		if s := q.field(opt, "Sync"); s != nil && (s == asked || q.Is(s, true)) {
			return true
		}
		if q.Is(asked, false) {
			return true
		}
		for t, v := range q.St.facts {
			if !v || t.K != KApp || t.Op != "==" {
				continue
			}
			for j := 0; j < 2; j++ {
				if t.Args[j] == want && isGlobal(t.Args[1-j], modPath, "NoSync") {
					return true
				}
			}
		}
		return false
	}
	return false
}

// checkSyncStore: the meaning of Sync is not changed, nor is the log switched off.
func checkSyncStore(p *Program, r *Result, fn *ssa.Function, st *ssa.Store) {
	root := st.Addr
	for {
		fa, ok := root.(*ssa.FieldAddr)
		if !ok {
			break
		}
		if fieldName(fa.X.Type(), fa.Field) == "DisableWAL" && strings.HasSuffix(typeName(derefType(fa.X.Type())), "pebble.Options") {
			v, isConst := st.Val.(*ssa.Const)
			r.Check(isConst && v.Value != nil && v.Value.String() == "false", "log-stays-on", calleeName(fn), p.Pos(st.Pos()), "the write-ahead log is switched off")
		}
		root = fa.X
	}
	if g, ok := root.(*ssa.Global); ok && fn.Name() != "init" {
		if g.Name() == "Sync" || g.Name() == "NoSync" {
			r.Check(false, "sync-constants", calleeName(fn), p.Pos(st.Pos()), "the write option "+g.Name()+" is changed")
		}
	}
}

// syncInit: bond.Sync is initialised with Sync set.
func (r *Result) syncInit(p *Program) bool {
	ok := false
	for _, fn := range p.AllFuncs() {
		if fn.Name() != "init" || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath {
			continue
		}
		field := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, isS := in.(*ssa.Store)
				if !isS {
					continue
				}
				if a, isF := st.Addr.(*ssa.FieldAddr); isF && fieldName(a.X.Type(), a.Field) == "Sync" {
					c, isC := st.Val.(*ssa.Const)
					field[a.X] = isC && c.Value != nil && c.Value.String() == "true"
					if g, isG := a.X.(*ssa.Global); isG && g.Name() == "Sync" {
						ok = field[g]
					}
				}
				if g, isG := st.Addr.(*ssa.Global); isG && g.Name() == "Sync" {
					if l, isL := st.Val.(*ssa.UnOp); isL {
						ok = field[l.X]
					}
				}
			}
		}
	}
	return ok
}

// ---- C17: life-cycle callbacks ----

// Life monitors one operation on a batch (or the database) with callbacks.
//
//	done(f)      all callbacks of list f were called
//	todo(f)      the next callback of list f is to be called
//	wrote        the engine's step succeeded;  failed(e)  it failed with e
//	refused(e)   a callback that may refuse returned e
type Life struct {
	name    string
	owner   *Term // whose callbacks
	find    func(m *Machine, st *State) *Term
	lists   map[string]string // field -> before, ok, err
	step    func(name string) bool
	closing bool
	self    *Term
	what    func(m *Machine, st *State, ev *Event) bool
}

func (w *Life) c(s string) string { return w.name + ": " + s }

func (w *Life) listField(t *Term) (string, *Term) {
	if t != nil && t.K == KLoad && t.Args[0].K == KFldAddr {
		f := fieldName(t.Args[0].Args[0].Typ, t.Args[0].N)
		if _, ok := w.lists[f]; ok {
			return f, t.Args[0].Args[0]
		}
	}
	return "", nil
}

func (w *Life) has(st *State, tag, f string) bool {
	for _, t := range st.tups(tag) {
		if t.Data == f {
			return true
		}
	}
	return false
}

func (w *Life) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	if ev.Name == "dynamic" && ev.Val != nil && ev.Val.K == KElem {
		f, owner := w.listField(ev.Val.Args[0])
		if f == "" {
			return false, nil
		}
		kind := w.lists[f]
		m.Check(st, w.owns(m, st, owner), "callbacks-of-this-batch", w.c(f), ev.Pos, "the callbacks of another batch are called")
		if len(ev.Args) > 0 {
			m.Check(st, unwrap(ev.Args[0]) == owner || ev.Args[0] == owner, "callbacks-of-this-batch", w.c(f), ev.Pos, "the callback is given another batch")
		}
		m.Check(st, w.has(st, "todo", f), "each-callback-once", w.c(f), ev.Pos, "a callback is called twice")
		for _, t := range st.tups("todo") {
			if t.Data == f {
				st.del(t)
			}
		}
		wrote, failed := len(st.tups("wrote")) > 0, st.tups("failed")
		switch kind {
		case "before":
			m.Check(st, !wrote && len(failed) == 0, "callbacks-in-order", w.c(f), ev.Pos, "it is called after the step it announces")
			m.Check(st, len(st.tups("refused")) == 0, "callbacks-in-order", w.c(f), ev.Pos, "it is called after a callback refused")
		case "ok":
			m.Check(st, wrote, "callbacks-in-order", w.c(f), ev.Pos, "success is reported although nothing was written")
		case "err":
			m.Check(st, len(failed) == 1, "callbacks-in-order", w.c(f), ev.Pos, "failure is reported although nothing failed")
			if len(failed) == 1 && len(ev.Args) > 1 {
				m.Check(st, ev.Args[1] == failed[0].Args[0], "callbacks-in-order", w.c(f), ev.Pos, "another error is reported")
			}
		}
		m.age(st, ev.Site, ev.Ctx)
		if !hasErr(ev.Sig) {
			return true, []Outcome{m.okOutcome(st, ev)}
		}
		bad := st.clone()
		o := m.errOutcome(bad, ev, nil)
		bad.add(&Tup{Tag: "refused", Args: []*Term{resErr(o.res)}})
		return true, []Outcome{m.okOutcome(st, ev), o}
	}
	if w.step(ev.Name) {
		for f, kind := range w.lists {
			if kind == "before" {
				m.Check(st, w.complete(m, st, f), "callbacks-in-order", w.c(f), ev.Pos, "the step is taken before all callbacks that announce it were called")
			}
		}
		m.Check(st, len(st.tups("refused")) == 0, "refusal-stops", w.c(lastName(ev.Name)), ev.Pos, "the step is taken although a callback refused")
		m.Check(st, len(st.tups("wrote")) == 0 && len(st.tups("failed")) == 0, "one-step", w.c(lastName(ev.Name)), ev.Pos, "the step is taken twice")
		if w.what != nil && len(ev.Args) > 0 {
			m.Check(st, w.what(m, st, ev), "callbacks-of-this-batch", w.c(lastName(ev.Name)), ev.Pos, "what is written is not the batch whose callbacks are called")
		}
		m.Check(st, isFieldLoad(ev.Recv, w.self, "Batch") || isFieldLoad(ev.Recv, w.self, "pebble"), "callbacks-of-this-batch", w.c(lastName(ev.Name)), ev.Pos, "the step is not taken on the batch itself")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "wrote"})
		o := m.errOutcome(bad, ev, nil)
		bad.add(&Tup{Tag: "failed", Args: []*Term{resErr(o.res)}})
		return true, []Outcome{m.okOutcome(st, ev), o}
	}
	if strings.HasPrefix(ev.Name, pebblePkg+".Batch.") {
		switch lastName(ev.Name) {
		case "Empty", "Len", "Count", "Indexed":
			return true, []Outcome{{st, m.TT.App(ev.Name, ev.Sig.Results().At(0).Type(), ev.Recv)}}
		}
	}
	return false, nil
}

func (w *Life) owns(m *Machine, st *State, owner *Term) bool {
	return owner == w.owner || w.find != nil && w.find(m, st) == owner
}

// complete: every callback of the list was called.
func (w *Life) complete(m *Machine, st *State, f string) bool {
	if w.has(st, "done", f) {
		return true
	}
	owner := w.owner
	if w.find != nil {
		owner = w.find(m, st)
	}
	if owner == nil {
		return false
	}
	if l := m.loadPath(st, owner, f); l != nil {
		v, k := m.truth(st, m.TT.Eq(m.TT.Len(l), m.TT.Int(0)))
		if k && v {
			return true
		}
		v, k = m.isNil(st, l)
		return k && v
	}
	return false
}

func (w *Life) onNext(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	f, owner := w.listField(it.cont)
	if f == "" || !w.owns(m, st, owner) {
		return
	}
	m.Check(st, !w.has(st, "todo", f), "each-callback-once", w.c(f), m.P.Pos(hdr.Parent().Pos()), "a callback is left out")
	st.add(&Tup{Tag: "todo", Data: f})
}

func (w *Life) onDone(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	f, owner := w.listField(it.cont)
	if f == "" || !w.owns(m, st, owner) {
		return
	}
	m.Check(st, !w.has(st, "todo", f), "each-callback-once", w.c(f), m.P.Pos(hdr.Parent().Pos()), "a callback is left out")
	m.Check(st, !w.has(st, "done", f), "each-callback-once", w.c(f), m.P.Pos(hdr.Parent().Pos()), "the callbacks are called twice")
	st.add(&Tup{Tag: "done", Data: f})
}

func (w *Life) onReturn(m *Machine, st *State, res []*Term, pos string) {
	e, kind := m.retErr(st, res)
	wrote, failed, refused := len(st.tups("wrote")) > 0, st.tups("failed"), st.tups("refused")
	at := func(k string) {
		for f, kd := range w.lists {
			if kd == k {
				m.Check(st, w.complete(m, st, f), "each-callback-called", w.c(f), pos, "callbacks are not called")
			}
		}
	}
	switch {
	case wrote:
		at("ok")
		m.Check(st, kind == "nil", "outcome-returned", w.c("return"), pos, "an error is returned although the step succeeded")
	case len(failed) > 0:
		at("err")
		m.Check(st, kind == "err" && termContains(e, failed[0].Args[0]), "outcome-returned", w.c("return"), pos, "the error of the step is not returned")
	case len(refused) > 0:
		m.Check(st, kind == "err" && termContains(e, refused[0].Args[0]), "outcome-returned", w.c("return"), pos, "the error of the callback that refused is not returned")
	case kind == "err":
	default:
		empty := false
		for t, v := range st.facts {
			if findSub(t, func(x *Term) bool {
				return x.K == KApp && (strings.HasSuffix(x.Op, "Batch.Empty") || strings.HasSuffix(x.Op, "Batch.Count") || strings.HasSuffix(x.Op, "Batch.Len"))
			}) != nil && (v || t.Op != "==") {
				empty = v
			}
		}
		m.Check(st, empty && !w.closing, "step-taken", w.c("return"), pos, "success is reported although nothing was done")
	}
}

func (w *Life) run(p *Program, r *Result, fn *ssa.Function) {
	w.name = calleeName(fn)
	spec := &Spec{Call: w.call, OnNext: w.onNext, OnDone: w.onDone, OnReturn: w.onReturn}
	spec.KeepFact = func(m *Machine, t *Term) bool { return true }
	r.Interpret(p, spec, fn, func(m *Machine, st *State, params []*Term) {
		w.owner, w.self = params[0], params[0]
		if strings.HasSuffix(w.name, ".Apply") {
			w.owner = nil
			arg := params[1]
			w.what = func(m *Machine, st *State, ev *Event) bool {
				return isFieldLoad(ev.Args[0], w.find(m, st), "Batch")
			}
			w.find = func(m *Machine, st *State) *Term {
				return m.TT.App("assert", fn.Params[0].Type(), arg)
			}
		}
	})
}

func runLifecycle(p *Program, r *Result) {
	batchLists := map[string]string{"onCommitCallbacks": "before", "onCommittedCallbacks": "ok", "onErrorCallbacks": "err"}
	for _, x := range []struct {
		typ, op string
		w       *Life
	}{
		{"_batch", "Commit", &Life{lists: batchLists, step: func(n string) bool { return n == pebblePkg+".Batch.Commit" }}},
		{"_batch", "Apply", &Life{lists: batchLists, step: func(n string) bool { return n == pebblePkg+".Batch.Apply" }}},
		{"_batch", "Close", &Life{lists: map[string]string{"onClose": "before", "onErrorCallbacks": "err"}, closing: true, step: func(n string) bool { return n == pebblePkg+".Batch.Close" }}},
		{"_db", "Close", &Life{lists: map[string]string{"onCloseCallbacks": "before"}, closing: true, step: func(n string) bool { return n == pebblePkg+".DB.Close" }}},
	} {
		n, err := p.Named("", x.typ)
		if err != nil {
			r.Fail("%v", err)
			continue
		}
		for f := range x.w.lists {
			if fieldIndex(n, f) < 0 {
				r.Fail("unresolved anchor: %s.%s", x.typ, f)
			}
		}
		if fn := r.anchor(p.Method(n, x.op)); fn != nil {
			x.w.run(p, r, fn)
		}
	}
}

// runRegistration: callbacks are added to the list they are called from, and a
// reset forgets them.
func runRegistration(p *Program, r *Result) {
	for _, x := range [][3]string{
		{"_batch", "OnCommit", "onCommitCallbacks"}, {"_batch", "OnCommitted", "onCommittedCallbacks"},
		{"_batch", "OnError", "onErrorCallbacks"}, {"_batch", "OnClose", "onClose"}, {"_db", "OnClose", "onCloseCallbacks"},
	} {
		fn := r.anchor(p.methodOf("", x[0], x[1]))
		if fn == nil {
			continue
		}
		c := calleeName(fn)
		for _, q := range r.Paths(p, fn, PathOpt{Spec: &Spec{TrackLists: true}}) {
			l := q.M.loadPath(q.St, q.Params[0], x[2])
			in, sub, other := 0, 0, 0
			for _, t := range q.St.tups("did:in") {
				if t.Args[0] == l && t.Args[1] == q.Params[1] {
					in++
				} else {
					other++
				}
			}
			for _, t := range q.St.tups("did:sub") {
				if t.Args[0] == l && isFieldLoad(t.Args[1], q.Params[0], x[2]) {
					sub++
				} else {
					other++
				}
			}
			r.PathCheck(q, in == 1 && sub == 1 && other == 0, "registered", c, q.Pos, "the callback is not added behind those registered before")
		}
	}
	if fn := r.anchor(p.methodOf("", "_batch", "Reset")); fn != nil {
		next := "bond.NumberSequence.Next"
		c := calleeName(fn)
		for _, q := range r.Paths(p, fn, PathOpt{Event: func(n string, _ *ssa.Function) bool { return n == next }, NoFail: func(n string) bool { return n == next }}) {
			for _, f := range []string{"onCommitCallbacks", "onCommittedCallbacks", "onErrorCallbacks", "onClose"} {
				l := q.M.loadPath(q.St, q.Params[0], f)
				r.PathCheck(q, l != nil && q.M.emptyList(q.St, l), "reset-forgets", c+": "+f, q.Pos, "callbacks of the batch's former use are kept")
			}
			id := q.M.loadPath(q.St, q.Params[0], "id")
			ns := q.Filter(next)
			r.PathCheck(q, len(ns) == 1 && ns[0].Res != nil && ns[0].Res.K == KTuple && id == ns[0].Res.Args[0], "reset-renumbers", c, q.Pos, "the batch keeps its number")
			rs := q.Filter(pebblePkg + ".Batch.Reset")
			r.PathCheck(q, len(rs) == 1 && isFieldLoad(rs[0].Recv, q.Params[0], "Batch"), "reset-forgets", c, q.Pos, "the writes are kept")
		}
	}
	if fn := r.anchor(p.methodOf("", "_db", "Apply")); fn != nil {
		c := calleeName(fn)
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			cs := q.Filter("Commit")
			ok := len(cs) == 1 && len(q.Evs) == 1 && cs[0].Recv == q.Params[1] && cs[0].Args[0] == q.Params[2] && sameErr(q, q.Res[0], cs[0].Res)
			r.PathCheck(q, ok, "apply-commits", c, q.Pos, "applying a batch to the database does not commit it, with its callbacks, as it was asked to")
		}
	}
}

func init() {
	register(&Property{ID: "C17", Run: func(p *Program, r *Result) {
		runLifecycle(p, r)
		runRegistration(p, r)
	}})
}
