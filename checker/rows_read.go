package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// readOp is an operation that reads rows, and the functions it is built of
// that are analysed by themselves.
type readOp struct {
	typ, method string
	bound       []string
	polls       bool // it looks at its context before each row
	noerr       bool // it cannot report errors
}

var readOps = []readOp{
	{typ: "_table", method: "Exist", noerr: true},
	{typ: "_table", method: "Get", bound: []string{"bond._table.ScanIndexForEach", "bond._table.get"}},
	{typ: "_table", method: "get"},
	{typ: "_table", method: "Iter", bound: []string{"bond.newIteratorMulti"}},
	{typ: "_table", method: "GetPoint", bound: []string{"bond._table.Get"}},
	{typ: "_table", method: "Scan", bound: []string{"bond._table.ScanIndexForEach"}},
	{typ: "_table", method: "ScanIndex", bound: []string{"bond._table.ScanIndexForEach"}},
	{typ: "_table", method: "ScanForEach", bound: []string{"bond._table.scanForEachPrimaryIndex", "bond._table.scanForEachSecondaryIndex"}},
	{typ: "_table", method: "ScanIndexForEach", bound: []string{"bond._table.get", "bond.Index.Iter"}, polls: true},
	{typ: "Query", method: "Execute", bound: []string{"bond._table.ScanIndexForEach", "bond._table.get", "bond.Index.Intersect"}},
	{typ: "Index", method: "Iter", bound: []string{"bond.newIteratorMulti"}},
	{typ: "Index", method: "Intersect", bound: []string{"bond.Index.Iter"}, polls: true},
}

func runReads(p *Program, r *Result, use func(op readOp) bool, mk func() *Rows) {
	for _, op := range readOps {
		if use != nil && !use(op) {
			continue
		}
		n, err := p.Named("", op.typ)
		if err != nil {
			r.Fail("%v", err)
			continue
		}
		fn, err := p.Method(n, op.method)
		if err != nil {
			r.Fail("%v", err)
			continue
		}
		w := mk()
		w.mode = "read"
		w.Bound = map[string]bool{}
		for _, b := range op.bound {
			w.Bound[b] = true
		}
		w.run(p, r, fn)
	}
}

// batchArg finds the batch among the arguments of a call: the value, or the
// whole optional argument when it is handed on.
func (w *Rows) batchArg(m *Machine, st *State, ev *Event) (b, whole *Term, has bool) {
	ps := ev.Sig.Params()
	off := len(ev.Args) - ps.Len()
	for i := 0; i < ps.Len(); i++ {
		if off+i < 0 {
			continue
		}
		a := ev.Args[off+i]
		if ev.Sig.Variadic() && i == ps.Len()-1 {
			if s, ok := ps.At(i).Type().(*types.Slice); ok && typeName(s.Elem()) == "bond.Batch" {
				if es, ok := m.listElems(st, a); ok {
					if len(es) > 0 {
						return es[0], nil, true
					}
					return nil, nil, true
				}
				if a == m.TT.Nil || a.K == KZero {
					return nil, nil, true
				}
				return nil, a, true
			}
			continue
		}
		switch typeName(ps.At(i).Type()) {
		case "bond.Batch", "bond.Iterationer":
			x := a
			if x.K == KIface {
				x = x.Args[0]
			}
			return x, nil, true
		}
	}
	return nil, nil, false
}

// boundRead is a call of a read operation that is analysed by itself.
func (w *Rows) boundRead(m *Machine, st *State, ev *Event) []Outcome {
	tt := m.TT
	m.age(st, ev.Site, ev.Ctx)
	if w.Reads {
		b, whole, has := w.batchArg(m, st, ev)
		if has {
			w.readCheck(m, st, ev, method2(ev), b, whole)
		} else {
			m.Check(st, false, "reads-through-batch", w.construct(method2(ev)), ev.Pos, "takes no batch")
		}
	}
	res := ev.Sig.Results()
	if w.Open {
		for i := 0; i < res.Len(); i++ {
			if typeName(res.At(i).Type()) == "bond.Iterator" {
				st.add(&Tup{Tag: "open", Args: []*Term{tt.Call(ev.Site, ev.Ctx, i, res.At(i).Type())}, Data: "iterator", Pos: ev.Pos})
			}
		}
	}
	var outs []Outcome
	// callbacks run any number of times; an error of theirs is returned
	var fns []*Term
	for _, a := range ev.Args {
		fns = append(fns, m.funcsIn(st, a, 0)...)
	}
	m.havocArgs(st, ev)
	states := []*State{st}
	if len(fns) > 0 {
		seen := map[string]bool{m.stateKey(st): true}
		for k := 0; k < len(states) && m.err == nil; k++ {
			for i, f := range fns {
				for _, o := range m.callClosure(states[k].clone(), ev, f, nil, i) {
					e := resErr(o.res)
					if e != nil {
						if v, known := m.isNil(o.st, e); known && !v {
							outs = append(outs, m.errOutcome(o.st, ev, e))
							continue
						}
					}
					m.gc(o.st)
					k := m.stateKey(o.st)
					if !seen[k] {
						seen[k] = true
						states = append(states, o.st)
					}
				}
			}
		}
	}
	for _, s := range states {
		if hasErr(ev.Sig) {
			outs = append(outs, w.fails(m, s, ev, method2(ev)))
		}
		outs = append(outs, m.okOutcome(s, ev))
	}
	return outs
}

func method2(ev *Event) string { _, n := method(ev); return n }

// userCall is a call of a function that the caller of the operation gave, or
// that stands for reading a row lazily.
func (w *Rows) userCall(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	if w.mode != "read" || ev.Name != "dynamic" || ev.Val == nil || ev.Val.K == KFunc || isSerializeSig(ev.Sig) {
		return false, nil
	}
	if !hasErr(ev.Sig) {
		return false, nil
	}
	m.age(st, ev.Site, ev.Ctx)
	if ev.Val.K == KParam {
		w.rowEvent(m, st, "row callback", ev.Pos)
	}
	outs := []Outcome{{st, nil}}
	var fns []*Term
	for _, a := range ev.Args {
		fns = append(fns, m.funcsIn(st, a, 0)...)
	}
	if len(fns) > 0 {
		// its errors are the callback's to report
		keep := st.tups("failed")
		outs = m.mayCall(st, ev, fns)
		for _, o := range outs {
			for _, t := range o.st.tups("failed") {
				o.st.del(t)
			}
			for _, t := range o.st.tups("readfailed") {
				o.st.del(t)
			}
			for _, t := range keep {
				o.st.add(t)
			}
		}
	}
	what := "row callback"
	if ev.Val.K != KParam {
		what = "Lazy.Get"
	}
	var res []Outcome
	for _, o := range outs {
		stop := []Outcome{w.fails(m, o.st, ev, what)}
		r0 := ev.Sig.Results().At(0).Type()
		if ev.Val.K == KParam && types.Identical(r0, types.Typ[types.Bool]) {
			// the callback decides whether to go on
			stop = append(stop, m.okOutcome(o.st.clone(), ev, m.TT.False))
			for _, s := range stop {
				for _, t := range s.st.tups("neg") {
					s.st.del(t)
				}
			}
			res = append(res, m.okOutcome(o.st, ev, m.TT.True))
		} else {
			res = append(res, m.okOutcome(o.st, ev))
		}
		res = append(res, stop...)
	}
	return true, res
}

// closureOf finds the function literals inside a function.
func closuresOf(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range fn.AnonFuncs {
		out = append(out, f)
		out = append(out, closuresOf(f)...)
	}
	return out
}
