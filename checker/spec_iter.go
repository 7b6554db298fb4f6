package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C14: iterators over several ranges, and their buffers ----

// findType returns the method of the (unexported) type, by name.
func (p *Program) methodOf(pkg, typ, name string) (*ssa.Function, error) {
	n, err := p.Named(pkg, typ)
	if err != nil {
		return nil, err
	}
	return p.Method(n, name)
}

func isOldOf(a, b *Term) bool {
	return a == b || a != nil && b != nil && a.K == KOld && b.K == KCall && a.Site == b.Site
}

func runIterators(p *Program, r *Result) {
	// the single iterator
	if fn := r.anchor(p.methodOf("", "_iterator", "Close")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			c := "bond._iterator.Close"
			closes := q.Filter("iface:bond.Iterator.Close")
			if r.PathCheck(q, len(closes) == 1, "closes-engine-iterator-once", c, q.Pos, fmt.Sprintf("the engine's iterator is closed %d times", len(closes))) {
				checkRelease(r, q, c, closes[0])
				r.PathCheck(q, len(q.Res) == 1 && sameErr(q, q.Res[0], closes[0].Res), "close-error-returned", c, q.Pos, "the error of closing the engine's iterator is not returned")
			}
		}
	}
	for _, name := range []string{"First", "Last", "Next", "Prev", "Close"} {
		if fn := r.anchor(p.methodOf("", "_iteratorMulti", name)); fn != nil {
			multiMove(p, r, fn, name)
		}
	}
	if fn := r.anchor(p.methodOf("", "_iteratorMulti", "Close")); fn != nil {
		multiRelease(p, r, fn)
	}
	// forwarding
	for _, name := range []string{"Valid", "Error", "Key", "Value"} {
		fn := r.anchor(p.methodOf("", "_iteratorMulti", name))
		if fn == nil {
			continue
		}
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			c := "bond._iteratorMulti." + name
			es := q.Filter("iface:bond.Iterator." + name)
			ok := len(q.Evs) == 1 && len(es) == 1 && isFieldLoad(es[0].Recv, q.Params[0], "iterator") && len(q.Res) == 1 && sameErr(q, q.Res[0], es[0].Res)
			r.PathCheck(q, ok, "asks-current-range", c, q.Pos, "it does not answer for the iterator of the current range")
		}
	}
	if fn := r.anchor(p.Find("bond.newIteratorMulti")); fn != nil {
		c := "bond.newIteratorMulti"
		opt := PathOpt{}
		opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if ev.Name == "iface:bond.Iterationer.Iter" {
				checkChildOptions(m, st, ev, c)
			}
			return false, nil
		}
		for _, q := range r.Paths(p, fn, opt) {
			if len(q.Filter("iface:bond.Iterationer.Iter")) > 0 || q.Is(q.M.TT.Eq(q.M.TT.Len(q.Params[1]), q.M.TT.Int(0)), false) {
				ok := false
				x := q.Res[0]
				if x.K == KIface {
					x = x.Args[0]
				}
				if x.K == KAlloc {
					es := q.Filter("iface:bond.Iterationer.Iter")
					ok = len(es) == 1 && q.M.loadPath(q.St, x, "iterator") == es[0].Res && q.M.loadPath(q.St, x, "iteratorOptions") == q.Params[1] &&
						es[0].Recv == q.Params[0] && q.M.loadPath(q.St, x, "iteratorConstuctor") == q.Params[0]
				}
				r.PathCheck(q, ok, "starts-at-a-range", c, q.Pos, "the iterator it makes does not keep the ranges, their source and the iterator it opened")
			}
		}
	}
	r.Need("closes-engine-iterator-once", 1)
	r.Need("child-options", 5)
	r.Need("moves-through-ranges", 4)
	r.Need("releases-all", 1)
}

// sameErr: two results are the same value, or both known to be nil.
func sameErr(q *PathRec, a, b *Term) bool {
	if a == b {
		return true
	}
	va, ka := q.Nil(a)
	vb, kb := q.Nil(b)
	return ka && kb && va && vb
}

// checkRelease: the buffers are released once, after the iterator is closed,
// and cannot be released again.
func checkRelease(r *Result, q *PathRec, c string, cl *PathEv) {
	n := 0
	for i, e := range q.Evs {
		if e.Name != "dynamic" {
			continue
		}
		n++
		r.PathCheck(q, i > q.Index(cl), "buffers-outlive-iterator", c, e.Pos, "buffers are released before the engine's iterator that uses them is closed")
	}
	opts := q.M.loadPath(q.St, q.Params[0], "opts")
	var cur *Term
	if opts != nil {
		cur = q.M.loadPath(q.St, opts, "releaseBufferOnClose")
	}
	isNil := false
	if cur != nil {
		v, k := q.Nil(cur)
		isNil = k && v
	}
	r.PathCheck(q, n <= 1, "releases-once", c, q.Pos, "buffers are released more than once")
	r.PathCheck(q, isNil, "releases-once", c, q.Pos, "after Close the release of the buffers is still pending, so a second Close runs it (again)")
	// it is released if there is something to release
	if n == 0 && opts != nil {
		init := q.M.TT.Load(releaseAddr(q, opts), nil)
		v, k := q.Nil(init)
		r.PathCheck(q, k && v, "releases-all", c, q.Pos, "the buffers are not released")
	}
}

func releaseAddr(q *PathRec, opts *Term) *Term {
	for t := range q.St.facts {
		if a := findSub(t, func(x *Term) bool {
			return x.K == KFldAddr && x.Args[0] == opts && fieldName(opts.Typ, x.N) == "releaseBufferOnClose"
		}); a != nil {
			return a
		}
	}
	return q.M.TT.Hole
}

// checkChildOptions: the iterator of one range gets the bounds of that range
// and must not release the buffers.
func checkChildOptions(m *Machine, st *State, ev *Event, c string) {
	arg := ev.Args[0]
	rel := m.loadPath(st, arg, "releaseBufferOnClose")
	v, k := false, false
	if rel != nil {
		v, k = m.isNil(st, rel)
	}
	m.Check(st, k && v, "child-options", c, ev.Pos, "the iterator of one range would release the buffers when it is closed, although the range can be visited again")
	lo := m.loadPath(st, arg, "IterOptions", "LowerBound")
	up := m.loadPath(st, arg, "IterOptions", "UpperBound")
	same := lo != nil && up != nil && strings.Contains(lo.String(), "LowerBound") && strings.Contains(up.String(), "UpperBound") &&
		strings.Replace(lo.String(), "LowerBound", "", 1) == strings.Replace(up.String(), "UpperBound", "", 1)
	m.Check(st, same, "child-options", c, ev.Pos, fmt.Sprintf("the iterator of one range is not given the bounds of that range (%v, %v)", lo, up))
	// which range?
	if lo != nil {
		el := findSub(lo, func(t *Term) bool { return t.K == KElem })
		if el == nil {
			el = findSub(lo, func(t *Term) bool { return t.K == KIdxAddr })
		}
		if el != nil {
			st.add(&Tup{Tag: "range", Args: []*Term{el.Args[0], el.Args[1]}})
		}
	}
}

func multiMove(p *Program, r *Result, fn *ssa.Function, name string) {
	c := "bond._iteratorMulti." + name
	spec := &Spec{}
	spec.OnDone = func(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
		if it.cont != nil {
			st.add(&Tup{Tag: "loopdone", Args: []*Term{it.cont}})
		}
	}
	opt := PathOpt{Spec: spec}
	opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if ev.Name == "iface:bond.Iterationer.Iter" {
			for _, t := range st.tups("range") {
				st.del(t)
			}
			checkChildOptions(m, st, ev, c)
		}
		return false, nil
	}
	for _, q := range r.Paths(p, fn, opt) {
		recv := q.Params[0]
		tt := q.M.TT
		var opts, index *Term // as the call found them
		curField := func() *Term { return q.M.loadPath(q.St, recv, "iterator") }
		opts = q.M.loadPath(q.St, recv, "iteratorOptions")
		index = q.M.loadPath(q.St, recv, "iteratorOptionsIndex")
		var cur *Term
		for _, e := range q.Evs {
			if strings.HasPrefix(e.Name, "iface:bond.Iterator.") {
				cur = e.Recv
				break
			}
		}
		if cur == nil {
			cur = curField()
		}
		ok := isFieldLoad(cur, recv, "iterator")
		r.PathCheck(q, ok, "moves-through-ranges", c, q.Pos, "it does not start from the iterator of the current range")
		closed := false
		var last *Term
		lastName := ""
		fresh := false
		for _, e := range q.Evs {
			switch {
			case e.Name == "iface:bond.Iterationer.Iter":
				r.PathCheck(q, closed, "closes-before-next", c, e.Pos, "the iterator of the previous range is not closed")
				cur, closed, last, fresh = e.Res, false, nil, true
			case strings.HasPrefix(e.Name, "iface:bond.Iterator."):
				r.PathCheck(q, e.Recv == cur, "moves-through-ranges", c, e.Pos, "it uses an iterator that is not the current one")
				if e.Method() == "Close" {
					r.PathCheck(q, !closed, "closes-before-next", c, e.Pos, "an iterator is closed twice")
					closed = true
					continue
				}
				r.PathCheck(q, !closed, "closes-before-next", c, e.Pos, "an iterator is used after it was closed")
				switch e.Method() {
				case "First", "Last", "Next", "Prev":
					last, lastName = e.Res, e.Method()
					want := map[string]string{"First": "First", "Next": "First", "Last": "Last", "Prev": "Last"}[name]
					okm := lastName == want && fresh || lastName == name && (name == "Next" || name == "Prev")
					r.PathCheck(q, okm, "moves-through-ranges", c, e.Pos, lastName+" on the iterator of a range")
				}
			}
		}
		if name == "Close" {
			r.PathCheck(q, closed, "closes-before-next", c, q.Pos, "the iterator of the current range is not closed")
			continue
		}
		r.PathCheck(q, !closed && curField() == cur, "closes-before-next", c, q.Pos, "the iterator of the current range is not kept, or is closed")
		res := q.Res[0]
		exhausted := false
		for _, t := range q.St.tups("loopdone") {
			if t.Args[0] == opts {
				exhausted = true
			}
		}
		if opts != nil && q.Is(tt.Eq(tt.Len(opts), tt.Int(0)), true) {
			exhausted = true
		}
		if index != nil {
			lastIdx := tt.addConstTerm(tt.Len(opts), -1)
			if name == "Next" && q.M.leq(q.St, lastIdx, index) || name == "Prev" && q.M.leq(q.St, index, tt.Int(0)) {
				exhausted = true
			}
		}
		failed := false
		for _, e := range q.Filter("Error") {
			if v, k := q.Nil(e.Res); k && !v && e.Recv == cur {
				failed = true
			}
		}
		resTrue, resKnown := q.M.truth(q.St, res)
		switch {
		case res == last && last != nil:
			// whatever the last move said
			resKnown = true
			resTrue = false
			if !exhausted && !failed {
				r.PathCheck(q, q.Is(last, true), "moves-through-ranges", c, q.Pos, "it stops at the end of a range although more follow")
			}
		case !resKnown:
			r.PathCheck(q, false, "moves-through-ranges", c, q.Pos, "its answer does not depend on the ranges")
		case resTrue:
			r.PathCheck(q, last != nil && q.Is(last, true), "moves-through-ranges", c, q.Pos, "it reports an entry although the last move found none")
		default:
			r.PathCheck(q, last == nil || q.Is(last, false), "moves-through-ranges", c, q.Pos, "it reports the end although the last move found an entry")
			r.PathCheck(q, exhausted || failed, "moves-through-ranges", c, q.Pos, "it reports the end although more ranges follow")
		}
		// the range that is open is the one the index says
		for _, t := range q.St.tups("range") {
			okr := isFieldLoad(t.Args[0], recv, "iteratorOptions") && index != nil && t.Args[1] == index
			r.PathCheck(q, okr, "moves-through-ranges", c, q.Pos, fmt.Sprintf("the open range (%v) is not the current one (%v)", t.Args[1], index))
		}
	}
}

// multiRelease: closing releases the buffers of all ranges, each once.
func multiRelease(p *Program, r *Result, fn *ssa.Function) {
	c := "bond._iteratorMulti.Close"
	spec := &Spec{}
	isRelease := func(t *Term) bool {
		return t != nil && t.K == KLoad && t.Args[0].K == KFldAddr && fieldName(t.Args[0].Args[0].Typ, t.Args[0].N) == "releaseBufferOnClose"
	}
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		switch {
		case ev.Name == "iface:bond.Iterator.Close":
			m.Check(st, len(st.tups("closed")) == 0, "closes-engine-iterator-once", c, ev.Pos, "closed twice")
			st.add(&Tup{Tag: "closed"})
			e := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
			st.add(&Tup{Tag: "closeres", Args: []*Term{e}})
			return true, []Outcome{{st, e}}
		case ev.Name == "dynamic" && isRelease(ev.Val):
			m.Check(st, len(st.tups("closed")) > 0, "buffers-outlive-iterator", c, ev.Pos, "buffers are released before the engine's iterator that uses them is closed")
			el := ev.Val.Args[0].Args[0]
			m.Check(st, !st.has(&Tup{Tag: "did:rel", Args: []*Term{el}}), "releases-once", c, ev.Pos, "released twice")
			st.add(&Tup{Tag: "did:rel", Args: []*Term{el}})
			return true, []Outcome{{st, nil}}
		}
		return false, nil
	}
	spec.OnFact = func(m *Machine, st *State, t *Term, v bool) {
		if t.K == KApp && t.Op == "==" && v {
			for i := 0; i < 2; i++ {
				if isRelease(t.Args[i]) && t.Args[1-i] == m.TT.Nil {
					st.add(&Tup{Tag: "did:rel", Args: []*Term{t.Args[i].Args[0].Args[0]}})
				}
			}
		}
	}
	spec.OnDone = func(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
		if it.cont == nil || !isFieldLoad(it.cont, m.entryParams[0], "iteratorOptions") {
			return
		}
		ok := !it.started
		for _, t := range st.tups("all:rel") {
			if t.Args[0] == it.cont {
				ok = true
			}
		}
		if ok {
			st.add(&Tup{Tag: "relall"})
		}
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		m.Check(st, len(st.tups("closed")) == 1, "closes-engine-iterator-once", c, pos, "the iterator of the current range is not closed")
		m.Check(st, len(st.tups("relall")) == 1, "releases-all", c, pos, "the buffers of the ranges are not all released")
		for _, t := range st.tups("closeres") {
			m.Check(st, len(res) == 1 && (res[0] == t.Args[0] || bothNil(m, st, res[0], t.Args[0])), "close-error-returned", c, pos, "the error of closing the iterator is not returned")
		}
	}
	r.Interpret(p, spec, fn, nil)
}

func bothNil(m *Machine, st *State, a, b *Term) bool {
	va, ka := m.isNil(st, a)
	vb, kb := m.isNil(st, b)
	return ka && kb && va && vb
}

func init() {
	register(&Property{ID: "C14", Run: runIterators})
}
