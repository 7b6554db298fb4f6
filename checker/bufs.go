package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Bufs is the monitor of reused memory: buffers that keys and rows are built
// in, and bytes that belong to an iterator or a read handle.
//
//	~buf(B, K)   the bytes K are in buffer B
//	~keep(K)     K is in several places: nothing is said about it
//	~bor(O, K)   K belongs to O, an iterator or a read handle
//	nb(X, B)    X writes into buffer B
//	~stale(K)    what K stood for has been overwritten or given away
//	~put(B)      B was given back to its pool
//	~in(L, K)    the list L holds K
//	held(L, O)   the list L holds bytes that belong to O
type Bufs struct {
	name  string
	bound map[string]bool
}

// root is the memory a slice starts in.
func bufRoot(t *Term) *Term {
	for t != nil && t.K == KApp && t.Op == "slice" && (t.Args[1].isInt(0) || t.Args[1].K == KNil) {
		t = t.Args[0]
	}
	return t
}

// bytesOf is the bytes a slice expression shows part of.
func bytesOf(t *Term) *Term {
	for t != nil && t.K == KApp && t.Op == "slice" {
		t = t.Args[0]
	}
	return t
}

func (w *Bufs) noBuf(m *Machine, st *State, b *Term) bool {
	if b == nil {
		return true
	}
	v, k := m.isNil(st, b)
	return k && v
}

func (w *Bufs) staleNow(st *State, k *Term, why string) {
	if st.has(&Tup{Tag: "~keep", Args: []*Term{k}}) {
		return
	}
	st.add(&Tup{Tag: "~stale", Args: []*Term{k}, Data: why})
	for _, t := range st.tups("~in") {
		if t.Args[1] == k {
			st.add(&Tup{Tag: "~stale", Args: []*Term{t.Args[0]}, Data: why})
		}
	}
}

func (w *Bufs) unstale(st *State, k *Term) {
	for _, t := range st.tups("~stale") {
		if t.Args[0] == k {
			st.del(t)
		}
	}
}

// encode: the bytes k are built in b; from is the bytes they continue.
func (w *Bufs) encode(m *Machine, st *State, b, k, from *Term, pos, what string) {
	if k == nil {
		return
	}
	w.unstale(st, k)
	if w.noBuf(m, st, b) {
		st.add(&Tup{Tag: "~keep", Args: []*Term{k}})
		return
	}
	b = bufRoot(b)
	if st.has(&Tup{Tag: "~put", Args: []*Term{b}}) {
		m.Check(st, false, "buffer-after-put", w.name+": "+what, pos, "a buffer is used after it was given back to its pool")
	}
	m.Check(st, true, "buffer-after-put", w.name+": "+what, pos, "")
	for _, t := range st.tups("~buf") {
		switch {
		case t.Args[0] == b && t.Args[1] != k:
			st.del(t)
			if t.Args[1] != from {
				w.staleNow(st, t.Args[1], "its buffer holds something else now")
			}
		case t.Args[0] != b && t.Args[1] == k:
			st.add(&Tup{Tag: "~keep", Args: []*Term{k}})
		}
	}
	st.add(&Tup{Tag: "~buf", Args: []*Term{b, k}})
}

// use: the bytes of k are read.
func (w *Bufs) use(m *Machine, st *State, k *Term, what, pos string) {
	k = bytesOf(k)
	if k == nil || k.K == KNil || k.K == KConst {
		return
	}
	why := ""
	for _, t := range st.tups("~stale") {
		if t.Args[0] == k || k.K == KElem && t.Args[0] == k.Args[0] {
			why = t.Data
		}
	}
	m.Check(st, why == "", "bytes-still-valid", w.name+": "+what, pos, "bytes are used although "+why)
}

// isBytesList: a slice of bytes, or of such slices.
func isBytesList(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	s, ok := t.Typ.Underlying().(*types.Slice)
	return isByteSlice(t.Typ) || ok && isByteSlice(s.Elem())
}

// release: everything that belongs to o is gone.
func (w *Bufs) release(st *State, o *Term, why string) {
	for _, t := range st.tups("held") {
		if t.Args[1] == o {
			st.del(t)
			w.staleNow(st, t.Args[0], why)
		}
	}
	for _, t := range st.tups("~bor") {
		if t.Args[0] == o {
			st.del(t)
			w.staleNow(st, t.Args[1], why)
		}
	}
}

func (w *Bufs) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	opt := func(i int) *Term { // the optional buffer argument
		if len(ev.Args) <= i {
			return nil
		}
		if es, ok := m.listElems(st, ev.Args[i]); ok && len(es) > 0 {
			return es[0]
		}
		return nil
	}
	short := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
	switch ev.Name {
	case "bond.KeyEncodeRaw", "bond.KeyEncode", "bond.keySuccessor", "bond.KeyBytes.ToDataKeyBytes":
		if ev.Recv != nil {
			w.use(m, st, ev.Recv, short, ev.Pos)
		}
		if ev.Name == "bond.keySuccessor" {
			w.use(m, st, ev.Args[0], short, ev.Pos)
		}
		ok, outs := m.base(st, ev)
		if !ok {
			return false, nil
		}
		var b *Term
		switch ev.Name {
		case "bond.KeyEncodeRaw":
			b = opt(5)
		case "bond.KeyEncode":
			b = opt(1)
		case "bond.keySuccessor":
			if len(ev.Args) > 1 {
				b = ev.Args[1]
				if es, ok := m.listElems(st, b); ok && len(es) > 0 && !isByteSlice(b.Typ) {
					b = es[0]
				}
			}
		default:
			b = opt(0)
		}
		for _, o := range outs {
			w.encode(m, o.st, b, o.res, nil, ev.Pos, short)
		}
		return true, outs
	case "bond/utils.PreAllocatedPool.Put":
		if len(ev.Args) == 1 {
			b := bufRoot(ev.Args[0])
			if b.K == KCall {
				// the first return of it, or the element of an array
				t := &Tup{Tag: "~put", Args: []*Term{b}}
				m.Check(st, !st.has(t), "put-once", w.name, ev.Pos, "a buffer is given back to its pool twice")
				st.add(t)
			}
			for _, t := range st.tups("~buf") {
				if t.Args[0] == b {
					st.del(t)
					w.staleNow(st, t.Args[1], "its buffer was given back to the pool")
				}
			}
		}
		return false, nil
	case "bytes.Equal", "bytes.Compare":
		for _, a := range ev.Args {
			w.use(m, st, a, short, ev.Pos)
		}
		return false, nil
	}
	if w.bound[ev.Name] {
		for _, a := range ev.Args {
			if isBytesList(a) {
				w.use(m, st, a, short, ev.Pos)
			}
		}
		return false, nil
	}
	if ev.Fn != nil && m.P.InModule(ev.Fn) {
		return false, nil // its body is interpreted
	}
	if ev.Name == "dynamic" && ev.Val != nil && ev.Val.K == KParam {
		for _, a := range ev.Args {
			if isBytesList(a) {
				st.add(&Tup{Tag: "arg", Args: []*Term{a}})
			}
		}
	}
	switch k := opKind(ev); k {
	case "Set", "Delete", "DeleteRange", "Get", "FilterAdd", "FilterMayContain", "Deserialize":
		for _, a := range ev.Args {
			if a.Typ != nil && isByteSlice(a.Typ) || a.K == KApp {
				w.use(m, st, a, k, ev.Pos)
			}
		}
	case "Position":
		for _, a := range ev.Args {
			w.use(m, st, a, k, ev.Pos)
		}
		w.release(st, ev.Recv, "its iterator has moved")
	case "IterClose":
		w.release(st, ev.Recv, "its iterator is closed")
	case "Closer":
		w.release(st, ev.Recv, "its read handle is closed")
	case "Iter", "NewIter":
		if len(ev.Args) > 0 {
			lo, up := m.optBounds(st, ev.Args[0])
			for _, b := range []*Term{lo, up} {
				if b != nil {
					w.use(m, st, b, "Iter", ev.Pos)
				}
			}
		}
	}
	return false, nil
}

func (w *Bufs) after(m *Machine, st *State, ev *Event, res *Term) {
	if res == nil {
		return
	}
	nth := func(i int) *Term {
		if res.K == KTuple {
			return res.Args[i]
		}
		return res
	}
	nb := func(x *Term) *Term {
		for _, t := range st.tups("nb") {
			if t.Args[0] == x {
				return t.Args[1]
			}
		}
		return nil
	}
	switch ev.Name {
	case "bytes.NewBuffer":
		st.add(&Tup{Tag: "nb", Args: []*Term{res, bufRoot(ev.Args[0])}})
		return
	case "iface:bond.SerializerWithBuffer.SerializeFuncWithBuffer":
		if b := nb(ev.Args[0]); b != nil {
			st.add(&Tup{Tag: "nb", Args: []*Term{res, b}})
		}
		return
	}
	switch k := opKind(ev); k {
	case "Serialize":
		if ev.Val != nil {
			if b := nb(ev.Val); b != nil {
				w.encode(m, st, b, nth(0), nil, ev.Pos, "Serialize")
			}
		}
	case "IterKey", "IterValue":
		st.add(&Tup{Tag: "~bor", Args: []*Term{ev.Recv, res}})
	case "Get":
		if res.K == KTuple && len(res.Args) == 3 {
			st.add(&Tup{Tag: "~bor", Args: []*Term{res.Args[1], res.Args[0]}})
		}
	}
	if ev.Name == "dynamic" && ev.Val != nil && ev.Val.K == KParam {
		// what a callback was given has to stay valid while it runs, also
		// when it runs the functions it was given
		for _, t := range st.tups("arg") {
			w.use(m, st, t.Args[0], "row callback", ev.Pos)
			st.del(t)
		}
	}
}

func (w *Bufs) onAge(m *Machine, st *State, sub map[*Term]*Term) {
	news := map[*Term]bool{}
	for _, n := range sub {
		news[n] = true
	}
	for _, tag := range []string{"~stale", "~put", "~keep"} {
		for _, t := range st.tups(tag) {
			for _, l := range t.Args[0].leaves {
				if news[l] {
					st.del(t)
					break
				}
			}
		}
	}
}

func (w *Bufs) run(p *Program, r *Result, typ, method string, bound ...string) {
	n, err := p.Named("", typ)
	if err != nil {
		r.Fail("%v", err)
		return
	}
	fn := r.anchor(p.Method(n, method))
	if fn == nil {
		return
	}
	w.name = calleeName(fn)
	w.bound = map[string]bool{}
	for _, b := range bound {
		w.bound[b] = true
	}
	spec := &Spec{Call: w.call, After: w.after, OnAge: w.onAge}
	spec.OnBytes = func(m *Machine, st *State, base, res *Term, pos string) {
		if base.K == KApp && (base.Op == "cat" || base.Op == "cats") {
			// the same bytes, longer
			for _, t := range st.tups("~buf") {
				if t.Args[1] == base {
					w.encode(m, st, t.Args[0], res, base, pos, "append")
					return
				}
			}
			return
		}
		if base.K == KApp && base.Op == "slice" && base.Args[2].isInt(0) {
			w.encode(m, st, base, res, nil, pos, "append")
		}
	}
	hold := func(st *State, list, val *Term) {
		for _, t := range st.tups("~bor") {
			if t.Args[1] == bytesOf(val) {
				st.add(&Tup{Tag: "held", Args: []*Term{list, t.Args[0]}})
			}
		}
	}
	spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, _ ssa.Instruction) {
		for _, e := range elems {
			st.add(&Tup{Tag: "~in", Args: []*Term{list, bytesOf(e)}})
			hold(st, list, e)
		}
	}
	spec.OnStore = func(m *Machine, st *State, addr, val *Term, _ ssa.Instruction) {
		if addr.K != KIdxAddr || val == nil || val.Typ == nil || !isByteSlice(val.Typ) {
			return
		}
		hold(st, baseArray(addr.Args[0]), val)
	}
	spec.OnNewList = func(m *Machine, st *State, list *Term) {
		for _, t := range st.tups("~in") {
			if t.Args[0] == list {
				st.del(t)
			}
		}
		w.unstale(st, list)
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		for _, x := range res {
			if x != nil && isBytesList(x) {
				w.use(m, st, x, "result", pos)
			}
		}
	}
	if len(bound) > 0 {
		spec.Inline = func(f *ssa.Function) bool { return !w.bound[calleeName(f)] }
	}
	r.Interpret(p, spec, fn, nil)
}

func init() {
	register(&Property{ID: "C33", Run: func(p *Program, r *Result) {
		for _, op := range writeOps {
			(&Bufs{}).run(p, r, "_table", op.method)
		}
		for _, op := range []string{"OnInsert", "OnUpdate", "OnDelete", "Iter", "Intersect"} {
			(&Bufs{}).run(p, r, "Index", op)
		}
		for _, op := range []string{"Exist", "get", "Iter", "GetPoint"} {
			(&Bufs{}).run(p, r, "_table", op)
		}
		(&Bufs{}).run(p, r, "_table", "ScanIndexForEach", "bond._table.get", "bond.Index.Iter")
		(&Bufs{}).run(p, r, "Query", "Execute", "bond._table.ScanIndexForEach")
		runRowCells(p, r)
	}})
}
