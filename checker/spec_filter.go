package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C23: a filter hides no row ----

func runFilter(p *Program, r *Result) {
	// every key stored is in the filter, and its yes is only a hint
	writes := map[string]bool{"insert": true, "upsert": true, "unsafeinsert": true, "update": true}
	runWrites(p, r, writes, func() *Rows { return &Rows{Filter: true} })
	runWrites(p, r, writes, func() *Rows { return &Rows{Hint: true} })
	runReads(p, r, func(op readOp) bool {
		return op.typ == "_table" && (op.method == "Exist" || op.method == "Get" || op.method == "get")
	}, func() *Rows { return &Rows{Hint: true} })
	runFilterInit(p, r)
	r.Need("stored-keys-in-filter", 2)
	r.Need("filter-asked-about-the-key", 3)
	r.Need("filter-yes-is-looked-up", 5)
}

// initFlag is what marks the filter as initialised: an atomic cell and value.
type initFlag struct {
	cell string
	val  *Term
}

func atomicCell(e *PathEv) (cell *Term, args []*Term) {
	if !strings.HasPrefix(e.Name, "sync/atomic.") {
		return nil, nil
	}
	if e.Recv != nil {
		return e.Recv, e.Args
	}
	if len(e.Args) > 0 {
		return e.Args[0], e.Args[1:]
	}
	return nil, nil
}

// initFilter follows what an initialisation did.
type initFilter struct {
	p      *Program
	r      *Result
	filter *Term // nil: the first one that is used
	name   string
	scans  *Term
}

func (w *initFilter) same(f *Term) bool {
	if w.filter == nil {
		w.filter = f
	}
	return w.filter.String() == f.String()
}

func (w *initFilter) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	c := w.name
	switch ev.Name {
	case "iface:bond.Filter.Load":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		for _, t := range st.tups("loaded") {
			st.del(t)
		}
		ok := w.same(ev.Recv)
		if ok {
			st.add(&Tup{Tag: "loaded", Pos: ev.Pos})
			st.add(&Tup{Tag: "fresh", Pos: ev.Pos})
		}
		bo := m.errOutcome(bad, ev, nil)
		bo.st.add(&Tup{Tag: "partial"})
		return true, []Outcome{m.okOutcome(st, ev), bo}
	case "iface:bond.Filter.Clear":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		for _, s := range []*State{st, bad} {
			for _, tag := range []string{"all:scanned", "did:scanned", "fresh"} {
				for _, t := range s.tups(tag) {
					s.del(t)
				}
			}
		}
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "iface:bond.TableScanner.ScanForEach", "iface:bond.TableScanner.ScanIndexForEach":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		adds := w.callback(m, st.clone(), ev, c)
		if adds && strings.HasSuffix(ev.Name, ".ScanForEach") {
			st.add(&Tup{Tag: "did:scanned", Args: []*Term{ev.Recv}, Pos: ev.Pos})
		}
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "iface:bond.Filter.Add":
		st.add(&Tup{Tag: "added", Args: []*Term{ev.Recv, ev.Args[1]}})
		return true, []Outcome{{st, nil}}
	}
	if strings.HasPrefix(ev.Name, "sync/atomic.") && strings.Contains(ev.Name, "Store") {
		w.done(m, st, c, "filter-initialised-with-every-key", ev.Pos, "the filter is marked as initialised")
	}
	return false, nil
}

// done: the filter holds what was stored, or the key of every row.
func (w *initFilter) done(m *Machine, st *State, c, rule, pos, what string) {
	ok := len(st.tups("loaded")) > 0
	for _, t := range st.tups("all:scanned") {
		if t.Args[1] == m.TT.Hole && t.Args[0].K == KParam {
			ok = true
		}
	}
	for _, q := range m.entryParams {
		if sl, isS := q.Typ.Underlying().(*types.Slice); isS && strings.HasPrefix(typeName(sl.Elem()), "bond.TableScanner") {
			if m.emptyList(st, q) {
				ok = true
			}
			if v, k := m.truth(st, m.TT.Eq(m.TT.Len(q), m.TT.Int(0))); k && v {
				ok = true
			}
		}
	}
	m.Check(st, ok, rule, c, pos, what+" although neither the stored copy was loaded nor the keys of every table were added")
}

// callback: the function a scan calls adds each key to the filter and goes on.
func (w *initFilter) callback(m *Machine, st *State, ev *Event, c string) bool {
	ps := ev.Sig.Params()
	off := len(ev.Args) - ps.Len()
	for i := 0; i < ps.Len(); i++ {
		f := ev.Args[off+i]
		if f.K != KFunc {
			continue
		}
		fn, ok := f.Obj.(*ssa.Function)
		if !ok || len(fn.Params) < 2 {
			continue
		}
		good := true
		var args []*Term
		for j, pm := range fn.Params {
			args = append(args, m.TT.Call(ev.Site, ev.Ctx, 2000+j, pm.Type()))
		}
		for _, t := range st.tups("added") {
			st.del(t)
		}
		for _, o := range m.callClosure(st, ev, f, args, 0) {
			var res []*Term
			if o.res != nil && o.res.K == KTuple {
				res = o.res.Args
			}
			if len(res) == 2 {
				if v, k := m.isNil(o.st, res[1]); k && !v {
					continue // the scan fails
				}
			}
			added := false
			for _, t := range o.st.tups("added") {
				if t.Args[1] == args[0] && w.same(t.Args[0]) {
					added = true
				}
			}
			m.Check(o.st, added, "filter-initialised-with-every-key", c, ev.Pos, "the scan does not add every key it is given to the filter")
			goOn := len(res) == 2 && res[0] == m.TT.True
			m.Check(o.st, goOn, "filter-initialised-with-every-key", c, ev.Pos, "the scan stops before every key was added to the filter")
			good = good && added && goOn
		}
		return good
	}
	m.Check(st, false, "filter-initialised-with-every-key", c, ev.Pos, "what the scan does with the keys is not known")
	return false
}

func runFilterInit(p *Program, r *Result) {
	for _, name := range []string{"bond.FilterInitialize", "bond.FilterInitializable.Initialize"} {
		fn := r.anchor(p.Find(name))
		if fn == nil {
			continue
		}
		w := &initFilter{p: p, r: r, name: name}
		spec := &Spec{Call: w.call, OnReturn: func(m *Machine, st *State, res []*Term, pos string) {
			if _, k := m.retErr(st, res); k != "err" && name == "bond.FilterInitialize" {
				w.done(m, st, name, "filter-initialised-with-every-key", pos, "it succeeds")
				m.Check(st, len(st.tups("fresh")) == 0, "loaded-copy-is-current", name, pos, "the stored copy stays valid after it is loaded: rows inserted from then on are hidden when it is loaded again without having been saved")
			}
		}}
		spec.KeepFact = func(m *Machine, t *Term) bool {
			return t.K == KApp && t.Op == "==" && findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "len" && x.Args[0].K == KParam }) != nil
		}
		r.Interpret(p, spec, fn, nil)
	}
	r.Need("filter-initialised-with-every-key", 2)
	r.Need("loaded-copy-is-current", 1)
	// until then it says yes
	var flag *initFlag
	if fn := r.anchor(p.Find("bond.FilterInitializable.Initialize")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			for _, e := range q.Evs {
				if cell, args := atomicCell(e); cell != nil && len(args) > 0 && strings.Contains(e.Method(), "Store") {
					f := &initFlag{cell: strings.TrimPrefix(cell.String(), q.Params[0].String()), val: args[len(args)-1]}
					flag = &initFlag{cell: cellName(cell), val: f.val}
				}
			}
		}
	}
	c := "bond.FilterInitializable.MayContain"
	if fn := r.anchor(p.Find(c)); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			res := q.Res[0]
			if res == q.M.TT.True {
				r.PathCheck(q, true, "yes-until-initialised", c, q.Pos, "")
				continue
			}
			ok := false
			for _, e := range q.Filter("iface:bond.Filter.MayContain") {
				if e.Res == res && len(e.Args) == 2 && e.Args[1] == q.Params[2] && isFieldLoad(e.Recv, q.Params[0], "Filter") {
					ok = true
				}
			}
			r.PathCheck(q, ok, "answer-is-the-filters", c, q.Pos, "it answers something else than the filter does for the key")
			init := false
			for _, e := range q.Evs {
				cell, _ := atomicCell(e)
				if cell == nil || flag == nil || cellName(cell) != flag.cell || !strings.Contains(e.Method(), "Load") || e.Res == nil {
					continue
				}
				if flag.val == q.M.TT.True || flag.val.K == KConst && flag.val.String() == "true" {
					init = init || q.Is(e.Res, true)
				}
				for f, v := range q.St.facts {
					if !v && f.K == KApp && f.Op == "==" && (f.Args[0] == e.Res && f.Args[1].isInt(0) || f.Args[1] == e.Res && f.Args[0].isInt(0)) && flag.val.K == KConst && !flag.val.isInt(0) {
						init = true // it is not what it was in the beginning
					}
					if v && f.K == KApp && f.Op == "==" && (f.Args[0] == e.Res && f.Args[1].String() == flag.val.String() || f.Args[1] == e.Res && f.Args[0].String() == flag.val.String()) {
						init = true
					}
				}
			}
			r.PathCheck(q, init, "yes-until-initialised", c, q.Pos, "the filter is asked although it may not be initialised yet: keys it was not given are hidden")
		}
	}
	r.Need("yes-until-initialised", 1)
	// what is added before goes to the filter, too
	n, err := p.Named("", "FilterInitializable")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	c = "bond.FilterInitializable.Add"
	sel := types.NewMethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), "Add")
	switch {
	case sel == nil:
		r.Fail("unresolved anchor: %s", c)
	case len(sel.Index()) > 1:
		r.Check(true, "adds-reach-the-filter", c, p.Pos(n.Obj().Pos()), "") // the filter's own
	default:
		fn := p.SSA.FuncValue(sel.Obj().(*types.Func))
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			ok := false
			for _, e := range q.Filter("iface:bond.Filter.Add") {
				ok = ok || len(e.Args) == 2 && e.Args[1] == q.Params[2] && isFieldLoad(e.Recv, q.Params[0], "Filter")
			}
			r.PathCheck(q, ok, "adds-reach-the-filter", c, q.Pos, "a key that is added does not reach the filter")
		}
	}
	r.Need("adds-reach-the-filter", 1)
}

func cellName(t *Term) string {
	if t.K == KFldAddr {
		return typeName(t.Args[0].Typ) + "." + fieldName(t.Args[0].Typ, t.N)
	}
	return t.String()
}

func init() {
	register(&Property{ID: "C23", Run: runFilter})
}

// ---- C24, C25: the bloom filter ----

const bloomLib = "github.com/bits-and-blooms/bloom/v3.BloomFilter."

// Bloom follows what the methods of the bloom filter do: what buffers hold,
// what was read and written, and for which bucket.
type Bloom struct {
	p    *Program
	r    *Result
	name string
	load bool // Load, else Save

	keys, counts map[string]string // of this method: the keys of buckets and of their number
	numExpr      string
}

func norm(t, bucket *Term) string {
	if t == nil {
		return ""
	}
	if t == bucket {
		return "BUCKET"
	}
	switch t.K {
	case KParam:
		return fmt.Sprintf("#%d", t.N)
	case KFldAddr, KFld:
		return norm(t.Args[0], bucket) + "." + fieldName(t.Args[0].Typ, t.N)
	case KLoad:
		return "*" + norm(t.Args[0], bucket)
	case KConst:
		return t.Op
	case KNil, KGlobal:
		return t.String()
	case KApp, KIface, KElem, KIdxAddr:
		s := t.Op + "("
		for _, a := range t.Args {
			s += norm(a, bucket) + ","
		}
		return s + ")"
	}
	return "?" + t.String()
}

func (w *Bloom) content(st *State, buf *Term) *Tup {
	return st.find("buf", func(t *Tup) bool { return t.Args[0] == buf })
}

// bucketOf is the bucket whose field a value was loaded from.
func bucketOf(t *Term, field string) *Term {
	if t != nil && t.K == KLoad && t.Args[0].K == KFldAddr {
		b := t.Args[0].Args[0]
		if typeName(b.Typ) == "bond/bloom._bucket" && fieldName(b.Typ, t.Args[0].N) == field {
			return b
		}
	}
	return nil
}

func (w *Bloom) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	c := w.name
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	bytesT := types.NewSlice(types.Typ[types.Byte])
	empty := tt.App("cats", bytesT)
	setBuf := func(s *State, b, content *Term) {
		for _, t := range s.tups("buf") {
			if t.Args[0] == b {
				s.del(t)
			}
		}
		s.add(&Tup{Tag: "buf", Args: []*Term{b, content}})
	}
	fails := func(s *State) Outcome { return m.errOutcome(s.clone(), ev, nil) }
	res0 := func() types.Type { return ev.Sig.Results().At(0).Type() }
	if _, outs := lockCall(m, st, ev, c); outs != nil {
		return true, outs
	}
	switch ev.Name {
	case "fmt.Sprintf", "fmt.Sprint":
		if es, ok := m.listElems(st, ev.Args[len(ev.Args)-1]); ok {
			args := append([]*Term{}, ev.Args[:len(ev.Args)-1]...)
			for _, e := range es {
				if e.K == KIface {
					e = e.Args[0]
				}
				args = append(args, e)
			}
			return one(tt.App(ev.Name, res0(), args...))
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		return one(tt.App(ev.Name, res0(), ev.Args...))
	case "encoding/binary.bigEndian.Uint64", "encoding/binary.littleEndian.Uint64":
		return one(tt.App(ev.Name, res0(), ev.Args[len(ev.Args)-1]))
	case "encoding/binary.bigEndian.PutUint64":
		st.add(&Tup{Tag: "int", Args: []*Term{ev.Args[len(ev.Args)-2], ev.Args[len(ev.Args)-1]}, Data: "encoding/binary.bigEndian.Uint64"})
		return one(nil)
	case "encoding/binary.littleEndian.PutUint64":
		st.add(&Tup{Tag: "int", Args: []*Term{ev.Args[len(ev.Args)-2], ev.Args[len(ev.Args)-1]}, Data: "encoding/binary.littleEndian.Uint64"})
		return one(nil)
	case "encoding/binary.bigEndian.AppendUint64":
		res := tt.App("append64", bytesT, ev.Args[len(ev.Args)-1])
		st.add(&Tup{Tag: "int", Args: []*Term{res, ev.Args[len(ev.Args)-1]}, Data: "encoding/binary.bigEndian.Uint64"})
		return one(res)
	case "bytes.NewBuffer", "bytes.NewReader":
		m.age(st, ev.Site, ev.Ctx)
		b := tt.Call(ev.Site, ev.Ctx, 0, res0())
		x := ev.Args[0]
		if x == tt.Nil || x.K == KApp && x.Op == "slice" && x.Args[2].isInt(0) {
			x = empty
		}
		setBuf(st, b, x)
		return one(b)
	case "bytes.Buffer.Write", "bytes.Buffer.WriteString":
		b := w.content(st, ev.Recv)
		if b == nil {
			return false, nil
		}
		x := ev.Args[0]
		if x.K == KApp && x.Op == "conv:[]byte" {
			x = x.Args[0]
		}
		parts := append([]*Term{}, b.Args[1].Args...)
		if b.Args[1].K != KApp || b.Args[1].Op != "cats" {
			parts = []*Term{b.Args[1]}
		}
		if x.K == KApp && x.Op == "cats" {
			parts = append(parts, x.Args...)
		} else {
			parts = append(parts, x)
		}
		setBuf(st, ev.Recv, tt.App("cats", bytesT, parts...))
		return true, []Outcome{m.okOutcome(st, ev)}
	case "bytes.Buffer.Bytes":
		if b := w.content(st, ev.Recv); b != nil {
			return one(b.Args[1])
		}
		return false, nil
	case "bytes.Buffer.Reset":
		setBuf(st, ev.Recv, empty)
		return one(nil)
	case "github.com/klauspost/compress/zstd.NewWriter":
		m.age(st, ev.Site, ev.Ctx)
		bad := fails(st)
		ok := m.okOutcome(st, ev)
		zw := ok.res.Args[0]
		buf := ev.Args[0]
		if buf.K == KIface {
			buf = buf.Args[0]
		}
		setBuf(ok.st, buf, tt.App("unfinished", bytesT, buf))
		ok.st.add(&Tup{Tag: "zw", Args: []*Term{zw, buf}})
		return true, []Outcome{ok, bad}
	case "github.com/klauspost/compress/zstd.Encoder.Close":
		bad := fails(st)
		if z := st.find("zw", func(t *Tup) bool { return t.Args[0] == ev.Recv }); z != nil {
			if b := st.find("written", func(t *Tup) bool { return t.Args[0] == ev.Recv }); b != nil {
				setBuf(st, z.Args[1], tt.App("bits", bytesT, b.Args[1]))
			}
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case bloomLib + "WriteTo":
		m.age(st, ev.Site, ev.Ctx)
		bad := fails(st)
		b := bucketOf(ev.Recv, "filter")
		z := ev.Args[0]
		if z.K == KIface {
			z = z.Args[0]
		}
		if b != nil {
			st.add(&Tup{Tag: "written", Args: []*Term{z, b}})
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case "github.com/klauspost/compress/zstd.NewReader":
		m.age(st, ev.Site, ev.Ctx)
		bad := fails(st)
		ok := m.okOutcome(st, ev)
		buf := ev.Args[0]
		if buf.K == KIface {
			buf = buf.Args[0]
		}
		if b := w.content(ok.st, buf); b != nil {
			ok.st.add(&Tup{Tag: "zr", Args: []*Term{ok.res.Args[0], b.Args[1]}})
		}
		return true, []Outcome{ok, bad}
	case bloomLib + "ReadFrom":
		m.age(st, ev.Site, ev.Ctx)
		bad := fails(st)
		z := ev.Args[0]
		if z.K == KIface {
			z = z.Args[0]
		}
		if t := st.find("zr", func(t *Tup) bool { return t.Args[0] == z }); t != nil {
			m.Check(st, st.find("closed", func(x *Tup) bool { return x.Args[0] == t.Args[1] }) == nil, "stored-data-read-while-open", c, ev.Pos, "the stored data is read after its handle was closed")
			st.add(&Tup{Tag: "read", Args: []*Term{ev.Recv, t.Args[1]}})
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case bloomLib + "Merge":
		bad := fails(st)
		b := bucketOf(ev.Recv, "filter")
		t := st.find("read", func(t *Tup) bool { return t.Args[0] == ev.Args[0] })
		if b != nil && t != nil && t.Args[1].K == KApp && t.Args[1].Op == "saved" {
			w.keys[norm(t.Args[1].Args[0], b)] = ev.Pos
			st.add(&Tup{Tag: "did:merged", Args: []*Term{b}, Pos: ev.Pos})
			st.add(&Tup{Tag: "moved", Args: []*Term{b}, Pos: ev.Pos})
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	case "iface:bond.FilterStorer.Get":
		m.age(st, ev.Site, ev.Ctx)
		bad := fails(st)
		data := tt.App("saved", bytesT, ev.Args[0], tt.Sym(ev.Site, ev.Ctx, 0, nil))
		cl := tt.Call(ev.Site, ev.Ctx, 1, ev.Sig.Results().At(1).Type())
		st.add(&Tup{Tag: "open", Args: []*Term{cl, data}, Pos: ev.Pos})
		return true, []Outcome{m.okOutcome(st, ev, data, cl), bad}
	case "iface:io.Closer.Close":
		for _, t := range st.tups("open") {
			if t.Args[0] == ev.Recv {
				st.del(t)
				st.add(&Tup{Tag: "closed", Args: []*Term{t.Args[1]}})
			}
		}
		return true, []Outcome{m.okOutcome(st, ev)}
	case "iface:bond.FilterStorer.Set":
		m.age(st, ev.Site, ev.Ctx)
		bad := fails(st)
		k, v := ev.Args[0], ev.Args[1]
		if v.K == KApp && v.Op == "bits" {
			b := v.Args[0]
			w.keys[norm(k, b)] = ev.Pos
			m.Check(st, numIn(k, b), "bucket-has-its-own-key", c, ev.Pos, "the key a bucket is stored under does not determine the bucket's number")
			st.add(&Tup{Tag: "did:saved", Args: []*Term{b}, Pos: ev.Pos})
			st.add(&Tup{Tag: "moved", Args: []*Term{b}, Pos: ev.Pos})
		} else if t := st.find("int", func(t *Tup) bool { return t.Args[0] == v || v.K == KApp && v.Op == "slice" && t.Args[0] == v.Args[0] }); t != nil {
			w.counts[norm(k, nil)+" "+t.Data+" "+norm(t.Args[1], nil)] = ev.Pos
			st.add(&Tup{Tag: "count", Args: []*Term{t.Args[1]}})
		} else {
			m.Check(st, false, "every-bucket-saved", c, ev.Pos, fmt.Sprintf("it stores %s, which is not the complete content of one bucket", v))
		}
		return true, []Outcome{m.okOutcome(st, ev), bad}
	}
	return false, nil
}

// numIn: a key determines the number of the bucket it is for.
func numIn(t, b *Term) bool {
	if bucketOf(t, "num") == b {
		return true
	}
	if t.K != KApp && t.K != KIface {
		return false
	}
	if t.K == KApp {
		op := t.Op
		switch {
		case op == "cats", op == "append64", strings.HasPrefix(op, "fmt."), strings.HasPrefix(op, "strconv."):
		case op == "conv:[]byte", op == "conv:string", op == "conv:int", op == "conv:int64", op == "conv:uint64", op == "conv:uint":
		default:
			return false
		}
	}
	for _, a := range t.Args {
		if numIn(a, b) {
			return true
		}
	}
	return false
}

func (w *Bloom) onFact(m *Machine, st *State, t *Term, v bool) {
	for _, f := range []string{"hasChanges", "hasBeenWritten"} {
		if b := bucketOf(t, f); b != nil && v == (f == "hasBeenWritten") {
			st.add(&Tup{Tag: "clean", Data: f, Args: []*Term{b}})
			if st.has(&Tup{Tag: "clean", Data: "hasChanges", Args: []*Term{b}}) && st.has(&Tup{Tag: "clean", Data: "hasBeenWritten", Args: []*Term{b}}) && !w.load {
				st.add(&Tup{Tag: "did:saved", Args: []*Term{b}})
			}
		}
	}
	// the number of buckets read is the number there is
	if w.load && v && t.K == KApp && t.Op == "==" {
		for i := 0; i < 2; i++ {
			x := t.Args[i]
			if x.K == KApp && strings.HasPrefix(x.Op, "encoding/binary.") && x.Args[0].K == KApp && x.Args[0].Op == "saved" {
				w.counts[norm(x.Args[0].Args[0], nil)+" "+x.Op+" "+norm(t.Args[1-i], nil)] = "?"
				st.add(&Tup{Tag: "count", Args: []*Term{t.Args[1-i]}})
			}
		}
	}
}

func (w *Bloom) onStore(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
	if addr.K != KFldAddr || typeName(addr.Args[0].Typ) != "bond/bloom._bucket" || rootAlloc(addr.Args[0]) {
		return
	}
	b := addr.Args[0]
	f := fieldName(b.Typ, addr.N)
	moved := st.find("moved", func(t *Tup) bool { return t.Args[0] == b }) != nil
	pos := m.P.Pos(site.Pos())
	switch {
	case f == "hasBeenWritten" && val != m.TT.False:
		m.Check(st, moved, "bucket-marked-when-stored", w.name+": "+f, pos, "a bucket is marked as stored before it is: the next save leaves it out")
	case f == "hasChanges" && val != m.TT.True:
		m.Check(st, moved && !w.load, "bucket-marked-when-stored", w.name+": "+f, pos, "a bucket is marked as unchanged although its changes are not stored: the next save leaves it out")
	}
}

func (w *Bloom) onReturn(m *Machine, st *State, res []*Term, pos string) {
	c := w.name
	lockReturn(m, st, c, pos)
	for _, t := range st.tups("open") {
		m.Check(st, false, "stored-data-closed", c, t.Pos, "the handle of the stored data is not closed when the function returns at "+pos)
	}
	m.Check(st, true, "stored-data-closed", c, pos, "")
	if _, k := m.retErr(st, res); k == "err" {
		return
	}
	tag, rule, msg := "all:saved", "every-bucket-saved", "it succeeds although a bucket with changes may not have been stored completely"
	if w.load {
		tag, rule, msg = "all:merged", "every-bucket-loaded", "it succeeds although not every bucket has been merged with its stored content"
	}
	ok := false
	isBuckets := func(t *Term) bool { return m.loadedField(t) == "bond/bloom.BloomFilter.buckets" }
	for _, t := range st.tups(tag) {
		if t.Args[1] == m.TT.Hole && isBuckets(t.Args[0]) {
			ok = true
		}
	}
	for f, v := range st.facts {
		if v && f.K == KApp && f.Op == "==" {
			for i := 0; i < 2; i++ {
				if l := f.Args[i]; l.K == KApp && l.Op == "len" && isBuckets(l.Args[0]) && f.Args[1-i].isInt(0) {
					ok = true
				}
			}
		}
	}
	m.Check(st, ok, rule, c, pos, msg)
	m.Check(st, len(st.tups("count")) > 0, "number-of-buckets-kept", c, pos, "it succeeds although the number of buckets was not stored, or not compared with the one that was")
}

func (m *Machine) loadedField(t *Term) string {
	if t.K == KLoad && t.Args[0].K == KFldAddr {
		return cellName(t.Args[0])
	}
	return ""
}

func runBloomStore(p *Program, r *Result) {
	var ws []*Bloom
	for _, name := range []string{"Save", "Load"} {
		fn := r.anchor(p.methodOf("bloom", "BloomFilter", name))
		if fn == nil {
			continue
		}
		w := &Bloom{p: p, r: r, name: "bond/bloom.BloomFilter." + name, load: name == "Load", keys: map[string]string{}, counts: map[string]string{}}
		spec := &Spec{Call: w.call, OnFact: w.onFact, OnStore: w.onStore, OnReturn: w.onReturn}
		spec.KeepFact = func(m *Machine, t *Term) bool {
			return t.K == KApp && t.Op == "==" && findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "len" }) != nil
		}
		r.Interpret(p, spec, fn, nil)
		ws = append(ws, w)
	}
	if len(ws) == 2 {
		agree := func(what string, a, b map[string]string) {
			c := "bond/bloom.BloomFilter.Save and Load: " + what
			r.Check(len(a) > 0 && len(b) > 0, "save-and-load-agree", c, "bloom", "it is not known under which key it is stored or looked up")
			for k, pos := range b {
				if _, ok := a[k]; !ok {
					var ks []string
					for x := range a {
						ks = append(ks, x)
					}
					r.Report(&Violation{Rule: "save-and-load-agree", Construct: c, Pos: pos, Msg: fmt.Sprintf("Load expects %s, Save writes %v", k, ks)})
				}
			}
		}
		agree("buckets", ws[0].keys, ws[1].keys)
		agree("number of buckets", ws[0].counts, ws[1].counts)
	}
	r.Need("every-bucket-saved", 1)
	r.Need("every-bucket-loaded", 1)
	r.Need("bucket-marked-when-stored", 3)
	r.Need("bucket-has-its-own-key", 1)
	r.Need("number-of-buckets-kept", 2)
}

// runBloomClear: a saved filter is removed with all its keys: the prefix
// followed by a decimal number or "bn".
func runBloomClear(p *Program, r *Result) {
	const rule, c = "saved-filter-removed-whole", "bond/bloom.BloomFilter.Clear"
	fn := r.anchor(p.methodOf("bloom", "BloomFilter", "Clear"))
	if fn == nil {
		return
	}
	spec := bytesSpec()
	spec.RawKeys = true
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		_, k := m.retErr(st, res)
		if len(st.tups("failed")) > 0 {
			m.Check(st, k == "err", rule, c, pos, "it succeeds although the keys could not be removed")
		} else if k != "err" {
			m.Check(st, len(st.tups("cleared")) > 0, rule, c, pos, "it succeeds although nothing was removed")
		}
	}
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if !strings.HasSuffix(ev.Name, "bond.FilterStorer.DeleteRange") {
			return m.bytesCall(st, ev)
		}
		some := func(ps []*Term) (out []*Term) {
			for _, x := range ps {
				if n := m.partLen(st, x); !n.isConst() || n.C != 0 {
					out = append(out, x)
				}
			}
			return out
		}
		start, end := some(m.parts(st, ev.Args[0])), some(m.parts(st, ev.Args[1]))
		prefix := func(ps []*Term) bool {
			return len(ps) > 0 && m.loadedField(ps[0]) == "bond/bloom.BloomFilter.keyPrefix"
		}
		m.Check(st, prefix(start) && len(start) == 1, rule, c, ev.Pos, "the range does not start at the prefix of the filter's keys")
		above := false
		if prefix(end) && len(end) > 1 {
			b := int64(-1)
			if s, ok := end[1].strVal(); ok && s != "" {
				b = int64(s[0])
			} else if end[1].K == KApp && end[1].Op == "b1" {
				if n, ok := m.byteVal(st, end[1].Args[0]).intVal(); ok {
					b = n & 255
				}
			}
			above = b > 'b'
		}
		m.Check(st, above, rule, c, ev.Pos, "the range does not end behind every key of the filter, whatever its prefix, or goes on to other keys")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "cleared"})
		bad.add(&Tup{Tag: "failed"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	r.Interpret(p, spec, fn, nil)
	r.Need(rule, 1)
}

// ---- C24: what was added is found ----

// normEv renders a value by the calls it comes from.
func (q *PathRec) normEv(t *Term, depth int) string {
	if t == nil || depth > 12 {
		return "?"
	}
	if t.K == KCall || t.K == KTuple {
		for i, e := range q.Evs {
			if e.Res == nil || e.Res != t && !(e.Res.K == KTuple && contains(e.Res.Args, t)) {
				continue
			}
			s := e.Name + "("
			if e.Recv != nil {
				s += q.normEv(e.Recv, depth+1)
				// what was done to the object before
				for _, h := range q.Evs[:i] {
					if h.Recv == e.Recv && h.Res != e.Recv && e.Recv.K == KCall {
						s += ";" + h.Method()
						for _, a := range h.Args {
							s += " " + q.normEv(a, depth+1)
						}
					}
				}
			}
			for _, a := range e.Args {
				s += "," + q.normEv(a, depth+1)
			}
			return s + ")"
		}
		return "?" + t.String()
	}
	switch t.K {
	case KParam:
		return fmt.Sprintf("#%d", t.N)
	case KFldAddr, KFld:
		return q.normEv(t.Args[0], depth+1) + "." + fieldName(t.Args[0].Typ, t.N)
	case KConst, KNil, KGlobal:
		return t.String()
	}
	s := fmt.Sprintf("%d%s[", t.K, t.Op)
	for _, a := range t.Args {
		s += q.normEv(a, depth+1) + ","
	}
	return s + "]"
}

func contains(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

var bloomAdds = map[string]bool{bloomLib + "Add": true, bloomLib + "TestOrAdd": true, bloomLib + "TestAndAdd": true}

func runBloomAdd(p *Program, r *Result) {
	add := r.anchor(p.methodOf("bloom", "BloomFilter", "Add"))
	test := r.anchor(p.methodOf("bloom", "BloomFilter", "MayContain"))
	if add == nil || test == nil {
		return
	}
	forms := map[string]map[string]string{"Add": {}, "MayContain": {}}
	ca, ct := "bond/bloom.BloomFilter.Add", "bond/bloom.BloomFilter.MayContain"
	for _, q := range r.Paths(p, add, PathOpt{}) {
		n := 0
		for _, e := range q.Evs {
			if !bloomAdds[e.Name] {
				continue
			}
			n++
			forms["Add"][q.normEv(e.Recv, 0)+" "+q.normEv(e.Args[0], 0)] = e.Pos
			b := bucketOf(e.Recv, "filter")
			if b == nil {
				r.PathCheck(q, false, "added-keys-are-found", ca, e.Pos, "the key is not added to a bucket")
				continue
			}
			_, cur := q.fieldCell(b, "hasChanges")
			changed := cur == q.M.TT.True || cur == nil && q.factField(b, "hasChanges", true)
			same := e.Method() != "Add" && q.Is(e.Res, true)
			r.PathCheck(q, changed || same && (cur == nil || cur != q.M.TT.False), "changes-are-marked", ca, e.Pos, "the bucket is not marked as changed although the key may be new to it: the next save leaves it out")
			q.pooledReset(r, ca)
		}
		r.PathCheck(q, n > 0, "added-keys-are-found", ca, q.Pos, "the key is not added to any bucket")
	}
	for _, q := range r.Paths(p, test, PathOpt{}) {
		if len(q.Res) == 1 && q.Res[0] == q.M.TT.True {
			continue
		}
		ok := false
		for _, e := range q.Evs {
			if e.Name == bloomLib+"Test" && e.Res == q.Res[0] {
				ok = true
				forms["MayContain"][q.normEv(e.Recv, 0)+" "+q.normEv(e.Args[0], 0)] = e.Pos
				q.pooledReset(r, ct)
			}
		}
		r.PathCheck(q, ok, "added-keys-are-found", ct, q.Pos, "it answers something else than the bucket does")
	}
	for f, pos := range forms["MayContain"] {
		r.Check(true, "same-bucket", ct, pos, "")
		if _, ok := forms["Add"][f]; !ok {
			r.Report(&Violation{Rule: "same-bucket", Construct: ct, Pos: pos, Msg: fmt.Sprintf("it looks for the key elsewhere than Add puts it: %s, not %v", f, forms["Add"])})
		}
	}
	r.Check(len(forms["Add"]) == 1, "same-bucket", ca, "bloom", fmt.Sprintf("the place a key is put depends on the path: %v", forms["Add"]))
	r.Need("same-bucket", 2)
	r.Need("changes-are-marked", 1)
	r.Need("added-keys-are-found", 2)
	r.Need("pooled-hasher-is-reset", 1)
	bloomEffects(p, r)
	s := &Sharing{types: map[string]bool{"bond/bloom.BloomFilter": true, "bond/bloom._bucket": true}, accesses: map[string]*access{}}
	for _, fn := range s.entries(p) {
		s.run(p, r, fn)
	}
	s.pairs(r)
	r.Need("shared-fields-locked", 5)
}

func (q *PathRec) factField(obj *Term, name string, v bool) bool {
	for f, x := range q.St.facts {
		if x == v && f.K == KLoad && f.Args[0].K == KFldAddr && f.Args[0].Args[0] == obj && fieldName(obj.Typ, f.Args[0].N) == name {
			return true
		}
	}
	return false
}

// pooledReset: a hasher that comes from a pool is reset before it is used.
func (q *PathRec) pooledReset(r *Result, c string) {
	for i, e := range q.Evs {
		if e.Name != "sync.Pool.Put" || len(e.Args) == 0 {
			continue
		}
		x := e.Args[0]
		for x.K == KIface {
			x = x.Args[0]
		}
		for _, h := range q.Evs[i+1:] {
			for _, a := range append([]*Term{h.Recv}, h.Args...) {
				r.PathCheck(q, a == nil || findSub(a, func(t *Term) bool { return t == x }) == nil, "pooled-hasher-not-shared", c, h.Pos, "the hasher is used after it was given back to the pool")
			}
		}
	}
	for i, e := range q.Evs {
		if e.Name != "sync.Pool.Get" {
			continue
		}
		for _, h := range q.Evs[i+1:] {
			if h.Recv == nil || e.Res == nil || h.Recv == e.Recv || findSub(h.Recv, func(t *Term) bool { return t == e.Res }) == nil {
				continue
			}
			r.PathCheck(q, h.Method() == "Reset", "pooled-hasher-is-reset", c, h.Pos, "the hasher is used without being reset: the bucket depends on the keys hashed before")
			break
		}
	}
}

// bloomEffects: the layout is fixed, and bits are only ever set.
func bloomEffects(p *Program, r *Result) {
	fixed := map[string]bool{"bond/bloom.BloomFilter.buckets": true, "bond/bloom.BloomFilter.numOfBuckets": true, "bond/bloom.BloomFilter.hasher": true,
		"bond/bloom.BloomFilter.keyPrefix": true, "bond/bloom._bucket.filter": true, "bond/bloom._bucket.num": true}
	isFresh := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.FieldAddr:
				v = x.X
				continue
			case *ssa.Alloc:
				return true
			}
			return false
		}
	}
	grows := map[string]bool{"Add": true, "AddString": true, "TestOrAdd": true, "TestAndAdd": true, "Merge": true}
	for _, f := range p.AllFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					n := typeName(fa.X.Type()) + "." + fieldName(fa.X.Type(), fa.Field)
					if fixed[n] {
						r.Check(isFresh(fa.X), "filter-only-grows", n, p.Pos(in.Pos()), n+" is replaced: what was added may not be found any more")
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil || !strings.HasPrefix(calleeName(g), bloomLib) || len(in.Common().Args) == 0 {
						continue
					}
					name := g.Name()
					ld, ok := in.Common().Args[0].(*ssa.UnOp)
					if !ok {
						continue
					}
					fa, ok := ld.X.(*ssa.FieldAddr)
					if !ok || typeName(fa.X.Type()) != "bond/bloom._bucket" {
						continue
					}
					r.Check(grows[name] || readOnly[name], "filter-only-grows", "bond/bloom._bucket.filter: "+name, p.Pos(in.Pos()), name+" drops bits of the filter")
				}
			}
		}
	}
	r.Need("filter-only-grows", 4)
}

func init() {
	register(&Property{ID: "C24", Run: runBloomAdd})
	register(&Property{ID: "C25", Run: func(p *Program, r *Result) {
		runBloomStore(p, r)
		runBloomClear(p, r)
	}})
}
