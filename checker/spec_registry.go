package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C22: the indexes of a table. AddIndex registers each or fails, the lists of
// indexes are complete, and tables and indexes are what their options say.

type indexRegistry struct {
	r    *Result
	name string
	recv *Term
	idxs *Term
	flag *Term
	m    *Machine
}

func (w *indexRegistry) field(m *Machine, st *State, name string) *Term {
	return m.loadPath(st, w.recv, name)
}

// isMap: mp is the table's map of secondary indexes.
func (w *indexRegistry) isMap(m *Machine, st *State, mp *Term) bool {
	return mp == w.field(m, st, "secondaryIndexes")
}

// idOf: k is the id of the index v.
func (w *indexRegistry) idOf(m *Machine, st *State, k, v *Term) bool {
	return stripConv(k) == m.loadPath(st, v, "IndexID")
}

func runAddIndex(p *Program, r *Result) {
	fn := r.anchor(p.Find("bond._table.AddIndex"))
	if fn == nil {
		return
	}
	reg, taken, re := "every-index-is-registered", "taken-id-is-refused", "reindexes-what-was-added"
	w := &indexRegistry{r: r, name: "bond._table.AddIndex"}
	spec := &Spec{KeepFact: func(*Machine, *Term) bool { return true }}
	spec.Inline = func(f *ssa.Function) bool { return f.Name() != "ReIndex" }
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if ev.Name != "bond._table.ReIndex" && ev.Name != "iface:bond.Table.ReIndex" {
			return false, nil
		}
		m.Check(st, len(ev.Args) == 1 && ev.Args[0] == w.idxs, re, w.name, ev.Pos, "other indexes are filled than those that were added")
		w.registered(m, st, reg, ev.Pos)
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "refilled"})
		bad.add(&Tup{Tag: "refillfailed"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	spec.OnFact = func(m *Machine, st *State, t *Term, v bool) {
		var l *Term
		if t.K == KApp && t.Op == "has" && !v {
			l = t
		}
		if t.K == KApp && t.Op == "==" && v {
			for i, x := range t.Args {
				if x.K == KApp && x.Op == "lookup" && t.Args[1-i] == m.TT.Nil {
					l = x
				}
			}
		}
		if l != nil && w.isMap(m, st, l.Args[0]) {
			st.add(&Tup{Tag: "~free", Args: []*Term{stripConv(l.Args[1])}})
		}
	}
	spec.OnMapSet = func(m *Machine, st *State, mp, k, v *Term, site ssa.Instruction) {
		if !w.isMap(m, st, mp) {
			return
		}
		pos := p.Pos(site.Pos())
		if v == nil {
			m.Check(st, false, reg, w.name, pos, "an index is taken out again")
			return
		}
		m.Check(st, w.idOf(m, st, k, v), reg, w.name, pos, "an index is registered under another id than its own")
		free := st.has(&Tup{Tag: "~free", Args: []*Term{stripConv(k)}})
		m.Check(st, free, taken, w.name, pos, "an index that is registered under the same id may be replaced")
		for _, t := range st.tups("~free") {
			st.del(t)
		}
		st.add(&Tup{Tag: "did:reg", Args: []*Term{v}})
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		_, k := m.retErr(st, res)
		failed := len(st.tups("refillfailed")) > 0
		m.Check(st, !failed || k == "err", re, w.name, pos, "the error of filling the indexes is not returned")
		if k == "err" {
			return
		}
		w.registered(m, st, reg, pos)
		if len(st.tups("refilled")) > 0 {
			return
		}
		none, known := m.truth(st, m.TT.Eq(m.TT.Len(w.flag), m.TT.Int(0)))
		ok := known && none
		if pos, known := m.truth(st, m.TT.Lt(m.TT.Int(0), m.TT.Len(w.flag))); known && !pos {
			ok = true
		}
		if v, known := m.truth(st, m.TT.Elem(w.flag, m.TT.Int(0), types.Typ[types.Bool])); known && !v {
			ok = true
		}
		if v, known := m.truth(st, m.TT.Eq(m.TT.Len(w.idxs), m.TT.Int(0))); known && v {
			ok = true
		}
		m.Check(st, ok, re, w.name, pos, "the indexes may not be filled although it was asked for")
	}
	r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) {
		w.recv, w.idxs, w.flag = ps[0], ps[1], ps[2]
	})
	r.Need(reg, 1)
	r.Need(taken, 1)
	r.Need(re, 1)
}

func (w *indexRegistry) registered(m *Machine, st *State, rule, pos string) {
	none, known := m.truth(st, m.TT.Eq(m.TT.Len(w.idxs), m.TT.Int(0)))
	all := st.find("all:reg", func(t *Tup) bool { return t.Args[0] == w.idxs && t.Args[1].K == KHole })
	m.Check(st, known && none || all != nil, rule, w.name, pos, "it goes on although not every given index was registered")
}

// runIndexLists: the lists of indexes are complete.
func runIndexLists(p *Program, r *Result) {
	rule, sorted := "every-index-is-listed", "indexes-sorted-by-id"
	for _, name := range []string{"Indexes", "SecondaryIndexes"} {
		fn := r.anchor(p.Find("bond._table." + name))
		if fn == nil {
			continue
		}
		w := &indexRegistry{r: r, name: "bond._table." + name}
		name := name
		spec := &Spec{KeepFact: func(*Machine, *Term) bool { return true }}
		spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
			for _, e := range elems {
				st.add(&Tup{Tag: "did:listed", Args: []*Term{unwrap(e)}})
			}
		}
		spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.K == KIdxAddr {
				st.add(&Tup{Tag: "did:listed", Args: []*Term{unwrap(val)}})
			}
		}
		spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if ev.Name == "iface:bond.IndexInfo.ID" || ev.Name == "bond.Index.ID" {
				return true, []Outcome{{st, m.TT.App("idof", ev.Sig.Results().At(0).Type(), unwrap(ev.Recv))}}
			}
			if !strings.HasPrefix(ev.Name, "sort.") && !strings.HasPrefix(ev.Name, "slices.Sort") {
				return false, nil
			}
			f := ev.Args[len(ev.Args)-1]
			ok := false
			if f.K == KFunc {
				l := unwrap(ev.Args[0])
				var et types.Type
				if s, isS := l.Typ.Underlying().(*types.Slice); isS {
					et = s.Elem()
				}
				tt := m.TT
				a, b := tt.Sym(ev.Site, ev.Ctx, 1, types.Typ[types.Int]), tt.Sym(ev.Site, ev.Ctx, 2, types.Typ[types.Int])
				x, y := tt.Elem(l, a, et), tt.Elem(l, b, et)
				args := []*Term{a, b}
				at := func(i *Term) func(*Term) bool {
					return func(t *Term) bool {
						if _, k := elemKey(t); k == i {
							return true
						}
						return t.K == KLoad && t.Args[0].K == KIdxAddr && t.Args[0].Args[1] == i
					}
				}
				isA, isB := at(a), at(b)
				if strings.HasPrefix(ev.Name, "slices.") {
					args = []*Term{x, y}
					isA, isB = func(t *Term) bool { return t == x }, func(t *Term) bool { return t == y }
				}
				ok = true
				for _, o := range m.callClosure(st.clone(), ev, f, args, 0) {
					ok = ok && lowerIDFirst(o.res, isA, isB)
				}
			}
			m.Check(st, ok, sorted, w.name, ev.Pos, "the indexes are not sorted by their ids")
			st.add(&Tup{Tag: "sorted", Args: []*Term{unwrap(ev.Args[0])}})
			return true, []Outcome{{st, nil}}
		}
		spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			mp := w.field(m, st, "secondaryIndexes")
			none, known := m.truth(st, m.TT.Eq(m.TT.Len(mp), m.TT.Int(0)))
			all := st.find("all:listed", func(t *Tup) bool {
				e := t.Args[1]
				return t.Args[0] == mp && (e.K == KHole || e.K == KApp && e.Op == "lookup" && e.Args[0] == mp && e.Args[1].K == KHole)
			})
			m.Check(st, known && none || all != nil, rule, w.name, pos, "a secondary index may be missing from the list")
			if name == "Indexes" {
				first := st.has(&Tup{Tag: "did:listed", Args: []*Term{w.field(m, st, "primaryIndex")}})
				m.Check(st, first, rule, w.name, pos, "the primary index is missing from the list")
				m.Check(st, len(st.tups("sorted")) > 0, sorted, w.name, pos, "the list is not sorted")
			}
		}
		r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) { w.recv = ps[0] })
	}
	r.Need(rule, 2)
	r.Need(sorted, 1)
}

// lowerIDFirst: res says that the id of the index at position a is below that of
// the one at b, as a condition or as the outcome of a comparison.
func lowerIDFirst(res *Term, isA, isB func(*Term) bool) bool {
	if res == nil || res.K != KApp || len(res.Args) != 2 {
		return false
	}
	id := func(t *Term, is func(*Term) bool) bool {
		t = stripConv(t)
		return t.K == KApp && t.Op == "idof" && is(t.Args[0])
	}
	switch res.Op {
	case "<", "-", "cmp.Compare":
		return id(res.Args[0], isA) && id(res.Args[1], isB)
	}
	return false
}

// runMadeOfOptions: tables and indexes are what their options say.
func runMadeOfOptions(p *Program, r *Result) {
	rule := "as-the-options-say"
	if fn := r.anchor(p.Find("bond.NewIndex")); fn != nil {
		c := "bond.NewIndex"
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			o := q.Res[0]
			for _, f := range [][2]string{{"IndexID", "IndexID"}, {"IndexName", "IndexName"}, {"IndexKeyFunction", "IndexKeyFunc"}} {
				r.PathCheck(q, q.field(o, f[0]) == q.field(q.Params[0], f[1]), rule, c, q.Pos, "the index does not have the "+f[0]+" of its options")
			}
			for _, f := range [][2]string{{"IndexOrderFunction", "IndexOrderFunc"}, {"IndexFilterFunction", "IndexFilterFunc"}} {
				x, opt := q.field(o, f[0]), q.field(q.Params[0], f[1])
				nil_, known := q.Nil(opt)
				switch {
				case x == opt:
					r.PathCheck(q, known && !nil_, rule, c, q.Pos, f[0]+" may be nil")
				case x != nil && x.K == KFunc && known && nil_:
					ok := defaultFunc(x.Obj.(*ssa.Function), f[0] == "IndexFilterFunction")
					r.PathCheck(q, ok, rule, c, q.Pos, "the default of "+f[0]+" leaves rows out or orders them")
				default:
					r.PathCheck(q, false, rule, c, q.Pos, "the index does not have the "+f[0]+" of its options")
				}
			}
		}
	}
	if fn := r.anchor(p.Find("bond.NewTable")); fn != nil {
		c := "bond.NewTable"
		for _, q := range r.Paths(p, fn, PathOpt{Event: func(name string, _ *ssa.Function) bool { return name == "bond.NewIndex" }}) {
			o, opt := unwrap(q.Res[0]), q.Params[0]
			for _, f := range [][2]string{{"db", "DB"}, {"id", "TableID"}, {"name", "TableName"}, {"primaryKeyFunc", "TablePrimaryKeyFunc"}, {"filter", "Filter"}} {
				r.PathCheck(q, q.field(o, f[0]) == q.field(opt, f[1]), rule, c, q.Pos, "the table does not have the "+f[1]+" of its options")
			}
			n, asked := q.field(o, "scanPrefetchSize"), q.field(opt, "ScanPrefetchSize")
			zero := q.Is(q.M.TT.Eq(asked, q.M.TT.Int(0)), true)
			v, isConst := int64(0), false
			if n != nil {
				v, isConst = n.intVal()
			}
			r.PathCheck(q, n == asked && !zero || zero && isConst && v > 0, rule, c, q.Pos, "the table does not have the ScanPrefetchSize of its options, or its default is none")
			mp := q.field(o, "secondaryIndexes")
			r.PathCheck(q, mp != nil && mp.K == KAlloc, rule, c, q.Pos, "the table has no indexes of its own")
			ix := q.Filter("bond.NewIndex")
			ok := len(ix) == 1 && q.field(o, "primaryIndex") == ix[0].Res
			if ok {
				id := q.field(ix[0].Args[0], "IndexID")
				fl := q.field(ix[0].Args[0], "IndexFilterFunc")
				none := fl == nil || fl.K == KNil || fl.K == KZero
				ok = id != nil && (id.isInt(0) || id.K == KZero) && none
			}
			r.PathCheck(q, ok, rule, c, q.Pos, "the primary index is not the one of its number, or leaves rows out")
		}
	}
	get := func(name, field string) {
		fn := r.anchor(p.Find(name))
		if fn == nil {
			return
		}
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			r.PathCheck(q, q.Res[0] == q.field(q.Params[0], field) && q.Res[0] != nil, rule, name, q.Pos, "it does not return the "+field)
		}
	}
	get("bond._table.ID", "id")
	get("bond._table.Name", "name")
	get("bond._table.DB", "db")
	get("bond._table.PrimaryIndex", "primaryIndex")
	get("bond.Index.ID", "IndexID")
	get("bond.Index.Name", "IndexName")
	if fn := r.anchor(p.Find("bond._table.PrimaryKey")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			ok := len(q.Evs) == 1 && q.Evs[0].Name == "dynamic" && q.Evs[0].Recv == q.field(q.Params[0], "primaryKeyFunc") &&
				len(q.Evs[0].Args) == 2 && q.Evs[0].Args[0] == q.Params[1] && q.Evs[0].Args[1] == q.Params[2] && q.Res[0] == q.Evs[0].Res
			r.PathCheck(q, ok, rule, "bond._table.PrimaryKey", q.Pos, "it is not what the table's function makes of the row")
		}
	}
	r.Need(rule, 9)
}

// defaultFunc: the function returns its first argument, or true.
func defaultFunc(fn *ssa.Function, filter bool) bool {
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Return:
				n++
				if len(in.Results) != 1 {
					return false
				}
				c, ok := in.Results[0].(*ssa.Const)
				if filter && (!ok || c.Value == nil || c.Value.String() != "true") {
					return false
				}
				if !filter {
					v := in.Results[0]
					if call, ok := v.(*ssa.Call); ok && call.Call.StaticCallee() != nil && len(call.Call.Args) > 0 {
						if !defaultFunc(call.Call.StaticCallee(), false) {
							return false
						}
						v = call.Call.Args[0]
					}
					if len(fn.Params) == 0 || !isParam(v, fn.Params[0]) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// isParam: v is the parameter, also as kept in a local variable.
func isParam(v ssa.Value, p *ssa.Parameter) bool {
	if v == ssa.Value(p) {
		return true
	}
	if l, ok := v.(*ssa.UnOp); ok {
		if a, ok := l.X.(*ssa.Alloc); ok {
			n := 0
			for _, ref := range *a.Referrers() {
				switch ref := ref.(type) {
				case *ssa.Store:
					if ref.Addr != ssa.Value(a) || ref.Val != ssa.Value(p) {
						return false
					}
					n++
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return false
				}
			}
			return n == 1
		}
	}
	return false
}

func init() {
	register(&Property{ID: "C22", Run: func(p *Program, r *Result) {
		runAddIndex(p, r)
		runIndexLists(p, r)
		runMadeOfOptions(p, r)
	}})
}
