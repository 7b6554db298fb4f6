package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29: the local Inspect, which queries tables by reflection ----

type localInspect struct {
	c    *inspectCheck
	r    *Result
	meth string
	args []*Term
}

func reflVal(t *Term) *Term {
	if t != nil && t.K == KApp && t.Op == "rv" {
		return t.Args[0]
	}
	return t
}

// chain takes a reflected call apart: the value, the method and the arguments.
func (w *localInspect) chain(m *Machine, t *Term) (q *Term, meth string, args []*Term) {
	if t == nil || t.K != KApp || t.Op != "rcall" {
		return nil, "", nil
	}
	me := t.Args[0]
	if me.K != KApp || me.Op != "rmeth" {
		return nil, "", nil
	}
	return me.Args[0], strings.Trim(me.Args[1].String(), `"`), t.Args[1:]
}

// first strips that a result is the first one of a call.
func firstResult(t *Term) *Term {
	if t != nil && t.K == KElem && t.Args[1].isInt(0) {
		return t.Args[0]
	}
	return t
}

func (w *localInspect) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	res := func() types.Type { return ev.Sig.Results().At(0).Type() }
	pure := func(op string, args ...*Term) (bool, []Outcome) { return one(tt.App(op, res(), args...)) }
	if ev.Fn != nil && ev.Fn.Name() == "MakeValue" && ev.Fn.Pkg != nil && strings.HasSuffix(ev.Fn.Pkg.Pkg.Path(), "/utils") {
		typ := ev.Args[0]
		ptr := tt.Eq(tt.App("tkind", types.Typ[types.Uint], typ), tt.Int(22))
		m.age(st, ev.Site, ev.Ctx)
		var outs []Outcome
		for _, v := range []bool{true, false} {
			s := st.clone()
			if !m.assume(s, ptr, v) {
				continue
			}
			x := tt.Call(ev.Site, ev.Ctx, 0, res())
			tag := "entry"
			if !v {
				tag = "newptr"
			}
			s.add(&Tup{Tag: tag, Args: []*Term{x, typ}})
			outs = append(outs, Outcome{s, x})
		}
		return true, outs
	}
	switch ev.Name {
	case "reflect.ValueOf":
		x := stripAssert(ev.Args[0])
		if x.K == KApp && x.Op == "riface" {
			return one(x.Args[0])
		}
		return pure("rv", x)
	case "reflect.Value.Interface":
		if ev.Recv.K == KApp && ev.Recv.Op == "rv" {
			return one(ev.Recv.Args[0])
		}
		return pure("riface", ev.Recv)
	case "reflect.New":
		m.age(st, ev.Site, ev.Ctx)
		x := tt.Call(ev.Site, ev.Ctx, 0, res())
		st.add(&Tup{Tag: "newptr", Args: []*Term{x, ev.Args[0]}})
		return one(x)
	case "reflect.Value.Elem":
		return pure("relem", ev.Recv)
	case "reflect.Value.Kind":
		return pure("vkind", ev.Recv)
	case "reflect.Value.Type":
		return pure("vtype", ev.Recv)
	case "reflect.Value.IsValid", "reflect.Value.CanInt", "reflect.Value.CanUint", "reflect.Value.CanFloat", "reflect.Value.Int", "reflect.Value.Uint", "reflect.Value.Float", "reflect.Value.IsNil", "reflect.Value.CanSet":
		return pure("v:"+ev.Name, ev.Recv)
	case "reflect.Value.CanConvert":
		return pure("canconv", ev.Recv, ev.Args[0])
	case "reflect.Value.Convert":
		return pure("rconv", ev.Recv, ev.Args[0])
	case "reflect.Value.Len":
		return one(tt.Len(ev.Recv))
	case "reflect.Value.Index":
		return one(tt.Elem(ev.Recv, ev.Args[0], res()))
	case "reflect.Value.FieldByName":
		return pure("rfield", ev.Recv, ev.Args[0])
	case "reflect.Value.MethodByName":
		return pure("rmeth", ev.Recv, ev.Args[0])
	case "reflect.SliceOf":
		return pure("sliceof", ev.Args[0])
	case "reflect.FuncOf":
		return pure("functype")
	case "reflect.TypeOf":
		return pure("typeof", stripAssert(ev.Args[0]))
	case "reflect.MakeFunc":
		return pure("makefunc", ev.Args[1])
	case "reflect.DeepEqual":
		return pure("deepequal", stripAssert(ev.Args[0]), stripAssert(ev.Args[1]))
	case "iface:reflect.Type.Kind":
		return one(tt.App("tkind", types.Typ[types.Uint], ev.Recv))
	case "iface:reflect.Type.Elem":
		return pure("telem", ev.Recv)
	case "github.com/fatih/structs.Map":
		return pure("structsmap", stripAssert(ev.Args[0]))
	case "reflect.Value.Set":
		x := ev.Args[0]
		if x.K == KApp && x.Op == "rconv" {
			x = x.Args[0]
		}
		st.add(&Tup{Tag: "did:set", Args: []*Term{ev.Recv, x}})
		w.exact(m, st, ev.Args[0], ev.Pos)
		return one(nil)
	case "reflect.Value.Call":
		return w.reflCall(m, st, ev)
	case "reflect.Value.String", "reflect.Kind.String":
		return pure("s:"+ev.Name, ev.Recv)
	}
	for _, pre := range []string{"iface:bond.TableInfo.", "iface:bond.IndexInfo."} {
		if n, ok := strings.CutPrefix(ev.Name, pre); ok && len(ev.Args) == 0 {
			return pure("i:"+n, ev.Recv)
		}
	}
	if strings.HasSuffix(ev.Name, ".CondFuncType") {
		return pure("condtype", ev.Recv)
	}
	return m.stdPure(st, ev)
}

// exact: a value that is given to a row or compared with it was not changed by
// its conversion.
func (w *localInspect) exact(m *Machine, st *State, v *Term, pos string) {
	if v.K != KApp || v.Op != "rconv" {
		return
	}
	ok := st.find("exact", func(t *Tup) bool { return t.Args[0] == v }) != nil
	m.Check(st, ok, "values-converted-exactly", w.meth, pos, "a value is converted although the field's type may not represent it")
}

func (w *localInspect) onFact(m *Machine, st *State, t *Term, v bool) {
	if t.K != KApp {
		return
	}
	switch {
	case t.Op == "deepequal" && v:
		for i, x := range t.Args {
			x, y := reflVal(x), reflVal(t.Args[1-i])
			if x.K == KApp && x.Op == "riface" {
				x = x.Args[0]
			}
			if y.K == KApp && y.Op == "riface" {
				y = y.Args[0]
			}
			// the value survives the conversion and back
			if x.K == KApp && x.Op == "rconv" && x.Args[0].K == KApp && x.Args[0].Op == "rconv" && reflVal(x.Args[0].Args[0]) == y {
				st.add(&Tup{Tag: "exact", Args: []*Term{x.Args[0]}})
			}
			// the value of a filter equals that of the row
			if y.K == KApp && y.Op == "lookup" {
				w.exact(m, st, x, "")
				f := x
				if f.K == KApp && f.Op == "rconv" {
					f = f.Args[0]
				}
				st.add(&Tup{Tag: "did:match", Args: []*Term{reflVal(f), y.Args[0], y.Args[1]}})
			}
		}
	case t.Op == "v:reflect.Value.CanFloat" && v && t.Args[0].K == KApp && t.Args[0].Op == "rconv":
		x := t.Args[0]
		if b, k := m.truth(st, m.TT.App("v:reflect.Value.CanFloat", types.Typ[types.Bool], x.Args[0])); k && b {
			st.add(&Tup{Tag: "exact", Args: []*Term{x}})
		}
	case t.Op == "has" && !v, t.Op == "deepequal", t.Op == "canconv" && !v, t.Op == "v:reflect.Value.IsValid" && !v:
		st.add(&Tup{Tag: "differs"})
	case t.Op == "<" && w.meth == "filter":
		st.add(&Tup{Tag: "differs"})
	case t.Op == "==" && v:
		for i, x := range t.Args {
			if y := firstResult(x); y != x && t.Args[1-i] == m.TT.Nil {
				st.add(&Tup{Tag: "noerr", Args: []*Term{y}})
			}
			if x.K == KApp && x.Op == "riface" && t.Args[1-i] == m.TT.Nil {
				st.add(&Tup{Tag: "noerr", Args: []*Term{firstResult(x.Args[0])}})
			}
			if x.K == KApp && x.Op == "i:Name" {
				st.add(&Tup{Tag: "named", Args: []*Term{x.Args[0], t.Args[1-i]}})
			}
		}
	}
}

// isEntry: x is a new entry of the table.
func (w *localInspect) isEntry(m *Machine, st *State, x, typ *Term) bool {
	if st.find("entry", func(t *Tup) bool { return t.Args[0] == x && t.Args[1] == typ }) != nil {
		return true
	}
	if x.K != KApp || x.Op != "relem" {
		return false
	}
	p := st.find("newptr", func(t *Tup) bool { return t.Args[0] == x.Args[0] && t.Args[1] == typ })
	ptr, known := m.truth(st, m.TT.Eq(m.TT.App("tkind", types.Typ[types.Uint], typ), m.TT.Int(22)))
	return p != nil && known && !ptr
}

// isSet: the fields of an entry were set from the map.
func (w *localInspect) isSet(m *Machine, st *State, x, from *Term) bool {
	if st.find("none", func(t *Tup) bool { return t.Args[0] == from }) != nil {
		return true
	}
	strip := func(t *Term) *Term {
		for t.K == KApp && t.Op == "relem" {
			t = t.Args[0]
		}
		return t
	}
	return st.find("all:set", func(t *Tup) bool {
		f, v := t.Args[1], t.Args[2]
		return t.Args[0] == from && f.K == KApp && f.Op == "rfield" && strip(f.Args[0]) == strip(x) && f.Args[1].K == KHole && f.Args[1].N == 1 && reflVal(v) == m.TT.Hole
	}) != nil
}

func (w *localInspect) reflCall(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if ev.Recv.K != KApp || ev.Recv.Op != "rmeth" {
		return false, nil
	}
	args, known := m.listElems(st, ev.Args[0])
	if !known {
		m.Check(st, false, "query-is-what-was-asked", w.meth, ev.Pos, "the arguments of a call are not known")
	}
	t := tt.App("rcall", ev.Sig.Results().At(0).Type(), append([]*Term{ev.Recv}, args...)...)
	meth := strings.Trim(ev.Recv.Args[1].String(), `"`)
	switch meth {
	case "SetPoint":
		if len(args) == 1 {
			st.add(&Tup{Tag: "point", Args: []*Term{ev.Recv.Args[0], args[0]}})
		}
	case "Filter":
		if len(args) == 1 {
			w.filter(m, st, ev, args[0])
		}
	case "Execute":
		w.execute(m, st, ev, args)
		m.age(st, ev.Site, ev.Ctx)
		if len(args) == 2 {
			st.add(&Tup{Tag: "executed", Args: []*Term{tt.App("relem", args[1].Typ, args[1]), t}})
		}
	}
	return true, []Outcome{{st, t}}
}

const queryRule = "query-is-what-was-asked"

func (w *localInspect) execute(m *Machine, st *State, ev *Event, args []*Term) {
	tt := m.TT
	c := w.meth
	bad := func(cond bool, what, msg string) {
		m.Check(st, !cond, queryRule, c+": "+what, ev.Pos, msg)
	}
	seen := map[string][]*Term{}
	q := ev.Recv.Args[0]
	for {
		prev, meth, as := w.chain(m, firstResult(q))
		if prev == nil {
			break
		}
		bad(seen[meth] != nil, meth, meth+" is called twice")
		seen[meth] = append([]*Term{}, as...)
		if seen[meth] == nil {
			seen[meth] = []*Term{}
		}
		q = prev
	}
	info := reflVal(q)
	named := func(x, name *Term) bool {
		return st.find("named", func(t *Tup) bool { return t.Args[0] == x && t.Args[1] == name }) != nil
	}
	_, isQ := seen["Query"]
	bad(!isQ, "table", "it does not query a table")
	bad(!named(info, w.args[1]), "table", fmt.Sprintf("it queries %v, which may not be the named table", info))
	var entry *Term
	for _, t := range st.tups("entry") {
		if t.Args[1].K == KApp && t.Args[1].Op == "i:EntryType" && t.Args[1].Args[0] == info {
			entry = t.Args[1]
		}
	}
	for _, t := range st.tups("newptr") {
		x := t.Args[1]
		if x.K == KApp && x.Op == "sliceof" {
			x = x.Args[0]
		}
		if x.K == KApp && x.Op == "i:EntryType" && x.Args[0] == info {
			entry = x
		}
	}
	bad(entry == nil, "rows", "nothing for the rows of the table is made")
	if entry == nil {
		return
	}
	for k := range seen {
		switch k {
		case "Query", "With", "Filter", "Limit", "After":
		default:
			bad(true, k, k+" changes the query")
		}
	}
	// the index
	primary := tt.Const(constant.MakeString(w.c.p.constStr("PrimaryIndexName")))
	if with := seen["With"]; len(with) == 2 {
		idx := reflVal(with[0])
		ok := named(idx, w.args[2])
		bad(!ok, "index", "it queries an index that may not be the named one")
		p := st.find("point", func(t *Tup) bool { return t.Args[0] == with[1] })
		bad(p == nil, "selector", "the selector has no point")
		if p != nil {
			bad(!w.isEntry(m, st, p.Args[1], entry), "selector", "the point of the selector is no entry of the table")
			bad(!w.isSet(m, st, p.Args[1], w.args[3]), "selector", "the point of the selector is not the given one")
		}
	} else {
		e, k := m.truth(st, tt.Eq(w.args[2], tt.Const(constant.MakeString(""))))
		ok := k && e
		for _, t := range st.tups("named") {
			if t.Args[1] == primary && named(t.Args[0], w.args[2]) {
				ok = true
			}
		}
		bad(!ok, "index", "the named index is not used")
	}
	null := func(i int) (val, known bool) { return m.isNil(st, w.args[i]) }
	if f := seen["Filter"]; f != nil {
		bad(st.find("filter", func(t *Tup) bool { return t.Args[0] == f[0] }) == nil, "filter", "the filter of the query is not the given one")
	} else {
		v, k := null(4)
		bad(!k || !v, "filter", "the filter is not used")
	}
	if l := seen["Limit"]; l != nil {
		bad(len(l) != 1 || reflVal(l[0]) != w.args[5], "limit", "the limit of the query is not the given one")
	} else {
		v, k := m.truth(st, tt.Eq(w.args[5], tt.Int(0)))
		bad(!k || !v, "limit", "the limit is not used")
	}
	if a := seen["After"]; a != nil {
		bad(!w.isEntry(m, st, a[0], entry), "after", "what the query starts after is no entry of the table")
		bad(!w.isSet(m, st, a[0], w.args[6]), "after", "what the query starts after is not the given entry")
		v, k := null(6)
		bad(k && v, "after", "the query starts after an entry although none is given")
	} else {
		v, k := null(6)
		bad(!k || !v, "after", "the entry to start after is not used")
	}
	bad(len(args) != 2 || reflVal(args[0]) != w.args[0], "context", "the query does not end with the context")
	ok := len(args) == 2 && st.find("newptr", func(t *Tup) bool {
		return t.Args[0] == args[1] && t.Args[1].K == KApp && t.Args[1].Op == "sliceof" && t.Args[1].Args[0] == entry
	}) != nil
	bad(!ok, "rows", "the rows are not put into a new list of entries")
}

// filter: the function given to the query accepts a row iff it has the values
// of the filter.
func (w *localInspect) filter(m *Machine, st *State, ev *Event, f *Term) {
	tt := m.TT
	v := f
	for v.K == KApp && v.Op == "rconv" {
		v = v.Args[0]
	}
	if v.K != KApp || v.Op != "makefunc" {
		return
	}
	st.add(&Tup{Tag: "filter", Args: []*Term{f}})
	fn := stripConv(v.Args[0])
	h, _ := fn.Obj.(*ssa.Function)
	if fn.K != KFunc || h == nil {
		m.Check(st, false, queryRule, w.meth+": filter", ev.Pos, "the filter function is not known")
		return
	}
	rows := tt.App("filterargs", h.Params[0].Type())
	was := w.meth
	w.meth = "filter"
	defer func() { w.meth = was }()
	s := st.clone()
	for _, tag := range []string{"differs", "none"} {
		for _, t := range s.tups(tag) {
			s.del(t)
		}
	}
	filter := w.args[4]
	n := 0
	for _, o := range m.callFunc(m.root, s, ev.Site, h, []*Term{rows}, fn.Args, h.Signature) {
		if o.st == nil || o.res == nil {
			continue
		}
		els, ok := m.listElems(o.st, o.res)
		if !ok || len(els) != 1 {
			m.Check(o.st, false, queryRule, was+": filter", ev.Pos, "the result of the filter function is not known")
			continue
		}
		n++
		for _, want := range []bool{true, false} {
			x := o.st.clone()
			if !m.assume(x, reflVal(els[0]), want) {
				continue
			}
			if want {
				all := x.find("none", func(t *Tup) bool { return t.Args[0] == filter }) != nil ||
					x.find("all:match", func(t *Tup) bool {
						r := t.Args[2]
						return t.Args[0] == filter && t.Args[1] == tt.Hole && t.Args[3].K == KHole && t.Args[3].N == 1 &&
							r.K == KApp && r.Op == "structsmap" && strings.Contains(r.String(), rows.String())
					}) != nil
				m.Check(x, all, queryRule, was+": filter", ev.Pos, "a row is accepted although it may not have all values of the filter")
			} else {
				m.Check(x, len(x.tups("differs")) > 0, queryRule, was+": filter", ev.Pos, "a row is refused although it has the values of the filter")
			}
		}
	}
	m.Check(st, n > 0, queryRule, was+": filter", ev.Pos, "the filter function never returns")
}

func (w *localInspect) onDone(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if l := it.cont; !it.started && l != nil {
		st.add(&Tup{Tag: "none", Args: []*Term{l}})
	}
}

func (w *localInspect) onReturn(m *Machine, st *State, res []*Term, pos string) {
	tt := m.TT
	_, k := m.retErr(st, res)
	if v, known := m.isNil(st, stripAssert(res[1])); k == "err" || known && !v {
		return
	}
	c, rule := w.meth, "local-answer-is-the-answer"
	none := func(cont *Term) bool {
		return st.find("none", func(t *Tup) bool { return t.Args[0] == cont }) != nil
	}
	all := func(cont *Term, is func(x *Term) bool) bool {
		return none(cont) || st.find("all:in", func(t *Tup) bool {
			return t.Args[0] == cont && t.Args[1] == res[0] && is(t.Args[2])
		}) != nil
	}
	// the list was made with the length of another one, and every element set
	at := func(cont *Term, is func(x *Term) bool) bool {
		n := st.find("made", func(t *Tup) bool { return t.Args[0] == res[0] && t.Args[1] == tt.Len(cont) })
		if n == nil {
			return false
		}
		return none(res[0]) || none(cont) || st.find("all:at", func(t *Tup) bool {
			return (t.Args[0] == cont || t.Args[0] == res[0]) && t.Args[1] == res[0] && t.Args[2].K == KHole && t.Args[2].N == 1 && is(t.Args[3])
		}) != nil
	}
	isApp := func(t *Term, op string) bool { return t != nil && t.K == KApp && t.Op == op }
	name := func(x *Term) bool { return isApp(x, "i:Name") && x.Args[0] == tt.Hole }
	ok := false
	switch w.meth {
	case "Tables":
		for _, tag := range []string{"all:in", "none"} {
			for _, t := range st.tups(tag) {
				if l := t.Args[0]; l.Typ != nil && strings.HasSuffix(l.Typ.String(), "bond.TableInfo") {
					ok = ok || all(l, name)
				}
			}
		}
	case "Indexes":
		for _, t := range st.tups("named") {
			if t.Args[1] != w.args[0] {
				continue
			}
			for _, a := range st.tups("all:in") {
				l := a.Args[0]
				ok = ok || isApp(l, "i:Indexes") && l.Args[0] == t.Args[0] && all(l, name)
			}
			for _, a := range st.tups("none") {
				l := a.Args[0]
				ok = ok || isApp(l, "i:Indexes") && l.Args[0] == t.Args[0]
			}
		}
	case "Query":
		e := st.find("executed", func(*Tup) bool { return true })
		m.Check(st, e != nil, rule, c, pos, "it succeeds without a query")
		if e == nil {
			return
		}
		row := func(x *Term) bool {
			if !isApp(x, "structsmap") || !isApp(x.Args[0], "riface") {
				return false
			}
			x = x.Args[0].Args[0]
			return x == tt.Hole || x.K == KElem && x.Args[0] == e.Args[0] && x.Args[1].K == KHole && x.Args[1].N == 1
		}
		ok = all(e.Args[0], row) || at(e.Args[0], row)
		good := false
		for _, t := range st.tups("noerr") {
			good = good || t.Args[0] == e.Args[1]
		}
		m.Check(st, good, rule, c, pos, "it succeeds although the query may have failed")
	case "EntryFields":
		for _, tag := range []string{"all:field", "none"} {
			for _, t := range st.tups(tag) {
				if l := t.Args[0]; isApp(l, "structsmap") && strings.Contains(l.String(), "MakeValue") {
					ok = ok || tag == "none" || t.Args[1] == res[0] && t.Args[2].K == KHole && t.Args[2].N == 1 && termContains(t.Args[3], tt.Hole)
				}
			}
		}
	default:
		ok = true
	}
	m.Check(st, ok, rule, c, pos, fmt.Sprintf("it returns %v, from which something may be missing", res[0]))
}

func (c *inspectCheck) runLocal() {
	n, err := c.p.Named("inspect", "inspect")
	if err != nil {
		c.r.Fail("%v", err)
		return
	}
	for _, meth := range c.methods {
		fn := c.r.anchor(c.p.Find("bond/inspect." + n.Obj().Name() + "." + meth.Name()))
		if fn == nil {
			continue
		}
		w := &localInspect{c: c, r: c.r, meth: meth.Name()}
		spec := &Spec{Call: w.call, OnFact: w.onFact, OnDone: w.onDone, OnReturn: w.onReturn, TrackLists: true, Depth: 24}
		spec.OnMapSet = func(m *Machine, st *State, mp, k, v *Term, site ssa.Instruction) {
			st.add(&Tup{Tag: "did:field", Args: []*Term{mp, k, v}})
		}
		spec.OnMake = func(m *Machine, st *State, list, n *Term) {
			st.add(&Tup{Tag: "made", Args: []*Term{list, n}})
		}
		spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.K == KIdxAddr {
				st.add(&Tup{Tag: "did:at", Args: []*Term{addr.Args[0], addr.Args[1], val}})
			}
		}
		spec.KeepFact = func(m *Machine, t *Term) bool {
			s := t.String()
			if t.K == KApp && t.Op == "==" && (strings.Contains(s, "i:Name") || strings.Contains(s, "tkind") || strings.Contains(s, "riface")) {
				return true
			}
			if t.K == KApp && t.Op == "v:reflect.Value.CanFloat" {
				return true
			}
			for _, a := range t.Args {
				if a.K == KParam {
					return true
				}
			}
			return false
		}
		c.r.Interpret(c.p, spec, fn, func(m *Machine, st *State, params []*Term) {
			w.args = params[1:]
		})
	}
	c.r.Need(queryRule, 6)
	c.r.Need("local-answer-is-the-answer", 3)
}
