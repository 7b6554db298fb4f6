package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C26: a dump is complete and consistent ----

// iterFuncs finds the helpers of Dump by their types: the one that writes the
// entries of an iterator to a directory and the one that lists the indexes.
func iterFuncs(p *Program) (export, list *ssa.Function) {
	isIter := func(t types.Type) bool {
		n := typeName(t)
		return n == "bond.Iterator" || n == pebblePkg+".Iterator"
	}
	for _, f := range p.AllFuncs() {
		if f.Pkg == nil || calleeName(f) == "" || f.Pkg != p.SPkgs[""] || f.Parent() != nil {
			continue
		}
		s := f.Signature
		if s.Recv() != nil || s.Params().Len() != 2 || !isIter(s.Params().At(0).Type()) {
			continue
		}
		r := s.Results()
		switch {
		case r.Len() == 1 && hasErr(s) && isStringType(s.Params().At(1).Type()):
			export = f
		case r.Len() == 2 && hasErr(s) && typeName(s.Params().At(1).Type()) == "bond.TableID" && strings.HasSuffix(r.At(0).Type().String(), "bond.IndexID"):
			list = f
		}
	}
	return
}

type dumpWatch struct {
	p            *Program
	r            *Result
	export, list *ssa.Function
}

const dumpName = "bond._db.Dump"

func (w *dumpWatch) content(m *Machine, st *State, opts *Term, name string) string {
	if opts == nil || opts == m.TT.Nil {
		return ""
	}
	b := m.loadPath(st, opts, name)
	if b == nil || b == m.TT.Nil {
		return ""
	}
	return m.contentOf(st, b)
}

func (w *dumpWatch) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	c := dumpName
	if ok, outs := m.stdPure(st, ev); ok {
		return true, outs
	}
	if ok, outs := m.bytesCall(st, ev); ok {
		return true, outs
	}
	both := func(f func(st *State)) (bool, []Outcome) {
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		if f != nil {
			f(st)
		}
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	}
	switch ev.Name {
	case pebblePkg + ".DB.NewSnapshot":
		m.age(st, ev.Site, ev.Ctx)
		t := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		m.Check(st, len(st.tups("snap")) == 0, "dump-is-one-snapshot", c, ev.Pos, "a second snapshot is taken")
		st.add(&Tup{Tag: "snap", Args: []*Term{t}})
		return true, []Outcome{{st, t}}
	case pebblePkg + ".Snapshot.Close":
		m.Check(st, len(st.tups("running")) == 0, "dump-waits-for-its-writers", c, ev.Pos, "the snapshot is closed while entries are still written")
		for _, t := range st.tups("snap") {
			st.del(t)
		}
		st.add(&Tup{Tag: "snap", Args: []*Term{tt.Nil}})
		return both(nil)
	case pebblePkg + ".Snapshot.NewIter", pebblePkg + ".Snapshot.NewIterWithContext", pebblePkg + ".DB.NewIter", pebblePkg + ".DB.NewIterWithContext":
		ok := st.find("snap", func(t *Tup) bool { return t.Args[0] == ev.Recv }) != nil
		m.Check(st, ok, "dump-is-one-snapshot", c, ev.Pos, "entries are read from something else than the open snapshot of the dump")
		opts := ev.Args[len(ev.Args)-1]
		lo, hi := w.content(m, st, opts, "LowerBound"), w.content(m, st, opts, "UpperBound")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		st.add(&Tup{Tag: "it", Args: []*Term{o.res.Args[0]}, Data: lo + "|" + hi})
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	case "bond._db.Iter":
		m.Check(st, false, "dump-is-one-snapshot", c, ev.Pos, "entries are read from something else than the open snapshot of the dump")
	case "os.WriteFile", "io/ioutil.WriteFile":
		file, data := w.path(m, ev.Args[0]), m.contentOf(st, ev.Args[1])
		ver := fmt.Sprintf("be4(%d)", w.p.constInt("BOND_DB_DATA_VERSION"))
		return both(func(st *State) {
			if file == `join(#2, "VERSION")` && data == ver {
				st.add(&Tup{Tag: "version"})
			}
		})
	case "golang.org/x/sync/errgroup.Group.Go":
		st.add(&Tup{Tag: "running"})
		outs := m.callClosure(st, ev, ev.Args[0], []*Term{}, 0)
		var res []Outcome
		for _, o := range outs {
			if o.st == nil {
				continue
			}
			if o.res == nil || o.res != tt.Nil {
				if v, k := m.isNil(o.st, orNil(o.res, tt)); !k || !v {
					o.st.add(&Tup{Tag: "failed"})
				}
			}
			res = append(res, Outcome{o.st, nil})
		}
		return true, res
	case "golang.org/x/sync/errgroup.Group.Wait":
		for _, t := range st.tups("running") {
			st.del(t)
		}
		m.age(st, ev.Site, ev.Ctx)
		if len(st.tups("failed")) > 0 {
			return true, []Outcome{m.errOutcome(st, ev, nil)}
		}
		return true, []Outcome{m.okOutcome(st, ev)}
	}
	switch {
	case ev.Fn != nil && ev.Fn == w.list:
		it := st.find("it", func(t *Tup) bool { return t.Args[0] == unwrap(ev.Args[0]) })
		m.Check(st, it != nil && it.Data == "|", "every-index-is-dumped", c, ev.Pos, "the indexes are not looked for in the whole snapshot")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		l := tt.App("indexesof", ev.Sig.Results().At(0).Type(), stripConv(ev.Args[1]))
		return true, []Outcome{m.okOutcome(st, ev, l), m.errOutcome(bad, ev, nil)}
	case ev.Fn != nil && ev.Fn == w.export:
		w.exported(m, st, ev)
		return both(nil)
	}
	if ev.Fn != nil && !m.P.InModule(ev.Fn) && hasErr(ev.Sig) && ev.Name != "fmt.Errorf" && ev.Name != "errors.New" {
		return both(nil)
	}
	return false, nil
}

func orNil(t *Term, tt *Terms) *Term {
	if t == nil {
		return tt.Nil
	}
	return t
}

func (w *dumpWatch) path(m *Machine, t *Term) string {
	s := t.String()
	for i, p := range m.entryParams {
		s = strings.ReplaceAll(s, p.String(), fmt.Sprintf("#%d", i))
	}
	return s
}

// exported: the entries of an iterator are written to a directory.
func (w *dumpWatch) exported(m *Machine, st *State, ev *Event) {
	c := dumpName
	it := st.find("it", func(t *Tup) bool { return t.Args[0] == unwrap(ev.Args[0]) })
	if it == nil {
		m.Check(st, false, "dump-is-one-snapshot", c, ev.Pos, "what is written is not an open iterator of the dump")
		return
	}
	st.del(it)
	dir := ev.Args[1]
	bad := func(msg string) {
		m.Check(st, false, "exported-to-its-directory", c, ev.Pos, msg)
	}
	if dir.K != KApp || dir.Op != "join" || len(dir.Args) != 2 || dir.Args[0] != m.entryParams[2] || dir.Args[1].Op != "sprintf" {
		bad("the directory is " + w.path(m, dir))
		return
	}
	f := dir.Args[1].Args
	show := (&PathRec{M: m, St: st}).show
	switch {
	case f[0].String() == `"table_%d"` && len(f) == 2:
		t := stripConv(f[1])
		s := show(t)
		lo := []string{s + " 0", s + " 0 0 0 0 0"}
		hi := []string{s + " 1", s + " 1 0 0 0 0"}
		m.Check(st, between(it.Data, lo, hi), "rows-and-entries-complete", c+": rows", ev.Pos, fmt.Sprintf("the bounds of the rows of table %s are %s", s, it.Data))
		st.add(&Tup{Tag: "did:rows", Args: []*Term{t}, Pos: ev.Pos})
	case f[0].String() == `"table_%d_index_%d"` && len(f) == 3:
		t, i := stripConv(f[1]), stripConv(f[2])
		s, x := show(t), show(i)
		lo := []string{s + " " + x, s + " " + x + " 0 0 0 0"}
		hi := []string{s + " " + x + " 255 255 255 255"}
		m.Check(st, between(it.Data, lo, hi), "rows-and-entries-complete", c+": entries", ev.Pos, fmt.Sprintf("the bounds of the entries of index %s of table %s are %s", x, s, it.Data))
		st.add(&Tup{Tag: "did:entries", Args: []*Term{i, t}, Pos: ev.Pos})
	default:
		bad("the directory is " + w.path(m, dir))
	}
}

func between(bounds string, lo, hi []string) bool {
	for _, l := range lo {
		for _, h := range hi {
			if bounds == l+"|"+h {
				return true
			}
		}
	}
	return false
}

func (w *dumpWatch) onDone(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
	if l := it.cont; !it.started && l != nil { // nothing to do
		if l.K == KApp && l.Op == "indexesof" {
			st.add(&Tup{Tag: "did:indexes", Args: []*Term{l.Args[0]}})
		}
		st.add(&Tup{Tag: "none", Args: []*Term{l}})
	}
	for _, t := range st.tups("all:entries") {
		l := t.Args[0]
		if l.K == KApp && l.Op == "indexesof" && t.Args[1] == m.TT.Hole && t.Args[2] == l.Args[0] {
			st.del(t)
			st.add(&Tup{Tag: "did:indexes", Args: []*Term{l.Args[0]}, Pos: t.Pos})
		}
	}
}

func (w *dumpWatch) onReturn(m *Machine, st *State, res []*Term, pos string) {
	_, k := m.retErr(st, res)
	if k == "err" {
		return
	}
	c, tables := dumpName, m.entryParams[3]
	all := func(tag string) bool {
		if st.find("none", func(t *Tup) bool { return t.Args[0] == tables }) != nil {
			return true
		}
		return st.find(tag, func(t *Tup) bool { return t.Args[0] == tables && t.Args[1] == m.TT.Hole }) != nil
	}
	m.Check(st, len(st.tups("running")) == 0, "dump-waits-for-its-writers", c, pos, "it succeeds while entries are still written")
	m.Check(st, len(st.tups("failed")) == 0, "dump-waits-for-its-writers", c, pos, "it succeeds although writing the entries failed")
	m.Check(st, len(st.tups("version")) > 0, "dump-records-its-version", c, pos, "it succeeds without having written the version")
	m.Check(st, all("all:rows"), "every-table-is-dumped", c, pos, "it succeeds although the rows of a table may be missing")
	if v, known := m.truth(st, m.entryParams[4]); !known || v {
		m.Check(st, all("all:indexes"), "every-index-is-dumped", c, pos, "it succeeds although the entries of an index may be missing")
	}
}

// exportWatch follows the function that writes the entries of an iterator.
type exportWatch struct {
	p *Program
	r *Result
	c string
}

func iterOp(ev *Event) string {
	for _, pre := range []string{"iface:bond.Iterator.", "bond.Iterator.", pebblePkg + ".Iterator."} {
		if s, ok := strings.CutPrefix(ev.Name, pre); ok {
			return s
		}
	}
	return ""
}

func (w *exportWatch) setPos(m *Machine, st *State, pos string) {
	for _, tag := range []string{"pos", "kv"} {
		for _, t := range st.tups(tag) {
			st.del(t)
		}
	}
	st.add(&Tup{Tag: "pos", Data: pos})
}

func (w *exportWatch) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if ok, outs := m.stdPure(st, ev); ok {
		return true, outs
	}
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	both := func(f, g func(st *State)) (bool, []Outcome) {
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		if f != nil {
			f(st)
		}
		if g != nil {
			g(bad)
		}
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	}
	pos := ""
	if t := st.find("pos", func(*Tup) bool { return true }); t != nil {
		pos = t.Data
	}
	bt := types.Typ[types.Bool]
	const sst = pebblePkg + "/sstable."
	if op := iterOp(ev); op != "" && ev.Recv != nil && unwrap(ev.Recv) == m.entryParams[0] {
		switch op {
		case "First", "Next":
			if op == "First" && pos != "" || op == "Next" && pos == "" {
				m.Check(st, false, "every-entry-is-written", w.c, ev.Pos, "the iterator is not moved over all entries once")
			}
			m.Check(st, pos != "on", "every-entry-is-written", w.c, ev.Pos, "the iterator moves past an entry that was not written")
			m.age(st, ev.Site, ev.Ctx)
			no := st.clone()
			w.setPos(m, st, "on")
			w.setPos(m, no, "end")
			return true, []Outcome{{st, tt.True}, {no, tt.False}}
		case "Valid":
			return one(tt.boolTerm(pos == "on" || pos == "set"))
		case "Key", "Value", "ValueAndErr":
			m.age(st, ev.Site, ev.Ctx)
			if op == "ValueAndErr" {
				bad := st.clone()
				o := m.okOutcome(st, ev)
				st.add(&Tup{Tag: "kv", Args: []*Term{o.res.Args[0]}, Data: "Value"})
				return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
			}
			t := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
			st.add(&Tup{Tag: "kv", Args: []*Term{t}, Data: op})
			return one(t)
		case "Error":
			m.age(st, ev.Site, ev.Ctx)
			bad := st.clone()
			if pos == "end" {
				st.add(&Tup{Tag: "noerror"})
			}
			return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
		case "Close":
			// it returns the error of the iterator as well
			return both(func(st *State) {
				if pos == "end" {
					st.add(&Tup{Tag: "noerror"})
				}
			}, nil)
		}
		m.Check(st, false, "every-entry-is-written", w.c, ev.Pos, "the iterator is moved by "+op)
	}
	switch ev.Name {
	case "iface:" + pebblePkg + "/vfs.FS.Create", pebblePkg + "/vfs.FS.Create", "os.Create":
		path := ev.Args[0]
		n := path
		dir := path.K == KApp && path.Op == "join" && path.Args[0] == m.entryParams[1] && len(path.Args) == 2
		m.Check(st, dir, "every-entry-is-written", w.c+": files", ev.Pos, "the file is not in the given directory")
		same := st.find("made", func(t *Tup) bool { return t.Args[0] == n }) != nil
		m.Check(st, !same, "every-entry-is-written", w.c+": files", ev.Pos, "a file written before is created again")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		st.add(&Tup{Tag: "made", Args: []*Term{n}})
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	case pebblePkg + "/objstorage/objstorageprovider.NewFileWritable":
		return one(tt.App("writable", ev.Sig.Results().At(0).Type(), ev.Args[0]))
	case sst + "NewWriter":
		m.age(st, ev.Site, ev.Ctx)
		t := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		o := ev.Args[1]
		var cmp *Term
		if s, ok := o.Typ.Underlying().(*types.Struct); ok {
			if i := fieldIndex(o.Typ, "Comparer"); i >= 0 {
				cmp = tt.Fld(o, i, s.Field(i).Type())
			}
		}
		m.Check(st, cmp != nil && cmp.K == KApp && cmp.Op == "keycomparer", "written-in-key-order", w.c, ev.Pos, fmt.Sprintf("the file is not written with the key comparer but with %v", cmp))
		st.add(&Tup{Tag: "open", Args: []*Term{t}})
		return one(t)
	case sst + "Writer.Set", sst + "Writer.Add", sst + "Writer.Merge", sst + "Writer.Delete", sst + "Writer.DeleteRange":
		open := st.find("open", func(t *Tup) bool { return t.Args[0] == ev.Recv }) != nil
		m.Check(st, open, "every-entry-is-written", w.c+": writer", ev.Pos, "an entry is written to a writer that is not open")
		kv := func(t *Term, what string) bool {
			return st.find("kv", func(x *Tup) bool { return x.Data == what && x.Args[0] == t }) != nil
		}
		ok := ev.Name == sst+"Writer.Set" && kv(ev.Args[0], "Key") && kv(ev.Args[1], "Value")
		m.Check(st, ok, "every-entry-is-written", w.c+": entry", ev.Pos, "what is written is not the entry the iterator is at")
		return both(func(st *State) {
			for _, t := range st.tups("pos") {
				st.del(t)
			}
			st.add(&Tup{Tag: "pos", Data: "set"})
		}, nil)
	case sst + "Writer.Close":
		if t := st.find("open", func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			st.del(t)
		}
		return both(nil, func(st *State) { st.add(&Tup{Tag: "lost"}) })
	case sst + "Writer.EstimatedSize":
		m.age(st, ev.Site, ev.Ctx)
		return one(tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type()))
	case "bond.DefaultKeyComparer":
		return one(tt.App("keycomparer", ev.Sig.Results().At(0).Type()))
	}
	_ = bt
	if ev.Fn != nil && !m.P.InModule(ev.Fn) && hasErr(ev.Sig) && ev.Name != "fmt.Errorf" && ev.Name != "errors.New" {
		return both(nil, nil)
	}
	return false, nil
}

func (w *exportWatch) onReturn(m *Machine, st *State, res []*Term, pos string) {
	if _, k := m.retErr(st, res); k == "err" {
		return
	}
	end := st.find("pos", func(t *Tup) bool { return t.Data == "end" }) != nil
	m.Check(st, end, "every-entry-is-written", w.c, pos, "it succeeds although the iterator is not at the end")
	m.Check(st, len(st.tups("noerror")) > 0, "every-entry-is-written", w.c, pos, "it succeeds although the iterator may have stopped with an error")
	m.Check(st, len(st.tups("open")) == 0 && len(st.tups("lost")) == 0, "every-entry-is-written", w.c+": writer", pos, "it succeeds although a file was not completely written")
}

// listWatch follows the function that lists the indexes of a table that have
// entries: from each one found it seeks the next.
type listWatch struct {
	p *Program
	r *Result
	c string
}

func (w *listWatch) at(m *Machine, k *Term, i int64) *Term {
	return m.TT.Elem(k, m.TT.Int(i), types.Typ[types.Byte])
}

func (w *listWatch) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if ok, outs := m.bytesCall(st, ev); ok {
		return true, outs
	}
	op := iterOp(ev)
	if op == "" || ev.Recv == nil || unwrap(ev.Recv) != m.entryParams[0] {
		return false, nil
	}
	cur := st.find("cur", func(*Tup) bool { return true })
	switch op {
	case "SeekGE":
		q := &PathRec{M: m, St: st}
		got := m.contentOf(st, ev.Args[0])
		want := q.show(m.entryParams[1]) + " 1"
		if t := st.find("took", func(*Tup) bool { return true }); t != nil {
			want = q.show(m.entryParams[1]) + " " + q.showLin(tt.App("+", types.Typ[types.Byte], t.Args[0], tt.Int(1)))
		} else if len(st.tups("sought")) > 0 {
			want = "(nothing: the index found is not in the list)"
		}
		m.Check(st, got == want, "every-index-is-found", w.c, ev.Pos, fmt.Sprintf("the next index is looked for from %s, not from %s", got, want))
		m.age(st, ev.Site, ev.Ctx)
		for _, tag := range []string{"cur", "took", "other"} {
			for _, t := range st.tups(tag) {
				st.del(t)
			}
		}
		no := st.clone()
		k := tt.Call(ev.Site, ev.Ctx, 7, bytesType)
		st.add(&Tup{Tag: "cur", Args: []*Term{k}})
		st.add(&Tup{Tag: "sought"})
		no.add(&Tup{Tag: "other"})
		return true, []Outcome{{st, tt.True}, {no, tt.False}}
	case "Key":
		if cur != nil {
			return true, []Outcome{{st, cur.Args[0]}}
		}
	case "Error":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "noerror"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "Valid":
		return true, []Outcome{{st, tt.boolTerm(cur != nil)}}
	case "Close":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "noerror"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	return false, nil
}

func (w *listWatch) onFact(m *Machine, st *State, t *Term, v bool) {
	if t.K == KApp && t.Op == "<" && !v && t.Args[1].isInt(255) || t.K == KApp && t.Op == "<" && v && t.Args[0].isInt(254) {
		x := stripConv(t.Args[0])
		if v {
			x = stripConv(t.Args[1])
		}
		if st.find("took", func(c *Tup) bool { return c.Args[0] == x }) != nil {
			st.add(&Tup{Tag: "other"})
		}
	}
	if t.K != KApp || t.Op != "==" {
		return
	}
	for i, x := range t.Args {
		x, y := stripConv(x), stripConv(t.Args[1-i])
		cur := st.find("cur", func(c *Tup) bool { return w.at(m, c.Args[0], 0) == x })
		if cur != nil && y == m.entryParams[1] {
			st.add(&Tup{Tag: map[bool]string{true: "ours", false: "other"}[v]})
		}
		if took := st.find("took", func(c *Tup) bool { return c.Args[0] == x }); took != nil && v && y.isInt(255) {
			st.add(&Tup{Tag: "other"})
		}
	}
}

func (w *listWatch) onAppend(m *Machine, st *State, elems []*Term, pos string) {
	for _, e := range elems {
		e = stripConv(e)
		cur := st.find("cur", func(c *Tup) bool { return w.at(m, c.Args[0], 1) == e })
		ok := cur != nil && len(st.tups("ours")) > 0
		m.Check(st, ok, "every-index-is-found", w.c+": list", pos, "what is added to the list is not the index of an entry of the table")
		for _, t := range st.tups("ours") {
			st.del(t)
		}
		st.add(&Tup{Tag: "took", Args: []*Term{e}})
	}
}

func (w *listWatch) onReturn(m *Machine, st *State, res []*Term, pos string) {
	if _, k := m.retErr(st, res); k == "err" {
		return
	}
	m.Check(st, len(st.tups("other")) > 0, "every-index-is-found", w.c, pos, "it succeeds although indexes of the table may follow")
	m.Check(st, len(st.tups("noerror")) > 0, "every-index-is-found", w.c, pos, "it succeeds although the iterator may have stopped with an error")
}

func runDump(p *Program, r *Result) {
	w := &dumpWatch{p: p, r: r}
	w.export, w.list = iterFuncs(p)
	if w.export == nil || w.list == nil {
		r.Fail("unresolved anchor: the functions that write the entries of an iterator and that list the indexes of a table")
		return
	}
	if fn := r.anchor(p.methodOf("", "_db", "Dump")); fn != nil {
		spec := bytesSpec()
		spec.Call, spec.OnDone, spec.OnReturn = w.call, w.onDone, w.onReturn
		spec.KeepFact = func(m *Machine, t *Term) bool { return t == m.entryParams[4] }
		r.Interpret(p, spec, fn, nil)
	}
	e := &exportWatch{p: p, r: r, c: calleeName(w.export)}
	r.Interpret(p, &Spec{Call: e.call, OnReturn: e.onReturn}, w.export, nil)
	l := &listWatch{p: p, r: r, c: calleeName(w.list)}
	spec := bytesSpec()
	spec.Call, spec.OnFact, spec.OnReturn = l.call, l.onFact, l.onReturn
	spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
		if s, ok := list.Typ.Underlying().(*types.Slice); ok && typeName(s.Elem()) == "bond.IndexID" && whole == nil {
			l.onAppend(m, st, elems, m.P.Pos(site.Pos()))
		}
	}
	r.Interpret(p, spec, w.list, nil)
	for _, rule := range []string{"dump-is-one-snapshot", "dump-waits-for-its-writers", "every-index-is-dumped", "rows-and-entries-complete", "every-table-is-dumped", "dump-records-its-version", "every-entry-is-written", "written-in-key-order", "every-index-is-found"} {
		r.Need(rule, 1)
	}
}

func init() {
	register(&Property{ID: "C26", Run: runDump})
}
