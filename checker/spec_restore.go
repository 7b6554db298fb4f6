package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C27: what a restore reads ----

type restoreWatch struct {
	p *Program
	r *Result
	// while the callback of the walk is analysed: its path
	walked *Term
}

const restoreName = "bond._db.Restore"

func (w *restoreWatch) tables(m *Machine) *Term { return m.entryParams[3] }

// tableDir: t is the name of a table's directory; the table is returned.
func tableDir(t *Term) *Term {
	if t.K == KApp && t.Op == "sprintf" && len(t.Args) == 2 && t.Args[0].String() == `"table_%d"` {
		return stripConv(t.Args[1])
	}
	return nil
}

// indexPrefix: t is how the names of the directories of a table's indexes begin.
func indexPrefix(t *Term) *Term {
	switch {
	case t.K == KApp && t.Op == "+" && len(t.Args) == 2 && t.Args[1].String() == `"_index_"`:
		return tableDir(t.Args[0])
	case t.K == KApp && t.Op == "sprintf" && len(t.Args) == 2 && t.Args[0].String() == `"table_%d_index_"`:
		return stripConv(t.Args[1])
	}
	return nil
}

func (w *restoreWatch) isDir(t *Term) bool { // the directory of the walked file
	return w.walked != nil && t.K == KApp && t.Op == "filepath.Base" && t.Args[0].K == KApp && t.Args[0].Op == "filepath.Dir" && t.Args[0].Args[0] == w.walked
}

func (w *restoreWatch) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	c := restoreName
	if ev.Name == "strings.Contains" && w.isDir(ev.Args[0]) && ev.Args[1].K == KConst {
		s := strings.Trim(ev.Args[1].String(), `"`)
		switch {
		case st.find("rows", func(*Tup) bool { return true }) != nil && !strings.ContainsAny(s, "0123456789") && !strings.Contains("table_", s):
			return true, []Outcome{{st, tt.False}}
		case st.find("index", func(*Tup) bool { return true }) != nil && strings.Contains("_index_", s):
			return true, []Outcome{{st, tt.True}}
		}
	}
	if ok, outs := m.stdPure(st, ev); ok {
		return true, outs
	}
	if ok, outs := m.bytesCall(st, ev); ok {
		return true, outs
	}
	both := func(f func(st *State, o Outcome)) (bool, []Outcome) {
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		if f != nil {
			f(st, o)
		}
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	}
	isVersion := func(t *Term) bool {
		return t.K == KApp && t.Op == "join" && len(t.Args) == 2 && t.Args[0] == m.entryParams[2] && t.Args[1].String() == `"VERSION"`
	}
	switch ev.Name {
	case "os.ReadFile", "io/ioutil.ReadFile":
		file := ev.Args[0]
		return both(func(st *State, o Outcome) {
			if isVersion(file) {
				st.add(&Tup{Tag: "vbytes", Args: []*Term{o.res.Args[0]}})
			}
		})
	case "os.Stat", "os.Lstat":
		file := ev.Args[0]
		return both(func(st *State, o Outcome) {
			if file.K == KApp && file.Op == "join" && len(file.Args) == 2 && file.Args[0] == m.entryParams[2] {
				if t := tableDir(file.Args[1]); t != nil {
					st.add(&Tup{Tag: "did:stat", Args: []*Term{t}, Pos: ev.Pos})
				}
			}
		})
	case "iface:io/fs.FileInfo.IsDir", "iface:io/fs.DirEntry.IsDir", "iface:os.FileInfo.IsDir":
		if w.walked != nil {
			no := st.clone()
			st.add(&Tup{Tag: "isdir"})
			return true, []Outcome{{st, tt.True}, {no, tt.False}}
		}
	case "path/filepath.Walk", "path/filepath.WalkDir":
		return w.walk(m, st, ev)
	case pebblePkg + ".DB.Ingest", pebblePkg + ".DB.IngestWithStats":
		m.Check(st, len(st.tups("version")) > 0, "backup-version-is-checked", c, ev.Pos, "files are ingested although the version of the backup is not known to be the current one")
		m.Check(st, w.all(m, st, "all:stat"), "missing-table-is-an-error", c, ev.Pos, "files are ingested although the directory of a table may be missing")
		ok := st.find("files", func(t *Tup) bool { return t.Args[0] == ev.Args[0] }) != nil
		m.Check(st, ok, "restores-what-was-asked-for", c, ev.Pos, "what is ingested is not the list of the files found")
		m.Check(st, false, "restore-keeps-the-backup", c, ev.Pos, "Ingest moves the files of the backup into the database: the backup cannot be restored again")
		return both(func(st *State, o Outcome) { st.add(&Tup{Tag: "done"}) })
	}
	if ev.Fn != nil && !m.P.InModule(ev.Fn) && hasErr(ev.Sig) && ev.Name != "fmt.Errorf" && ev.Name != "errors.New" {
		return both(nil)
	}
	return false, nil
}

func (w *restoreWatch) all(m *Machine, st *State, tag string) bool {
	none := st.find("none", func(t *Tup) bool { return t.Args[0] == w.tables(m) })
	return none != nil || st.find(tag, func(t *Tup) bool { return t.Args[0] == w.tables(m) && t.Args[1] == m.TT.Hole }) != nil
}

// walk analyses the function that is called for each file of the backup: it
// takes exactly the files that were asked for.
func (w *restoreWatch) walk(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	c := restoreName
	m.Check(st, ev.Args[0] == m.entryParams[2], "restores-what-was-asked-for", c+": walk", ev.Pos, "another directory than the backup is searched")
	fn, _ := ev.Args[1].Obj.(*ssa.Function)
	if ev.Args[1].K != KFunc || fn == nil || w.walked != nil {
		m.Check(st, false, "restores-what-was-asked-for", c+": walk", ev.Pos, "the function called for each file is not known")
		return false, nil
	}
	m.age(st, ev.Site, ev.Ctx)
	// the list the function adds to
	var cell *Term
	for _, b := range ev.Args[1].Args {
		if e, ok := ptrElem(b.Typ); ok && types.TypeString(e, nil) == "[]string" {
			cell = b
		}
	}
	if cell == nil {
		m.Check(st, false, "restores-what-was-asked-for", c+": walk", ev.Pos, "the function called for each file adds to no list")
		return false, nil
	}
	m.Check(st, m.emptyList(st, m.load(st, cell, types.NewSlice(types.Typ[types.String]))), "restores-what-was-asked-for", c+": list", ev.Pos, "the list of files is not empty at first")
	list := tt.Call(ev.Site, ev.Ctx, 900, types.NewSlice(types.Typ[types.String]))
	m.store(st, cell, list)
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, tt.Call(ev.Site, ev.Ctx, 901+i, p.Type()))
	}
	w.walked = args[0]
	for _, unreadable := range []bool{false, true} {
		s := st.clone()
		a := append([]*Term{}, args...)
		if !unreadable {
			a[2] = tt.Nil
		} else {
			m.assume(s, tt.Eq(tt.Nil, a[2]), false)
		}
		for _, o := range m.callClosure(s, ev, ev.Args[1], a, 0) {
			if o.st != nil {
				w.file(m, o.st, o.res, unreadable, ev)
			}
		}
	}
	w.walked = nil
	bad := st.clone()
	st.add(&Tup{Tag: "files", Args: []*Term{list}})
	return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
}

// file judges one way the function that is called for each file can end.
func (w *restoreWatch) file(m *Machine, st *State, res *Term, unreadable bool, ev *Event) {
	c := restoreName + ": files"
	rule := "restores-what-was-asked-for"
	isNil, known := m.isNil(st, res)
	took := st.find("taken", func(t *Tup) bool { return t.Args[0] == w.walked }) != nil
	has := func(tag string) bool { return len(st.tups(tag)) > 0 }
	with, wk := m.truth(st, m.entryParams[4])
	if unreadable {
		m.Check(st, known && !isNil, rule, c, ev.Pos, "a part of the backup that cannot be read is skipped")
		return
	}
	if known && !isNil {
		if res.K == KLoad || res.K == KGlobal {
			m.Check(st, false, rule, c, ev.Pos, "a part of the backup is skipped")
		}
		return
	}
	m.Check(st, !has("wrong"), rule, c, ev.Pos, "something else than the file is added to the list")
	if took {
		m.Check(st, has("sst"), rule, c, ev.Pos, "a file is taken that is no table file")
		m.Check(st, has("rows") || has("index") && wk && with, rule, c, ev.Pos, "a file is taken that was not asked for")
		return
	}
	none := w.all(m, st, "all:norows") && w.all(m, st, "all:noindex")
	skip := has("isdir") || has("nosst") || none || !has("rows") && w.all(m, st, "all:norows") && wk && !with || has("index") && wk && !with
	m.Check(st, skip, rule, c, ev.Pos, "a file that was asked for may be skipped")
}

func (w *restoreWatch) onFact(m *Machine, st *State, t *Term, v bool) {
	if t.K != KApp {
		return
	}
	elem := func(x *Term) bool { return x != nil && x.K == KElem && x.Args[0] == w.tables(m) }
	switch t.Op {
	case "strings.HasSuffix":
		if t.Args[0] == w.walked && t.Args[1].String() == `".sst"` {
			st.add(&Tup{Tag: map[bool]string{true: "sst", false: "nosst"}[v]})
		}
	case "strings.HasPrefix":
		if x := indexPrefix(t.Args[1]); elem(x) && w.isDir(t.Args[0]) {
			if v {
				st.add(&Tup{Tag: "index"})
			} else {
				st.add(&Tup{Tag: "did:noindex", Args: []*Term{x}})
			}
		}
	case "==":
		for i, x := range t.Args {
			y := t.Args[1-i]
			if x.K == KApp && x.Op == "filepath.Ext" && x.Args[0] == w.walked && y.String() == `".sst"` {
				st.add(&Tup{Tag: map[bool]string{true: "sst", false: "nosst"}[v]})
			}
			if d := tableDir(y); elem(d) && w.isDir(x) {
				if v {
					st.add(&Tup{Tag: "rows"})
				} else {
					st.add(&Tup{Tag: "did:norows", Args: []*Term{d}})
				}
			}
			if y.isInt(w.p.constInt("BOND_DB_DATA_VERSION")) && v {
				s := stripConv(x)
				for _, b := range st.tups("vbytes") {
					if s.K == KApp && s.Op == "u:be4" && len(s.Args) == 1 && s.Args[0].K == KApp && s.Args[0].Op == "sub" && s.Args[0].Args[0] == b.Args[0] && s.Args[0].Args[1].isInt(0) {
						st.add(&Tup{Tag: "version"})
					}
				}
			}
		}
	}
}

func (w *restoreWatch) onAppend(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
	if w.walked == nil {
		return
	}
	for _, e := range elems {
		tag := "taken"
		if e != w.walked || st.find("taken", func(*Tup) bool { return true }) != nil {
			tag = "wrong"
		}
		st.add(&Tup{Tag: tag, Args: []*Term{e}})
	}
	if whole != nil {
		st.add(&Tup{Tag: "wrong"})
	}
}

func runRestore(p *Program, r *Result) {
	w := &restoreWatch{p: p, r: r}
	if fn := r.anchor(p.methodOf("", "_db", "Restore")); fn != nil {
		spec := bytesSpec()
		spec.Call, spec.OnFact, spec.OnAppend = w.call, w.onFact, w.onAppend
		spec.OnDone = func(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock) {
			if !it.started && it.cont != nil {
				st.add(&Tup{Tag: "none", Args: []*Term{it.cont}})
			}
		}
		spec.KeepFact = func(m *Machine, t *Term) bool { return t == m.entryParams[4] }
		spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			if _, k := m.retErr(st, res); k != "err" {
				m.Check(st, len(st.tups("done")) > 0, "restores-what-was-asked-for", restoreName+": result", pos, fmt.Sprint("it succeeds although nothing was ingested"))
			}
		}
		r.Interpret(p, spec, fn, nil)
	}
	for _, rule := range []string{"backup-version-is-checked", "missing-table-is-an-error", "restores-what-was-asked-for"} {
		r.Need(rule, 1)
	}
}

func init() {
	register(&Property{ID: "C27", Run: runRestore})
}
