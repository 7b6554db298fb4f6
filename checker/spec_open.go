package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C28: opening and migrating a database ----

// openWatch follows what a function that opens the engine does with the
// recorded versions.
type openWatch struct {
	p     *Program
	r     *Result
	name  string
	vpath string // the file of the format version, parameters by number
	open  bool   // bond.Open, else a migration
	read  bool   // reads the recorded version
}

func (w *openWatch) path(m *Machine, t *Term) string {
	s := t.String()
	for i, p := range m.entryParams {
		s = strings.ReplaceAll(s, p.String(), fmt.Sprintf("#%d", i))
	}
	return s
}

const engineOpen = pebblePkg + ".Open"

// errNotExist: the fact says that a file does not exist.
func errNotExist(t *Term) *Term {
	if t.K != KApp || len(t.Args) == 0 {
		return nil
	}
	switch t.Op {
	case "os.IsNotExist":
		return t.Args[0]
	case "errors.Is":
		if strings.Contains(t.Args[1].String(), "ErrNotExist") {
			return t.Args[0]
		}
	}
	return nil
}

func (w *openWatch) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	c := w.name
	if ok, outs := m.stdPure(st, ev); ok {
		return true, outs
	}
	if ok, outs := m.bytesCall(st, ev); ok {
		return true, outs
	}
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	fileOf := func(t *Term) *Tup {
		return st.find("file", func(x *Tup) bool { return x.Args[0] == t })
	}
	touch := func(path *Term) {
		m.Check(st, w.path(m, path) != w.vpath, "version-file-replaced-at-once", c, ev.Pos, "it writes into the version file: a crash leaves a part of it")
	}
	both := func(f func(st *State)) (bool, []Outcome) {
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		f(st)
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	}
	switch ev.Name {
	case "bond.DefaultPebbleOptions", "bond.DefaultOptions":
		return true, m.run(ev.Fn, m.ctx(ev.Ctx, ev.Site, ev.Fn), st, ev.Args, nil)
	case "os.ReadFile", "io/ioutil.ReadFile":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		b := m.errOutcome(bad, ev, nil)
		if w.path(m, ev.Args[0]) == w.vpath {
			st.add(&Tup{Tag: "vbytes", Args: []*Term{o.res.Args[0]}})
			bad.add(&Tup{Tag: "vmissing", Args: []*Term{b.res.Args[1]}})
		}
		return true, []Outcome{o, b}
	case "os.OpenFile", "os.Create":
		touch(ev.Args[0])
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		st.add(&Tup{Tag: "file", Args: []*Term{o.res.Args[0], ev.Args[0], tt.Nil}})
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	case "os.WriteFile", "io/ioutil.WriteFile":
		touch(ev.Args[0])
		return both(func(st *State) {
			st.add(&Tup{Tag: "file", Args: []*Term{tt.Nil, ev.Args[0], ev.Args[1]}, Data: "wc"})
		})
	case "os.File.Write", "os.File.WriteString":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		if f := fileOf(ev.Recv); f != nil {
			st.del(f)
			st.add(&Tup{Tag: "file", Args: []*Term{f.Args[0], f.Args[1], ev.Args[0]}, Data: f.Data + "w"})
		}
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "os.File.Sync", "os.File.Close":
		k := map[string]string{"os.File.Sync": "s", "os.File.Close": "c"}[ev.Name]
		f := fileOf(ev.Recv)
		return both(func(st *State) {
			if f != nil {
				st.del(f)
				st.add(&Tup{Tag: "file", Args: f.Args, Data: f.Data + k})
			}
		})
	case "os.Rename":
		if w.path(m, ev.Args[1]) != w.vpath {
			return false, nil
		}
		f := st.find("file", func(x *Tup) bool { return x.Args[1] == ev.Args[0] })
		ok := f != nil && strings.Contains(f.Data, "w") && strings.Contains(f.Data, "s") && strings.HasSuffix(f.Data, "c")
		m.Check(st, ok, "version-file-replaced-at-once", c, ev.Pos, "the version file is replaced by one that is not completely written, synced and closed")
		var val *Term
		if f != nil {
			x := stripConv(f.Args[2])
			if x.K == KApp && x.Op == "sprintf" && len(x.Args) == 2 && x.Args[0].String() == `"%d"` {
				val = stripConv(x.Args[1])
			}
		}
		m.Check(st, val != nil, "recorded-format-is-the-engine's", c, ev.Pos, "what is recorded is not known to be a version")
		if !w.open {
			m.Check(st, len(st.tups("engine")) > 0, "recorded-format-is-the-engine's", c, ev.Pos, "the version is recorded before the engine was migrated")
			m.Check(st, val == m.entryParams[1], "recorded-format-is-the-engine's", c, ev.Pos, "the version recorded is not the one that is asked for")
		}
		if val == nil {
			val = tt.Nil
		}
		return both(func(st *State) { st.add(&Tup{Tag: "format", Args: []*Term{val}}) })
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		src := ev.Args[0]
		for src.K == KApp && strings.HasPrefix(src.Op, "conv:") {
			src = src.Args[0]
		}
		m.age(st, ev.Site, ev.Ctx)
		if len(ev.Args) > 1 && !ev.Args[1].isInt(10) {
			return false, nil
		}
		bad := st.clone()
		v := tt.App("parse", types.Typ[types.Int], src)
		return true, []Outcome{m.okOutcome(st, ev, v), m.errOutcome(bad, ev, nil)}
	case engineOpen:
		cmp := m.loadPath(st, ev.Args[1], "Comparer")
		m.Check(st, cmp != nil && cmp.K == KApp && cmp.Op == "keycomparer", "engine-sorts-by-key-parts", c, ev.Pos, "the engine is opened without the key comparer: "+fmt.Sprint(cmp))
		f := m.loadPath(st, ev.Args[1], "FormatMajorVersion")
		if w.open {
			ok := f != nil && st.find("format", func(x *Tup) bool { return x.Args[0] == stripConv(f) }) != nil
			m.Check(st, ok, "opens-its-version-only", c, ev.Pos, "the engine is opened although the recorded format is not known to be the one of the options")
		} else {
			m.Check(st, f != nil && stripConv(f) == m.entryParams[1], "recorded-format-is-the-engine's", c, ev.Pos, "the engine is not migrated to the version that is asked for")
		}
		m.Check(st, w.path(m, ev.Args[0]) == "#0", "opens-its-version-only", c+": directory", ev.Pos, "the engine is opened in another directory than the given one")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		st.add(&Tup{Tag: "engine", Args: []*Term{o.res.Args[0]}})
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	case pebblePkg + ".DB.Close":
		if t := st.find("engine", func(x *Tup) bool { return x.Args[0] == ev.Recv }); t != nil {
			st.del(t)
			st.add(&Tup{Tag: "engine", Args: []*Term{tt.Nil}})
		}
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "bond.DefaultKeyComparer":
		return one(tt.App("keycomparer", ev.Sig.Results().At(0).Type()))
	case pebblePkg + ".Options.EnsureDefaults", pebblePkg + ".LevelOptions.EnsureDefaults":
		// sets what is not set
		return one(ev.Recv)
	case pebblePkg + ".DB.Get":
		// the version is read again, as it is
		if t := st.find("dver", func(*Tup) bool { return true }); t != nil {
			m.age(st, ev.Site, ev.Ctx)
			bad := st.clone()
			outs := []Outcome{m.errOutcome(bad, ev, nil)}
			if t.Args[0] != tt.Nil {
				outs = append(outs, m.okOutcome(st, ev, t.Args[0]))
			}
			return true, outs
		}
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev, tt.App("stored", types.NewSlice(types.Typ[types.Byte])))
		st.add(&Tup{Tag: "dver", Args: []*Term{o.res.Args[0]}})
		st.add(&Tup{Tag: "dkey", Args: nil, Data: m.contentOf(st, ev.Args[0])})
		b := m.errOutcome(bad, ev, nil)
		bad.add(&Tup{Tag: "dmissing", Args: []*Term{b.res.Args[2]}})
		bad.add(&Tup{Tag: "dkey", Args: nil, Data: m.contentOf(st, ev.Args[0])})
		return true, []Outcome{o, b}
	case pebblePkg + ".DB.Set":
		k := st.find("dkey", func(*Tup) bool { return true })
		m.Check(st, k != nil && k.Data == m.contentOf(st, ev.Args[0]), "new-database-gets-a-version", c, ev.Pos, "the version is written under another key than it is read from")
		m.Check(st, len(st.tups("dnone")) > 0, "new-database-gets-a-version", c, ev.Pos, "a recorded version may be overwritten")
		v := ev.Args[1]
		for v.K == KApp && strings.HasPrefix(v.Op, "conv:") {
			v = v.Args[0]
		}
		if v.K == KApp && v.Op == "sprintf" && len(v.Args) == 2 && v.Args[0].String() == `"%d"` {
			v = v.Args[1]
		}
		ver := w.p.constInt("BOND_DB_DATA_VERSION")
		m.Check(st, v.isInt(ver) || v.String() == fmt.Sprintf("%q", fmt.Sprint(ver)), "new-database-gets-a-version", c, ev.Pos, "the version written is "+v.String())
		return both(func(st *State) { st.add(&Tup{Tag: "data"}) })
	}
	if strings.HasPrefix(ev.Name, "bond/utils.NewPreAllocatedPool") {
		return one(tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type()))
	}
	if ev.Fn != nil && !m.P.InModule(ev.Fn) && hasErr(ev.Sig) && ev.Name != "fmt.Errorf" && ev.Name != "errors.New" {
		return both(func(*State) {})
	}
	return false, nil
}

func (w *openWatch) onFact(m *Machine, st *State, t *Term, v bool) {
	if e := errNotExist(t); e != nil && v {
		if st.find("vmissing", func(x *Tup) bool { return x.Args[0] == e }) != nil {
			st.add(&Tup{Tag: "vnone"})
		}
	}
	if t.K == KApp && t.Op == "errors.Is" && v && strings.Contains(t.Args[1].String(), "ErrNotFound") {
		if st.find("dmissing", func(x *Tup) bool { return x.Args[0] == t.Args[0] }) != nil {
			st.add(&Tup{Tag: "dnone"})
			st.add(&Tup{Tag: "dver", Args: []*Term{m.TT.Nil}})
		}
	}
	if t.K == KApp && t.Op == "==" && v {
		for i, x := range t.Args {
			y := t.Args[1-i]
			if x.K != KApp || x.Op != "parse" {
				continue
			}
			if st.find("vbytes", func(b *Tup) bool { return b.Args[0] == x.Args[0] }) != nil {
				st.add(&Tup{Tag: "format", Args: []*Term{stripConv(y)}})
			}
			if x.Args[0].K == KApp && x.Args[0].Op == "stored" {
				switch {
				case y.isInt(w.p.constInt("BOND_DB_DATA_VERSION")):
					st.add(&Tup{Tag: "data"})
				case y.isInt(0):
					st.add(&Tup{Tag: "dnone"})
				}
			}
		}
	}
	if t.K == KApp && t.Op == "<" && !v && t.Args[0].isInt(0) && t.Args[1].K == KApp && t.Args[1].Op == "parse" && t.Args[1].Args[0].K == KApp && t.Args[1].Args[0].Op == "stored" {
		st.add(&Tup{Tag: "dnone"})
	}
}

func (w *openWatch) run(fn *ssa.Function) {
	c := w.name
	spec := bytesSpec()
	spec.RawKeys = true
	spec.Call, spec.OnFact = w.call, w.onFact
	spec.KeepFact = func(m *Machine, t *Term) bool {
		return findSub(t, func(x *Term) bool { return x.K == KApp && x.Op == "parse" }) != nil
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		_, k := m.retErr(st, res)
		if w.read {
			ok := k == "err"
			if k != "err" {
				x := stripConv(res[0])
				ok = x.isInt(0) && len(st.tups("vnone")) > 0
				if x.K == KApp && x.Op == "parse" {
					ok = st.find("vbytes", func(b *Tup) bool { return b.Args[0] == x.Args[0] }) != nil
				}
			}
			m.Check(st, ok, "reported-format-is-the-recorded", c, pos, "it returns a version that is not the recorded one")
			return
		}
		openEngine := st.find("engine", func(x *Tup) bool { return x.Args[0] != m.TT.Nil }) != nil
		if k == "err" {
			m.Check(st, !openEngine, "failed-open-closes-the-engine", c, pos, "it fails and leaves the engine open")
			return
		}
		if w.open {
			m.Check(st, openEngine, "opens-its-version-only", c, pos, "it succeeds although no engine is open")
			m.Check(st, len(st.tups("format")) > 0, "opens-its-version-only", c, pos, "it succeeds although the recorded format is not known to be the one of the options")
			m.Check(st, len(st.tups("data")) > 0, "opens-its-version-only", c, pos, "it succeeds although the recorded data version is not known to be the current one")
			x := unwrap(res[0])
			var e *Term
			if x != nil && x.Typ != nil {
				if _, isPtr := ptrElem(x.Typ); isPtr {
					e = m.loadPath(st, x, "pebble")
				}
			}
			m.Check(st, e != nil && st.find("engine", func(t *Tup) bool { return t.Args[0] == e }) != nil, "opens-its-version-only", c+": engine", pos, "the database does not use the engine that was opened")
			return
		}
		m.Check(st, len(st.tups("format")) > 0 && len(st.tups("engine")) > 0, "recorded-format-is-the-engine's", c, pos, "it succeeds although the engine was not migrated and its version recorded")
		m.Check(st, !openEngine, "failed-open-closes-the-engine", c, pos, "it leaves the engine open")
	}
	w.r.Interpret(w.p, spec, fn, nil)
}

// contentOf renders the content of a byte slice.
func (m *Machine) contentOf(st *State, t *Term) string {
	return strings.Join((&PathRec{M: m, St: st}).content(t), " ")
}

func runOpen(p *Program, r *Result) {
	vp := fmt.Sprintf("join(#0, %q, %q)", "bond", p.constStr("PebbleFormatFile"))
	if fn := r.anchor(p.Find("bond.Open")); fn != nil {
		w := &openWatch{p: p, r: r, name: "bond.Open", vpath: vp, open: true}
		w.run(fn)
	}
	if fn := r.anchor(p.Find("bond.MigratePebbleFormatVersion")); fn != nil {
		w := &openWatch{p: p, r: r, name: "bond.MigratePebbleFormatVersion", vpath: vp}
		w.run(fn)
	}
	if fn := r.anchor(p.Find("bond.PebbleFormatVersion")); fn != nil {
		w := &openWatch{p: p, r: r, name: "bond.PebbleFormatVersion", vpath: vp, read: true}
		w.run(fn)
	}
	r.Need("engine-sorts-by-key-parts", 2)
	r.Need("failed-open-closes-the-engine", 2)
	r.Need("new-database-gets-a-version", 1)
	r.Need("opens-its-version-only", 3)
	r.Need("recorded-format-is-the-engine's", 2)
	r.Need("version-file-replaced-at-once", 1)
	r.Need("reported-format-is-the-recorded", 1)
}

func init() {
	register(&Property{ID: "C28", Run: runOpen})
}
