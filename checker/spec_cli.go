package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C39: the command line hands on what its flags say, and fails when what it
// called fails.
//
// Commands are found as literals of cli.Command with their actions and flags.
const (
	cliPkg     = "github.com/urfave/cli/v2"
	cliFlag    = "flags-are-those-of-the-command"
	cliHanded  = "flags-are-handed-on"
	cliFails   = "command-fails-when-it-fails"
	cliTables  = "tables-are-those-named"
	cliHeaders = "headers-are-handed-on"
	cliPrinted = "result-is-printed"
)

type cliCmd struct {
	name           string
	action, before *ssa.Function
	flags          map[string]string // name: kind
	subs           []*cliCmd
	parent         *cliCmd
}

// flag is the kind of the flag of that name.
func (c *cliCmd) flag(name string) string {
	for ; c != nil; c = c.parent {
		if k := c.flags[name]; k != "" {
			return k
		}
	}
	return ""
}

type cliLits struct {
	p      *Program
	fields map[ssa.Value]map[string]ssa.Value // literal: field: value
	elems  map[ssa.Value][]ssa.Value          // array: elements
	global map[*ssa.Global]ssa.Value
}

func newCLILits(p *Program) *cliLits {
	w := &cliLits{p: p, fields: map[ssa.Value]map[string]ssa.Value{}, elems: map[ssa.Value][]ssa.Value{}, global: map[*ssa.Global]ssa.Value{}}
	for _, fn := range p.AllFuncs() {
		if !p.InModule(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := st.Addr.(type) {
				case *ssa.FieldAddr:
					if strings.HasPrefix(typeName(derefType(a.X.Type())), cliPkg+".") {
						if w.fields[a.X] == nil {
							w.fields[a.X] = map[string]ssa.Value{}
						}
						w.fields[a.X][fieldName(a.X.Type(), a.Field)] = st.Val
					}
				case *ssa.IndexAddr:
					w.elems[a.X] = append(w.elems[a.X], st.Val)
				case *ssa.Global:
					w.global[a] = st.Val
				}
			}
		}
	}
	return w
}

// lit is the literal that v points to.
func (w *cliLits) lit(v ssa.Value) ssa.Value {
	for i := 0; i < 10; i++ {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			if !ok || w.global[g] == nil {
				return v
			}
			v = w.global[g]
		case *ssa.Call:
			// a function of the module that returns a literal
			f := x.Call.StaticCallee()
			if f == nil || !w.p.InModule(f) {
				return v
			}
			var res ssa.Value
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Return); ok && len(r.Results) > 0 {
						if res != nil && res != r.Results[0] {
							return v
						}
						res = r.Results[0]
					}
				}
			}
			if res == nil {
				return v
			}
			v = res
		default:
			return v
		}
	}
	return v
}

// list is the elements of a slice literal.
func (w *cliLits) list(v ssa.Value) []ssa.Value {
	v = w.lit(v)
	if s, ok := v.(*ssa.Slice); ok {
		return w.elems[s.X]
	}
	return nil
}

func (w *cliLits) str(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value)
	}
	return ""
}

func (w *cliLits) fn(v ssa.Value) *ssa.Function {
	switch x := w.lit(v).(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}

func (w *cliLits) command(v ssa.Value, parent *cliCmd) *cliCmd {
	f := w.fields[w.lit(v)]
	if f == nil {
		return nil
	}
	c := &cliCmd{name: w.str(f["Name"]), flags: map[string]string{}, parent: parent}
	if f["Action"] != nil {
		c.action = w.fn(f["Action"])
	}
	if f["Before"] != nil {
		c.before = w.fn(f["Before"])
	}
	if f["Flags"] != nil {
		for _, x := range w.list(f["Flags"]) {
			l := w.lit(x)
			if l == nil || w.fields[l] == nil {
				continue
			}
			kind := strings.TrimSuffix(lastName(typeName(derefType(l.Type()))), "Flag")
			c.flags[w.str(w.fields[l]["Name"])] = kind
		}
	}
	for _, s := range []string{"Commands", "Subcommands"} {
		if f[s] == nil {
			continue
		}
		for _, x := range w.list(f[s]) {
			if sub := w.command(x, c); sub != nil {
				c.subs = append(c.subs, sub)
			}
		}
	}
	return c
}

// flagName is the name of a flag that a call gives: a constant, or the name of
// a flag's variable.
func (w *cliLits) flagName(t *Term) string {
	if s, ok := t.strVal(); ok {
		return s
	}
	if t.K == KLoad && t.Args[0].K == KFldAddr {
		x := t.Args[0].Args[0]
		if x.K == KLoad && x.Args[0].K == KGlobal {
			if g, ok := x.Args[0].Obj.(*ssa.Global); ok && w.global[g] != nil {
				return w.str(w.fields[w.lit(w.global[g])]["Name"])
			}
		}
	}
	return ""
}

type cliRun struct {
	*cliLits
	r   *Result
	cmd *cliCmd
	q   *PathRec
	c   string
	val map[string]*Term // flag: its value
}

func (w *cliRun) check(ok bool, rule, pos, msg string) bool {
	if !ok && os.Getenv("DUMP") != "" {
		println(w.q.Dump())
		for _, t := range w.q.St.user {
			println(t.Tag, t.Data, fmt.Sprint(t.Args))
		}
	}
	return w.r.PathCheck(w.q, ok, rule, w.c, pos, msg)
}

// flags reads what the path gets from flags.
func (w *cliRun) flags() {
	w.val = map[string]*Term{}
	for _, e := range w.q.Evs {
		if !strings.HasPrefix(e.Name, cliPkg+".Context.") || len(e.Args) != 1 {
			continue
		}
		n := w.flagName(e.Args[0])
		kind := w.cmd.flag(n)
		w.check(kind != "" && kind == e.Method(), cliFlag, e.Pos, "the command has no flag "+n+" of the kind "+e.Method()+": its value is always empty")
		w.val[n] = e.Res
	}
}

// is: t is the value of the flag.
func (w *cliRun) is(t *Term, flag string) bool {
	v := w.val[flag]
	return v != nil && t != nil && stripConv(t) == stripConv(v)
}

// failed: the error of the event is returned, alone or wrapped.
func (w *cliRun) failed(e *PathEv) (fails, returned bool) {
	err := e.Res
	if err != nil && err.K == KTuple {
		err = err.Args[len(err.Args)-1]
	}
	if err == nil {
		return false, true
	}
	if v, k := w.q.Nil(err); k && v {
		return false, true
	}
	res := w.q.Res[len(w.q.Res)-1]
	v, k := w.q.Nil(res)
	return true, res == err || k && !v
}

func cliEvents(name string, fn *ssa.Function) bool {
	switch name {
	case "bond.Open", "bond/inspect.NewInspectRemote":
		return true
	}
	return false
}

// keepFlags keeps what is known of flags.
func cliOpt() PathOpt {
	c := &inspectCheck{}
	opt := PathOpt{Event: cliEvents}
	opt.Spec = &Spec{TrackLists: true, Signs: true, Depth: 20}
	opt.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if strings.HasPrefix(ev.Name, "encoding/json.") || strings.HasPrefix(ev.Name, "io.ReadAll") {
			return c.json(m, st, ev)
		}
		if strings.HasPrefix(ev.Name, cliPkg+".Context.") && len(ev.Args) == 1 && ev.Sig.Results().Len() == 1 {
			// the value of a flag stays
			return true, []Outcome{{st, m.TT.App("flag:"+ev.Name, ev.Sig.Results().At(0).Type(), ev.Recv, ev.Args[0])}}
		}
		switch ev.Name {
		case "strings.Split", "strings.SplitN":
			op := "split"
			if len(ev.Args) == 3 && ev.Args[2].isInt(2) {
				op = "split2" // the second part is all of the rest
			}
			return true, []Outcome{{st, m.TT.App(op, ev.Sig.Results().At(0).Type(), ev.Args[0])}}
		case "strings.Cut":
			bt, str := types.Typ[types.Bool], types.Typ[types.String]
			x := ev.Args[0]
			return true, []Outcome{{st, m.TT.Tuple(m.TT.App("cut0", str, x), m.TT.App("cut1", str, x), m.TT.App("cuts", bt, x))}}
		case "strings.HasPrefix":
			return true, []Outcome{{st, m.TT.App("prefix", types.Typ[types.Bool], ev.Args...)}}
		}
		return false, nil
	}
	exact := func(m *Machine, st *State, e *Term) *Term {
		// a number that its type holds is itself
		for e.K == KApp && (strings.HasPrefix(e.Op, "trunc:") || strings.HasPrefix(e.Op, "as:")) {
			x := e.Args[0]
			if !m.TT.fits(m, st, e, x) {
				return nil
			}
			e = x
		}
		return e
	}
	opt.Spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
		for _, e := range elems {
			if x := exact(m, st, e); x != nil {
				st.add(&Tup{Tag: "did:num", Args: []*Term{list, x}})
			}
		}
	}
	opt.Spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
		if addr.K != KIdxAddr {
			return
		}
		if x := exact(m, st, val); x != nil && x.K == KElem && x.Args[1] == addr.Args[1] {
			st.add(&Tup{Tag: "did:num", Args: []*Term{addr.Args[0], x}})
		}
	}
	opt.Spec.OnMapSet = func(m *Machine, st *State, mp, k, v *Term, site ssa.Instruction) {
		if l, _ := elemKey(v); l != nil && l.K == KApp && l.Op == "split" {
			if two, known := m.truth(st, m.TT.Eq(m.TT.Len(l), m.TT.Int(2))); !known || !two {
				return // there may be more of it
			}
		}
		st.add(&Tup{Tag: "did:pair", Args: []*Term{mp, k, v}})
	}
	return opt
}

// fits: the number x is known to be one that the type of e holds.
func (tt *Terms) fits(m *Machine, st *State, e, x *Term) bool {
	for _, y := range []*Term{e, tt.App("as:int", types.Typ[types.Int], e)} {
		if v, k := m.truth(st, tt.Eq(x, y)); k && v {
			return true
		}
	}
	for f, v := range st.facts {
		if v && f.K == KApp && f.Op == "==" && (stripConv(f.Args[0]) == e && f.Args[1] == x || stripConv(f.Args[1]) == e && f.Args[0] == x) {
			return true
		}
	}
	b, ok := e.Typ.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	lo, hi := int64(0), int64(0)
	switch b.Kind() {
	case types.Uint8:
		hi = 1<<8 - 1
	case types.Uint16:
		hi = 1<<16 - 1
	case types.Uint32:
		hi = 1<<32 - 1
	case types.Int8:
		lo, hi = -1<<7, 1<<7-1
	case types.Int16:
		lo, hi = -1<<15, 1<<15-1
	case types.Int32:
		lo, hi = -1<<31, 1<<31-1
	default:
		return false
	}
	within := func(y *Term) bool { return m.leq(st, y, tt.Int(hi)) }
	for f := range st.facts {
		for _, a := range f.Args {
			// an unsigned number is never below zero
			if a.K == KApp && strings.HasPrefix(a.Op, "as:uint") && a.Args[0] == x && lo == 0 && within(a) {
				return true
			}
		}
	}
	return within(x) && m.leq(st, tt.Int(lo), x)
}

// none: the flag is known to be empty.
func (w *cliRun) none(flag string) bool {
	v, tt := w.val[flag], w.q.M.TT
	if v == nil {
		return false
	}
	e, k := w.q.M.truth(w.q.St, tt.Eq(v, tt.Const(constant.MakeString(""))))
	return k && e || w.q.M.emptyList(w.q.St, v)
}

// backup: dump and restore.
func (w *cliRun) backup(p *Program, op string) {
	fn := w.cmd.action
	for _, q := range w.r.Paths(p, fn, cliOpt()) {
		w.q = q
		w.flags()
		open := q.Filter("bond.Open")
		if len(open) == 0 {
			v, k := q.Nil(q.Res[0])
			w.check(k && !v, cliFails, q.Pos, "it succeeds without having opened the database")
			continue
		}
		w.check(len(open) == 1 && w.is(open[0].Args[0], "bond-dir"), cliHanded, open[0].Pos, "it is not the database of the flag that is opened")
		if bad, ok := w.failed(open[0]); bad {
			w.check(ok, cliFails, q.Pos, "it succeeds although the database could not be opened")
			continue
		}
		var did []*PathEv
		closed := 0
		for _, e := range q.Evs {
			switch e.Method() {
			case "Dump", "Restore":
				did = append(did, e)
				w.check(e.Method() == op && closed == 0, cliHanded, e.Pos, "it does not "+strings.ToLower(op))
			case "Close":
				closed++
			}
		}
		w.check(closed > 0, cliFails, q.Pos, "the database is left open")
		if len(did) == 0 {
			v, k := q.Nil(q.Res[0])
			w.check(k && !v, cliFails, q.Pos, "it succeeds and has done nothing")
			continue
		}
		e := did[0]
		if !w.check(len(did) == 1 && len(e.Args) == 4, cliHanded, e.Pos, "it is not called once") {
			continue
		}
		w.check(w.is(e.Args[1], "dir"), cliHanded, e.Pos, "the directory is not that of the flag")
		w.check(w.is(e.Args[3], "with-index"), cliHanded, e.Pos, "whether indexes are included is not what the flag says")
		_, ok := w.failed(e)
		w.check(ok, cliFails, q.Pos, "it succeeds although it could not "+strings.ToLower(op))
		w.tables(q, e)
	}
}

// tables: the list handed on is made of the numbers given, each as it is.
func (w *cliRun) tables(q *PathRec, e *PathEv) {
	list, ids := e.Args[2], w.val["tables"]
	if !w.check(ids != nil, cliTables, e.Pos, "the tables are not those of the flag") {
		return
	}
	if q.M.emptyList(q.St, ids) {
		return
	}
	ok := false
	for _, t := range q.St.tups("all:num") {
		if t.Args[0] == ids && t.Args[1] == list && len(t.Args) > 2 && t.Args[2] == q.M.TT.Hole {
			ok = true
		}
	}
	w.check(ok, cliTables, e.Pos, "not every number given is handed on as it is")
}

// inspected: a command that asks the database that Before has opened.
func (w *cliRun) inspected(p *Program, meth string, flags []string, cell ssa.Value) {
	fn := w.cmd.action
	for _, q := range w.r.Paths(p, fn, cliOpt()) {
		w.q = q
		w.flags()
		res := q.Res[0]
		v, k := q.Nil(res)
		succeeds := !k || v
		var asked *PathEv
		var json *Term
		printed := false
		for _, e := range q.Evs {
			if m, ok := strings.CutPrefix(e.Name, "iface:bond/inspect.Inspect."); ok {
				w.check(asked == nil && m == meth, cliHanded, e.Pos, "it does not ask what the command is for")
				w.check(w.cell(e.Recv) == cell, cliHanded, e.Pos, "it does not ask the database of the flag")
				asked = e
				if m == meth {
					w.asked(e, flags)
				}
			}
			switch {
			case strings.HasPrefix(e.Name, "iface:bond/inspect.Inspect.") || strings.HasPrefix(e.Name, "encoding/json."):
				if _, ok := w.failed(e); !ok {
					w.check(false, cliFails, e.Pos, "it succeeds although "+e.Method()+" has failed")
				}
			}
			if e.Name == "encoding/json.Marshal" && asked != nil && asked.Res.K == KTuple && stripAssert(e.Args[0]) == asked.Res.Args[0] && e.Res.K == KTuple {
				json = e.Res.Args[0]
			}
			if (strings.HasPrefix(e.Name, "fmt.") || strings.HasPrefix(e.Name, "os.File.Write") || strings.HasPrefix(e.Name, "iface:io.Writer.Write") || strings.HasPrefix(e.Name, "io.WriteString")) && json != nil {
				for _, a := range e.Args {
					if a == json || a.mentions(json) {
						printed = true
					}
					if l, ok := q.List(a); ok {
						for _, x := range l {
							if x == json || x.mentions(json) {
								printed = true
							}
						}
					}
				}
			}
		}
		if succeeds {
			w.check(asked != nil, cliFails, q.Pos, "it succeeds and has asked nothing")
			w.check(printed, cliPrinted, q.Pos, "it succeeds and the answer is not printed")
		}
	}
}

// cell is the captured variable that a value is read from.
func (w *cliRun) cell(t *Term) ssa.Value {
	if t != nil && t.K == KLoad {
		t = t.Args[0]
	}
	return w.bound(t)
}

func (w *cliRun) bound(t *Term) ssa.Value {
	if t == nil || t.K != KParam {
		return nil
	}
	fn, ok := t.Obj.(*ssa.Function)
	if !ok {
		return nil
	}
	i := t.N - len(fn.Params)
	if i < 0 || fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[i]
			}
		}
	}
	return nil
}

// asked: the arguments are what the flags say.
func (w *cliRun) asked(e *PathEv, flags []string) {
	if !w.check(len(e.Args) == len(flags), cliHanded, e.Pos, "it is asked with other parameters") {
		return
	}
	for i, f := range flags {
		a := e.Args[i]
		v := w.val[f]
		ok, msg := false, "--"+f+" is not handed on"
		switch {
		case v == nil:
		case f == "deadline":
			ok = w.deadline(e, a, v)
			msg = "the query does not end with its deadline"
		case types.Identical(a.Typ, v.Typ):
			ok = w.is(a, f)
		case a == w.q.M.TT.Nil:
			ok = w.none(f)
		default:
			// decoded from the flag
			a = stripAssert(a)
			ok = a.K == KApp && strings.HasPrefix(a.Op, "decoded:") && a.mentions(v)
		}
		w.check(ok, cliHanded, e.Pos, msg)
	}
}

// deadline: the context ends after the time given, and not before it is used.
func (w *cliRun) deadline(e *PathEv, ctx, v *Term) bool {
	q := w.q
	for _, x := range q.Evs {
		switch x.Name {
		case "context.WithTimeout", "context.WithDeadline", "context.WithTimeoutCause", "context.WithDeadlineCause":
		default:
			continue
		}
		if x.Res.K != KTuple || x.Res.Args[0] != ctx {
			continue
		}
		for _, c := range q.Evs {
			if c.Name == "dynamic" && c.Recv == x.Res.Args[1] && q.Index(c) < q.Index(e) {
				return false
			}
		}
		d := x.Args[1]
		if strings.HasPrefix(x.Name, "context.WithTimeout") {
			return d == v
		}
		for _, n := range q.Evs {
			if n.Name == "time.Time.Add" && n.Res == d {
				now := false
				for _, t := range q.Filter("time.Now") {
					now = now || t.Res == n.Recv
				}
				return now && n.Args[0] == v
			}
		}
	}
	return false
}

// before: the inspected database is that of the flag.
func (w *cliRun) before(p *Program) ssa.Value {
	const remote = "bond/inspect.NewInspectRemote"
	fn := w.cmd.before
	var cell ssa.Value
	for _, q := range w.r.Paths(p, fn, cliOpt()) {
		w.q = q
		w.flags()
		tt := q.M.TT
		v, k := q.Nil(q.Res[0])
		succeeds := !k || v
		url := w.val["url"]
		if url == nil {
			w.check(!succeeds, cliHanded, q.Pos, "the url is not asked for")
			continue
		}
		web, file := false, 0
		for f, v := range q.St.facts {
			if f.K == KApp && f.Op == "prefix" && len(f.Args) == 2 && f.Args[0] == url {
				if s, ok := f.Args[1].strVal(); ok && (s == "http://" || s == "https://") {
					if v {
						web = true
					} else {
						file++
					}
				}
			}
		}
		var got *Term
		for _, e := range q.Evs {
			switch {
			case e.Name == remote:
				got = e.Res
				w.check(web, cliHanded, e.Pos, "what is not an http url is taken for one")
				w.check(w.is(e.Args[0], "url"), cliHanded, e.Pos, "another url than that of the flag is inspected")
				w.headers(e)
			case e.Name == "dynamic" && e.Recv.K == KLoad && w.bound(e.Recv.Args[0]) != nil:
				w.check(file == 2, cliHanded, e.Pos, "an http url is taken for a path")
				w.check(len(e.Args) == 1 && w.is(e.Args[0], "url"), cliHanded, e.Pos, "another path than that of the flag is inspected")
				nilFn, known := q.Nil(e.Recv)
				w.check(known && !nilFn, cliFails, e.Pos, "it is called although it may not be there")
				if bad, ok := w.failed(e); bad {
					w.check(ok, cliFails, q.Pos, "it succeeds although the database could not be opened")
				}
				if e.Res.K == KTuple {
					got = e.Res.Args[0]
				}
			}
		}
		if !succeeds {
			continue
		}
		if !w.check(got != nil, cliFails, q.Pos, "it succeeds and nothing is opened") {
			continue
		}
		// where it is left
		found := false
		for i := range fn.FreeVars {
			a := tt.Param(fn, len(fn.Params)+i, fn.FreeVars[i].Type())
			if x, ok := q.St.heap[a]; ok && stripAssert(x) == stripAssert(got) {
				found = true
				cell = w.bound(a)
			}
		}
		w.check(found, cliHanded, q.Pos, "what was opened is not what is inspected")
	}
	return cell
}

// headers: each header given is handed on under its name.
func (w *cliRun) headers(e *PathEv) {
	hs := w.val["headers"]
	if !w.check(hs != nil, cliHeaders, e.Pos, "the headers are not those of the flag") || w.q.M.emptyList(w.q.St, hs) {
		return
	}
	ok := false
	for _, t := range w.q.St.tups("all:pair") {
		if t.Args[0] != hs || t.Args[1] != e.Args[1] || len(t.Args) < 4 {
			continue
		}
		part := func(x *Term) (int, *Term) {
			switch {
			case x.K == KElem && x.Args[0].K == KApp && strings.HasPrefix(x.Args[0].Op, "split"):
				n, _ := x.Args[1].intVal()
				return int(n), x.Args[0].Args[0]
			case x.K == KApp && x.Op == "cut0":
				return 0, x.Args[0]
			case x.K == KApp && x.Op == "cut1":
				return 1, x.Args[0]
			}
			return -1, nil
		}
		a, x := part(t.Args[2])
		b, y := part(t.Args[3])
		if a == 0 && b == 1 && x == y && x == w.q.M.TT.Hole {
			ok = true
		}
	}
	w.check(ok, cliHeaders, e.Pos, "not every header is handed on under its name")
}

// main: what fails ends with a status other than zero.
func cliMain(p *Program, r *Result) {
	fn := r.anchor(p.Find("bond/cmd/bond-cli.main"))
	if fn == nil {
		return
	}
	for _, q := range r.Paths(p, fn, PathOpt{}) {
		var run, exit *PathEv
		for _, e := range q.Evs {
			switch e.Name {
			case cliPkg + ".App.Run", cliPkg + ".App.RunContext":
				run = e
			case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln":
				exit = e
			}
		}
		if !r.PathCheck(q, run != nil, cliFails, "bond-cli main", q.Pos, "the program ends and has run nothing") {
			continue
		}
		r.PathCheck(q, len(run.Args) > 0 && isGlobal(run.Args[len(run.Args)-1], "os", "Args"), cliHanded, "bond-cli main", run.Pos, "it does not run with its arguments")
		v, k := q.Nil(run.Res)
		status := int64(0)
		if exit != nil {
			status = 1
			if exit.Name == "os.Exit" {
				status, _ = exit.Args[0].intVal()
			}
		}
		r.PathCheck(q, k && v == (status == 0), cliFails, "bond-cli main", q.Pos, "whether the program fails is not whether the command has failed")
	}
}

func init() {
	register(&Property{ID: "C39", Run: runCLI})
}

func runCLI(p *Program, r *Result) {
	lits := newCLILits(p)
	var app *cliCmd
	for v := range lits.fields {
		if n := typeName(derefType(v.Type())); n == cliPkg+".App" {
			if v.Parent() == nil || v.Parent().Pkg == nil || v.Parent().Pkg.Pkg.Path() != modPath+"/cmd/bond-cli" {
				continue
			}
			if c := lits.command(v, nil); c != nil {
				app = c
			}
		}
	}
	if app == nil {
		r.Fail("unresolved anchor: the literal of cli.App")
		return
	}
	find := func(c *cliCmd, name string) *cliRun {
		for _, s := range c.subs {
			if s.name == name && (s.action != nil || s.before != nil) {
				return &cliRun{cliLits: lits, r: r, cmd: s, c: "bond-cli " + name}
			}
		}
		r.Fail("unresolved anchor: the command %s", name)
		return nil
	}
	for _, n := range [][2]string{{"dump", "Dump"}, {"restore", "Restore"}} {
		if w := find(app, n[0]); w != nil {
			w.backup(p, n[1])
		}
	}
	cliMain(p, r)
	in := find(app, "inspect")
	if in == nil || in.cmd.before == nil {
		return
	}
	cell := in.before(p)
	for _, n := range [][]string{
		{"tables", "Tables"},
		{"indexes", "Indexes", "table"},
		{"entry-fields", "EntryFields", "table"},
		{"query", "Query", "deadline", "table", "index", "index-selector", "filter", "limit", "after"},
	} {
		if w := find(in.cmd, n[0]); w != nil && w.cmd.action != nil {
			w.inspected(p, n[1], n[2:], cell)
		}
	}
	r.Need(cliHanded, 7)
	r.Need(cliFails, 7)
	r.Need(cliFlag, 6)
	r.Need(cliTables, 2)
	r.Need(cliPrinted, 4)
	r.Need(cliHeaders, 1)
}
