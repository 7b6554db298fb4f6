package main

import (
	"fmt"
	"go/types"
	"regexp"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C37: the file storer of filters: a value is kept in the file of its key, is
// read from there, and a range is removed, no more and no less.
//
// File names are terms: join(parts...) and strip(key, regexp, replacement).
type fsStore struct {
	p      *Program
	r      *Result
	name   string
	ps     []*Term
	names  []*Term           // of the files walked over
	walked map[*Term]*Term   // entry: its name
	file   map[string]string // how the file name is made, by method
}

const (
	fsOwn    = "value-of-its-own-key"
	fsErr    = "failure-is-returned"
	fsRange  = "range-removed-exactly"
	fsNames  = "names-keep-what-filters-use"
	fsUnique = "different-keys-different-files"
)

// path gives calls that make file names a canonical form.
func (w *fsStore) path(m *Machine, st *State, ev *Event) (*Term, bool) {
	tt := m.TT
	str := types.Typ[types.String]
	switch ev.Name {
	case "path.Join", "path/filepath.Join":
		l, ok := m.listElems(st, ev.Args[0])
		if !ok {
			return nil, false
		}
		var parts []*Term
		for _, x := range l {
			switch {
			case x.K == KConst && x.Val != nil && x.Val.ExactString() == `""`, x.K == KZero:
			case x.K == KApp && x.Op == "join":
				parts = append(parts, x.Args...)
			default:
				parts = append(parts, x)
			}
		}
		if len(parts) == 1 {
			return parts[0], true
		}
		return tt.App("join", str, parts...), true
	case "path/filepath.Base", "path.Base", "path/filepath.Clean", "path.Clean":
		return ev.Args[0], true
	}
	if strings.HasPrefix(ev.Name, "regexp.Regexp.ReplaceAll") && len(ev.Args) == 2 && !strings.HasSuffix(ev.Name, "Func") {
		return tt.App("strip", ev.Sig.Results().At(0).Type(), stripConv(ev.Args[0]), ev.Recv, stripConv(ev.Args[1])), true
	}
	if strings.HasPrefix(ev.Name, "strings.Compare") {
		return tt.App("bytes.Compare", types.Typ[types.Int], ev.Args...), true
	}
	return nil, false
}

// norm is the shape of a file name, with the parameters by position.
func (w *fsStore) norm(m *Machine, t *Term) string {
	s := t.String()
	for i, p := range w.ps {
		s = regexp.MustCompile(`\b`+regexp.QuoteMeta(p.String())+`\b`).ReplaceAllString(s, fmt.Sprintf("#%d", i))
	}
	return strings.ReplaceAll(strings.ReplaceAll(s, "conv:string", ""), "conv:[]byte", "")
}

// mentionsWhole: t mentions x other than in what is stripped.
func mentionsWhole(t, x *Term) bool {
	if t == x {
		return true
	}
	if t.K == KApp && t.Op == "strip" {
		return false
	}
	for _, a := range t.Args {
		if mentionsWhole(a, x) {
			return true
		}
	}
	return false
}

// fileName is the file name t with the storer's directory taken off.
func (w *fsStore) fileName(m *Machine, st *State, t *Term) *Term {
	if t.K != KApp || t.Op != "join" || len(t.Args) != 2 || t.Args[0] != m.loadPath(st, w.ps[0], "path") {
		return nil
	}
	return stripConv(t.Args[1])
}

// compare tells what f == v says of name and a bound: v of "name < bound".
func (w *fsStore) compare(f *Term, v bool, name *Term, bound func(*Term) bool) (less, known bool) {
	is := func(a, b *Term) bool { return stripConv(a) == name && bound(b) }
	if f.K != KApp || len(f.Args) != 2 {
		return false, false
	}
	a, b := f.Args[0], f.Args[1]
	switch {
	case f.Op == "<" && is(a, b):
		return v, true
	case f.Op == "<" && a.K == KApp && a.Op == "bytes.Compare" && b.isInt(0) && is(a.Args[0], a.Args[1]):
		return v, true
	case f.Op == "<" && b.K == KApp && b.Op == "bytes.Compare" && a.isInt(-1) && is(b.Args[0], b.Args[1]):
		return !v, true
	case f.Op == "<" && b.K == KApp && b.Op == "bytes.Compare" && a.isInt(0) && is(b.Args[1], b.Args[0]):
		return v, true
	case f.Op == "<" && a.K == KApp && a.Op == "bytes.Compare" && b.isInt(1) && is(a.Args[1], a.Args[0]):
		return !v, true
	case f.Op == "==":
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if x := p[0]; x.K == KApp && x.Op == "bytes.Compare" {
				if is(x.Args[0], x.Args[1]) && (v || p[1].isInt(-1)) {
					return v == p[1].isInt(-1), true
				}
				if is(x.Args[1], x.Args[0]) && (v || p[1].isInt(1)) {
					return v == p[1].isInt(1), true
				}
			}
		}
	}
	return false, false
}

// onFact keeps where a file's name lies, as what was compared may be gone later.
func (w *fsStore) onFact(m *Machine, st *State, t *Term, v bool) {
	if t.K == KApp && t.Op == "isdir" && v {
		st.add(&Tup{Tag: "not-a-file", Args: t.Args})
		st.add(&Tup{Tag: "did:handled", Args: t.Args})
	}
	for _, n := range w.names {
		for _, b := range []struct {
			is    func(*Term) bool
			below string
			other string
		}{{w.isStart, "before", "after-start"}, {w.isEnd, "before-end", "behind"}} {
			if less, known := w.compare(t, v, n, b.is); known {
				where := b.other
				if less {
					where = b.below
				}
				st.add(&Tup{Tag: where, Args: []*Term{n}})
				if where == "before" || where == "behind" {
					w.handled(st, n)
				}
			}
		}
	}
}

// handled: nothing is left to do for the file.
func (w *fsStore) handled(st *State, n *Term) {
	if n.K == KApp && n.Op == "entryname" {
		st.add(&Tup{Tag: "did:handled", Args: n.Args})
	}
}

func (w *fsStore) isDir(m *Machine, st *State, t *Term) bool {
	dir := m.loadPath(st, w.ps[0], "path")
	return t == dir || t.K == KApp && t.Op == "dirfs" && t.Args[0] == dir
}

func (w *fsStore) lies(st *State, where string, n *Term) bool {
	return st.find(where, func(u *Tup) bool { return u.Args[0] == n }) != nil
}

func (w *fsStore) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	if t, ok := w.path(m, st, ev); ok {
		return true, []Outcome{{st, t}}
	}
	r := w.r
	switch {
	case ev.Name == "os.ReadFile" && lastName(w.name) == "Get":
		w.file["Get"] = w.norm(m, ev.Args[0])
		m.Check(st, w.fileName(m, st, ev.Args[0]) != nil && ev.Args[0].mentions(w.ps[1]), fsOwn, w.name, ev.Pos, "the file that is read is not that of the key")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		data := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		st.add(&Tup{Tag: "read", Args: []*Term{data}})
		bad.add(&Tup{Tag: "failed"})
		return true, []Outcome{m.okOutcome(st, ev, data), m.errOutcome(bad, ev, nil)}
	case ev.Name == "os.WriteFile" && lastName(w.name) == "Set":
		w.file["Set"] = w.norm(m, ev.Args[0])
		ok := ev.Args[0].mentions(w.ps[1]) && stripConv(ev.Args[1]) == w.ps[2]
		m.Check(st, ok, fsOwn, w.name, ev.Pos, "what is written is not the value, or not to the file of the key")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "written"})
		bad.add(&Tup{Tag: "failed"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case ev.Name == "os.DirFS":
		return true, []Outcome{{st, m.TT.App("dirfs", ev.Sig.Results().At(0).Type(), ev.Args[0])}}
	case ev.Name == "io/fs.WalkDir" || ev.Name == "path/filepath.WalkDir":
		return true, w.walk(m, st, ev)
	case (strings.HasSuffix(ev.Name, "fs.DirEntry.Name") || strings.HasSuffix(ev.Name, "fs.FileInfo.Name")) && ev.Recv != nil:
		if n := w.walked[ev.Recv]; n != nil {
			return true, []Outcome{{st, n}}
		}
		n := m.TT.App("entryname", types.Typ[types.String], ev.Recv)
		if !slices.Contains(w.names, n) {
			w.names = append(w.names, n)
		}
		return true, []Outcome{{st, n}}
	case ev.Name == "os.ReadDir" || ev.Name == "io/fs.ReadDir":
		m.Check(st, w.isDir(m, st, ev.Args[len(ev.Args)-1]) || w.isDir(m, st, ev.Args[0]), fsRange, w.name, ev.Pos, "it is not the storer's directory that is searched")
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		bad.add(&Tup{Tag: "failed"})
		l := m.TT.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		st.add(&Tup{Tag: "listed", Args: []*Term{l}})
		return true, []Outcome{m.okOutcome(st, ev, l), m.errOutcome(bad, ev, nil)}
	case strings.HasSuffix(ev.Name, "fs.DirEntry.IsDir") && ev.Recv != nil:
		return true, []Outcome{{st, m.TT.App("isdir", types.Typ[types.Bool], ev.Recv)}}
	case ev.Name == "os.Remove" || ev.Name == "os.RemoveAll":
		n := w.fileName(m, st, ev.Args[0])
		ok := n != nil && slices.Contains(w.names, n)
		m.Check(st, ok, fsRange, w.name, ev.Pos, "what is removed is not a file of the storer")
		if ok {
			m.Check(st, w.lies(st, "after-start", n), fsRange, w.name, ev.Pos, "a file is removed that lies before the range")
			m.Check(st, w.lies(st, "before-end", n), fsRange, w.name, ev.Pos, "a file is removed that lies behind the range")
		}
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "removed"})
		if n != nil {
			w.handled(st, n)
		}
		bad.add(&Tup{Tag: "failed"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case strings.HasPrefix(ev.Name, "os.") && hasErr(ev.Sig):
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		bad.add(&Tup{Tag: "failed"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	_ = r
	return false, nil
}

func (w *fsStore) isStart(t *Term) bool { return t.mentions(w.ps[1]) && !t.mentions(w.ps[2]) }

// isEnd: t ends the range. What file names do not have of the end must not be
// taken off, as the end is the prefix with another last character.
func (w *fsStore) isEnd(t *Term) bool { return mentionsWhole(t, w.ps[2]) }

// walk: the function is called with each file.
func (w *fsStore) walk(m *Machine, st *State, ev *Event) []Outcome {
	m.Check(st, w.isDir(m, st, ev.Args[0]), fsRange, w.name, ev.Pos, "it is not the storer's directory that is searched")
	f := ev.Args[len(ev.Args)-1]
	if f.K != KFunc {
		m.Check(st, false, fsRange, w.name, ev.Pos, "what is done with the files is not known")
		return nil
	}
	m.age(st, ev.Site, ev.Ctx)
	tt := m.TT
	sig := ev.Sig.Params().At(ev.Sig.Params().Len() - 1).Type().Underlying().(*types.Signature)
	n, d, e := tt.Sym(ev.Site, ev.Ctx, 901, types.Typ[types.String]), tt.Sym(ev.Site, ev.Ctx, 902, sig.Params().At(1).Type()), tt.Sym(ev.Site, ev.Ctx, 903, sig.Params().At(2).Type())
	w.names = append(w.names, n)
	w.walked[d] = n // sub-directories are not walked into
	var outs []Outcome
	bad := st.clone()
	bad.add(&Tup{Tag: "failed"})
	outs = append(outs, m.errOutcome(bad, ev, nil))
	for _, broken := range []bool{true, false} {
		in := st.clone()
		if !m.assume(in, tt.Eq(e, tt.Nil), !broken) {
			continue
		}
		for _, o := range m.callClosure(in, ev, f, []*Term{n, d, e}, 0) {
			s := o.st
			v, k := m.isNil(s, o.res)
			failed := broken || len(s.tups("failed")) > 0
			m.Check(s, !failed || o.res == e || k && !v, fsErr, w.name, ev.Pos, "it goes on although a file could not be read or removed")
			if failed || k && !v || len(s.tups("removed")) > 0 {
				continue
			}
			ok := w.lies(s, "not-a-file", d) || w.lies(s, "before", n) || w.lies(s, "behind", n)
			m.Check(s, ok, fsRange, w.name, ev.Pos, "a file of the range may be left")
		}
	}
	st.add(&Tup{Tag: "walked"})
	outs = append(outs, m.okOutcome(st, ev))
	return outs
}

func runFSStore(p *Program, r *Result) {
	w := &fsStore{p: p, r: r, file: map[string]string{}, walked: map[*Term]*Term{}}
	for _, n := range []string{"Get", "Set", "DeleteRange"} {
		fn := r.anchor(p.Find("bond/filters.FilterFSStorer." + n))
		if fn == nil {
			continue
		}
		n := n
		w.name = "filters.FilterFSStorer." + n
		spec := &Spec{Call: w.call, OnFact: w.onFact, KeepFact: func(*Machine, *Term) bool { return true }}
		spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			_, k := m.retErr(st, res)
			if len(st.tups("failed")) > 0 {
				m.Check(st, k == "err", fsErr, w.name, pos, "it succeeds although the file system failed")
				return
			}
			if k == "err" {
				return
			}
			switch n {
			case "Get":
				u := st.find("read", func(*Tup) bool { return true })
				m.Check(st, u != nil && u.Args[0] == res[0], fsOwn, w.name, pos, "what is returned is not what the file holds")
				v, known := m.isNil(st, res[1])
				m.Check(st, known && !v || res[1].K == KCall, fsOwn, w.name, pos, "there is nothing to close")
			case "DeleteRange":
				done := len(st.tups("walked")) > 0
				for _, l := range st.tups("listed") {
					done = done || m.emptyList(st, l.Args[0]) || st.find("all:handled", func(u *Tup) bool { return u.Args[0] == l.Args[0] && u.Args[1] == m.TT.Hole }) != nil
				}
				m.Check(st, done, fsRange, w.name, pos, "files of the range may be left")
			case "Set":
				m.Check(st, len(st.tups("written")) > 0, fsOwn, w.name, pos, "the value is not written")
			}
		}
		r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) { w.ps = ps })
	}
	r.Check(w.file["Get"] != "" && w.file["Get"] == w.file["Set"], fsOwn, "filters.FilterFSStorer", "", "values are not read from where they are written: "+w.file["Get"]+" and "+w.file["Set"])
	r.Need(fsOwn, 3)
	r.Need(fsErr, 3)
	r.Need(fsRange, 1)

	// what file names leave out
	fn := r.anchor(p.Find("bond/filters.NewFSFilterStorer"))
	if fn == nil {
		return
	}
	for _, q := range r.Paths(p, fn, PathOpt{}) {
		r.PathCheck(q, q.field(q.Res[0], "path") == q.Params[0], fsOwn, "filters.NewFSFilterStorer", q.Pos, "the storer's directory is not the one given")
	}
	for _, f := range append([]*ssa.Function{fn}, initsOf(fn)...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || !strings.HasPrefix(calleeName(c.Call.StaticCallee()), "regexp.MustCompile") && calleeName(c.Call.StaticCallee()) != "regexp.Compile" {
					continue
				}
				k, ok := c.Call.Args[0].(*ssa.Const)
				if !ok || k.Value == nil {
					continue
				}
				pat := strings.Trim(k.Value.ExactString(), `"`)
				re, err := regexp.Compile(pat)
				if err != nil {
					r.Check(false, fsNames, "filters.NewFSFilterStorer", p.Pos(c.Pos()), "the pattern does not compile")
					continue
				}
				lost := ""
				for _, ch := range "0123456789bnf_" {
					if re.MatchString(string(ch)) {
						lost += string(ch)
					}
				}
				r.Check(lost == "", fsNames, "filters.NewFSFilterStorer", p.Pos(c.Pos()), "file names leave out "+lost+" of the keys of filters: their buckets share files")
				other := ""
				for ch := 0; ch < 128; ch++ {
					if re.MatchString(string(rune(ch))) {
						other += string(rune(ch))
					}
				}
				r.Check(other == "", fsUnique, "filters.FilterFSStorer", p.Pos(c.Pos()), "keys that differ only in characters that file names leave out share a file")
			}
		}
	}
}

// initsOf are the initialisers of the function's package.
func initsOf(fn *ssa.Function) []*ssa.Function {
	if fn.Pkg == nil {
		return nil
	}
	if f := fn.Pkg.Func("init"); f != nil {
		return []*ssa.Function{f}
	}
	return nil
}

func init() {
	register(&Property{ID: "C37", Run: func(p *Program, r *Result) {
		runFSStore(p, r)
	}})
}
