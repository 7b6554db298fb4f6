package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C32: scanning tables of any type ----

type anyScan struct {
	p    *Program
	r    *Result
	fn   *ssa.Function
	meth string
	args []*Term
	recv *Term // the wrapped scanner
}

const (
	anyRule  = "same-scan"
	rowsRule = "same-rows-and-errors"
)

func (w *anyScan) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if ev.Name == "dynamic" {
		return true, []Outcome{{st, w.dyn(m, ev)}}
	}
	if n, ok := strings.CutPrefix(ev.Name, "iface:bond.TableScanner."); ok && ev.Recv == w.recv {
		w.scan(m, st, ev, n)
		m.age(st, ev.Site, ev.Ctx)
		err := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		t := &Tup{Tag: "scanned", Args: []*Term{err}}
		for i, a := range ev.Args {
			if e, ok := ptrElem(ev.Sig.Params().At(i).Type()); ok {
				if _, isS := e.Underlying().(*types.Slice); isS {
					bad := st.clone()
					rows := tt.Call(ev.Site, ev.Ctx, 1, e)
					m.store(st, a, rows)
					m.store(bad, a, tt.Call(ev.Site, ev.Ctx, 2, e))
					st.add(&Tup{Tag: "rows", Args: []*Term{rows}})
					m.assume(st, tt.Eq(err, tt.Nil), true)
					m.assume(bad, tt.Eq(err, tt.Nil), false)
					bad.add(t)
					st.add(t)
					return true, []Outcome{{st, err}, {bad, err}}
				}
			}
		}
		st.add(t)
		return true, []Outcome{{st, err}}
	}
	return false, nil
}

// dyn: the results of an unknown function depend on its arguments.
func (w *anyScan) dyn(m *Machine, ev *Event) *Term {
	var xs []*Term
	for i := 0; i < ev.Sig.Results().Len(); i++ {
		as := []*Term{ev.Val}
		for _, a := range ev.Args {
			as = append(as, unwrap(a))
		}
		xs = append(xs, m.TT.App(fmt.Sprintf("dyn%d", i), ev.Sig.Results().At(i).Type(), as...))
	}
	switch len(xs) {
	case 0:
		return nil
	case 1:
		return xs[0]
	}
	return m.TT.Tuple(xs...)
}

// callTerm calls a function and gives its results on every path.
func (w *anyScan) callTerm(m *Machine, st *State, f *Term, args []*Term) (outs []Outcome, ok bool) {
	f = stripConv(f)
	h, _ := f.Obj.(*ssa.Function)
	if f.K != KFunc || h == nil {
		return nil, false
	}
	return m.callFunc(m.root, st.clone(), w.fn.Blocks[0].Instrs[0], h, args, f.Args, h.Signature), true
}

func (w *anyScan) is(t *Term, op string, f *Term, args ...*Term) bool {
	t = unwrap(t)
	if t == nil || t.K != KApp || t.Op != op || len(t.Args) != len(args)+1 || t.Args[0] != f {
		return false
	}
	for i, a := range args {
		if unwrap(t.Args[i+1]) != a {
			return false
		}
	}
	return true
}

// scan: the wrapped scanner is called.
func (w *anyScan) scan(m *Machine, st *State, ev *Event, name string) {
	tt := m.TT
	c := "bond.TableAnyScanner: " + w.meth
	check := func(ok bool, what, msg string) { m.Check(st, ok, anyRule, c+": "+what, ev.Pos, msg) }
	check(name == w.meth, "method", "it performs "+name)
	check(len(st.tups("scanned")) == 0, "once", "it scans twice")
	if name != w.meth {
		return
	}
	for i, a := range w.args {
		x := ev.Args[i]
		typ := ev.Sig.Params().At(i).Type()
		switch u := typ.Underlying().(type) {
		case *types.Signature:
			w.callback(m, st, ev, a, x, u)
		case *types.Pointer:
			if _, isS := u.Elem().Underlying().(*types.Slice); isS {
				v := m.load(st, x, u.Elem())
				check(m.emptyList(st, v) || v == tt.Nil || v == tt.Zero(u.Elem()), "rows", "the rows are not put into a new list")
				continue
			}
			w.index(m, st, ev, a, x)
		default:
			check(stripAssert(x) == a, ev.Sig.Params().At(i).Name(), fmt.Sprintf("it scans with %v", x))
		}
	}
}

// index: the index for the wrapped scanner is the given one.
func (w *anyScan) index(m *Machine, st *State, ev *Event, a, x *Term) {
	tt := m.TT
	c := "bond.TableAnyScanner: " + w.meth + ": index"
	e, _ := ptrElem(a.Typ)
	s, ok := e.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i).Name()
		got, want := m.loadPath(st, x, f), m.loadPath(st, a, f)
		sig, isF := s.Field(i).Type().Underlying().(*types.Signature)
		if !isF {
			m.Check(st, got == want, anyRule, c, ev.Pos, "it scans another index: "+f+" differs")
			continue
		}
		var args []*Term
		for j := 0; j < sig.Params().Len(); j++ {
			args = append(args, tt.App(fmt.Sprintf("in:%s:%d", f, j), sig.Params().At(j).Type()))
		}
		outs, known := w.callTerm(m, st, got, args)
		m.Check(st, known && len(outs) > 0, anyRule, c, ev.Pos, "the "+f+" of the index is not known")
		for _, o := range outs {
			if o.st == nil {
				continue
			}
			if w.is(o.res, "dyn0", want, args...) {
				continue
			}
			v, k := m.isNil(o.st, want)
			def := k && v && (o.res == args[0] || o.res == tt.True)
			m.Check(o.st, def, anyRule, c, ev.Pos, fmt.Sprintf("the %s of the index gives %v", f, o.res))
		}
	}
}

// callback: what the wrapped scanner calls passes on key, row and result.
func (w *anyScan) callback(m *Machine, st *State, ev *Event, f, x *Term, sig *types.Signature) {
	tt := m.TT
	c := "bond.TableAnyScanner: " + w.meth + ": callback"
	var args []*Term
	for j := 0; j < sig.Params().Len(); j++ {
		args = append(args, tt.App(fmt.Sprintf("cb:%d", j), sig.Params().At(j).Type()))
	}
	if len(args) != 2 {
		m.Check(st, false, rowsRule, c, ev.Pos, "the callback is not known")
		return
	}
	outs, known := w.callTerm(m, st, x, args)
	m.Check(st, known && len(outs) > 0, rowsRule, c, ev.Pos, "the callback is not known")
	for _, o := range outs {
		if o.st == nil || o.res == nil || o.res.K != KTuple {
			continue
		}
		r0, r1 := o.res.Args[0], o.res.Args[1]
		ok := r0.K == KApp && r0.Op == "dyn0" && len(r0.Args) == 3 && r0.Args[0] == f && r0.Args[1] == args[0] &&
			r1.K == KApp && r1.Op == "dyn1" && len(r1.Args) == 3 && r1.Args[0] == f
		m.Check(o.st, ok, rowsRule, c, ev.Pos, fmt.Sprintf("the callback returns %v, %v instead of what the given function returns", r0, r1))
		if !ok {
			continue
		}
		lazy := r0.Args[2]
		get := m.TT.Fld(lazy, 0, lazy.Typ.Underlying().(*types.Struct).Field(0).Type())
		src := m.TT.Fld(args[1], 0, args[1].Typ.Underlying().(*types.Struct).Field(0).Type())
		gets, known := w.callTerm(m, o.st, get, nil)
		m.Check(o.st, known && len(gets) > 0, rowsRule, c, ev.Pos, "how the row is read is not known")
		for _, g := range gets {
			if g.st == nil || g.res == nil || g.res.K != KTuple {
				continue
			}
			row := w.is(g.res.Args[0], "dyn0", src)
			err := w.is(g.res.Args[1], "dyn1", src)
			e := tt.App("dyn1", g.res.Args[1].Typ, src)
			if v, k := m.isNil(g.st, e); k && !v {
				row = true
			} else if k && v && g.res.Args[1] == tt.Nil {
				err = true
			}
			m.Check(g.st, row && err, rowsRule, c, ev.Pos, fmt.Sprintf("reading the row gives %v, %v", g.res.Args[0], g.res.Args[1]))
		}
	}
}

func (w *anyScan) onReturn(m *Machine, st0 *State, res []*Term, pos string) {
	tt := m.TT
	n, err := w.p.Named("", "TableScanner")
	if err != nil {
		w.r.Fail("%v", err)
		return
	}
	w.recv = m.entryParams[0]
	it := n.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		meth := it.Method(i)
		w.meth, w.args = meth.Name(), nil
		// the method of the result, whose rows are of any type
		got := unwrap(res[0])
		ms := types.NewMethodSet(got.Typ)
		sel := ms.Lookup(meth.Pkg(), meth.Name())
		if sel == nil {
			m.Check(st0, false, anyRule, w.meth, pos, "the scanner is not known")
			continue
		}
		sig := sel.Type().(*types.Signature)
		for j := 0; j < sig.Params().Len(); j++ {
			w.args = append(w.args, tt.App(fmt.Sprintf("arg:%s:%d", w.meth, j), sig.Params().At(j).Type()))
		}
		c := "bond.TableAnyScanner: " + w.meth
		k := 0
		for _, o := range m.invoke(m.root, st0.clone(), w.fn.Blocks[0].Instrs[0], meth, n, res[0], w.args, sig) {
			if o.st == nil || o.res == nil {
				continue
			}
			k++
			s := o.st.find("scanned", func(*Tup) bool { return true })
			if s == nil {
				m.Check(o.st, false, anyRule, c, pos, "it returns without a scan")
				continue
			}
			e := s.Args[0]
			ok := o.res == e
			if v, known := m.isNil(o.st, e); known && v {
				ok = ok || o.res == tt.Nil
			} else if known {
				v, known := m.isNil(o.st, o.res)
				m.Check(o.st, known && !v, rowsRule, c, pos, "it succeeds although the scan failed")
				continue
			}
			m.Check(o.st, ok, rowsRule, c, pos, fmt.Sprintf("it returns %v instead of the error of the scan", o.res))
			for _, t := range o.st.tups("rows") {
				w.appended(m, o.st, t.Args[0], c, pos)
			}
		}
		m.Check(st0, k > 0, anyRule, c, pos, "it never returns")
	}
}

// appended: the rows of the scan are in the given list, after what was in it.
func (w *anyScan) appended(m *Machine, st *State, rows *Term, c, pos string) {
	tt := m.TT
	for _, a := range w.args {
		e, ok := ptrElem(a.Typ)
		if !ok {
			continue
		}
		if _, isS := e.Underlying().(*types.Slice); !isS {
			continue
		}
		was := tt.Load(a, e)
		now := m.load(st, a, e)
		if v, k := m.truth(st, tt.Eq(tt.Len(rows), tt.Int(0))); k && v {
			m.Check(st, now == was || now.K == KAcc, rowsRule, c, pos, fmt.Sprintf("the list becomes %v although no row was found", now))
			continue
		}
		in := st.find("all:in", func(t *Tup) bool {
			return t.Args[0] == rows && t.Args[1] == now && unwrap(t.Args[2]) == tt.Hole
		})
		m.Check(st, in != nil, rowsRule, c, pos, fmt.Sprintf("the list becomes %v, from which rows of the scan may be missing", now))
		base := false
		for _, t := range st.user {
			if (t.Tag == "did:sub" || t.Tag == "all:sub") && len(t.Args) >= 2 {
				as := t.Args[len(t.Args)-2:]
				base = base || as[0] == now && (as[1] == was || as[1].K == KOld)
			}
		}
		m.Check(st, base, rowsRule, c, pos, "what was in the list is lost")
	}
}

func runAnyScan(p *Program, r *Result) {
	fn := r.anchor(p.Find("bond.TableAnyScanner"))
	if fn == nil {
		return
	}
	w := &anyScan{p: p, r: r, fn: fn}
	spec := &Spec{Call: w.call, TrackLists: true, Depth: 20, OnReturn: w.onReturn, KeepFact: func(*Machine, *Term) bool { return true }}
	r.Interpret(p, spec, fn, nil)
	r.Need(anyRule, 10)
	r.Need(rowsRule, 4)
}

func init() {
	register(&Property{ID: "C32", Run: runAnyScan})
}
