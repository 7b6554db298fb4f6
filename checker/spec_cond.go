package main

import (
	"fmt"
	"go/types"
	"strings"
)

// ---- C30: conditions ----

// A condition is built and evaluated in one interpretation; what it is made of
// does not matter.
type condCheck struct {
	p    *Program
	r    *Result
	eval *types.Func
	typ  types.Type
}

const condEval = "iface:bond/cond.Cond.Eval"

func stripAssert(t *Term) *Term {
	for {
		switch {
		case t.K == KIface && len(t.Args) == 1:
			t = t.Args[0]
		case t.K == KApp && t.Op == "assert":
			t = t.Args[0]
		default:
			return t
		}
	}
}

func (k *condCheck) run(name string, check func(m *Machine, st *State, ps []*Term, row, res *Term, pos string) string) {
	fn := k.r.anchor(k.p.Find("bond/cond." + name))
	if fn == nil {
		return
	}
	c := "bond/cond." + name
	spec := &Spec{TrackLists: true, KeepFact: func(*Machine, *Term) bool { return true }}
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		bt := types.Typ[types.Bool]
		switch {
		case ev.Name == condEval && ev.Recv != nil && ev.Recv.K != KIface:
			x := stripAssert(ev.Recv)
			if len(ev.Args) != 1 || ev.Args[0].K != KApp || ev.Args[0].Op != "row" {
				m.Check(st, false, "condition-asks-about-the-row", c, ev.Pos, "the condition is asked about something else than the row")
			}
			no := st.clone()
			st.add(&Tup{Tag: "did:true", Args: []*Term{x}})
			no.add(&Tup{Tag: "did:false", Args: []*Term{x}})
			root := x
			if x.K == KElem {
				root = x.Args[0]
			}
			no.add(&Tup{Tag: "some", Args: []*Term{root}, Data: "false"})
			st.add(&Tup{Tag: "some", Args: []*Term{root}, Data: "true"})
			return true, []Outcome{{st, m.TT.True}, {no, m.TT.False}}
		case ev.Name == "dynamic":
			if len(ev.Args) != 1 || ev.Args[0].K != KApp || ev.Args[0].Op != "row" {
				m.Check(st, false, "condition-asks-about-the-row", c, ev.Pos, "the condition is asked about something else than the row")
			}
			return true, []Outcome{{st, m.TT.App("val", ev.Sig.Results().At(0).Type(), append([]*Term{ev.Val}, ev.Args...)...)}}
		case strings.HasSuffix(ev.Name, "assert.ObjectsAreEqual") || ev.Name == "reflect.DeepEqual":
			a, b := stripAssert(ev.Args[0]), stripAssert(ev.Args[1])
			if a.String() > b.String() {
				a, b = b, a
			}
			return true, []Outcome{{st, m.TT.App("equal", bt, a, b)}}
		}
		return false, nil
	}
	var ps []*Term
	n := 0
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		if len(res) != 1 {
			return
		}
		row := m.TT.App("row", types.NewInterfaceType(nil, nil))
		outs := m.invoke(m.root, st, fn.Blocks[0].Instrs[0], k.eval, k.typ, res[0], []*Term{row}, k.eval.Type().(*types.Signature))
		for _, o := range outs {
			n++
			bad := check(m, o.st, ps, row, o.res, pos)
			m.Check(o.st, bad == "", "condition-means-what-it-says", c, pos, bad)
		}
	}
	k.r.Interpret(k.p, spec, fn, func(m *Machine, st *State, p []*Term) { ps = p })
	k.r.Check(n > 0, "condition-means-what-it-says", c, "", "the condition gives no answer")
}

// is: the result is the given formula.
func condIs(m *Machine, st *State, res, want *Term) string {
	if res == want {
		return ""
	}
	if v, known := m.truth(st, want); known && res != nil && res == m.TT.boolTerm(v) {
		return ""
	}
	if want.Op == "<=" { // less, or else equal
		lt, eq := m.TT.App("<", want.Typ, want.Args...), m.TT.Eq(want.Args[0], want.Args[1])
		l, kl := m.truth(st, lt)
		e, ke := m.truth(st, eq)
		if (kl && l || ke && e) && res == m.TT.True || kl && !l && (res == eq || ke && !e && res == m.TT.False) || ke && !e && res == lt {
			return ""
		}
	}
	return fmt.Sprintf("it answers %v, not %v", res, want)
}

func runCond(p *Program, r *Result) {
	n, err := p.Named("cond", "Cond")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	k := &condCheck{p: p, r: r, typ: n}
	if i, ok := n.Underlying().(*types.Interface); ok {
		for j := 0; j < i.NumMethods(); j++ {
			if i.Method(j).Name() == "Eval" {
				k.eval = i.Method(j)
			}
		}
	}
	if k.eval == nil {
		r.Fail("unresolved anchor: bond/cond.Cond.Eval")
		return
	}
	bt := types.Typ[types.Bool]
	val := func(m *Machine, ps []*Term, row *Term) *Term {
		sig := ps[0].Typ.Underlying().(*types.Signature)
		return m.TT.App("val", sig.Results().At(0).Type(), ps[0], row)
	}
	cmp := func(op string, swap bool) func(*Machine, *State, []*Term, *Term, *Term, string) string {
		return func(m *Machine, st *State, ps []*Term, row, res *Term, pos string) string {
			a, b := val(m, ps, row), ps[1]
			if swap {
				a, b = b, a
			}
			return condIs(m, st, res, m.TT.App(op, bt, a, b))
		}
	}
	k.run("Lt", cmp("<", false))
	k.run("Gt", cmp("<", true))
	k.run("Lte", cmp("<=", false))
	k.run("Gte", cmp("<=", true))
	k.run("Eq", func(m *Machine, st *State, ps []*Term, row, res *Term, pos string) string {
		a, b := val(m, ps, row), ps[1]
		if a.String() > b.String() {
			a, b = b, a
		}
		return condIs(m, st, res, m.TT.App("equal", bt, a, b))
	})
	k.run("Func", func(m *Machine, st *State, ps []*Term, row, res *Term, pos string) string {
		return condIs(m, st, res, val(m, ps, row))
	})
	k.run("Not", func(m *Machine, st *State, ps []*Term, row, res *Term, pos string) string {
		for _, t := range st.tups("some") {
			if t.Args[0] == ps[0] && res == m.TT.boolTerm(t.Data == "false") {
				return ""
			}
		}
		return "it does not answer the opposite of its condition"
	})
	list := func(every string) func(*Machine, *State, []*Term, *Term, *Term, string) string {
		verdict := every == "true"
		return func(m *Machine, st *State, ps []*Term, row, res *Term, pos string) string {
			if res != m.TT.True && res != m.TT.False {
				return fmt.Sprintf("it answers %v", res)
			}
			// the given conditions, or a list of all of them and nothing else
			from := func(c *Term) bool {
				if c == ps[0] {
					return true
				}
				all := false
				for _, t := range st.tups("all:in") {
					all = all || t.Args[0] == ps[0] && t.Args[1] == c && t.Args[2] == m.TT.Hole
				}
				for _, t := range st.tups("did:sub") {
					all = all || t.Args[0] == c && t.Args[1] == ps[0]
				}
				return all
			}
			if res == m.TT.boolTerm(verdict) {
				for _, t := range st.tups("all:" + every) {
					if t.Args[1] == m.TT.Hole && from(t.Args[0]) {
						return ""
					}
				}
				for _, t := range st.tups("did:sub") {
					if t.Args[1] == ps[0] && m.emptyList(st, t.Args[0]) {
						return ""
					}
				}
				if m.emptyList(st, ps[0]) {
					return ""
				}
				return fmt.Sprintf("it answers %v although not every condition did", verdict)
			}
			for _, t := range st.tups("some") {
				if t.Data != every && from(t.Args[0]) {
					return ""
				}
			}
			return fmt.Sprintf("it answers %v although no condition did", !verdict)
		}
	}
	k.run("And", list("true"))
	k.run("Or", list("false"))
	r.Need("condition-means-what-it-says", 9)
}

func init() {
	register(&Property{ID: "C30", Run: runCond})
}
