package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// selectorKinds: each kind of selector, with what makes it, reads it, and
// changes it, and the type it tells.
var selectorKinds = []struct{ kind, get, set string }{
	{"Point", "Point", "SetPoint"},
	{"Points", "Points", "SetPoints"},
	{"Range", "Range", "SetRange"},
	{"Ranges", "Ranges", "SetRanges"},
}

// runSelectorValues: a selector selects what it was made with or set to last.
func runSelectorValues(p *Program, r *Result) {
	rule := "selectors-keep-what-they-were-given"
	for _, k := range selectorKinds {
		c := "bond.NewSelector" + k.kind
		fn := r.anchor(p.Find(c))
		if fn == nil {
			continue
		}
		want, _ := p.Pkgs[""].Types.Scope().Lookup("SelectorType" + k.kind).(*types.Const)
		if want == nil {
			r.Fail("unresolved anchor: bond.SelectorType%s", k.kind)
			continue
		}
		spec := &Spec{TrackLists: true}
		spec.OnMake = func(m *Machine, st *State, list, n *Term) {
			st.add(&Tup{Tag: "made", Args: []*Term{list, n}})
		}
		spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			obj := unwrap(res[0])
			call := func(st *State, name string, args ...*Term) []Outcome {
				fn := p.boundMethod(obj, name)
				if fn == nil {
					m.Check(st, false, rule, c, pos, "what "+name+" of the selector does is not known")
					return nil
				}
				return m.run(fn, m.ctx(m.root, nil, fn), st, append([]*Term{obj}, args...), nil)
			}
			gives := func(st *State, vals []*Term, what string) {
				for _, o := range call(st, k.get) {
					got := []*Term{o.res}
					if o.res != nil && o.res.K == KTuple {
						got = o.res.Args
					}
					ok := len(got) == len(vals)
					for i := range got {
						ok = ok && m.sameValues(o.st, got[i], vals[i])
					}
					m.Check(o.st, ok, rule, c, pos, k.get+" does not return what the selector was "+what)
				}
			}
			for _, o := range call(st.clone(), "Type") {
				ok := o.res != nil && o.res.K == KConst && o.res.Val != nil && constant.Compare(o.res.Val, token.EQL, want.Val())
				m.Check(o.st, ok, rule, c, pos, "the selector is of another type")
			}
			gives(st.clone(), m.entryParams, "made with")
			set := p.boundMethod(obj, k.set)
			if set == nil {
				m.Check(st, false, rule, c, pos, "what "+k.set+" of the selector does is not known")
				return
			}
			var vals []*Term
			for i, pm := range set.Params[1:] {
				vals = append(vals, m.TT.Param(set, 100+i, pm.Type()))
			}
			for _, o := range call(st.clone(), k.set, vals...) {
				gives(o.st, vals, "set to")
			}
		}
		r.Interpret(p, spec, fn, nil)
	}
	r.Need(rule, 4)
}

// boundMethod is the method of what obj points to.
func (p *Program) boundMethod(obj *Term, name string) *ssa.Function {
	if obj == nil || obj.Typ == nil {
		return nil
	}
	sel := types.NewMethodSet(obj.Typ).Lookup(p.Pkgs[""].Types, name)
	if sel == nil || len(sel.Index()) != 1 {
		return nil
	}
	return p.SSA.FuncValue(sel.Obj().(*types.Func).Origin())
}

// sameValues: a is b, or a copy of the list b.
func (m *Machine) sameValues(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || a.Typ == nil {
		return false
	}
	// an element of an array that was stored as a whole
	if a.K == KElem && a.Args[0].K == KApp && a.Args[0].Op == "array" && len(a.Args[0].Args) == 1 {
		for k, v := range st.heap {
			if k.K == KIdxAddr && k.Args[0] == a.Args[0].Args[0] && k.Args[1] == a.Args[1] {
				return v == b
			}
		}
	}
	if _, isSlice := a.Typ.Underlying().(*types.Slice); !isSlice {
		return false
	}
	// append([]T{}, b...)
	n, all := 0, false
	for _, t := range st.user {
		if (t.Tag == "did:in" || t.Tag == "all:in" || t.Tag == "did:sub") && t.Args[0] == a {
			n++
			all = t.Tag == "did:sub" && t.Data == "" && t.Args[1] == b
		}
	}
	if n == 1 && all {
		return true
	}
	// make([]T, len(b)), then copy
	for _, t := range st.tups("made") {
		if t.Args[0] == a && t.Args[1] == m.TT.Len(b) {
			c := st.heap[m.TT.App("dirty", nil, a)]
			return c != nil && c.Args[0] == b
		}
	}
	return false
}
