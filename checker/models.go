package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// listElems returns the elements of a slice built from known ones.
func (m *Machine) listElems(st *State, t *Term) ([]*Term, bool) {
	if t == m.TT.Nil {
		return nil, true
	}
	if t.K == KApp && t.Op == "slice" && t.Args[1].isInt(0) && t.Args[2] == m.TT.Nil && t.Args[0].K == KAlloc {
		if pt, ok := ptrElem(t.Args[0].Typ); ok {
			if at, ok := pt.Underlying().(*types.Array); ok && at.Len() <= 64 && st.heap[m.TT.App("dirty", nil, t.Args[0])] == nil {
				var out []*Term
				for i := int64(0); i < at.Len(); i++ {
					out = append(out, m.load(st, m.TT.IdxAddr(t.Args[0], m.TT.Int(i), types.NewPointer(at.Elem())), at.Elem()))
				}
				return out, true
			}
		}
	}
	return nil, false
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := types.Unalias(s.Elem()).(*types.Basic) // not a list of named numbers
	return ok && b.Kind() == types.Byte
}

func (m *Machine) builtin(ctx *Ctx, st *State, site ssa.Instruction, b *ssa.Builtin, args []*Term, v ssa.Value) []Outcome {
	tt := m.TT
	one := func(t *Term) []Outcome { return []Outcome{{st, t}} }
	if m.spec.OnBuiltin != nil {
		m.spec.OnBuiltin(m, st, b.Name(), args, site)
	}
	switch b.Name() {
	case "len", "cap":
		x := args[0]
		if x == tt.Nil {
			return one(tt.Int(0))
		}
		if s, ok := x.strVal(); ok && b.Name() == "len" {
			return one(tt.Int(int64(len(s))))
		}
		if es, ok := m.listElems(st, x); ok {
			return one(tt.Int(int64(len(es))))
		}
		l := tt.App(b.Name(), types.Typ[types.Int], x)
		if b.Name() == "len" {
			l = tt.Len(x)
		}
		if v, known := m.truth(st, tt.Eq(l, tt.Int(0))); known && v && b.Name() == "len" {
			return one(tt.Int(0))
		}
		return one(l)
	case "append":
		base, more := args[0], args[1]
		call, _ := site.(ssa.Value)
		var t types.Type
		if call != nil {
			t = call.Type()
		}
		elems, known := m.listElems(st, more)
		if t != nil && isByteSlice(t) {
			var res *Term
			if known {
				res = m.capv(st, ctx, site, tt.App("cat", t, append([]*Term{base}, elems...)...), t)
			} else {
				res = m.capv(st, ctx, site, tt.App("cats", t, base, more), t)
			}
			if m.spec.OnBytes != nil {
				m.spec.OnBytes(m, st, base, res, m.P.Pos(site.Pos()))
			}
			return one(res)
		}
		var acc *Term
		if base.K == KAcc {
			acc = base
		} else {
			if sub := m.age(st, site, ctx); sub != nil {
				base, more = tt.rewrite(base, sub), tt.rewrite(more, sub)
				for i := range elems {
					elems[i] = tt.rewrite(elems[i], sub)
				}
			}
			acc = tt.Acc(site, ctx, t)
			if m.spec.OnNewList != nil && m.emptyList(st, base) {
				m.spec.OnNewList(m, st, acc)
			}
			// nothing is in the new list yet
			if m.spec.TrackLists && !m.emptyList(st, base) {
				st.add(&Tup{Tag: "did:sub", Args: []*Term{acc, base}, Data: "base"})
			}
		}
		m.forgetLen(st, acc)
		var whole *Term
		if known {
			if len(elems) > 0 {
				m.assume(st, tt.Eq(tt.App("len", types.Typ[types.Int], acc), tt.Int(0)), false)
			}
			if m.spec.TrackLists {
				for _, e := range elems {
					st.add(&Tup{Tag: "did:in", Args: []*Term{acc, e}})
				}
			}
		} else {
			whole = more
			if m.spec.TrackLists {
				st.add(&Tup{Tag: "did:sub", Args: []*Term{acc, more}})
			}
		}
		if m.spec.OnAppend != nil {
			m.spec.OnAppend(m, st, acc, elems, whole, site)
		}
		return one(acc)
	case "copy":
		if len(args) == 2 {
			dst := args[0]
			if dst.K == KApp && dst.Op == "slice" {
				dst = dst.Args[0]
			}
			for k := range st.heap {
				if k != dst && underAddr(k, dst) {
					delete(st.heap, k)
				}
			}
			st.heap[tt.App("dirty", nil, dst)] = tt.App("copyof", nil, args[1])
		}
		return one(tt.Call(site, ctx, 0, types.Typ[types.Int]))
	case "delete", "clear":
		m.forgetLen(st, args[0])
		for k, t := range st.user {
			if (t.Tag == "did:in" || t.Tag == "all:in" || t.Tag == "did:sub") && len(t.Args) > 0 && t.Args[0] == args[0] {
				delete(st.user, k)
			}
		}
		if m.spec.OnMapSet != nil && len(args) > 1 {
			m.spec.OnMapSet(m, st, args[0], args[1], nil, site)
		}
		return one(nil)
	case "min", "max":
		return one(tt.App(b.Name(), types.Typ[types.Int], args...))
	case "panic":
		return nil
	case "recover":
		return one(tt.Nil)
	case "ssa:wrapnilchk":
		return one(args[0])
	}
	if vv, ok := site.(ssa.Value); ok {
		return one(tt.Call(site, ctx, 0, vv.Type()))
	}
	return one(nil)
}

func (m *Machine) capv(st *State, ctx *Ctx, site ssa.Instruction, t *Term, ty types.Type) *Term {
	if t.depth <= 12+m.spec.Depth {
		return t
	}
	m.age(st, site, ctx)
	return m.TT.Sym(site, ctx, 0, ty)
}

// emptyList reports whether a list is known to have no element.
func (m *Machine) emptyList(st *State, t *Term) bool {
	if t == m.TT.Nil {
		return true
	}
	if t.K == KApp && t.Op == "slice" && t.Args[1].isInt(0) {
		if hi := t.Args[2]; hi.isInt(0) || hi.K == KApp && hi.Op == "min" && (hi.Args[0].isInt(0) || hi.Args[1].isInt(0)) {
			return true
		}
	}
	if es, ok := m.listElems(st, t); ok && len(es) == 0 {
		return true
	}
	v, k := m.truth(st, m.TT.Eq(m.TT.App("len", types.Typ[types.Int], t), m.TT.Int(0)))
	return k && v
}

// model gives the meaning of library functions that matter here.
func (m *Machine) model(st *State, ev *Event, args []*Term) (bool, []Outcome) {
	tt := m.TT
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	switch ev.Name {
	case "errors.New":
		return one(tt.App("errorf", ev.Sig.Results().At(0).Type()))
	case "fmt.Errorf":
		var wrapped []*Term
		if es, ok := m.listElems(st, ev.Args[1]); ok {
			for _, e := range es {
				if e.Typ != nil && types.TypeString(e.Typ, nil) == "error" || e.K == KApp && e.Op == "errorf" {
					wrapped = append(wrapped, e)
				}
			}
		}
		return one(m.capv(st, ev.Ctx, ev.Site, tt.App("errorf", ev.Sig.Results().At(0).Type(), wrapped...), ev.Sig.Results().At(0).Type()))
	case "errors.Is":
		e, target := ev.Args[0], ev.Args[1]
		if e == target {
			return one(tt.True)
		}
		if v, k := m.isNil(st, e); k && v {
			return one(tt.False)
		}
		t := tt.App("errors.Is", types.Typ[types.Bool], e, target)
		if v, k := m.truth(st, t); k {
			return one(tt.boolTerm(v))
		}
		yes := st.clone()
		var outs []Outcome
		if m.assume(yes, tt.Eq(e, tt.Nil), false) && m.assume(yes, t, true) {
			outs = append(outs, Outcome{yes, tt.True})
		}
		if m.assume(st, t, false) {
			outs = append(outs, Outcome{st, tt.False})
		}
		return true, outs
	case "bytes.Equal":
		return one(tt.BytesEqual(ev.Args[0], ev.Args[1]))
	case "bytes.Compare":
		return one(tt.App("bytes.Compare", types.Typ[types.Int], ev.Args[0], ev.Args[1]))
	case "golang.org/x/exp/maps.Copy", "maps.Copy":
		dst, src := ev.Args[0], ev.Args[1]
		m.forgetLen(st, dst)
		if m.spec.TrackLists {
			st.add(&Tup{Tag: "all:in", Args: []*Term{src, dst, tt.Hole}})
		}
		if m.emptyList(st, src) {
			return one(nil)
		}
		return one(nil)
	case "golang.org/x/exp/maps.Clone", "maps.Clone", "golang.org/x/exp/slices.Clone", "slices.Clone", "golang.org/x/exp/maps.Values":
		res := tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type())
		if m.spec.TrackLists {
			st.add(&Tup{Tag: "all:in", Args: []*Term{ev.Args[0], res, tt.Hole}})
		}
		return one(res)
	case "sync.Once.Do":
		if ev.Args[0].K == KFunc {
			outs := m.callClosure(st, ev, ev.Args[0], []*Term{}, 0)
			for i := range outs {
				outs[i].res = nil
			}
			return true, outs
		}
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable",
		"golang.org/x/exp/slices.SortFunc", "slices.SortFunc", "golang.org/x/exp/slices.SortStableFunc", "slices.SortStableFunc",
		"sort.Ints", "sort.Strings":
		// a permutation: the elements stay the same
		return one(nil)
	}
	if strings.HasPrefix(ev.Name, "sync.") || strings.HasPrefix(ev.Name, "sync/atomic.") {
		return false, nil
	}
	return false, nil
}
