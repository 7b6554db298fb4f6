package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// base summarises the module functions that are pure functions of their
// arguments for every specification: key encoding and decoding, and pools.
// Their own behaviour is the subject of other checks.
func (m *Machine) base(st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	all := ev.Args
	if ev.Recv != nil {
		all = append([]*Term{ev.Recv}, ev.Args...)
	}
	res := func() types.Type { return ev.Sig.Results().At(0).Type() }
	if m.spec.RawKeys && (strings.HasPrefix(ev.Name, "bond.Key") || ev.Name == "bond._KeyPrefixSplitIndex" || ev.Name == "bond.keySuccessor") {
		return false, nil
	}
	switch ev.Name {
	case "bond.KeyEncodeRaw":
		// the parts of the key are what the functions append
		parts := []*Term{ev.Args[0], ev.Args[1]}
		buff := tt.mk(&Term{K: KHole, N: 7, Typ: types.NewSlice(types.Typ[types.Byte])})
		if bs, ok := m.listElems(st, ev.Args[5]); ok && len(bs) > 0 {
			_ = bs
		}
		for i := 2; i < 5; i++ {
			f := ev.Args[i]
			if f.K != KFunc {
				parts = append(parts, f)
				continue
			}
			// on a copy of the state: the functions only append to a buffer
			outs := m.callClosure(st.clone(), ev, f, []*Term{buff}, 0)
			if len(outs) != 1 || outs[0].res == nil {
				parts = append(parts, f)
				continue
			}
			parts = append(parts, outs[0].res)
		}
		return true, []Outcome{{st, m.keyTerm(parts)}}
	case "bond.KeyEncode":
		return one(tt.App("KeyEncode", res(), ev.Args[0]))
	case "bond.keySuccessor":
		if len(all) == 2 {
			return one(tt.App("keySuccessor", res(), all...))
		}
	case "bond.KeyBytes.ToDataKeyBytes":
		return one(tt.App("ToDataKeyBytes", res(), ev.Recv))
	case "bond.KeyDecode", "bond.KeyBytes.ToKey":
		return one(tt.App("KeyDecode", res(), all...))
	case "bond._KeyPrefixSplitIndex", "bond.KeyBytes.Index":
		return one(tt.App(ev.Name, res(), all...))
	case "bond/utils.BytesToString", "bond/utils.StringToBytes":
		return one(all[0])
	case "bond.DefaultPebbleOptions", "bond.DefaultOptions", "bond/utils.NewPreAllocatedPool",
		"bond/utils.PreAllocatedPool.Get", "bond/utils.PreAllocatedPool.Put":
		return true, m.opaque(st, ev)
	case "bond/utils.MakeNew":
		return one(tt.App("MakeNew", res(), tt.mk(&Term{K: KConst, Op: shortType(res())})))
	}
	return false, nil
}

func (m *Machine) keyTerm(parts []*Term) *Term {
	return m.TT.App("key", types.NewSlice(types.Typ[types.Byte]), parts...)
}

// pureCall is the result of a user function that depends on its arguments
// only (key, order and filter functions).
func (m *Machine) pureCall(st *State, ev *Event) []Outcome {
	args := append([]*Term{ev.Val}, ev.Args...)
	if ev.Val == nil {
		args = append([]*Term{ev.Recv}, ev.Args...)
	}
	name := "call"
	if ev.Val == nil {
		name = ev.Name
	}
	return []Outcome{{st, m.TT.App(name, ev.Sig.Results().At(0).Type(), args...)}}
}

// isPureUserFunc reports whether a dynamic call is of an index's or table's
// key, order or filter function.
func isPureUserFunc(ev *Event) bool {
	if ev.Val == nil || ev.Sig.Results().Len() != 1 {
		return false
	}
	n := ""
	if ev.Val.Typ != nil {
		n = typeName(ev.Val.Typ)
	}
	switch n {
	case "bond.IndexKeyFunction", "bond.IndexFilterFunction", "bond.IndexOrderFunction", "bond.TablePrimaryKeyFunc":
		return true
	}
	return false
}

var _ = ssa.NaiveForm
