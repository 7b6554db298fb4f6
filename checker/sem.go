package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// method splits the name of a callee into its receiver type and its method.
func method(ev *Event) (recv, name string) {
	n := strings.TrimPrefix(ev.Name, "iface:")
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return "", n
	}
	return n[:i], n[i+1:]
}

func isErrorType(t types.Type) bool { return types.TypeString(t, nil) == "error" }

var storeTypes = map[string]bool{
	"bond.DB": true, "bond._db": true, "bond.Batch": true, "bond._batch": true,
	"bond.Getter": true, "bond.Setter": true, "bond.Deleter": true, "bond.DeleterWithRange": true,
	"bond.Iterationer": true, "bond.Batcher": true, "bond.Applier": true, "bond.Committer": true,
	"bond.FilterStorer":                true,
	"github.com/cockroachdb/pebble.DB": true, "github.com/cockroachdb/pebble.Batch": true,
	"github.com/cockroachdb/pebble.Snapshot": true, "github.com/cockroachdb/pebble.Reader": true,
	"github.com/cockroachdb/pebble.Writer": true,
}

var iterTypes = map[string]bool{
	"bond.Iterator": true, "bond._iterator": true, "bond._iteratorMulti": true,
	"github.com/cockroachdb/pebble.Iterator": true,
}

// opKind classifies a call: what it does to storage, or "".
func opKind(ev *Event) string {
	recv, name := method(ev)
	if storeTypes[recv] {
		switch name {
		case "Get", "Set", "Delete", "DeleteRange", "Iter", "NewIter", "Batch", "Commit", "Apply", "Reset":
			return name
		case "Close":
			return "StoreClose"
		}
		return ""
	}
	if iterTypes[recv] {
		switch name {
		case "First", "Last", "Next", "Prev", "SeekGE", "SeekLT", "SeekPrefixGE":
			return "Position"
		case "Valid":
			return "Valid"
		case "Key":
			return "IterKey"
		case "Value":
			return "IterValue"
		case "Error":
			return "IterError"
		case "Close":
			return "IterClose"
		}
		return ""
	}
	switch recv {
	case "io.Closer", "bond.Closer":
		if name == "Close" {
			return "Closer"
		}
	case "bond.Serializer":
		return name
	case "bond.Filter", "bond.FilterInitializable":
		switch name {
		case "MayContain":
			return "FilterMayContain"
		case "Add":
			return "FilterAdd"
		}
	case "bond.Index":
		switch name {
		case "OnInsert", "OnUpdate", "OnDelete":
			return name
		}
	}
	if ev.Name == "dynamic" {
		if isSerializeSig(ev.Sig) {
			return "Serialize"
		}
	}
	return ""
}

// isSerializeSig: func(x) ([]byte, error).
func isSerializeSig(s *types.Signature) bool {
	return s.Params().Len() == 1 && s.Results().Len() == 2 && isByteSlice(s.Results().At(0).Type()) && isErrorType(s.Results().At(1).Type())
}

// variadic returns the elements of the variadic argument of a call, which is
// the last one.
func (m *Machine) variadic(st *State, ev *Event) (elems []*Term, whole *Term) {
	if len(ev.Args) == 0 {
		return nil, nil
	}
	a := ev.Args[len(ev.Args)-1]
	if es, ok := m.listElems(st, a); ok {
		return es, nil
	}
	return nil, a
}

// pointee returns what a pointer argument, possibly inside an interface,
// points to.
func (m *Machine) pointee(st *State, t *Term) (addr, content *Term) {
	if t.K == KIface {
		t = t.Args[0]
	}
	if pt, ok := ptrElem(t.Typ); ok {
		return t, m.load(st, t, pt)
	}
	return nil, nil
}

// outcome helpers: the call succeeds with res (the error is nil), or fails.
func (m *Machine) okOutcome(st *State, ev *Event, vals ...*Term) Outcome {
	n := ev.Sig.Results().Len()
	xs := make([]*Term, n)
	for i := 0; i < n; i++ {
		t := ev.Sig.Results().At(i).Type()
		switch {
		case i < len(vals) && vals[i] != nil:
			xs[i] = vals[i]
		case isErrorType(t):
			xs[i] = m.TT.Nil
		default:
			xs[i] = m.TT.Call(ev.Site, ev.Ctx, i, t)
		}
	}
	if n == 0 {
		return Outcome{st, nil}
	}
	if n == 1 {
		return Outcome{st, xs[0]}
	}
	return Outcome{st, m.TT.Tuple(xs...)}
}

// errOutcome: the call fails with a new error; other results are zero.
func (m *Machine) errOutcome(st *State, ev *Event, err *Term) Outcome {
	n := ev.Sig.Results().Len()
	xs := make([]*Term, n)
	for i := 0; i < n; i++ {
		t := ev.Sig.Results().At(i).Type()
		if isErrorType(t) {
			if err == nil {
				err = m.TT.Call(ev.Site, ev.Ctx, i, t)
				m.assume(st, m.TT.Eq(err, m.TT.Nil), false)
			}
			xs[i] = err
		} else {
			xs[i] = m.TT.Zero(t)
		}
	}
	if n == 1 {
		return Outcome{st, xs[0]}
	}
	return Outcome{st, m.TT.Tuple(xs...)}
}

// hasErr reports whether a call returns an error last.
func hasErr(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isErrorType(sig.Results().At(n-1).Type())
}

// retErr splits the results of the entry point: its error and whether that is
// nil ("nil", "err" or "unknown").
func (m *Machine) retErr(st *State, res []*Term) (*Term, string) {
	if len(res) == 0 {
		return nil, "nil"
	}
	e := res[len(res)-1]
	if e.Typ != nil && !isErrorType(e.Typ) && e != m.TT.Nil && !(e.K == KApp && e.Op == "errorf") {
		if _, isI := e.Typ.Underlying().(*types.Interface); !isI {
			return nil, "nil"
		}
	}
	if v, k := m.isNil(st, e); k {
		if v {
			return e, "nil"
		}
		return e, "err"
	}
	return e, "unknown"
}

// termMentions reports whether t contains x (also below leaves).
func termContains(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if termContains(a, x) {
			return true
		}
	}
	return false
}

func findSub(t *Term, pred func(*Term) bool) *Term {
	if pred(t) {
		return t
	}
	for _, a := range t.Args {
		if x := findSub(a, pred); x != nil {
			return x
		}
	}
	return nil
}

// minSym is the least value of an integer name that stands for a counter that
// starts at a constant and only grows.
func minSym(t *Term) (int64, bool) {
	if t.K == KApp && t.Op == "+" && len(t.Args) == 2 {
		if c, ok := t.Args[1].intVal(); ok {
			if v, ok := minSym(t.Args[0]); ok {
				return v + c, true
			}
		}
		return 0, false
	}
	if t.K == KApp && t.Op == "len" {
		return 0, true
	}
	if t.K != KSym && t.K != KOld {
		return 0, false
	}
	phi, ok := t.Site.(*ssa.Phi)
	if !ok {
		return 0, false
	}
	seen := map[ssa.Value]bool{}
	var least func(v ssa.Value) (int64, bool)
	least = func(v ssa.Value) (int64, bool) {
		const none = 1 << 40
		if seen[v] {
			return none, true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return 0, false
			}
			return v.Int64(), true
		case *ssa.Phi:
			min := int64(none)
			for _, e := range v.Edges {
				n, ok := least(e)
				if !ok {
					return 0, false
				}
				if n < min {
					min = n
				}
			}
			return min, true
		case *ssa.BinOp:
			if v.Op.String() == "+" {
				if c, okc := v.Y.(*ssa.Const); okc && c.Value != nil && c.Int64() >= 0 {
					n, ok := least(v.X)
					if n < none {
						n += c.Int64()
					}
					return n, ok
				}
			}
		}
		return 0, false
	}
	return least(phi)
}
