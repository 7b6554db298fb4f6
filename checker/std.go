package main

import (
	"go/constant"
	"go/types"
	"strings"
)

// stdPure models functions of the standard library whose result depends on
// their arguments only.
func (m *Machine) stdPure(st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	str, bt := types.Typ[types.String], types.Typ[types.Bool]
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	if ev.Fn == nil || ev.Recv != nil {
		return false, nil
	}
	switch ev.Name {
	case "path/filepath.Join", "path.Join":
		es, whole := m.variadic(st, ev)
		if whole != nil {
			return one(tt.App("join", str, whole))
		}
		var parts []*Term
		for _, e := range es {
			if e.K == KApp && e.Op == "join" {
				parts = append(parts, e.Args...)
			} else {
				parts = append(parts, e)
			}
		}
		return one(tt.App("join", str, parts...))
	case "path/filepath.Abs":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		return true, []Outcome{m.okOutcome(st, ev, ev.Args[0]), m.errOutcome(bad, ev, nil)}
	case "path/filepath.Base", "path/filepath.Dir", "path/filepath.Ext", "path/filepath.Clean", "strings.ToLower", "strings.TrimSpace":
		x := ev.Args[0]
		if ev.Name == "path/filepath.Clean" {
			return one(x)
		}
		return one(tt.App(ev.Name[strings.LastIndexByte(ev.Name, '/')+1:], str, x))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		return one(tt.App(ev.Name, bt, ev.Args...))
	case "fmt.Sprintf":
		es, whole := m.variadic(st, ev)
		if whole != nil {
			return one(tt.App("sprintf", str, ev.Args[0], whole))
		}
		args := []*Term{ev.Args[0]}
		for _, e := range es {
			args = append(args, stripAssert(e))
		}
		return one(tt.App("sprintf", str, args...))
	case "strconv.FormatUint", "strconv.FormatInt":
		if len(ev.Args) == 2 && ev.Args[1].isInt(10) {
			return one(tt.App("sprintf", str, tt.Const(constant.MakeString("%d")), stripConv(ev.Args[0])))
		}
	case "strconv.Itoa":
		return one(tt.App("sprintf", str, tt.Const(constant.MakeString("%d")), stripConv(ev.Args[0])))
	case "os.IsNotExist", "os.IsExist", "errors.Is":
		e, name := ev.Args[0], ev.Name
		if name == "errors.Is" {
			if !strings.Contains(ev.Args[1].String(), "ErrNotExist") {
				return false, nil
			}
			name = "os.IsNotExist" // of an error that is not wrapped
		}
		if v, k := m.isNil(st, e); k && v {
			return one(tt.False)
		}
		return one(tt.App(name, bt, e))
	}
	return false, nil
}
