package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// PathEv is one call on a path, in order.
type PathEv struct {
	Name string // see calleeName; "iface:" and "dynamic" as for Event
	Recv *Term
	Args []*Term
	Res  *Term
	Pos  string
}

// Method is the last part of the callee's name.
func (e *PathEv) Method() string {
	return e.Name[strings.LastIndexByte(e.Name, '.')+1:]
}

func (e *PathEv) String() string {
	var ss []string
	for _, a := range e.Args {
		ss = append(ss, a.String())
	}
	r := ""
	if e.Recv != nil {
		r = e.Recv.String() + "."
	}
	return fmt.Sprintf("%s%s(%s)", r, e.Name, strings.Join(ss, ", "))
}

// PathRec is one class of paths through a function.
type PathRec struct {
	M      *Machine
	St     *State
	Evs    []*PathEv
	Res    []*Term
	Params []*Term
	Binds  []*Term
	Pos    string
}

// PathOpt says what the paths of a function consist of.
type PathOpt struct {
	// Event: calls of these functions are events and are not entered. Calls
	// that leave the module are events in any case, except those of Silent.
	Event func(name string, fn *ssa.Function) bool
	// Silent calls are not recorded (they are still interpreted or opaque).
	Silent func(name string) bool
	// Call may take over a call; it is recorded.
	Call func(m *Machine, st *State, ev *Event) (bool, []Outcome)
	// NoFail: the call cannot fail, although it returns an error.
	NoFail func(name string) bool
	// Pure: the result depends on the arguments only.
	Pure func(name string) bool
	Pre  func(m *Machine, st *State, params []*Term)
	// KeepAll keeps the whole condition of the path.
	ForgetConds bool
	Spec        *Spec // further hooks
	OnReturn    func(m *Machine, st *State, res []*Term, pos string)
}

// modelled are calls that model or base give a meaning to.
func modelled(name string) bool {
	switch name {
	case "errors.New", "fmt.Errorf", "errors.Is", "bytes.Equal", "bytes.Compare", "sync.Once.Do",
		"bond.KeyEncodeRaw", "bond.KeyEncode", "bond.keySuccessor", "bond.KeyBytes.ToDataKeyBytes", "bond.KeyDecode",
		"bond.KeyBytes.ToKey", "bond._KeyPrefixSplitIndex", "bond.KeyBytes.Index", "bond/utils.BytesToString",
		"bond/utils.StringToBytes", "bond/utils.MakeNew":
		return true
	}
	return strings.HasPrefix(name, "sort.") || strings.Contains(name, "/maps.") || strings.Contains(name, "slices.") || strings.HasPrefix(name, "maps.")
}

// Paths enumerates the classes of paths of a function, with the calls made on
// each. A call site that is passed more than twice counts once and once more.
func (r *Result) Paths(p *Program, fn *ssa.Function, opt PathOpt) []*PathRec {
	var recs []*PathRec
	spec := opt.Spec
	if spec == nil {
		spec = &Spec{}
	}
	if !opt.ForgetConds {
		spec.KeepFact = func(*Machine, *Term) bool { return true }
	}
	if spec.Inline == nil {
		spec.Inline = func(f *ssa.Function) bool { return opt.Event == nil || !opt.Event(calleeName(f), f) }
	}
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if opt.Call != nil {
			if ok, outs := opt.Call(m, st, ev); ok {
				if opt.Silent == nil || !opt.Silent(ev.Name) {
					for _, o := range outs {
						pathEvent(m, o.st, ev, o.res)
					}
				}
				return true, outs
			}
		}
		isEv := opt.Event != nil && opt.Event(ev.Name, ev.Fn)
		if !isEv && (modelled(ev.Name) || ev.Fn != nil && (m.P.InModule(ev.Fn) || ev.Fn.Synthetic != "" && ev.Fn.Pkg == nil)) {
			return false, nil
		}
		if !isEv && strings.HasPrefix(ev.Name, "iface:") && ev.Recv != nil && ev.Recv.K == KIface {
			return false, nil // resolved to a method
		}
		if pureIface[ev.Name] && !isEv {
			return false, nil
		}
		if ev.Name == "iface:error.Error" || strings.HasPrefix(ev.Name, "bond/utils.PreAllocatedPool.") {
			return false, nil
		}
		if opt.Silent != nil && opt.Silent(ev.Name) {
			return false, nil
		}
		m.age(st, ev.Site, ev.Ctx)
		var outs []Outcome
		switch {
		case opt.Pure != nil && opt.Pure(ev.Name) || isPureUserFunc(ev):
			outs = m.pureCall(st, ev)
		case hasErr(ev.Sig) && (opt.NoFail == nil || !opt.NoFail(ev.Name)):
			bad := st.clone()
			m.havocArgs(st, ev)
			m.havocArgs(bad, ev)
			outs = []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
		default:
			m.havocArgs(st, ev)
			outs = []Outcome{m.okOutcome(st, ev)}
		}
		for _, o := range outs {
			pathEvent(m, o.st, ev, o.res)
		}
		return true, outs
	}
	var params []*Term
	old := spec.OnReturn
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		if old != nil {
			old(m, st, res, pos)
		}
		if m.dry {
			return
		}
		rec := &PathRec{M: m, St: st, Res: res, Pos: pos, Params: params}
		rec.Evs = pathEvents(st)
		recs = append(recs, rec)
	}
	var pm *Machine
	r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) {
		pm = m
		params = ps
		if opt.Pre != nil {
			opt.Pre(m, st, ps)
		}
	})
	_ = pm
	return recs
}

func pathEvent(m *Machine, st *State, ev *Event, res *Term) {
	id := fmt.Sprintf("%d.%d", m.TT.objID(ev.Site), ev.Ctx.id)
	n := 0
	var same []*Tup
	for _, t := range st.user {
		if t.Tag == "ev" {
			n++
			if strings.SplitN(t.Data, "|", 3)[1] == id {
				same = append(same, t)
			}
		}
	}
	if len(same) >= 2 {
		sort.Slice(same, func(i, j int) bool { return same[i].Data < same[j].Data })
		st.del(same[1])
		// renumber
		all := st.tups("ev")
		sort.Slice(all, func(i, j int) bool { return all[i].Data < all[j].Data })
		for _, t := range all {
			st.del(t)
		}
		for i, t := range all {
			c := *t
			c.Data = fmt.Sprintf("%04d|%s", i, t.Data[5:])
			st.add(&c)
		}
		n--
	}
	hole := m.TT.Hole
	args := []*Term{hole, hole}
	if ev.Recv != nil {
		args[0] = ev.Recv
	} else if ev.Val != nil && ev.Fn == nil {
		args[0] = ev.Val
	}
	if res != nil {
		args[1] = res
	}
	for _, a := range ev.Args {
		if a == nil {
			a = hole
		}
		args = append(args, a)
	}
	st.add(&Tup{Tag: "ev", Data: fmt.Sprintf("%04d|%s|%s", n, id, ev.Name), Args: args, Pos: ev.Pos})
}

func pathEvents(st *State) []*PathEv {
	all := st.tups("ev")
	sort.Slice(all, func(i, j int) bool { return all[i].Data < all[j].Data })
	var out []*PathEv
	for _, t := range all {
		e := &PathEv{Name: strings.SplitN(t.Data, "|", 3)[2], Args: t.Args[2:], Pos: t.Pos}
		if t.Args[0].K != KHole {
			e.Recv = t.Args[0]
		}
		if t.Args[1].K != KHole {
			e.Res = t.Args[1]
		}
		out = append(out, e)
	}
	return out
}

// ---- queries ----

// Is: the condition is known to be v on the path.
func (q *PathRec) Is(t *Term, v bool) bool {
	x, k := q.M.truth(q.St, t)
	return k && x == v
}

func (q *PathRec) Nil(t *Term) (v, known bool) { return q.M.isNil(q.St, t) }

// Err classifies the error of the path: "nil", "err" or "unknown".
func (q *PathRec) Err() (*Term, string) {
	if len(q.Res) == 0 {
		return nil, "nil"
	}
	return q.M.retErr(q.St, q.Res)
}

// List returns the elements of a slice, if they are known.
func (q *PathRec) List(t *Term) ([]*Term, bool) { return q.M.listElems(q.St, t) }

// Filter returns the events with one of the method names.
func (q *PathRec) Filter(names ...string) []*PathEv {
	var out []*PathEv
	for _, e := range q.Evs {
		for _, n := range names {
			if e.Name == n || e.Method() == n {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

func (q *PathRec) Index(e *PathEv) int {
	for i, x := range q.Evs {
		if x == e {
			return i
		}
	}
	return -1
}

// Facts lists what is known on the path (for development).
func (q *PathRec) Facts() []string {
	var ss []string
	for t, v := range q.St.facts {
		ss = append(ss, fmt.Sprintf("%v %s", v, t))
	}
	sort.Strings(ss)
	return ss
}

func (q *PathRec) Dump() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "path to %s: ", q.Pos)
	for _, t := range q.Res {
		sb.WriteString(t.String() + " ")
	}
	sb.WriteByte('\n')
	for _, e := range q.Evs {
		fmt.Fprintf(&sb, "   %s %s -> %v\n", e.Pos, e, e.Res)
	}
	for _, f := range q.Facts() {
		fmt.Fprintf(&sb, "     %s\n", f)
	}
	return sb.String()
}

func boolType() types.Type { return types.Typ[types.Bool] }

// Report adds a violation found on a path.
func (r *Result) PathBad(q *PathRec, rule, construct, pos, msg string) {
	v := &Violation{Rule: rule, Construct: construct, Msg: msg, Pos: pos}
	for n := q.St.trace; n != nil; n = n.prev {
		v.Trace = append([]string{n.pos}, v.Trace...)
	}
	r.Report(v)
}

func (r *Result) PathCheck(q *PathRec, ok bool, rule, construct, pos, msg string) bool {
	r.Check(true, rule, construct, pos, msg)
	if !ok {
		r.PathBad(q, rule, construct, pos, msg)
	}
	return ok
}

// Find returns the function or method with the given name (see calleeName).
func (p *Program) Find(name string) (*ssa.Function, error) {
	for _, f := range p.AllFuncs() {
		if f.Parent() == nil && calleeName(f) == name {
			return f, nil
		}
	}
	return nil, fmt.Errorf("unresolved anchor: %s", name)
}

// pathsMain prints the paths of a function (for development).
func pathsMain(name string, bound []string) {
	p, err := Load(envOr("BOND_REPO", "/repo"))
	if err != nil {
		fmt.Println(err)
		return
	}
	base, k, anon := strings.Cut(name, "$")
	fn, err := p.Find(base)
	if anon && err == nil {
		n := 0
		fmt.Sscan(k, &n)
		fn = fn.AnonFuncs[n-1]
	}
	if err != nil {
		fmt.Println(err)
		return
	}
	set := map[string]bool{}
	for _, b := range bound {
		set[b] = true
	}
	r := newResult()
	for _, q := range r.Paths(p, fn, PathOpt{Event: func(n string, _ *ssa.Function) bool { return set[n] }}) {
		fmt.Print(q.Dump())
	}
	for _, v := range r.Violations {
		fmt.Println(v.Msg)
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
