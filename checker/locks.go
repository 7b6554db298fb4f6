package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- locks held, and what is accessed under which ----

// lockOp classifies a call on a mutex: what it does and in which mode.
func lockOp(ev *Event) (op, mode string) {
	switch ev.Name {
	case "sync.Mutex.Lock", "sync.RWMutex.Lock":
		return "lock", "W"
	case "sync.Mutex.Unlock", "sync.RWMutex.Unlock":
		return "unlock", "W"
	case "sync.RWMutex.RLock":
		return "lock", "R"
	case "sync.RWMutex.RUnlock":
		return "unlock", "R"
	}
	return "", ""
}

func lockName(t *Term) string {
	if t.K == KFldAddr {
		return typeName(t.Args[0].Typ) + "." + fieldName(t.Args[0].Typ, t.N)
	}
	return t.String()
}

// lockCall keeps the locks held as tuples. It returns whether it took over the
// call.
func lockCall(m *Machine, st *State, ev *Event, c string) (bool, []Outcome) {
	op, mode := lockOp(ev)
	if op == "" {
		return false, nil
	}
	l := ev.Recv
	if l == nil && len(ev.Args) > 0 {
		l = ev.Args[0]
	}
	held := st.find("held", func(t *Tup) bool { return t.Args[0] == l })
	if op == "lock" {
		// a lock whose owner is another row of a loop is another lock
		m.Check(st, held == nil, "lock-not-held-twice", c+": "+lockName(l), ev.Pos, fmt.Sprintf("%s is locked while it is already held: it deadlocks", lockName(l)))
		if held == nil {
			st.add(&Tup{Tag: "held", Data: mode, Args: []*Term{l}, Pos: ev.Pos})
		}
		return true, []Outcome{{st, nil}}
	}
	m.Check(st, held != nil && held.Data == mode, "lock-released", c+": "+lockName(l), ev.Pos, fmt.Sprintf("%s is unlocked although it is not held that way", lockName(l)))
	if held != nil {
		st.del(held)
	}
	return true, []Outcome{{st, nil}}
}

func lockReturn(m *Machine, st *State, c, pos string) {
	for _, t := range st.tups("held") {
		m.Check(st, false, "lock-released", c+": "+lockName(t.Args[0]), t.Pos, fmt.Sprintf("%s is still held when the function returns", lockName(t.Args[0])))
	}
}

// access is one access of a field of a shared object.
type access struct {
	field string // Type.field, or Type.field[] for what it refers to
	write bool
	locks map[string]string // lock -> mode
	fn    string
	pos   string
}

func (a *access) lockString() string {
	var ss []string
	for l, m := range a.locks {
		if m == "W" {
			m = "exclusively"
		} else {
			m = "shared"
		}
		ss = append(ss, l+" held "+m)
	}
	sort.Strings(ss)
	if len(ss) == 0 {
		return "no lock held"
	}
	return strings.Join(ss, ", ")
}

// Sharing collects the accesses of the objects that goroutines share.
type Sharing struct {
	types    map[string]bool
	accesses map[string]*access
	fn       string
	r        *Result
}

// rootAlloc: the object was made by the function itself.
func rootAlloc(t *Term) bool {
	for {
		switch t.K {
		case KAlloc:
			return true
		case KFldAddr, KIdxAddr, KLoad, KFld, KElem:
			t = t.Args[0]
			continue
		case KApp:
			if t.Op == "slice" || t.Op == "mut" {
				t = t.Args[0]
				continue
			}
		}
		return false
	}
}

func subTerm(t, sub *Term) bool {
	return findSub(t, func(x *Term) bool { return x == sub }) != nil
}

func (s *Sharing) note(m *Machine, st *State, addr *Term, deref, write bool, pos token.Pos) {
	if m.dry || addr.K != KFldAddr {
		return
	}
	base := addr.Args[0]
	tn := typeName(base.Typ)
	if !s.types[tn] || rootAlloc(base) {
		return
	}
	f := tn + "." + fieldName(base.Typ, addr.N)
	if pt, ok := ptrElem(addr.Typ); ok {
		n := typeName(pt)
		if n == "sync.Mutex" || n == "sync.RWMutex" || strings.HasPrefix(n, "sync/atomic.") || n == "sync.Pool" {
			return
		}
	}
	if deref {
		f += "[]"
	}
	if tn == "bond.SyncBatch" {
		write = true // whoever has it uses it
	}
	locks := map[string]string{}
	for _, t := range st.tups("held") {
		l := t.Args[0]
		n := ""
		switch {
		case l.K == KFldAddr && l.Args[0] == base:
			n = "its own " + fieldName(l.Args[0].Typ, l.N)
		case l.K == KFldAddr && subTerm(base, l.Args[0]):
			n = lockName(l)
		case l.K == KGlobal:
			n = l.String()
		default:
			continue
		}
		locks[n] = t.Data
	}
	s.add(&access{field: f, write: write, locks: locks, fn: s.fn, pos: m.P.Pos(pos)})
}

func (s *Sharing) add(a *access) {
	k := fmt.Sprint(a.field, a.write, a.locks, a.fn)
	if s.accesses[k] == nil {
		s.accesses[k] = a
	}
}

// content is the field a container or library object was loaded from.
func (s *Sharing) content(v *Term) *Term {
	for v != nil && v.K == KApp && (v.Op == "slice" || v.Op == "mut") {
		v = v.Args[0]
	}
	if v == nil || v.K != KLoad || v.Args[0].K != KFldAddr {
		return nil
	}
	return v.Args[0]
}

func (s *Sharing) instr(m *Machine, st *State, ctx *Ctx, in ssa.Instruction) {
	val := func(v ssa.Value) *Term { return m.val(st, ctx, v) }
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op != token.MUL {
			return
		}
		a := val(in.X)
		s.note(m, st, a, false, false, in.Pos())
		if a.K == KIdxAddr {
			if c := s.content(a.Args[0]); c != nil {
				s.note(m, st, c, true, false, in.Pos())
			}
		}
	case *ssa.Store:
		a := val(in.Addr)
		s.note(m, st, a, false, true, in.Pos())
		for a.K == KFldAddr && a.Args[0].K == KIdxAddr {
			a = a.Args[0]
		}
		if a.K == KIdxAddr {
			if c := s.content(a.Args[0]); c != nil {
				s.note(m, st, c, true, true, in.Pos())
			}
		}
	case *ssa.Range:
		if c := s.content(val(in.X)); c != nil {
			s.note(m, st, c, true, false, in.Pos())
		}
	case *ssa.Next:
		if r := val(in.Iter); r.K == KApp && r.Op == "range" {
			if c := s.content(r.Args[0]); c != nil {
				s.note(m, st, c, true, false, in.Pos())
			}
		}
	case *ssa.Lookup:
		if c := s.content(val(in.X)); c != nil {
			s.note(m, st, c, true, false, in.Pos())
		}
	case *ssa.MapUpdate:
		if c := s.content(val(in.Map)); c != nil {
			s.note(m, st, c, true, true, in.Pos())
		}
	}
}

func (s *Sharing) builtin(m *Machine, st *State, name string, args []*Term, site ssa.Instruction) {
	for i, a := range args {
		c := s.content(a)
		if c == nil {
			continue
		}
		write := false
		switch name {
		case "append", "delete", "clear":
			write = i == 0
		case "copy":
			write = i == 0
		case "len", "cap":
			if _, ok := a.Typ.Underlying().(*types.Map); !ok {
				continue
			}
		}
		if name == "append" && i == 0 && isByteSlice(a.Typ) {
			write = false // keys: their capacity is not shared
		}
		s.note(m, st, c, true, write, site.Pos())
	}
}

// readOnly are the methods of library objects that only read them.
var readOnly = map[string]bool{
	"Test": true, "TestString": true, "TestLocations": true, "WriteTo": true, "K": true, "Cap": true, "Equal": true,
	"EstimatedFillRatio": true, "ApproximatedSize": true, "MarshalJSON": true, "GobEncode": true, "Copy": true, "BitSet": true,
}

func (s *Sharing) call(m *Machine, st *State, ev *Event) {
	recv, name := method(ev)
	if ev.Recv != nil && ev.Fn != nil && !m.P.InModule(ev.Fn) && !strings.HasPrefix(recv, "sync.") && !strings.HasPrefix(recv, "sync/atomic.") {
		if c := s.content(ev.Recv); c != nil {
			if _, isIface := ev.Recv.Typ.Underlying().(*types.Interface); !isIface {
				s.note(m, st, c, true, !readOnly[name], ev.Site.Pos())
			}
		}
	}
	for i, a := range ev.Args {
		if strings.HasPrefix(ev.Name, "sync/atomic.") && i == 0 && a.K == KFldAddr {
			base := a.Args[0]
			if tn := typeName(base.Typ); s.types[tn] && !rootAlloc(base) && !m.dry {
				s.add(&access{field: tn + "." + fieldName(base.Typ, a.N), write: !strings.HasPrefix(name, "Load"),
					locks: map[string]string{"atomic operation": "W"}, fn: s.fn, pos: ev.Pos})
			}
			continue
		}
		if c := s.content(a); c != nil && (ev.Fn == nil || !m.P.InModule(ev.Fn)) {
			if strings.Contains(ev.Name, "maps.Copy") {
				s.note(m, st, c, true, i == 0, ev.Site.Pos())
				continue
			}
			switch a.Typ.Underlying().(type) {
			case *types.Interface:
				if typeName(c.Args[0].Typ) == "bond.SyncBatch" {
					s.note(m, st, c, true, true, ev.Site.Pos())
				}
			case *types.Map, *types.Pointer:
				if pt, ok := ptrElem(a.Typ); ok && m.P.inModuleType(pt) {
					continue
				}
				s.note(m, st, c, true, false, ev.Site.Pos())
			}
		}
	}
}

func (p *Program) inModuleType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

// touching are the functions that name a field of one of the types, and those
// that reach them through helpers of the module that are not exported.
func (s *Sharing) entries(p *Program) []*ssa.Function {
	all := p.AllFuncs()
	touch := map[*ssa.Function]bool{}
	top := func(f *ssa.Function) *ssa.Function {
		for f.Parent() != nil {
			f = f.Parent()
		}
		return originOf(f)
	}
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if s.types[typeName(in.X.Type())] {
						touch[top(f)] = true
					}
				case ssa.CallInstruction:
					if g := in.Common().StaticCallee(); g != nil {
						callers[originOf(g)] = append(callers[originOf(g)], top(f))
					}
				}
			}
		}
	}
	var work []*ssa.Function
	for f := range touch {
		work = append(work, f)
	}
	exported := func(f *ssa.Function) bool { return token.IsExported(f.Name()) }
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if exported(f) {
			continue
		}
		for _, g := range callers[f] {
			if !touch[g] {
				touch[g] = true
				work = append(work, g)
			}
		}
	}
	var out []*ssa.Function
	for _, f := range all {
		if f.Parent() == nil && touch[f] && (exported(f) || len(callers[f]) == 0) {
			out = append(out, f)
		}
	}
	return out
}

func (s *Sharing) run(p *Program, r *Result, fn *ssa.Function) {
	s.fn = calleeName(fn)
	s.r = r
	c := s.fn
	spec := &Spec{}
	spec.OnInstr = s.instr
	spec.OnBuiltin = s.builtin
	// what a database, a batch or an index does is another object's business
	spec.Inline = func(f *ssa.Function) bool {
		recv := f.Signature.Recv()
		if recv == nil || !token.IsExported(f.Name()) {
			return true
		}
		tn := typeName(recv.Type())
		return !s.types[tn] && !bigTypes[tn]
	}
	spec.Call = func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		s.call(m, st, ev)
		if ev.Fn != nil && m.P.InModule(ev.Fn) && !spec.Inline(ev.Fn) {
			for _, t := range st.tups("held") {
				l := t.Args[0]
				if l.K != KFldAddr || ev.Recv != l.Args[0] {
					continue
				}
				m.Check(st, !s.locks(p, originOf(ev.Fn), lockName(l), map[*ssa.Function]bool{}), "lock-not-held-twice", c+": "+lockName(l), ev.Pos,
					fmt.Sprintf("%s is called, which locks %s, while it is held: it deadlocks", ev.Name, lockName(l)))
			}
		}
		if ok, outs := lockCall(m, st, ev, c); ok {
			return true, outs
		}
		if ev.Val != nil && ev.Fn == nil && ev.Name == "dynamic" {
			if f := s.content(ev.Val); f != nil {
				s.note(m, st, f, true, false, ev.Site.Pos())
			}
		}
		return false, nil
	}
	spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
		m.Check(st, true, "lock-released", c, pos, "")
		lockReturn(m, st, c, pos)
	}
	r.Interpret(p, spec, fn, nil)
}

var bigTypes = map[string]bool{"bond.Index": true, "bond._db": true, "bond._batch": true, "bond._iteratorMulti": true, "bond._iterator": true}

// locks: the function locks the field, or a function it calls does.
func (s *Sharing) locks(p *Program, fn *ssa.Function, lock string, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := ci.Common().StaticCallee()
			if g == nil {
				continue
			}
			if n := calleeName(g); strings.HasPrefix(n, "sync.") && (strings.HasSuffix(n, ".Lock") || strings.HasSuffix(n, ".RLock")) {
				if fa, ok := ci.Common().Args[0].(*ssa.FieldAddr); ok && typeName(fa.X.Type())+"."+fieldName(fa.X.Type(), fa.Field) == lock {
					return true
				}
			}
			if p.InModule(g) && s.locks(p, originOf(g), lock, seen) {
				return true
			}
		}
	}
	for _, a := range fn.AnonFuncs {
		if s.locks(p, a, lock, seen) {
			return true
		}
	}
	return false
}

// pairs reports every pair of accesses of one field that two goroutines can
// perform at the same time, one of them a write.
func (s *Sharing) pairs(r *Result) {
	byField := map[string][]*access{}
	for _, a := range s.accesses {
		byField[a.field] = append(byField[a.field], a)
	}
	var fields []string
	for f := range byField {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	for _, f := range fields {
		as := byField[f]
		sort.Slice(as, func(i, j int) bool {
			if as[i].fn != as[j].fn {
				return as[i].fn < as[j].fn
			}
			return as[i].pos < as[j].pos
		})
		for i, a := range as {
			for _, b := range as[i:] {
				if !a.write && !b.write {
					continue
				}
				ok := false
				for l, ma := range a.locks {
					if mb, has := b.locks[l]; has && (ma == "W" || mb == "W") {
						ok = true
					}
				}
				c := f + ": " + a.fn + " and " + b.fn
				r.Check(true, "shared-fields-locked", c, a.pos, "")
				if !ok {
					r.Report(&Violation{Rule: "shared-fields-locked", Construct: c, Pos: a.pos,
						Msg: fmt.Sprintf("two goroutines can be there at once, and at least one of them changes it: at %s %s, at %s %s", a.pos, a.lockString(), b.pos, b.lockString())})
				}
			}
		}
	}
}

var sharedTypes = []string{"bond._table", "bond.NumberSequence", "bond.SyncBatch", "bond.FilterInitializable", "bond/bloom.BloomFilter", "bond/bloom._bucket", "bond/utils.PreAllocatedPool"}

// mutexTypes are the types of the module that hold a lock.
func mutexTypes(p *Program) []string {
	var out []string
	for _, sp := range p.SPkgs {
		for _, mem := range sp.Members {
			t, ok := mem.(*ssa.Type)
			if !ok {
				continue
			}
			st, ok := t.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				if n := typeName(st.Field(i).Type()); n == "sync.Mutex" || n == "sync.RWMutex" {
					out = append(out, typeName(t.Type()))
				}
			}
		}
	}
	return out
}

func init() {
	register(&Property{ID: "C16", Run: func(p *Program, r *Result) {
		s := &Sharing{types: map[string]bool{}, accesses: map[string]*access{}}
		for _, t := range sharedTypes {
			s.types[t] = true
			if i := strings.LastIndexByte(t, '.'); i > 0 {
				if _, err := p.Named(strings.TrimPrefix(strings.TrimPrefix(t[:i], "bond"), "/"), t[i+1:]); err != nil {
					r.Fail("%v", err)
				}
			}
		}
		for _, t := range mutexTypes(p) {
			s.types[t] = true
		}
		for _, fn := range s.entries(p) {
			s.run(p, r, fn)
		}
		s.pairs(r)
		r.Need("shared-fields-locked", 10)
		r.Need("lock-released", 20)
	}})
}
