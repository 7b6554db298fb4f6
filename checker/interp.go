package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event is one call, with its callee resolved as far as possible.
type Event struct {
	Site ssa.Instruction
	Ctx  *Ctx
	Name string        // see calleeName
	Fn   *ssa.Function // the static callee, if any
	Recv *Term         // the receiver of an interface call, or of a method
	Args []*Term       // the arguments without the receiver
	Sig  *types.Signature
	Val  *Term // the function value of a dynamic call
	Pos  string
}

// Outcome is one way a call ends.
type Outcome struct {
	st  *State
	res *Term // nil if no result; a tuple if several
}

// Spec tells the interpreter what to intercept.
type Spec struct {
	// Call may take over a call: it returns handled, and the outcomes.
	Call func(m *Machine, st *State, ev *Event) (bool, []Outcome)
	// After sees the outcomes of every call that was not taken over and is
	// not inlined.
	After func(m *Machine, st *State, ev *Event, res *Term)
	// OnFact is called when a branch condition becomes known.
	OnFact func(m *Machine, st *State, t *Term, v bool)
	// OnAge is called before names become old.
	OnAge func(m *Machine, st *State, sub map[*Term]*Term)
	// OnReturn is called when the entry point returns.
	OnReturn func(m *Machine, st *State, res []*Term, pos string)
	// OnFrameReturn is called when any inlined function returns.
	OnFrameReturn func(m *Machine, st *State, fn *ssa.Function, ctx *Ctx, res *Term)
	// OnStore is called for each store through a pointer.
	OnStore func(m *Machine, st *State, addr, val *Term, site ssa.Instruction)
	// OnInstr is called before each instruction other than calls and branches,
	// OnBuiltin before each call of a builtin.
	OnInstr   func(m *Machine, st *State, ctx *Ctx, in ssa.Instruction)
	OnBuiltin func(m *Machine, st *State, name string, args []*Term, site ssa.Instruction)
	// OnNext and OnDone are called at the head of a loop over a container.
	OnNext func(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock)
	OnDone func(m *Machine, st *State, it *iterState, hdr *ssa.BasicBlock)
	// OnAppend is called when elements are appended to a list (whole is a
	// slice whose elements are appended, if they are not known one by one).
	OnAppend func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction)
	// OnNewList is called when a list is begun (again).
	OnNewList func(m *Machine, st *State, list *Term)
	// OnCounter is called before an integer that grows in a loop is given a new
	// name; what it returns is called with the name.
	OnCounter func(m *Machine, st *State, val *Term) func(name *Term)
	// OnAdvance is the same for a slice of which a loop takes off parts.
	OnAdvance func(m *Machine, st *State, val *Term) func(name *Term)
	// OnBytes is called when bytes are appended to bytes.
	OnBytes  func(m *Machine, st *State, base, res *Term, pos string)
	OnMapSet func(m *Machine, st *State, mp, k, v *Term, site ssa.Instruction)
	// OnGo is called for go statements.
	OnPanic func(m *Machine, st *State, site ssa.Instruction)
	// OnMake is called when a slice is made.
	OnMake func(m *Machine, st *State, list, n *Term)
	// OnSelect is called with the channels of a select and the chosen case.
	OnSelect func(m *Machine, st *State, site *ssa.Select, chans []*Term, chosen int)
	// Inline overrides which module functions are inlined.
	Inline func(fn *ssa.Function) bool
	// KeepFact keeps facts that no later branch depends on.
	KeepFact func(m *Machine, t *Term) bool
	// Depth bounds the size of terms (0: the default).
	Depth int
	// RawKeys: the functions that encode and decode keys are entered.
	RawKeys bool
	// Signs keeps conversions between signed and unsigned numbers apart.
	Signs bool
	// TrackLists records what local lists and maps contain.
	TrackLists bool
}

// Violation is one defect found.
type Violation struct {
	Rule, Construct, Msg string
	Pos                  string
	Trace                []string
}

type Machine struct {
	flat        int // > 0: contents without what was stored into single elements
	entryParams []*Term
	P           *Program
	TT          *Terms
	spec        *Spec

	ctxs  map[string]*Ctx
	root  *Ctx
	entry *ssa.Function
	live  map[*ssa.Function]*liveInfo
	loops map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo

	// condSites are the branches that depend on a value; what is known of a
	// value that one branch depends on is forgotten after it
	condSites map[*Term]map[string]bool
	dry       bool
	dbg       func(ctx *Ctx, b *ssa.BasicBlock, st *State, key string)

	limit   int
	Visited int
	Calls   int
	Inlined map[*ssa.Function]bool
	Opaque  map[string]bool
	Events  map[string]int

	err        error
	violations map[string]*Violation
	order      []string
	// Checked counts the obligations decided, by rule
	Checked map[string]map[string]bool
}

func NewMachine(p *Program, spec *Spec) *Machine {
	return &Machine{
		P: p, TT: NewTerms(), spec: spec, ctxs: map[string]*Ctx{},
		live: map[*ssa.Function]*liveInfo{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{},
		limit: 400000, condSites: map[*Term]map[string]bool{}, Inlined: map[*ssa.Function]bool{}, Opaque: map[string]bool{}, Events: map[string]int{},
		violations: map[string]*Violation{}, Checked: map[string]map[string]bool{},
	}
}

// dumpState prints the abstract state of each violation (for development).
var dumpState = os.Getenv("DUMP") != ""

// Check counts an obligation, and reports a violation of it if !ok.
func (m *Machine) Check(st *State, ok bool, rule, construct, pos, msg string) bool {
	if m.dry {
		return ok
	}
	if m.Checked[rule] == nil {
		m.Checked[rule] = map[string]bool{}
	}
	m.Checked[rule][construct] = true
	if !ok {
		m.report(st, rule, construct, pos, msg)
	}
	return ok
}

func (m *Machine) report(st *State, rule, construct, pos, msg string) {
	if m.dry {
		return
	}
	k := rule + "|" + construct + "|" + msg
	if _, ok := m.violations[k]; ok {
		return
	}
	v := &Violation{Rule: rule, Construct: construct, Msg: msg, Pos: pos}
	if st != nil && dumpState {
		fmt.Println("STATE AT", pos, rule, msg)
		for _, t := range st.user {
			fmt.Println("   user", t)
		}
		for t, b := range st.facts {
			fmt.Println("   fact", b, t)
		}
		for e, v := range st.heap {
			fmt.Println("   heap", e, "=", v)
		}
	}
	if st != nil {
		for n := st.trace; n != nil; n = n.prev {
			v.Trace = append([]string{n.pos}, v.Trace...)
		}
	}
	m.violations[k] = v
	m.order = append(m.order, k)
}

func (m *Machine) fail(format string, args ...any) {
	if m.err == nil {
		m.err = fmt.Errorf(format, args...)
	}
}

func (m *Machine) ctx(parent *Ctx, site ssa.Instruction, fn *ssa.Function) *Ctx {
	pid := 0
	depth := 0
	if parent != nil {
		pid = parent.id
		depth = parent.depth + 1
	}
	k := fmt.Sprintf("%d|%d|%d", pid, m.TT.objID(site), m.TT.objID(fn))
	if site == nil {
		k = fmt.Sprintf("%d||%d", pid, m.TT.objID(fn))
	}
	c, ok := m.ctxs[k]
	if !ok {
		c = &Ctx{id: len(m.ctxs) + 1, parent: parent, site: site, fn: fn, depth: depth}
		m.ctxs[k] = c
	}
	return c
}

func (c *Ctx) contains(fn *ssa.Function) bool {
	for ; c != nil; c = c.parent {
		if c.fn == fn {
			return true
		}
	}
	return false
}

// Run interprets fn from its entry, with symbolic parameters. pre may refine
// the initial state and the parameters.
func (m *Machine) Run(fn *ssa.Function, pre func(st *State, params []*Term)) []Outcome {
	m.dry = true
	m.run1(fn, pre)
	m.dry = false
	m.Events = map[string]int{}
	m.Visited = 0
	return m.run1(fn, pre)
}

func (m *Machine) run1(fn *ssa.Function, pre func(st *State, params []*Term)) []Outcome {
	m.entry = fn
	m.root = m.ctx(nil, nil, fn)
	st := newState()
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, m.TT.Param(fn, i, p.Type()))
	}
	m.entryParams = args
	var binds []*Term
	for i, fv := range fn.FreeVars {
		binds = append(binds, m.TT.Param(fn, len(fn.Params)+i, fv.Type()))
	}
	if pre != nil {
		pre(st, args)
	}
	outs := m.run(fn, m.root, st, args, binds)
	for _, o := range outs {
		if m.spec.OnReturn != nil {
			var res []*Term
			if o.res != nil {
				if o.res.K == KTuple {
					res = o.res.Args
				} else {
					res = []*Term{o.res}
				}
			}
			pos := ""
			if o.st.trace != nil {
				pos = o.st.trace.pos
			}
			m.spec.OnReturn(m, o.st, res, pos)
		}
	}
	return outs
}

func originOf(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

type workItem struct {
	b   *ssa.BasicBlock
	idx int
	st  *State
}

func (m *Machine) tracePos(st *State, pos token.Pos) {
	if !pos.IsValid() {
		return
	}
	p := m.P.Pos(pos)
	if st.trace != nil && st.trace.pos == p {
		return
	}
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &traceNode{prev: st.trace, pos: p, n: n}
}

// run interprets the body of fn and returns the ways it can end.
func (m *Machine) run(fn *ssa.Function, ctx *Ctx, st *State, args, binds []*Term) []Outcome {
	if fn.Blocks == nil {
		m.fail("no body: %s", fn)
		return nil
	}
	m.Inlined[fn] = true
	for i, p := range fn.Params {
		if i < len(args) {
			st.env[envKey{ctx, p}] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(binds) {
			st.env[envKey{ctx, fv}] = binds[i]
		}
	}
	li := m.liveness(fn)
	var outs []Outcome
	outSeen := map[string]bool{}
	visited := map[int]map[string]bool{}
	var work []workItem
	enqueue := func(b *ssa.BasicBlock, st *State) {
		// prune what is dead on entry to b
		for k := range st.env {
			if k.ctx == ctx && !li.in[b][k.v] {
				delete(st.env, k)
			}
		}
		m.gc(st)
		key := m.stateKey(st)
		if visited[b.Index] == nil {
			visited[b.Index] = map[string]bool{}
		}
		if visited[b.Index][key] {
			return
		}
		visited[b.Index][key] = true
		if m.dbg != nil {
			m.dbg(ctx, b, st, key)
		}
		work = append(work, workItem{b, 0, st})
	}
	enqueue(fn.Blocks[0], st)

	for len(work) > 0 && m.err == nil {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		m.Visited++
		if m.Visited > m.limit {
			m.fail("more than %d states while analysing %s (in %s)", m.limit, m.entry, fn)
			return nil
		}
		b := w.b
		st := w.st
	instrs:
		for i := w.idx; i < len(b.Instrs); i++ {
			if m.err != nil {
				return nil
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.Phi:
				// done on the edge
			case *ssa.Jump:
				m.edge(fn, ctx, b, b.Succs[0], st, enqueue)
				break instrs
			case *ssa.If:
				m.branch(fn, ctx, b, in, st, enqueue)
				break instrs
			case *ssa.Return:
				m.tracePos(st, in.Pos())
				var res *Term
				switch len(in.Results) {
				case 0:
				case 1:
					res = m.val(st, ctx, in.Results[0])
				default:
					var xs []*Term
					for _, r := range in.Results {
						xs = append(xs, m.val(st, ctx, r))
					}
					res = m.TT.Tuple(xs...)
				}
				for k := range st.env {
					if k.ctx == ctx {
						delete(st.env, k)
					}
				}
				for k := range st.iters {
					if k.ctx == ctx {
						delete(st.iters, k)
					}
				}
				if m.spec.OnFrameReturn != nil {
					m.spec.OnFrameReturn(m, st, fn, ctx, res)
				}
				key := m.stateKey(st)
				if res != nil {
					key += fmt.Sprint("R", res.id)
				}
				if !outSeen[key] {
					outSeen[key] = true
					outs = append(outs, Outcome{st, res})
				}
				break instrs
			case *ssa.Panic:
				if m.spec.OnPanic != nil {
					m.spec.OnPanic(m, st, in)
				}
				break instrs
			case *ssa.RunDefers:
				var mine []deferRec
				var rest []deferRec
				for _, d := range st.defers {
					if d.ctx == ctx {
						mine = append(mine, d)
					} else {
						rest = append(rest, d)
					}
				}
				if len(mine) == 0 {
					continue
				}
				d := mine[len(mine)-1]
				st.defers = append(rest, mine[:len(mine)-1]...)
				res := m.callCommon(fn, ctx, st, d.site, d.site.Common(), d.fn, d.args)
				for _, o := range res {
					work = append(work, workItem{b, i, o.st}) // run the next one
				}
				break instrs
			case *ssa.Defer:
				cc := in.Common()
				rec := deferRec{ctx: ctx, site: in}
				rec.fn = m.calleeVal(st, ctx, cc)
				for _, a := range cc.Args {
					rec.args = append(rec.args, m.val(st, ctx, a))
				}
				n := 0
				for _, d := range st.defers {
					if d.site == in && d.ctx == ctx {
						n++
					}
				}
				if n >= 2 {
					m.fail("%s: defer in a loop", m.P.Pos(in.Pos()))
					return nil
				}
				st.defers = append(st.defers, rec)
			case *ssa.Call:
				m.tracePos(st, in.Pos())
				cc := in.Common()
				fv := m.calleeVal(st, ctx, cc)
				var cargs []*Term
				for _, a := range cc.Args {
					cargs = append(cargs, m.val(st, ctx, a))
				}
				// forget what is dead after the call
				dead := li.deadAfter(in)
				for k := range st.env {
					if k.ctx == ctx && dead(k.v) {
						delete(st.env, k)
					}
				}
				res := m.callCommon(fn, ctx, st, in, cc, fv, cargs)
				if len(res) == 1 {
					st = res[0].st
					m.setRes(st, ctx, in, res[0].res)
					continue
				}
				for _, o := range res {
					m.setRes(o.st, ctx, in, o.res)
					work = append(work, workItem{b, i + 1, o.st})
				}
				break instrs
			case *ssa.Go:
				m.tracePos(st, in.Pos())
				cc := in.Common()
				fv := m.calleeVal(st, ctx, cc)
				var cargs []*Term
				for _, a := range cc.Args {
					cargs = append(cargs, m.val(st, ctx, a))
				}
				res := m.callCommon(fn, ctx, st, in, cc, fv, cargs)
				for _, o := range res {
					work = append(work, workItem{b, i + 1, o.st})
				}
				break instrs
			case *ssa.Select:
				for _, o := range m.selectStmt(ctx, st, in) {
					m.setRes(o.st, ctx, in, o.res)
					work = append(work, workItem{b, i + 1, o.st})
				}
				break instrs
			case *ssa.TypeAssert:
				rs := m.typeAssert(ctx, st, in)
				if len(rs) == 1 {
					st = rs[0].st
					m.setRes(st, ctx, in, rs[0].res)
					continue
				}
				for _, o := range rs {
					m.setRes(o.st, ctx, in, o.res)
					work = append(work, workItem{b, i + 1, o.st})
				}
				break instrs
			default:
				m.simple(fn, ctx, st, in)
			}
		}
	}
	return outs
}

func (m *Machine) setRes(st *State, ctx *Ctx, v ssa.Value, res *Term) {
	if res == nil {
		return
	}
	st.env[envKey{ctx, v}] = res
}

// val evaluates an operand.
func (m *Machine) val(st *State, ctx *Ctx, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return m.TT.Zero(v.Type())
		}
		return m.TT.Const(v.Value)
	case *ssa.Global:
		return m.TT.Global(v)
	case *ssa.Function:
		return m.TT.Func(originOf(v))
	case *ssa.Builtin:
		return m.TT.mk(&Term{K: KFunc, Op: "builtin " + v.Name(), Obj: v})
	}
	if t, ok := st.env[envKey{ctx, v}]; ok {
		return t
	}
	// a value the engine does not follow (or a dead one)
	if in, ok := v.(ssa.Instruction); ok {
		return m.TT.Sym(in, ctx, 0, v.Type())
	}
	m.fail("no value for %s in %s", v.Name(), ctx.fn)
	return m.TT.Nil
}

// edge follows a control flow edge: loop summaries, then phis.
func (m *Machine) edge(fn *ssa.Function, ctx *Ctx, from, to *ssa.BasicBlock, st *State, enqueue func(*ssa.BasicBlock, *State)) {
	loops := m.loopsOf(fn)
	if l, ok := loops[to]; ok {
		k := iterKey{ctx, to}
		if l.blocks[from] {
			m.endIteration(st, k)
		} else {
			delete(st.iters, k)
		}
	}
	// leaving loops: forget their iteration state
	for h, l := range loops {
		if l.blocks[from] && !l.blocks[to] {
			delete(st.iters, iterKey{ctx, h})
		}
	}
	predIdx := -1
	for i, p := range to.Preds {
		if p == from {
			predIdx = i
		}
	}
	type pv struct {
		phi *ssa.Phi
		t   *Term
		f   func(*Term) // see Spec.OnCounter
	}
	var pvs []pv
	_, isLoop := loops[to]
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		t := m.val(st, ctx, phi.Edges[predIdx])
		if isLoop && (isInteger(phi.Type()) || t.depth > 5 || advances(phi, predIdx)) || isInteger(phi.Type()) && t.K == KApp && t.Op != "len" && m.repeated(fn, ctx, to) {
			var f func(*Term)
			if m.spec.OnCounter != nil && isInteger(phi.Type()) {
				f = m.spec.OnCounter(m, st, t)
			} else if m.spec.OnAdvance != nil && !isInteger(phi.Type()) {
				f = m.spec.OnAdvance(m, st, t)
			}
			pvs = append(pvs, pv{phi, nil, f})
			continue
		}
		pvs = append(pvs, pv{phi, t, nil})
	}
	for _, p := range pvs {
		if p.t == nil {
			m.age(st, p.phi, ctx)
		}
	}
	if len(pvs) > 0 {
		// the ageing may have renamed the values
		for i, p := range pvs {
			if p.t != nil {
				pvs[i].t = m.val(st, ctx, p.phi.Edges[predIdx])
			}
		}
	}
	for _, p := range pvs {
		t := p.t
		if t == nil {
			t = m.TT.Sym(p.phi, ctx, 0, p.phi.Type())
			if p.f != nil {
				p.f(t)
			}
		}
		st.env[envKey{ctx, p.phi}] = t
	}
	enqueue(to, st)
}

// advances: the value on the edge is a part of what the phi was before.
func advances(phi *ssa.Phi, edge int) bool {
	v := phi.Edges[edge]
	n := 0
	for {
		s, ok := v.(*ssa.Slice)
		if !ok {
			break
		}
		v, n = s.X, n+1
	}
	return n > 0 && v == ssa.Value(phi)
}

// repeated: the block is in a loop, of its function or of a caller.
func (m *Machine) repeated(fn *ssa.Function, ctx *Ctx, b *ssa.BasicBlock) bool {
	for {
		for _, l := range m.loopsOf(fn) {
			if l.blocks[b] {
				return true
			}
		}
		if ctx == nil || ctx.parent == nil || ctx.site == nil {
			return false
		}
		b, fn, ctx = ctx.site.Block(), ctx.site.Parent(), ctx.parent
	}
}

// subject is the value a condition is about.
func subject(t *Term) *Term {
	for t.K == KApp && t.Op == "!" {
		t = t.Args[0]
	}
	if t.K == KApp && t.Op == "==" {
		for i := 0; i < 2; i++ {
			if a := t.Args[i]; a.K == KConst || a.K == KNil {
				return t.Args[1-i]
			}
		}
	}
	return t
}

func (m *Machine) noteCond(t *Term, ctx *Ctx, site ssa.Instruction) {
	s := subject(t)
	if m.condSites[s] == nil {
		m.condSites[s] = map[string]bool{}
	}
	m.condSites[s][fmt.Sprint(ctx.id, ".", m.TT.objID(site))] = true
}

// keepFact reports whether a fact can matter later.
func (m *Machine) keepFact(t *Term) bool {
	for _, l := range t.leaves {
		if l.K == KOld {
			return false
		}
	}
	s := subject(t)
	if s.Typ != nil && types.TypeString(s.Typ, nil) == "error" {
		return true
	}
	if m.spec.KeepFact != nil && m.spec.KeepFact(m, t) {
		return true
	}
	if s.K == KApp && s.Op == "<" {
		// x >= 0 of a counter that counts down
		return s == t && s.Args[1].isInt(0) && s.Args[0].K == KSym && isPhi(s.Args[0].Site)
	}
	if s.K == KApp && s.Op == "errors.Is" {
		return true
	}
	return !m.dry && len(m.condSites[s]) > 1
}

func isPhi(s ssa.Instruction) bool {
	_, ok := s.(*ssa.Phi)
	return ok
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (m *Machine) branch(fn *ssa.Function, ctx *Ctx, b *ssa.BasicBlock, in *ssa.If, st *State, enqueue func(*ssa.BasicBlock, *State)) {
	cond := m.val(st, ctx, in.Cond)
	m.noteCond(cond, ctx, in)
	loop := m.loopsOf(fn)[b]
	iterLoop := loop != nil && loop.kind != ""
	if iterLoop {
		if it := m.iterOf(st, ctx, loop); it.cont != nil {
			m.noteCond(m.TT.Len(it.cont), ctx, in)
		}
	}
	for i, succ := range b.Succs {
		v := i == 0
		s := st
		if i == 0 {
			s = st.clone()
		}
		if iterLoop && loop.exitOn == v {
			// leaving the loop normally
			it := m.iterOf(s, ctx, loop)
			if !m.assume(s, cond, v) {
				continue
			}
			if !it.started {
				// no element at all
				if it.cont != nil {
					if !m.assume(s, m.TT.Eq(m.TT.Len(it.cont), m.TT.Int(0)), true) {
						continue
					}
				}
			}
			m.finishLoop(s, it)
			if m.spec.OnDone != nil {
				m.spec.OnDone(m, s, it, b)
			}
		} else if iterLoop {
			if !m.assume(s, cond, v) {
				continue
			}
			it := m.iterOf(s, ctx, loop)
			if it.cont != nil {
				if !m.assume(s, m.TT.Eq(m.TT.Len(it.cont), m.TT.Int(0)), false) {
					continue
				}
			}
			n := *it
			n.started = true
			s.iters[iterKey{ctx, b}] = &n
			if m.spec.OnNext != nil {
				m.spec.OnNext(m, s, &n, b)
			}
		} else if !m.assume(s, cond, v) {
			continue
		}
		if cond != m.TT.True && cond != m.TT.False {
			m.decide(s, cond, v)
		}
		m.edge(fn, ctx, b, succ, s, enqueue)
	}
}

// decide replaces a boolean whose value became known in the variables that
// hold it: what is known of it must outlive the names it is made of.
func (m *Machine) decide(s *State, cond *Term, v bool) {
	c, n := m.TT.boolTerm(v), m.TT.boolTerm(!v)
	not := m.TT.Not(cond)
	for k, t := range s.env {
		if t == cond {
			s.env[k] = c
		} else if t == not {
			s.env[k] = n
		}
	}
	for k, t := range s.heap {
		if t == cond {
			s.heap[k] = c
		} else if t == not {
			s.heap[k] = n
		}
	}
}

// iterOf returns the state of a container loop whose header test is about to
// be decided, with the current element filled in.
func (m *Machine) iterOf(s *State, ctx *Ctx, l *loopInfo) *iterState {
	k := iterKey{ctx, l.hdr}
	it := s.iters[k]
	n := &iterState{top: true}
	if it != nil {
		*n = *it
	}
	switch l.kind {
	case "range":
		nx := m.val(s, ctx, l.next)
		if nx.K == KTuple && len(nx.Args) == 3 {
			n.idx, n.elem = nx.Args[1], nx.Args[2]
		}
		r := m.val(s, ctx, l.next.Iter)
		if r.K == KApp && r.Op == "range" {
			n.cont = r.Args[0]
		}
	case "index":
		n.cont = m.val(s, ctx, l.cont)
		n.idx = m.val(s, ctx, l.idx)
		n.elem = m.TT.Elem(n.cont, n.idx, elemType(l.cont.Type()))
	}
	return n
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Map:
		return u.Elem()
	}
	return types.Typ[types.Int]
}

// endIteration summarises what was done for the current element.
func (m *Machine) endIteration(st *State, k iterKey) {
	it := st.iters[k]
	if it == nil || !it.started || it.elem == nil {
		return
	}
	sub := map[*Term]*Term{it.elem: m.TT.Hole}
	if it.idx != nil && it.idx.K != KConst {
		sub[it.idx] = m.TT.mk(&Term{K: KHole, N: 1})
	}
	pats := map[string]*Tup{}
	for _, t := range st.user {
		if !strings.HasPrefix(t.Tag, "did:") && !strings.HasPrefix(t.Tag, "all:") {
			continue
		}
		args := make([]*Term, len(t.Args))
		changed := false
		for i, a := range t.Args {
			args[i] = m.TT.rewrite(a, sub)
			changed = changed || args[i] != a
		}
		if !changed {
			continue
		}
		p := &Tup{Tag: t.Tag, Args: args, Data: t.Data, Pos: t.Pos}
		pats[p.key()] = p
		st.del(t)
	}
	n := *it
	if it.top {
		n.acc = pats
		n.top = false
	} else {
		acc := map[string]*Tup{}
		for k, p := range it.acc {
			if _, ok := pats[k]; ok {
				acc[k] = p
			}
		}
		n.acc = acc
	}
	st.iters[k] = &n
}

// finishLoop turns what was done for each element into a fact about all.
func (m *Machine) finishLoop(st *State, it *iterState) {
	if it.cont == nil {
		return
	}
	if it.top {
		return // no element: len(container) == 0 was assumed
	}
	for _, p := range it.acc {
		t := &Tup{Tag: "all:" + strings.TrimPrefix(p.Tag, "did:"), Args: append([]*Term{it.cont}, p.Args...), Data: p.Data, Pos: p.Pos}
		st.add(t)
	}
}

func (m *Machine) calleeVal(st *State, ctx *Ctx, cc *ssa.CallCommon) *Term {
	if cc.IsInvoke() {
		return m.val(st, ctx, cc.Value)
	}
	return m.val(st, ctx, cc.Value)
}

// calleeName is "pkg.Func", "pkg.Type.Method" or, for interface calls,
// "iface:pkg.Type.Method"; pkg is the import path, "bond" for the module root.
func calleeName(fn *ssa.Function) string {
	fn = originOf(fn)
	name := fn.Name()
	if fn.Parent() != nil {
		return calleeName(fn.Parent()) + "$" + name
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return typeName(recv.Type()) + "." + name
	}
	if fn.Pkg != nil {
		return pkgName(fn.Pkg.Pkg) + "." + name
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		if f, ok := o.(*types.Func); ok {
			if r := f.Type().(*types.Signature).Recv(); r != nil {
				return typeName(r.Type()) + "." + name
			}
		}
		return pkgName(o.Pkg()) + "." + name
	}
	return name
}

func pkgName(p *types.Package) string {
	if p == nil {
		return ""
	}
	s := p.Path()
	if s == modPath {
		return "bond"
	}
	if strings.HasPrefix(s, modPath+"/") {
		return "bond/" + strings.TrimPrefix(s, modPath+"/")
	}
	return s
}

func typeName(t types.Type) string {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return pkgName(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return t.String()
}

// callCommon performs a call and returns the ways it can end.
func (m *Machine) callCommon(fn *ssa.Function, ctx *Ctx, st *State, site ssa.Instruction, cc *ssa.CallCommon, fv *Term, args []*Term) []Outcome {
	m.Calls++
	// what earlier executions of this call returned is old now
	sub := map[*Term]*Term{}
	note := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leaves {
			if l.K != KOld && l.Site == site && l.Ctx == ctx {
				sub[l] = m.TT.oldOf(l)
			}
		}
	}
	isAppend := false
	if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
		isAppend = true // its result is named after the list
	}
	if !isAppend {
		note(fv)
		for _, a := range args {
			note(a)
		}
		m.age(st, site, ctx)
	}
	if len(sub) > 0 {
		fv = m.TT.rewrite(fv, sub)
		for i, a := range args {
			args[i] = m.TT.rewrite(a, sub)
		}
	}
	if cc.IsInvoke() {
		return m.invoke(ctx, st, site, cc.Method, cc.Value.Type(), fv, args, cc.Signature())
	}
	return m.callValue(ctx, st, site, fv, args, cc.Signature(), cc.Value)
}

// pureIface are interface methods whose result only depends on the arguments.
var pureIface = map[string]bool{
	"iface:bond.Table.ID": true, "iface:bond.Table.DB": true, "iface:bond.Table.PrimaryKey": true,
	"iface:bond.Table.Serializer": true, "iface:bond.Batch.Type": true, "iface:bond.Selector.Type": true,
	"iface:bond.TableInfo.ID": true,
}

// invoke calls an interface method.
func (m *Machine) invoke(ctx *Ctx, st *State, site ssa.Instruction, meth *types.Func, ifaceType types.Type, recv *Term, args []*Term, sig *types.Signature) []Outcome {
	ev := &Event{Site: site, Ctx: ctx, Name: "iface:" + typeName(ifaceType) + "." + meth.Name(), Recv: recv, Args: args, Sig: sig, Pos: m.P.Pos(site.Pos())}
	if m.spec.Call != nil {
		if ok, outs := m.spec.Call(m, st, ev); ok {
			m.Events[ev.Name]++
			return outs
		}
	}
	// a known dynamic type
	if recv.K == KIface {
		dyn := recv.Typ
		x := recv.Args[0]
		obj, path, _ := types.LookupFieldOrMethod(dyn, true, meth.Pkg(), meth.Name())
		if f, ok := obj.(*types.Func); ok {
			t := dyn
			for _, fi := range path[:len(path)-1] {
				isPtr := false
				if p, ok := t.Underlying().(*types.Pointer); ok {
					isPtr = true
					t = p.Elem()
				}
				s, ok := t.Underlying().(*types.Struct)
				if !ok {
					m.fail("no struct for promoted method %s", meth.Name())
					return nil
				}
				ft := s.Field(fi).Type()
				if isPtr {
					x = m.load(st, m.TT.FldAddr(x, fi, types.NewPointer(ft)), ft)
				} else {
					x = m.TT.Fld(x, fi, ft)
				}
				t = ft
			}
			if types.IsInterface(t) {
				return m.invoke(ctx, st, site, f, t, x, args, sig)
			}
			target := m.P.SSA.FuncValue(f.Origin())
			if target != nil {
				// pointer/value receiver adjustment
				_, wantPtr := f.Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer)
				_, havePtr := t.Underlying().(*types.Pointer)
				if !wantPtr && havePtr {
					x = m.load(st, x, t.Underlying().(*types.Pointer).Elem())
				}
				return m.callFunc(ctx, st, site, originOf(target), append([]*Term{x}, args...), nil, sig)
			}
		}
	}
	if pureIface[ev.Name] {
		return m.pureCall(st, ev)
	}
	return m.opaque(st, ev)
}

func (m *Machine) callValue(ctx *Ctx, st *State, site ssa.Instruction, fv *Term, args []*Term, sig *types.Signature, v ssa.Value) []Outcome {
	if fv.K == KFunc {
		if b, ok := fv.Obj.(*ssa.Builtin); ok {
			return m.builtin(ctx, st, site, b, args, v)
		}
		f := fv.Obj.(*ssa.Function)
		return m.callFunc(ctx, st, site, f, args, fv.Args, sig)
	}
	ev := &Event{Site: site, Ctx: ctx, Name: "dynamic", Val: fv, Args: args, Sig: sig, Pos: m.P.Pos(site.Pos())}
	if m.spec.Call != nil {
		if ok, outs := m.spec.Call(m, st, ev); ok {
			m.Events["dynamic"]++
			return outs
		}
	}
	if isPureUserFunc(ev) {
		return m.pureCall(st, ev)
	}
	return m.opaque(st, ev)
}

// callFunc calls a known function.
func (m *Machine) callFunc(ctx *Ctx, st *State, site ssa.Instruction, f *ssa.Function, args, binds []*Term, sig *types.Signature) []Outcome {
	f = originOf(f)
	ev := &Event{Site: site, Ctx: ctx, Name: calleeName(f), Fn: f, Args: args, Sig: f.Signature, Pos: m.P.Pos(site.Pos()), Val: m.TT.Func(f, binds...)}
	if f.Signature.Recv() != nil && len(args) > 0 {
		ev.Recv, ev.Args = args[0], args[1:]
	}
	if m.spec.Call != nil {
		if ok, outs := m.spec.Call(m, st, ev); ok {
			m.Events[ev.Name]++
			return outs
		}
	}
	if ok, outs := m.model(st, ev, args); ok {
		return outs
	}
	if ok, outs := m.base(st, ev); ok {
		return outs
	}
	if m.inlinable(ctx, f) {
		c := m.ctx(ctx, site, f)
		return m.run(f, c, st, args, binds)
	}
	return m.opaque(st, ev)
}

func (m *Machine) inlinable(ctx *Ctx, f *ssa.Function) bool {
	if f.Blocks == nil || ctx.contains(f) || ctx.depth > 30 {
		return false
	}
	if !m.P.InModule(f) {
		// synthetic wrappers of module code and of interfaces
		return f.Synthetic != "" && f.Pkg == nil
	}
	if m.spec.Inline != nil {
		return m.spec.Inline(f)
	}
	return true
}

// resultTerms makes fresh names for the results of a call.
func (m *Machine) fresh(st *State, ev *Event) *Term {
	m.age(st, ev.Site, ev.Ctx)
	return m.freshNoAge(ev)
}

func (m *Machine) freshNoAge(ev *Event) *Term {
	res := ev.Sig.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.TT.Call(ev.Site, ev.Ctx, 0, res.At(0).Type())
	}
	var xs []*Term
	for i := 0; i < res.Len(); i++ {
		xs = append(xs, m.TT.Call(ev.Site, ev.Ctx, i, res.At(i).Type()))
	}
	return m.TT.Tuple(xs...)
}

// resErr returns the error among the results of a call.
func resErr(res *Term) *Term {
	if res == nil {
		return nil
	}
	if res.K == KTuple {
		return resErr(res.Args[len(res.Args)-1])
	}
	if res.Typ != nil && types.TypeString(res.Typ, nil) == "error" {
		return res
	}
	return nil
}

// opaque performs a call of unknown code.
func (m *Machine) opaque(st *State, ev *Event) []Outcome {
	m.Opaque[ev.Name] = true
	m.age(st, ev.Site, ev.Ctx)
	m.havocArgs(st, ev)
	outs := []Outcome{{st, nil}}
	// closures handed over may run any number of times
	var fns []*Term
	for _, a := range ev.Args {
		fns = append(fns, m.funcsIn(st, a, 0)...)
	}
	if len(fns) > 0 {
		outs = m.mayCall(st, ev, fns)
	}
	for i := range outs {
		m.age(outs[i].st, ev.Site, ev.Ctx)
		outs[i].res = m.freshNoAge(ev)
		if m.spec.After != nil {
			m.spec.After(m, outs[i].st, ev, outs[i].res)
		}
	}
	return outs
}

// funcsIn collects the module functions reachable from a value.
func (m *Machine) funcsIn(st *State, t *Term, d int) []*Term {
	if d > 4 || t == nil {
		return nil
	}
	switch t.K {
	case KFunc:
		if f, ok := t.Obj.(*ssa.Function); ok && f.Blocks != nil && m.P.InModule(f) {
			return []*Term{t}
		}
		return nil
	case KStruct, KIface, KTuple:
		var out []*Term
		for _, a := range t.Args {
			out = append(out, m.funcsIn(st, a, d+1)...)
		}
		return out
	case KAlloc:
		var out []*Term
		for k, v := range st.heap {
			r := k
			for r.K == KFldAddr || r.K == KIdxAddr {
				r = r.Args[0]
			}
			if r == t {
				out = append(out, m.funcsIn(st, v, d+1)...)
			}
		}
		return out
	case KApp:
		if t.Op == "slice" {
			return m.funcsIn(st, t.Args[0], d+1)
		}
	}
	return nil
}

// mayCall runs closures any number of times, with unknown arguments.
func (m *Machine) mayCall(st *State, ev *Event, fns []*Term) []Outcome {
	seen := map[string]bool{m.stateKey(st): true}
	all := []*State{st}
	work := []*State{st}
	for len(work) > 0 && m.err == nil {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for i, f := range fns {
			for _, o := range m.callClosure(s.clone(), ev, f, nil, i) {
				m.gc(o.st)
				k := m.stateKey(o.st)
				if !seen[k] {
					seen[k] = true
					all = append(all, o.st)
					work = append(work, o.st)
				}
			}
		}
	}
	var outs []Outcome
	for _, s := range all {
		outs = append(outs, Outcome{s, nil})
	}
	return outs
}

// callClosure calls a function value from within unknown code; missing
// arguments are unknown.
func (m *Machine) callClosure(st *State, ev *Event, f *Term, args []*Term, n int) []Outcome {
	fn, ok := f.Obj.(*ssa.Function)
	if f.K != KFunc || !ok {
		return []Outcome{{st, nil}}
	}
	if args == nil {
		m.age(st, ev.Site, ev.Ctx)
		for i, p := range fn.Params {
			args = append(args, m.TT.Call(ev.Site, ev.Ctx, 1000+100*n+i, p.Type()))
		}
	}
	return m.callFunc(ev.Ctx, st, ev.Site, fn, args, f.Args, fn.Signature)
}

// havocArgs forgets the local variables whose address unknown code receives.
func (m *Machine) havocArgs(st *State, ev *Event) {
	n := 500
	for _, a := range ev.Args {
		x := a
		if x.K == KIface {
			x = x.Args[0]
		}
		if x.K == KAlloc || x.K == KFldAddr || x.K == KIdxAddr {
			if _, isPtr := ptrElem(x.Typ); isPtr && x.K == KAlloc {
				if !mutableByCallee(x) {
					continue
				}
			}
			m.havoc(st, x, m.TT.Call(ev.Site, ev.Ctx, n, derefType(x.Typ)))
			n++
		}
	}
}

func mutableByCallee(x *Term) bool { return true }

func ptrElem(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

func derefType(t types.Type) types.Type {
	if e, ok := ptrElem(t); ok {
		return e
	}
	return t
}

func (m *Machine) havoc(st *State, addr, val *Term) {
	for k := range st.heap {
		if k != addr && underAddr(k, addr) {
			delete(st.heap, k)
		}
	}
	st.heap[addr] = val
}

func underAddr(k, base *Term) bool {
	for k.K == KFldAddr || k.K == KIdxAddr {
		if k == base {
			return true
		}
		k = k.Args[0]
	}
	return k == base
}

// load reads memory.
func (m *Machine) load(st *State, p *Term, t types.Type) *Term {
	if v, ok := st.heap[p]; ok {
		// fields stored separately since
		if s, isS := t.Underlying().(*types.Struct); isS && m.hasSubCells(st, p) {
			return m.buildStruct(st, p, t, s)
		}
		return v
	}
	switch p.K {
	case KAlloc:
		if s, isS := t.Underlying().(*types.Struct); isS && m.hasSubCells(st, p) {
			return m.buildStruct(st, p, t, s)
		}
		if m.hasSubCells(st, p) { // an array
			return m.TT.App("array", t, p)
		}
		return m.TT.Zero(t)
	case KFldAddr:
		if s, isS := t.Underlying().(*types.Struct); isS && m.hasSubCells(st, p) {
			return m.buildStruct(st, p, t, s)
		}
		base := p.Args[0]
		if v, ok := st.heap[base]; ok {
			return m.TT.Fld(v, p.N, t)
		}
		if base.K == KAlloc {
			return m.TT.Zero(t)
		}
		if base.K == KFldAddr || base.K == KIdxAddr {
			if pt, ok := ptrElem(base.Typ); ok {
				if bv := m.load(st, base, pt); bv.K != KLoad {
					return m.TT.Fld(bv, p.N, t)
				}
			}
		}
	case KIdxAddr:
		base := p.Args[0]
		if v, ok := st.heap[base]; ok {
			return m.TT.Elem(v, p.Args[1], t)
		}
		if base.K == KAlloc {
			if d, ok := st.heap[m.TT.App("dirty", nil, base)]; ok {
				return m.TT.Elem(d, p.Args[1], t)
			}
			if a := m.storedIn(st, p); a != nil {
				return m.TT.Elem(a, p.Args[1], t)
			}
			return m.TT.Zero(t)
		}
		if d, ok := st.heap[m.TT.App("dirty", nil, base)]; ok {
			return m.TT.Elem(m.TT.App("mut", base.Typ, base, d), p.Args[1], t)
		}
		return m.TT.Elem(base, p.Args[1], t)
	}
	return m.TT.Load(p, t)
}

// storedIn is the array whose element p is, if one of the elements that were
// stored may be that one.
func (m *Machine) storedIn(st *State, p *Term) *Term {
	args := []*Term{p.Args[0]}
	for k, v := range st.heap {
		if k.K == KIdxAddr && k.Args[0] == p.Args[0] && (k.Args[1].K != KConst || p.Args[1].K != KConst) {
			args = append(args, k.Args[1], v)
		}
	}
	if len(args) == 1 {
		return nil
	}
	sort.Slice(args[1:], func(i, j int) bool { return args[1+i].id < args[1+j].id })
	return m.TT.App("array", nil, args...)
}

func (m *Machine) hasSubCells(st *State, p *Term) bool {
	for k := range st.heap {
		if k != p && underAddr(k, p) {
			return true
		}
	}
	return false
}

func (m *Machine) buildStruct(st *State, p *Term, t types.Type, s *types.Struct) *Term {
	var xs []*Term
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		xs = append(xs, m.load(st, m.TT.FldAddr(p, i, types.NewPointer(ft)), ft))
	}
	return m.TT.Struct(t, xs)
}

// store writes memory.
func (m *Machine) store(st *State, p, v *Term) {
	for k := range st.heap {
		if k != p && underAddr(k, p) {
			delete(st.heap, k)
		}
	}
	if p.K == KIdxAddr {
		base, i := p.Args[0], p.Args[1]
		for k := range st.heap {
			// other elements that may be the same one
			r := k
			for r != nil && !(r.K == KIdxAddr && r.Args[0] == base) {
				if r.K == KFldAddr || r.K == KIdxAddr {
					r = r.Args[0]
				} else {
					r = nil
				}
			}
			if r == nil || r.Args[1] == i {
				continue
			}
			_, c1 := r.Args[1].intVal()
			_, c2 := i.intVal()
			if c1 && c2 {
				continue
			}
			delete(st.heap, k)
		}
	}
	st.heap[p] = v
}

func (m *Machine) simple(fn *ssa.Function, ctx *Ctx, st *State, in ssa.Instruction) {
	tt := m.TT
	set := func(v ssa.Value, t *Term) { st.env[envKey{ctx, v}] = t }
	val := func(v ssa.Value) *Term { return m.val(st, ctx, v) }
	if m.spec.OnInstr != nil {
		m.spec.OnInstr(m, st, ctx, in)
	}
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		m.age(st, in, ctx)
		set(in, tt.Alloc(in, ctx, in.Type()))
	case *ssa.Store:
		a, v := val(in.Addr), val(in.Val)
		if m.spec.OnStore != nil {
			m.spec.OnStore(m, st, a, v, in)
		}
		if a.K == KIdxAddr {
			if _, ok := a.Args[1].intVal(); !ok {
				m.age(st, in, ctx)
				a, v = val(in.Addr), val(in.Val)
				m.store(st, a, v)
				st.heap[tt.App("dirty", nil, a.Args[0])] = tt.Sym(in, ctx, 0, a.Args[0].Typ)
				return
			}
		}
		m.store(st, a, v)
	case *ssa.UnOp:
		x := val(in.X)
		switch in.Op {
		case token.MUL:
			if tu, ok := m.loadGlobalConst(x, in.Type()); ok {
				set(in, tu)
				return
			}
			set(in, m.load(st, x, in.Type()))
		case token.NOT:
			set(in, tt.Not(x))
		case token.ARROW:
			m.age(st, in, ctx)
			if in.CommaOk {
				set(in, tt.Tuple(tt.Call(in, ctx, 0, elemType(in.X.Type())), tt.Call(in, ctx, 1, types.Typ[types.Bool])))
			} else {
				set(in, tt.Call(in, ctx, 0, in.Type()))
			}
		default:
			if n, ok := x.intVal(); ok && in.Op == token.SUB {
				set(in, tt.Int(-n))
				return
			}
			set(in, m.cap(st, ctx, in, tt.App(in.Op.String(), in.Type(), x)))
		}
	case *ssa.BinOp:
		set(in, m.binop(st, ctx, in, val(in.X), val(in.Y)))
	case *ssa.FieldAddr:
		set(in, tt.FldAddr(val(in.X), in.Field, in.Type()))
	case *ssa.Field:
		set(in, tt.Fld(val(in.X), in.Field, in.Type()))
	case *ssa.IndexAddr:
		base := val(in.X)
		if base.K == KApp && base.Op == "slice" && base.Args[1].isInt(0) {
			// x[:n][i] is x[i]
			base = base.Args[0]
		}
		set(in, tt.IdxAddr(base, val(in.Index), in.Type()))
	case *ssa.Index:
		set(in, tt.Elem(val(in.X), val(in.Index), in.Type()))
	case *ssa.Lookup:
		x, k := val(in.X), val(in.Index)
		t := types.Type(in.Type())
		if in.CommaOk {
			t = in.Type().(*types.Tuple).At(0).Type()
		}
		m.age(st, in, ctx)
		x, k = val(in.X), val(in.Index)
		for _, it := range st.iters {
			// the element of a loop over the map, looked up by its key
			if it.cont == x && it.idx == k && it.elem != nil && it.started && types.Identical(it.elem.Typ, t) {
				if in.CommaOk {
					set(in, tt.Tuple(it.elem, tt.True))
				} else {
					set(in, it.elem)
				}
				return
			}
		}
		v := tt.App("lookup", t, x, k, tt.Sym(in, ctx, 0, t))
		if in.CommaOk {
			set(in, tt.Tuple(v, tt.App("has", types.Typ[types.Bool], x, k, tt.Sym(in, ctx, 0, t))))
		} else {
			set(in, v)
		}
	case *ssa.Slice:
		x := val(in.X)
		lo, hi, mx := tt.Int(0), tt.Nil, tt.Nil
		if in.Low != nil {
			lo = val(in.Low)
		}
		if in.High != nil {
			hi = val(in.High)
		}
		if in.Max != nil {
			mx = val(in.Max)
		}
		if _, isPtr := in.X.Type().Underlying().(*types.Pointer); !isPtr && lo.isInt(0) && hi == tt.Nil && mx == tt.Nil {
			set(in, x)
			return
		}
		if x == tt.Nil {
			set(in, x)
			return
		}
		// x[a:][:b], x[:a][:b]: what matters is the list and whether it is cut
		if x.K == KApp && x.Op == "slice" && x.Args[1].isInt(0) && lo.isInt(0) && mx == tt.Nil {
			set(in, tt.App("slice", in.Type(), x.Args[0], lo, hi, mx))
			return
		}
		set(in, m.cap(st, ctx, in, tt.App("slice", in.Type(), x, lo, hi, mx)))
	case *ssa.Convert:
		set(in, m.convert(st, ctx, in, val(in.X)))
	case *ssa.ChangeType:
		set(in, val(in.X))
	case *ssa.ChangeInterface:
		set(in, val(in.X))
	case *ssa.MultiConvert:
		set(in, tt.App("conv", in.Type(), val(in.X)))
	case *ssa.SliceToArrayPointer:
		set(in, tt.App("arrayptr", in.Type(), val(in.X)))
	case *ssa.MakeInterface:
		x := val(in.X)
		if types.IsInterface(in.X.Type()) {
			if _, tp := in.X.Type().(*types.TypeParam); !tp {
				set(in, x)
				return
			}
		}
		set(in, tt.Iface(in.X.Type(), x))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, val(b))
		}
		set(in, tt.Func(originOf(in.Fn.(*ssa.Function)), bs...))
	case *ssa.MakeSlice:
		m.age(st, in, ctx)
		set(in, tt.Alloc(in, ctx, in.Type()))
		if m.spec.OnMake != nil {
			m.spec.OnMake(m, st, tt.Alloc(in, ctx, in.Type()), val(in.Len))
		}
		if n := val(in.Len); n.isInt(0) {
			m.assume(st, tt.Eq(tt.App("len", types.Typ[types.Int], tt.Alloc(in, ctx, in.Type())), tt.Int(0)), true)
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		m.age(st, in, ctx)
		v := in.(ssa.Value)
		set(v, tt.Alloc(in, ctx, v.Type()))
	case *ssa.Extract:
		x := val(in.Tuple)
		if x.K == KTuple && in.Index < len(x.Args) {
			set(in, x.Args[in.Index])
		} else {
			set(in, tt.App(fmt.Sprintf("extract%d", in.Index), in.Type(), x))
		}
	case *ssa.Range:
		m.age(st, in, ctx)
		set(in, tt.App("range", nil, val(in.X), tt.Sym(in, ctx, 0, nil)))
	case *ssa.Next:
		m.age(st, in, ctx)
		tu := in.Type().(*types.Tuple)
		r := val(in.Iter)
		kt, vt := tu.At(1).Type(), tu.At(2).Type()
		if r.K == KApp && r.Op == "range" && r.Args[0].Typ != nil {
			if mt, ok := r.Args[0].Typ.Underlying().(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		k := tt.Call(in, ctx, 1, kt)
		set(in, tt.Tuple(tt.Call(in, ctx, 0, types.Typ[types.Bool]), k, tt.Call(in, ctx, 2, vt)))
	case *ssa.MapUpdate:
		mp, k, v := val(in.Map), val(in.Key), val(in.Value)
		m.forgetLen(st, mp)
		if m.spec.TrackLists {
			st.add(&Tup{Tag: "did:in", Args: []*Term{mp, v}, Pos: m.P.Pos(in.Pos())})
		}
		if m.spec.OnMapSet != nil {
			m.spec.OnMapSet(m, st, mp, k, v, in)
		}
	case *ssa.Send:
	default:
		if v, ok := in.(ssa.Value); ok {
			m.age(st, in, ctx)
			set(v, tt.Sym(in, ctx, 0, v.Type()))
		}
	}
}

// forgetLen drops what is known of the length of a container.
func (m *Machine) forgetLen(st *State, c *Term) {
	l := m.TT.App("len", types.Typ[types.Int], c)
	for f := range st.facts {
		if f.mentions(l) {
			delete(st.facts, f)
		}
	}
}

// cap bounds the depth of terms.
func (m *Machine) cap(st *State, ctx *Ctx, in ssa.Instruction, t *Term) *Term {
	if t.depth <= 9+m.spec.Depth {
		return t
	}
	m.age(st, in, ctx)
	return m.TT.Sym(in, ctx, 0, t.Typ)
}

func (m *Machine) loadGlobalConst(p *Term, t types.Type) (*Term, bool) { return nil, false }

// fromItself: the value is computed from what it was before.
func fromItself(in *ssa.BinOp) bool {
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	from = func(v ssa.Value) bool {
		if v == ssa.Value(in) && len(seen) > 0 {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.BinOp:
			return from(v.X) || from(v.Y)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if from(e) {
					return true
				}
			}
		case *ssa.Convert:
			return from(v.X)
		case *ssa.ChangeType:
			return from(v.X)
		case *ssa.Const, *ssa.Call:
			return false
		default:
			return true
		}
		return false
	}
	return from(in)
}

// counter gives an integer that grows in a loop a new name.
func (m *Machine) counter(st *State, ctx *Ctx, in ssa.Value, val *Term) *Term {
	var f func(*Term)
	if m.spec.OnCounter != nil && val != nil {
		f = m.spec.OnCounter(m, st, val)
	}
	site := in.(ssa.Instruction)
	m.age(st, site, ctx)
	t := m.TT.Sym(site, ctx, 0, in.Type())
	if f != nil {
		f(t)
	}
	return t
}

func (m *Machine) binop(st *State, ctx *Ctx, in *ssa.BinOp, x, y *Term) *Term {
	tt := m.TT
	b := types.Typ[types.Bool]
	xt := in.X.Type().Underlying()
	isFloat := false
	isUnsigned := false
	_, partial := in.X.Type().(*types.TypeParam) // a < b need not be !(b <= a)
	if bt, ok := xt.(*types.Basic); ok {
		isFloat = bt.Info()&types.IsFloat != 0
		isUnsigned = bt.Info()&types.IsUnsigned != 0
	}
	if x.K == KConst && y.K == KConst && !isFloat {
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return tt.boolTerm(constant.Compare(x.Val, in.Op, y.Val))
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR:
			if x.Val.Kind() == constant.Int && y.Val.Kind() == constant.Int {
				v := constant.BinaryOp(x.Val, in.Op, y.Val)
				if n, ok := constant.Int64Val(v); ok {
					if (n > 3 || n < -3) && fromItself(in) {
						// a counter
						return m.counter(st, ctx, in, tt.Const(v))
					}
					return tt.Const(v)
				}
			} else if x.Val.Kind() == constant.String && in.Op == token.ADD {
				return tt.Const(constant.BinaryOp(x.Val, in.Op, y.Val))
			}
		}
	}
	neverNeg := func(t *Term) bool {
		return isUnsigned || (t.K == KApp && (t.Op == "len" || t.Op == "cap"))
	}
	lt := func(a, b2 *Term) *Term {
		// 0 < len(x) and 0 < unsigned are != 0
		if a.isInt(0) && neverNeg(b2) {
			return tt.Not(tt.Eq(b2, tt.Int(0)))
		}
		if b2.isInt(1) && neverNeg(a) {
			return tt.Eq(a, tt.Int(0))
		}
		if b2.isInt(0) && neverNeg(a) {
			return tt.False
		}
		return tt.App("<", b, a, b2)
	}
	switch in.Op {
	case token.EQL:
		if isFloat && x == y {
			return tt.App("==", b, x, y)
		}
		return tt.Eq(x, y)
	case token.NEQ:
		return tt.Not(tt.Eq(x, y))
	case token.LSS:
		return lt(x, y)
	case token.GTR:
		return lt(y, x)
	case token.LEQ:
		if partial || isFloat {
			return tt.App("<=", b, x, y)
		}
		return tt.Not(lt(y, x))
	case token.GEQ:
		if partial || isFloat {
			return tt.App("<=", b, y, x)
		}
		return tt.Not(lt(x, y))
	case token.ADD:
		if y.isInt(0) {
			return x
		}
		if x.isInt(0) {
			return y
		}
		// (x-1)+1, (x+1)+1
		if n, ok := y.intVal(); ok && x.K == KApp && (x.Op == "+" || x.Op == "-") && len(x.Args) == 2 {
			if k, ok := x.Args[1].intVal(); ok {
				if x.Op == "-" {
					k = -k
				}
				if n+k > 3 || n+k < -3 {
					return m.counter(st, ctx, in, tt.addConst(x.Args[0], n+k, in.Type()))
				}
				return tt.addConst(x.Args[0], n+k, in.Type())
			}
		}
	case token.SUB:
		if y.isInt(0) {
			return x
		}
		if n, ok := y.intVal(); ok {
			if x.K == KApp && (x.Op == "+" || x.Op == "-") && len(x.Args) == 2 {
				if k, ok := x.Args[1].intVal(); ok {
					if x.Op == "-" {
						k = -k
					}
					if k-n > 3 || k-n < -3 {
						return m.counter(st, ctx, in, tt.addConst(x.Args[0], k-n, in.Type()))
					}
					return tt.addConst(x.Args[0], k-n, in.Type())
				}
			}
		}
	}
	op := in.Op.String()
	if isFloat {
		op = "float" + op
	}
	return m.cap(st, ctx, in, tt.App(op, in.Type(), x, y))
}

func (tt *Terms) addConst(x *Term, n int64, t types.Type) *Term {
	switch {
	case n == 0:
		return x
	case n > 0:
		return tt.App("+", t, x, tt.Int(n))
	}
	return tt.App("-", t, x, tt.Int(-n))
}

func (m *Machine) convert(st *State, ctx *Ctx, in *ssa.Convert, x *Term) *Term {
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, ok1 := from.(*types.Basic)
	tb, ok2 := to.(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if x.K == KConst {
			return x
		}
		sizes := types.SizesFor("gc", "amd64")
		if m.spec.Signs && (fb.Info()&types.IsUnsigned != tb.Info()&types.IsUnsigned || sizes.Sizeof(tb) > sizes.Sizeof(fb)) {
			return m.TT.App("as:"+tb.Name(), in.Type(), x)
		}
		if sizes.Sizeof(tb) >= sizes.Sizeof(fb) {
			return x
		}
		return m.TT.App("trunc:"+tb.Name(), in.Type(), x)
	}
	if x == m.TT.Nil {
		return x
	}
	return m.TT.App("conv:"+shortType(in.Type()), in.Type(), x)
}

// typeAssert: whatever holds the value keeps its name.
func (m *Machine) typeAssert(ctx *Ctx, st *State, in *ssa.TypeAssert) []Outcome {
	tt := m.TT
	x := m.val(st, ctx, in.X)
	var v *Term
	known, holds := false, false
	toIface := types.IsInterface(in.AssertedType)
	if x.K == KIface {
		if !toIface {
			known = true
			holds = types.Identical(x.Typ, in.AssertedType)
			v = x.Args[0]
		} else {
			v = x
			if iface, ok := in.AssertedType.Underlying().(*types.Interface); ok {
				if _, isTP := x.Typ.(*types.TypeParam); !isTP {
					known = true
					holds = types.Implements(x.Typ, iface)
				}
			}
		}
	} else if toIface {
		v = x
	} else {
		v = tt.App("assert", in.AssertedType, x)
	}
	if !in.CommaOk {
		return []Outcome{{st, v}}
	}
	zero := tt.Zero(in.AssertedType)
	if known {
		if holds {
			return []Outcome{{st, tt.Tuple(v, tt.True)}}
		}
		return []Outcome{{st, tt.Tuple(zero, tt.False)}}
	}
	okT := tt.mk(&Term{K: KApp, Op: "assertok", Typ: in.AssertedType, Args: []*Term{x}})
	var outs []Outcome
	yes := st.clone()
	if m.assume(yes, okT, true) && m.assume(yes, tt.Eq(x, tt.Nil), false) {
		outs = append(outs, Outcome{yes, tt.Tuple(v, tt.True)})
	}
	if m.assume(st, okT, false) {
		outs = append(outs, Outcome{st, tt.Tuple(zero, tt.False)})
	}
	return outs
}

func (m *Machine) selectStmt(ctx *Ctx, st *State, in *ssa.Select) []Outcome {
	tt := m.TT
	m.age(st, in, ctx)
	var chans []*Term
	for _, s := range in.States {
		chans = append(chans, m.val(st, ctx, s.Chan))
	}
	n := len(in.States)
	lo := 0
	if !in.Blocking {
		lo = -1
	}
	var outs []Outcome
	for c := lo; c < n; c++ {
		s := st.clone()
		tu := in.Type().(*types.Tuple)
		xs := []*Term{tt.Int(int64(c)), tt.Call(in, ctx, 1, types.Typ[types.Bool])}
		for i := 2; i < tu.Len(); i++ {
			xs = append(xs, tt.Call(in, ctx, i, tu.At(i).Type()))
		}
		if m.spec.OnSelect != nil {
			m.spec.OnSelect(m, s, in, chans, c)
		}
		outs = append(outs, Outcome{s, tt.Tuple(xs...)})
	}
	return outs
}
