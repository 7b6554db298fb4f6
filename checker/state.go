package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Tup is a fact of a specification: a tag and terms. Tups tagged "did:..." are
// summarised over loops into "all:..." ones.
type Tup struct {
	Tag  string
	Args []*Term
	Data string
	Pos  string // where it was recorded; not part of its identity
}

func (t *Tup) key() string {
	var sb strings.Builder
	sb.WriteString(t.Tag)
	sb.WriteByte('/')
	sb.WriteString(t.Data)
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return sb.String()
}

func (t *Tup) String() string {
	var ss []string
	for _, a := range t.Args {
		ss = append(ss, a.String())
	}
	return fmt.Sprintf("%s[%s](%s)", t.Tag, t.Data, strings.Join(ss, ", "))
}

type envKey struct {
	ctx *Ctx
	v   ssa.Value
}

type deferRec struct {
	ctx  *Ctx
	site *ssa.Defer
	fn   *Term // callee value, or the receiver of an interface method
	args []*Term
}

type iterKey struct {
	ctx *Ctx
	hdr *ssa.BasicBlock
}

// iterState is a loop over a container that is under way.
type iterState struct {
	cont    *Term
	elem    *Term // the current element
	idx     *Term // its index or key
	acc     map[string]*Tup
	top     bool // no iteration has ended yet
	started bool
}

type traceNode struct {
	prev *traceNode
	pos  string
	n    int
}

// State is one abstract state: everything known on one class of paths.
type State struct {
	env    map[envKey]*Term
	heap   map[*Term]*Term
	facts  map[*Term]bool
	user   map[string]*Tup
	iters  map[iterKey]*iterState
	defers []deferRec
	trace  *traceNode
}

func newState() *State {
	return &State{
		env: map[envKey]*Term{}, heap: map[*Term]*Term{}, facts: map[*Term]bool{},
		user: map[string]*Tup{}, iters: map[iterKey]*iterState{},
	}
}

func (s *State) clone() *State {
	c := &State{
		env:   make(map[envKey]*Term, len(s.env)+4),
		heap:  make(map[*Term]*Term, len(s.heap)+4),
		facts: make(map[*Term]bool, len(s.facts)+4),
		user:  make(map[string]*Tup, len(s.user)+4),
		iters: make(map[iterKey]*iterState, len(s.iters)),
		trace: s.trace,
	}
	for k, v := range s.env {
		c.env[k] = v
	}
	for k, v := range s.heap {
		c.heap[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	for k, v := range s.user {
		c.user[k] = v
	}
	for k, v := range s.iters {
		c.iters[k] = v
	}
	c.defers = append([]deferRec(nil), s.defers...)
	return c
}

func (s *State) add(t *Tup)      { s.user[t.key()] = t }
func (s *State) del(t *Tup)      { delete(s.user, t.key()) }
func (s *State) has(t *Tup) bool { _, ok := s.user[t.key()]; return ok }

// tups returns the facts with a tag, in a stable order.
func (s *State) tups(tag string) []*Tup {
	var out []*Tup
	for _, t := range s.user {
		if t.Tag == tag {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key() < out[j].key() })
	return out
}

func (s *State) find(tag string, pred func(*Tup) bool) *Tup {
	for _, t := range s.tups(tag) {
		if pred(t) {
			return t
		}
	}
	return nil
}

func (m *Machine) stateKey(s *State) string {
	var parts []string
	for k, v := range s.env {
		parts = append(parts, "e"+strconv.Itoa(k.ctx.id)+"."+strconv.Itoa(m.TT.objID(k.v))+"="+strconv.Itoa(v.id))
	}
	for k, v := range s.heap {
		parts = append(parts, "h"+strconv.Itoa(k.id)+"="+strconv.Itoa(v.id))
	}
	for k, v := range s.facts {
		if v {
			parts = append(parts, "t"+strconv.Itoa(k.id))
		} else {
			parts = append(parts, "f"+strconv.Itoa(k.id))
		}
	}
	for k := range s.user {
		parts = append(parts, "u"+k)
	}
	for k, v := range s.iters {
		p := "i" + strconv.Itoa(k.ctx.id) + "." + strconv.Itoa(m.TT.objID(k.hdr)) + ":" + fmt.Sprint(v.started, v.top)
		if v.cont != nil {
			p += "c" + strconv.Itoa(v.cont.id)
		}
		if v.elem != nil {
			p += "e" + strconv.Itoa(v.elem.id)
		}
		var ks []string
		for k := range v.acc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		parts = append(parts, p+strings.Join(ks, ";"))
	}
	sort.Strings(parts)
	for _, d := range s.defers {
		p := "d" + strconv.Itoa(d.ctx.id) + "." + strconv.Itoa(m.TT.objID(d.site))
		if d.fn != nil {
			p += "f" + strconv.Itoa(d.fn.id)
		}
		for _, a := range d.args {
			p += "," + strconv.Itoa(a.id)
		}
		parts = append(parts, p)
	}
	return strings.Join(parts, " ")
}

// oldOf is the name of what leaf stood for in earlier iterations.
func (tt *Terms) oldOf(l *Term) *Term {
	return tt.mk(&Term{K: KOld, Op: strconv.Itoa(int(l.K)), Site: l.Site, Ctx: l.Ctx, N: l.N, Typ: l.Typ, Args: nil})
}

// age renames everything the site named so far to "old", because the site
// is executed again.
func (m *Machine) age(s *State, site ssa.Instruction, ctx *Ctx) map[*Term]*Term {
	var sub map[*Term]*Term
	note := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leaves {
			if l.K != KOld && l.Site == site && l.Ctx == ctx {
				if sub == nil {
					sub = map[*Term]*Term{}
				}
				if _, ok := sub[l]; !ok {
					sub[l] = m.TT.oldOf(l)
				}
			}
		}
	}
	s.eachTerm(note)
	if sub == nil {
		return nil
	}
	if m.spec.OnAge != nil {
		m.spec.OnAge(m, s, sub)
	}
	m.renameState(s, sub, true)
	return sub
}

func (s *State) eachTerm(f func(*Term)) {
	for _, v := range s.env {
		f(v)
	}
	for k, v := range s.heap {
		f(k)
		f(v)
	}
	for k := range s.facts {
		f(k)
	}
	for _, t := range s.user {
		for _, a := range t.Args {
			f(a)
		}
	}
	for _, it := range s.iters {
		f(it.cont)
		f(it.elem)
		f(it.idx)
		for _, t := range it.acc {
			for _, a := range t.Args {
				f(a)
			}
		}
	}
	for _, d := range s.defers {
		f(d.fn)
		for _, a := range d.args {
			f(a)
		}
	}
}

// renameState substitutes terms everywhere. If weak, the new names already
// stand for something: what was known of them is kept only if it still holds.
func (m *Machine) renameState(s *State, sub map[*Term]*Term, weak bool) {
	rw := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		for l := range sub {
			if t == l {
				return m.TT.rewrite(t, sub)
			}
			for _, x := range t.leaves {
				if x == l {
					return m.TT.rewrite(t, sub)
				}
			}
		}
		return t
	}
	prev := map[*Term]bool{} // the new names that stand for something already
	if weak {
		news := map[*Term]bool{}
		for _, n := range sub {
			news[n] = true
		}
		s.eachTerm(func(t *Term) {
			if t != nil {
				for _, l := range t.leaves {
					if news[l] {
						prev[l] = true
					}
				}
			}
		})
	}
	mentionsNew := func(t *Term) bool {
		for n := range prev {
			if t.mentions(n) {
				return true
			}
		}
		return false
	}
	for k, v := range s.env {
		s.env[k] = rw(v)
	}
	nh := make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		if weak && mentionsNew(k) {
			continue
		}
		nk, nv := rw(k), rw(v)
		if weak && nk != k && mentionsNew(nk) {
			if o, ok := s.heap[nk]; !ok || o != nv {
				continue // two different old cells: forget
			}
		}
		nh[nk] = nv
	}
	s.heap = nh
	nf := make(map[*Term]bool, len(s.facts))
	for k, v := range s.facts {
		nk := rw(k)
		if nk == m.TT.True || nk == m.TT.False {
			continue
		}
		if weak && nk == k && mentionsNew(k) {
			// known of the previous old value only
			continue
		}
		if weak && nk != k && mentionsNew(nk) {
			// keep it only if it was also known of the value it joins
			if o, ok := s.facts[nk]; !ok || o != v {
				continue
			}
		}
		nf[nk] = v
	}
	s.facts = nf
	nu := make(map[string]*Tup, len(s.user))
	for k, t := range s.user {
		nt := rwTup(t, rw)
		if nt == t {
			nu[k] = t
		} else {
			nu[nt.key()] = nt
		}
	}
	s.user = nu
	for k, it := range s.iters {
		n := *it
		n.cont, n.elem, n.idx = rw(it.cont), rw(it.elem), rw(it.idx)
		if len(it.acc) > 0 {
			n.acc = map[string]*Tup{}
			for _, t := range it.acc {
				nt := rwTup(t, rw)
				n.acc[nt.key()] = nt
			}
		}
		s.iters[k] = &n
	}
	for i, d := range s.defers {
		nd := d
		nd.fn = rw(d.fn)
		nd.args = make([]*Term, len(d.args))
		for j, a := range d.args {
			nd.args[j] = rw(a)
		}
		s.defers[i] = nd
	}
}

func rwTup(t *Tup, rw func(*Term) *Term) *Tup {
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = rw(a)
		changed = changed || args[i] != a
	}
	if !changed {
		return t
	}
	return &Tup{Tag: t.Tag, Args: args, Data: t.Data, Pos: t.Pos}
}

// gc forgets heap cells and facts that nothing live refers to.
func (m *Machine) gc(s *State) {
	live := map[*Term]bool{}
	var queue []*Term
	mark := func(t *Term) {
		if t == nil {
			return
		}
		for _, l := range t.leaves {
			if !live[l] {
				live[l] = true
				queue = append(queue, l)
			}
		}
	}
	for _, v := range s.env {
		mark(v)
	}
	for _, t := range s.user {
		if t.Tag[0] == '~' { // weak: does not keep its terms alive
			continue
		}
		for _, a := range t.Args {
			mark(a)
		}
	}
	for _, it := range s.iters {
		mark(it.cont)
		mark(it.elem)
		mark(it.idx)
		for _, t := range it.acc {
			for _, a := range t.Args {
				mark(a)
			}
		}
	}
	for _, d := range s.defers {
		mark(d.fn)
		for _, a := range d.args {
			mark(a)
		}
	}
	// cells reachable from live addresses
	byLeaf := map[*Term][]*Term{}
	for k := range s.heap {
		if len(k.leaves) == 0 {
			mark(s.heap[k])
		}
		for _, l := range k.leaves {
			byLeaf[l] = append(byLeaf[l], k)
		}
	}
	for len(queue) > 0 {
		l := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		for _, k := range byLeaf[l] {
			mark(s.heap[k])
		}
	}
	alive := func(t *Term) bool {
		for _, l := range t.leaves {
			if !live[l] {
				return false
			}
		}
		return true
	}
	for k := range s.heap {
		if !alive(k) || isOldCell(k) {
			delete(s.heap, k)
		}
	}
	for k := range s.facts {
		if !alive(k) || !m.keepFact(k) {
			delete(s.facts, k)
		}
	}
	for k, t := range s.user {
		if t.Tag == "did:in" || t.Tag == "did:sub" {
			for _, a := range t.Args {
				if hasOld(a) {
					delete(s.user, k)
					break
				}
			}
		}
		if t.Tag[0] == '~' {
			for _, a := range t.Args {
				if !alive(a) {
					delete(s.user, k)
					break
				}
			}
		}
	}
}

func hasOld(t *Term) bool {
	for _, l := range t.leaves {
		if l.K == KOld {
			return true
		}
	}
	return false
}

// isOldCell: an element whose index is no longer known.
func isOldCell(k *Term) bool {
	for k.K == KFldAddr || k.K == KIdxAddr {
		if k.K == KIdxAddr && hasOld(k.Args[1]) {
			return true
		}
		k = k.Args[0]
	}
	return false
}

// ---- truth of boolean terms ----

func (tt *Terms) nonNil(t *Term) bool {
	switch t.K {
	case KAlloc, KFunc, KFldAddr, KIdxAddr, KIface, KGlobal, KAcc, KConst, KStruct:
		return true
	case KApp:
		return t.Op == "errorf" || t.Op == "make" || t.Op == "bytes+" || t.Op == "key" || t.Op == "KeyEncode" || t.Op == "json"
	case KCall:
		// what makes iterators and batches never returns nil
		if ci, ok := t.Site.(ssa.CallInstruction); ok && t.N == 0 {
			if cc := ci.Common(); cc.IsInvoke() && strings.HasPrefix(typeName(cc.Value.Type()), "bond.") {
				n := cc.Method.Name()
				return n == "Iter" || n == "Batch"
			}
		}
	case KLoad:
		// package-level error values are never nil
		if t.Args[0].K == KGlobal {
			if p, ok := t.Args[0].Typ.(*types.Pointer); ok {
				return types.TypeString(p.Elem(), nil) == "error"
			}
		}
	}
	return false
}

// Eq is the canonical equality of two terms.
func (tt *Terms) Eq(a, b *Term) *Term {
	if a == b && a.K != KOld && !strings.Contains(a.Op, "float") {
		return tt.True
	}
	if a.K == KConst && b.K == KConst {
		return tt.boolTerm(a == b)
	}
	if (a == tt.Nil && tt.nonNil(b)) || (b == tt.Nil && tt.nonNil(a)) {
		return tt.False
	}
	if a == tt.Nil && b == tt.Nil {
		return tt.True
	}
	if (a.K == KAlloc && b.K == KAlloc) && a != b {
		return tt.False
	}
	// x == true is x
	if a == tt.True {
		return b
	}
	if b == tt.True {
		return a
	}
	if a == tt.False {
		return tt.Not(b)
	}
	if b == tt.False {
		return tt.Not(a)
	}
	// equality of byte slices
	for _, p := range [][2]*Term{{a, b}, {b, a}} {
		if p[1].isInt(0) && p[0].K == KApp && p[0].Op == "bytes.Compare" {
			return tt.BytesEqual(p[0].Args[0], p[0].Args[1])
		}
	}
	if a.K == KApp && b.K == KApp && a.Op == "conv:string" && b.Op == "conv:string" {
		return tt.BytesEqual(a.Args[0], b.Args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.App("==", types.Typ[types.Bool], a, b)
}

func (tt *Terms) boolTerm(b bool) *Term {
	if b {
		return tt.True
	}
	return tt.False
}

// truth returns whether a boolean term is known in the state.
func (m *Machine) truth(s *State, t *Term) (val, known bool) {
	tt := m.TT
	switch {
	case t == tt.True:
		return true, true
	case t == tt.False:
		return false, true
	case t.K == KApp && t.Op == "!":
		v, k := m.truth(s, t.Args[0])
		return !v, k
	}
	if v, ok := s.facts[t]; ok {
		return v, true
	}
	if t.K == KApp && t.Op == "==" {
		a, b := t.Args[0], t.Args[1]
		// x is already known to equal another constant
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			x, c := p[0], p[1]
			if c.K != KConst && c.K != KNil {
				continue
			}
			for f, v := range s.facts {
				if !v || f.K != KApp || f.Op != "==" {
					continue
				}
				var o *Term
				if f.Args[0] == x {
					o = f.Args[1]
				} else if f.Args[1] == x {
					o = f.Args[0]
				}
				if o != nil && o != c && (o.K == KConst && c.K == KConst || o.K == KNil && tt.nonNil(c) || c.K == KNil && tt.nonNil(o)) {
					return false, true
				}
			}
			// len(x) == 0 of nil and of lists known to be non-empty
			if c.isInt(0) && x.K == KApp && x.Op == "len" {
				if x.Args[0] == tt.Nil {
					return true, true
				}
				if v, ok := s.facts[tt.Eq(x.Args[0], tt.Nil)]; ok && v {
					return true, true
				}
			}
			// nil slices and maps have no elements
			if c == tt.Nil {
				if l := tt.App("len", types.Typ[types.Int], x); l != nil {
					if v, ok := s.facts[tt.Eq(l, tt.Int(0))]; ok && !v {
						return false, true
					}
				}
			}
		}
	}
	if t.K == KApp && t.Op == "<" {
		a, b := t.Args[0], t.Args[1]
		if av, ok := a.intVal(); ok {
			if bv, ok := b.intVal(); ok {
				return av < bv, true
			}
		}
		if a == b {
			return false, true
		}
		// a counter never is less than what it starts with
		if av, ok := a.intVal(); ok {
			if n, ok := minSym(b); ok && av < n {
				return true, true
			}
		}
		if bv, ok := b.intVal(); ok {
			if n, ok := minSym(a); ok && n >= bv {
				return false, true
			}
		}
		// x >= 0 is known of x+n
		if av, ok := a.intVal(); ok {
			if x, n := splitConst(b); x != nil && x != b && av < n {
				if v, ok := s.facts[tt.Lt(x, tt.Int(0))]; ok && !v {
					return true, true
				}
			}
		}
		if bv, ok := b.intVal(); ok {
			if x, n := splitConst(a); x != nil && x != a && n >= bv {
				if v, ok := s.facts[tt.Lt(x, tt.Int(0))]; ok && !v {
					return false, true
				}
			}
		}
		// nothing is smaller than zero or the length of nothing
		if b.K == KApp && b.Op == "len" {
			if b.Args[0] == tt.Nil {
				return false, true
			}
			if v, ok := m.truth(s, tt.Eq(b, tt.Int(0))); ok && v {
				return false, true
			} else if ok && a.isInt(0) {
				return true, true
			}
		}
		if a.K == KApp && a.Op == "len" && b.isInt(0) {
			return false, true
		}
		if av, ok := a.intVal(); ok && av >= 0 {
			if v, ok := s.facts[tt.Eq(b, tt.Int(0))]; ok && v {
				return false, true
			}
		}
		if v, ok := s.facts[tt.App("<", types.Typ[types.Bool], b, a)]; ok && v {
			return false, true
		}
	}
	return false, false
}

// assume records that t is v; false if that contradicts the state.
func (m *Machine) assume(s *State, t *Term, v bool) bool {
	for t.K == KApp && t.Op == "!" {
		t, v = t.Args[0], !v
	}
	if k, ok := m.truth(s, t); ok {
		return k == v
	}
	s.facts[t] = v
	if m.spec.OnFact != nil {
		m.spec.OnFact(m, s, t, v)
	}
	return true
}

// isNil returns whether the term is known to be nil or known not to be.
func (m *Machine) isNil(s *State, t *Term) (val, known bool) {
	return m.truth(s, m.TT.Eq(t, m.TT.Nil))
}

// BytesEqual is the term for the equality of two byte slices.
func (tt *Terms) BytesEqual(a, b *Term) *Term {
	if a == b {
		return tt.True
	}
	for _, p := range [][2]*Term{{a, b}, {b, a}} { // keys are never empty
		if p[0] == tt.Nil && p[1].K == KApp && p[1].Op == "key" {
			return tt.False
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.App("bytes.Equal", types.Typ[types.Bool], a, b)
}

// Lt is the term for a < b.
func (tt *Terms) Lt(a, b *Term) *Term { return tt.App("<", types.Typ[types.Bool], a, b) }

// splitConst splits x+n into x and n; a constant is (nil, n).
func splitConst(t *Term) (*Term, int64) {
	if n, ok := t.intVal(); ok {
		return nil, n
	}
	if t.K == KApp && (t.Op == "+" || t.Op == "-") && len(t.Args) == 2 {
		if n, ok := t.Args[1].intVal(); ok {
			x, k := splitConst(t.Args[0])
			if t.Op == "-" {
				n = -n
			}
			return x, k + n
		}
	}
	return t, 0
}

// leq: a <= b is known, from what one fact says about the two.
func (m *Machine) leq(s *State, a, b *Term) bool {
	x, n := splitConst(a)
	y, k := splitConst(b)
	want := k - n // x - y <= want
	if x == y {
		return 0 <= want
	}
	if y != nil && x == nil && y.K == KApp && (y.Op == "len" || y.Op == "cap") && 0 <= want {
		return true
	}
	for f, v := range s.facts {
		if f.K != KApp || f.Op != "<" && f.Op != "==" || len(f.Args) != 2 {
			continue
		}
		p, i := splitConst(f.Args[0])
		q, j := splitConst(f.Args[1])
		switch {
		case f.Op == "<" && v && p == x && q == y: // p+i <= q+j-1
			if j-1-i <= want {
				return true
			}
		case f.Op == "<" && !v && q == x && p == y: // q+j <= p+i
			if i-j <= want {
				return true
			}
		case f.Op == "==" && v && p == x && q == y:
			if j-i <= want {
				return true
			}
		case f.Op == "==" && v && q == x && p == y:
			if i-j <= want {
				return true
			}
		case f.Op == "==" && !v && x == nil && q == y && p == nil && i == j+0 && y.K == KApp && y.Op == "len" && j == 0:
			// len != 0
			if i == 0 && -1 <= want {
				return true
			}
		}
	}
	return false
}
