package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A domain for byte strings: the content of a buffer is a list of parts, each
// a byte, a fixed-width integer, or a string of bytes that came from elsewhere.
// Positions are linear in the lengths of parts.

// Lin is a sum of atoms.
type Lin struct {
	C  int64
	At map[*Term]int64
}

func linConst(c int64) Lin { return Lin{C: c, At: map[*Term]int64{}} }

func (a Lin) add(b Lin, k int64) Lin {
	r := linConst(a.C + k*b.C)
	for t, n := range a.At {
		r.At[t] += n
	}
	for t, n := range b.At {
		r.At[t] += k * n
		if r.At[t] == 0 {
			delete(r.At, t)
		}
	}
	return r
}

func (a Lin) eq(b Lin) bool {
	d := a.add(b, -1)
	return d.C == 0 && len(d.At) == 0
}

func (a Lin) isConst() bool { return len(a.At) == 0 }

var bytesType = types.NewSlice(types.Typ[types.Byte])

// linTerm is the canonical term of a sum.
func (m *Machine) linTerm(l Lin) *Term {
	if l.isConst() {
		return m.TT.Int(l.C)
	}
	if len(l.At) == 1 && l.C == 0 {
		for t, n := range l.At {
			if n == 1 {
				return t
			}
		}
	}
	var ts []*Term
	for t := range l.At {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].String() < ts[j].String() })
	args := []*Term{m.TT.Int(l.C)}
	for _, t := range ts {
		args = append(args, t, m.TT.Int(l.At[t]))
	}
	return m.TT.App("lin", types.Typ[types.Int], args...)
}

func (m *Machine) lin(st *State, t *Term) Lin {
	if n, ok := t.intVal(); ok {
		return linConst(n)
	}
	if t.K == KApp {
		switch {
		case t.Op == "lin":
			r := linConst(0)
			r.C, _ = t.Args[0].intVal()
			for i := 1; i+1 < len(t.Args); i += 2 {
				n, _ := t.Args[i+1].intVal()
				r = r.add(m.lin(st, t.Args[i]), n)
			}
			return r
		case (t.Op == "+" || t.Op == "-") && len(t.Args) == 2:
			k := int64(1)
			if t.Op == "-" {
				k = -1
			}
			return m.lin(st, t.Args[0]).add(m.lin(st, t.Args[1]), k)
		case t.Op == "-" && len(t.Args) == 1:
			return linConst(0).add(m.lin(st, t.Args[0]), -1)
		case strings.HasPrefix(t.Op, "trunc:uint32"), strings.HasPrefix(t.Op, "as:"):
			return m.lin(st, t.Args[0])
		case t.Op == "len" || t.Op == "blen":
			r := linConst(0)
			m.flat++ // stores into elements leave the length as it is
			ps := m.parts(st, t.Args[0])
			m.flat--
			for _, p := range ps {
				r = r.add(m.partLen(st, p), 1)
			}
			return r
		}
	}
	r := linConst(0)
	r.At[m.byteVal(st, t)] = 1
	return r
}

var intWidth = map[string]int64{"b1": 1, "be2": 2, "be4": 4, "be8": 8, "le2": 2, "le4": 4, "le8": 8}

func (m *Machine) partLen(st *State, p *Term) Lin {
	if p.K == KApp {
		if w, ok := intWidth[p.Op]; ok {
			return linConst(w)
		}
		switch p.Op {
		case "sub":
			return m.lin(st, p.Args[2])
		case "zeros":
			return m.lin(st, p.Args[0])
		}
	}
	if s, ok := p.strVal(); ok {
		return linConst(int64(len(s)))
	}
	if v, k := m.truth(st, m.TT.Eq(m.TT.Len(p), m.TT.Int(0))); k && v {
		return linConst(0)
	}
	if v, k := m.isNil(st, p); k && v {
		return linConst(0)
	}
	r := linConst(0)
	r.At[m.TT.App("len", types.Typ[types.Int], p)] = 1
	return r
}

// byteVal is the canonical form of a value: bytes read from a buffer are
// named after the buffer and the position.
func (m *Machine) byteVal(st *State, t *Term) *Term {
	if t.K == KElem && t.Args[0].Typ != nil && (isByteSlice(t.Args[0].Typ) || isByteArray(t.Args[0].Typ)) {
		i := m.lin(st, t.Args[1])
		ps := m.cut(st, m.parts(st, t.Args[0]), i, i.add(linConst(1), 1), true)
		if len(ps) == 1 && ps[0].K == KApp && ps[0].Op == "b1" {
			return m.byteVal(st, ps[0].Args[0])
		}
		if len(ps) == 1 && ps[0].K == KApp && ps[0].Op == "sub" {
			return m.TT.App("at", types.Typ[types.Byte], ps[0].Args[0], ps[0].Args[1])
		}
	}
	return t
}

func isByteArray(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	a, ok := t.Underlying().(*types.Array)
	if !ok {
		return false
	}
	b, ok := a.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func (m *Machine) memOf(st *State, t *Term) *Tup {
	return st.find("mem", func(x *Tup) bool { return x.Args[0] == t })
}

func (m *Machine) setMem(st *State, t *Term, ps []*Term) {
	if old := m.memOf(st, t); old != nil {
		st.del(old)
	}
	st.add(&Tup{Tag: "mem", Args: []*Term{t, m.TT.App("parts", bytesType, ps...)}})
}

// parts is the content of a byte slice, array or string.
func (m *Machine) parts(st *State, t *Term) []*Term {
	tt := m.TT
	if t == nil || t == tt.Nil {
		return nil
	}
	if x := m.memOf(st, t); x != nil {
		return m.overlay(st, t, x.Args[1].Args)
	}
	if v, k := m.isNil(st, t); k && v {
		return nil
	}
	var out []*Term
	switch {
	case t.K == KApp && t.Op == "parts":
		return t.Args
	case t.K == KApp && t.Op == "cat":
		out = append(out, m.parts(st, t.Args[0])...)
		for _, e := range t.Args[1:] {
			out = append(out, tt.App("b1", nil, m.byteVal(st, e)))
		}
	case t.K == KApp && t.Op == "cats":
		for _, a := range t.Args {
			out = append(out, m.parts(st, a)...)
		}
	case t.K == KApp && t.Op == "slice":
		ps := m.parts(st, t.Args[0])
		lo := m.lin(st, t.Args[1])
		if t.Args[2] == tt.Nil {
			return m.cut(st, ps, lo, lo, false)
		}
		return m.cut(st, ps, lo, m.lin(st, t.Args[2]), true)
	case t.K == KApp && strings.HasPrefix(t.Op, "conv:") && len(t.Args) == 1:
		return m.parts(st, t.Args[0])
	case t.K == KApp && t.Op == "+" && t.Typ != nil && isStringType(t.Typ):
		for _, a := range t.Args {
			out = append(out, m.parts(st, a)...)
		}
	case t.K == KConst:
		if s, ok := t.strVal(); ok && s == "" {
			return nil
		}
		out = []*Term{t}
	case t.K == KAlloc && isByteArray(t.Typ):
		pt, ok := ptrElem(t.Typ)
		if !ok {
			return []*Term{t}
		}
		n := pt.Underlying().(*types.Array).Len()
		if n > 64 {
			return []*Term{t}
		}
		for i := int64(0); i < n; i++ {
			out = append(out, tt.App("b1", nil, m.byteVal(st, m.load(st, tt.IdxAddr(t, tt.Int(i), types.NewPointer(types.Typ[types.Byte])), types.Typ[types.Byte]))))
		}
		return out
	default:
		out = []*Term{t}
	}
	return m.overlay(st, t, out)
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// overlay adds what was stored into single elements.
func (m *Machine) overlay(st *State, t *Term, ps []*Term) []*Term {
	var cells []*Term
	for k := range st.heap {
		if k.K == KIdxAddr && k.Args[0] == t {
			cells = append(cells, k)
		}
	}
	if len(cells) == 0 || m.flat > 0 {
		return ps
	}
	sort.Slice(cells, func(i, j int) bool { return cells[i].String() < cells[j].String() })
	for _, k := range cells {
		at := m.lin(st, k.Args[1])
		ps = m.splice(st, ps, at, at.add(linConst(1), 1), []*Term{m.TT.App("b1", nil, st.heap[k])})
	}
	return ps
}

// cut is the content between two positions.
func (m *Machine) cut(st *State, ps []*Term, lo, hi Lin, bounded bool) []*Term {
	cum := linConst(0)
	from, to := -1, -1
	for i := 0; ; i++ {
		if from < 0 && cum.eq(lo) {
			from = i
		}
		if from >= 0 && bounded && cum.eq(hi) {
			to = i
			break
		}
		if i == len(ps) {
			break
		}
		cum = cum.add(m.partLen(st, ps[i]), 1)
	}
	if !bounded {
		hi, to = cum, len(ps)
	}
	if from >= 0 && to >= 0 {
		return append([]*Term{}, ps[from:to]...)
	}
	// within one part
	pos := linConst(0)
	for i, p := range ps {
		n := m.partLen(st, p)
		last := i == len(ps)-1
		rel, relHi := lo.add(pos, -1), hi.add(pos, -1)
		inside := last && i == 0
		if rel.isConst() && rel.C >= 0 && relHi.isConst() && n.isConst() && relHi.C <= n.C {
			inside = true
		}
		if last && len(ps) > 1 && rel.isConst() && rel.C >= 0 {
			inside = true
		}
		if inside {
			if _, isInt := intWidth[p.Op]; isInt && p.K == KApp {
				break
			}
			return []*Term{m.subPart(st, p, rel, relHi.add(rel, -1))}
		}
		pos = pos.add(n, 1)
	}
	return []*Term{m.TT.App("unknown-cut", bytesType, append([]*Term{m.linTerm(lo), m.linTerm(hi)}, ps...)...)}
}

func (m *Machine) subPart(st *State, p *Term, off, n Lin) *Term {
	if p.K == KApp && p.Op == "zeros" {
		return m.TT.App("zeros", bytesType, m.linTerm(n))
	}
	if p.K == KApp && p.Op == "sub" {
		return m.TT.App("sub", bytesType, p.Args[0], m.linTerm(m.lin(st, p.Args[1]).add(off, 1)), m.linTerm(n))
	}
	if off.isConst() && off.C == 0 && n.eq(m.partLen(st, p)) {
		return p
	}
	return m.TT.App("sub", bytesType, p, m.linTerm(off), m.linTerm(n))
}

// splice replaces the content between two positions.
func (m *Machine) splice(st *State, ps []*Term, lo, hi Lin, with []*Term) []*Term {
	// zeros of a constant length are single bytes
	var xs []*Term
	for _, p := range ps {
		if p.K == KApp && p.Op == "zeros" {
			if n := m.lin(st, p.Args[0]); n.isConst() && n.C <= 64 {
				for i := int64(0); i < n.C; i++ {
					xs = append(xs, m.TT.App("b1", nil, m.TT.Int(0)))
				}
				continue
			}
		}
		xs = append(xs, p)
	}
	cum := linConst(0)
	from, to := -1, -1
	for i := 0; i <= len(xs); i++ {
		if from < 0 && cum.eq(lo) {
			from = i
		}
		if from >= 0 && cum.eq(hi) {
			to = i
			break
		}
		if i < len(xs) {
			cum = cum.add(m.partLen(st, xs[i]), 1)
		}
	}
	if from < 0 || to < 0 {
		// into zeros, at either end
		cum = linConst(0)
		for i, p := range xs {
			n := m.partLen(st, p)
			if p.K == KApp && p.Op == "zeros" {
				rest := n.add(hi.add(lo, -1), -1)
				z := m.TT.App("zeros", bytesType, m.linTerm(rest))
				var mid []*Term
				if cum.eq(lo) {
					mid = append(append([]*Term{}, with...), z)
				} else if hi.eq(cum.add(n, 1)) {
					mid = append([]*Term{z}, with...)
				}
				if mid != nil {
					return slices.Concat(xs[:i], mid, xs[i+1:])
				}
			}
			cum = cum.add(n, 1)
		}
		return []*Term{m.TT.App("unknown-write", bytesType, append([]*Term{m.linTerm(lo)}, xs...)...)}
	}
	out := append([]*Term{}, xs[:from]...)
	out = append(out, with...)
	return append(out, xs[to:]...)
}

// write puts parts into the memory of a slice.
func (m *Machine) write(st *State, t *Term, lo, n Lin, with []*Term) {
	for t.K == KApp && t.Op == "slice" {
		lo = lo.add(m.lin(st, t.Args[1]), 1)
		t = t.Args[0]
	}
	ps := m.splice(st, m.parts(st, t), lo, lo.add(n, 1), with)
	for k := range st.heap {
		if k.K == KIdxAddr && k.Args[0] == t {
			delete(st.heap, k)
		}
	}
	m.setMem(st, t, ps)
	if t.K == KAlloc {
		st.heap[m.TT.App("dirty", nil, t)] = m.TT.App("parts", bytesType, ps...)
	}
}

// readInt is the integer in the first bytes of a slice.
func (m *Machine) readInt(st *State, t *Term, op string, typ types.Type) *Term {
	ps := m.cut(st, m.parts(st, t), linConst(0), linConst(intWidth[op]), true)
	if len(ps) == 1 && ps[0].K == KApp && ps[0].Op == op {
		return ps[0].Args[0]
	}
	zero := len(ps) > 0
	for _, p := range ps {
		zero = zero && p.K == KApp && p.Op == "b1" && p.Args[0].isInt(0)
	}
	if zero {
		return m.TT.Int(0)
	}
	return m.TT.App("u:"+op, typ, ps...)
}

func (m *Machine) bufPos(st *State, b *Term) (*Tup, *Tup) {
	c := st.find("buf", func(t *Tup) bool { return t.Args[0] == b })
	r := st.find("rd", func(t *Tup) bool { return t.Args[0] == b })
	return c, r
}

// bytesCall gives calls on buffers their meaning.
func (m *Machine) bytesCall(st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	res0 := func() types.Type { return ev.Sig.Results().At(0).Type() }
	name := ev.Name
	if s, ok := strings.CutPrefix(name, "encoding/binary."); ok {
		end := "be"
		if strings.HasPrefix(s, "littleEndian.") || strings.HasPrefix(s, "LittleEndian.") {
			end = "le"
		}
		meth := s[strings.LastIndexByte(s, '.')+1:]
		args := ev.Args
		for _, w := range []string{"16", "32", "64"} {
			op := end + map[string]string{"16": "2", "32": "4", "64": "8"}[w]
			switch meth {
			case "PutUint" + w:
				m.write(st, args[len(args)-2], linConst(0), linConst(intWidth[op]), []*Term{tt.App(op, nil, args[len(args)-1])})
				return one(nil)
			case "Uint" + w:
				return one(m.readInt(st, args[len(args)-1], op, res0()))
			case "AppendUint" + w:
				base := args[len(args)-2]
				x := tt.App("cats", bytesType, base, tt.App("parts", bytesType, tt.App(op, nil, args[len(args)-1])))
				return one(x)
			}
		}
		return false, nil
	}
	setBuf := func(b *Term, ps []*Term, pos Lin) {
		c, r := m.bufPos(st, b)
		if c != nil {
			st.del(c)
		}
		if r != nil {
			st.del(r)
		}
		st.add(&Tup{Tag: "buf", Args: []*Term{b, tt.App("parts", bytesType, ps...)}})
		st.add(&Tup{Tag: "rd", Args: []*Term{b, m.linTerm(pos)}})
	}
	fresh := func(ps []*Term) (bool, []Outcome) {
		m.age(st, ev.Site, ev.Ctx)
		b := tt.Call(ev.Site, ev.Ctx, 0, res0())
		m.setMem(st, b, ps)
		return one(b)
	}
	switch name {
	case "bytes.Clone", "slices.Clone", "golang.org/x/exp/slices.Clone":
		if isByteSlice(ev.Args[0].Typ) {
			return fresh(m.parts(st, ev.Args[0]))
		}
	case "bytes.Join", "slices.Concat", "golang.org/x/exp/slices.Concat":
		l, ok := m.listElems(st, ev.Args[0])
		if !ok || !isByteSlice(res0()) {
			break
		}
		var ps []*Term
		for i, x := range l {
			if i > 0 && name == "bytes.Join" {
				ps = append(ps, m.parts(st, ev.Args[1])...)
			}
			ps = append(ps, m.parts(st, x)...)
		}
		return fresh(ps)
	case "bytes.NewBuffer", "bytes.NewReader", "bytes.NewBufferString":
		m.age(st, ev.Site, ev.Ctx)
		b := tt.Call(ev.Site, ev.Ctx, 0, res0())
		setBuf(b, m.parts(st, ev.Args[0]), linConst(0))
		return one(b)
	}
	if !strings.HasPrefix(name, "bytes.Buffer.") && !strings.HasPrefix(name, "bytes.Reader.") || ev.Recv == nil {
		return false, nil
	}
	c, r := m.bufPos(st, ev.Recv)
	if c == nil {
		if ev.Recv.K != KAlloc {
			return false, nil
		}
		setBuf(ev.Recv, nil, linConst(0))
		c, r = m.bufPos(st, ev.Recv)
	}
	ps, pos := c.Args[1].Args, m.lin(st, r.Args[1])
	total := func() Lin {
		n := linConst(0)
		for _, p := range ps {
			n = n.add(m.partLen(st, p), 1)
		}
		return n
	}
	switch ev.Name[strings.LastIndexByte(ev.Name, '.')+1:] {
	case "Write", "WriteString":
		setBuf(ev.Recv, append(append([]*Term{}, ps...), m.parts(st, ev.Args[0])...), pos)
		return true, []Outcome{m.okOutcome(st, ev)}
	case "WriteByte":
		setBuf(ev.Recv, append(append([]*Term{}, ps...), tt.App("b1", nil, m.byteVal(st, ev.Args[0]))), pos)
		return true, []Outcome{m.okOutcome(st, ev)}
	case "Bytes":
		return one(tt.App("parts", bytesType, m.cut(st, ps, pos, pos, false)...))
	case "Len":
		return one(m.linTerm(total().add(pos, -1)))
	case "Grow":
		return one(nil)
	case "Reset":
		setBuf(ev.Recv, nil, linConst(0))
		return one(nil)
	case "ReadByte":
		x := m.cut(st, ps, pos, pos.add(linConst(1), 1), true)
		v := tt.App("at", types.Typ[types.Byte], tt.App("parts", bytesType, x...), tt.Int(0))
		if len(x) == 1 && x[0].K == KApp && x[0].Op == "b1" {
			v = x[0].Args[0]
		} else if len(x) == 1 && x[0].K == KApp && x[0].Op == "sub" {
			v = tt.App("at", types.Typ[types.Byte], x[0].Args[0], x[0].Args[1])
		}
		setBuf(ev.Recv, ps, pos.add(linConst(1), 1))
		return true, []Outcome{m.okOutcome(st, ev, v)}
	case "Next":
		n := m.lin(st, ev.Args[0])
		x := m.cut(st, ps, pos, pos.add(n, 1), true)
		setBuf(ev.Recv, ps, pos.add(n, 1))
		return one(tt.App("parts", bytesType, x...))
	case "Read":
		n := m.lin(st, tt.Len(ev.Args[0]))
		x := m.cut(st, ps, pos, pos.add(n, 1), true)
		m.write(st, ev.Args[0], linConst(0), n, x)
		setBuf(ev.Recv, ps, pos.add(n, 1))
		return true, []Outcome{m.okOutcome(st, ev, m.linTerm(n))}
	}
	return false, nil
}

// bytesSpec is a specification that follows the content of buffers.
func bytesSpec() *Spec {
	s := &Spec{Depth: 30, Signs: true}
	s.OnMake = func(m *Machine, st *State, list, n *Term) {
		if isByteSlice(list.Typ) {
			m.setMem(st, list, []*Term{m.TT.App("zeros", bytesType, m.linTerm(m.lin(st, n)))})
		}
	}
	// what is appended to may be moved: later writes to it do not count
	s.OnBytes = func(m *Machine, st *State, base, res *Term, pos string) {
		if m.memOf(st, res) == nil && res.K == KApp {
			m.setMem(st, res, m.parts(st, res))
		}
	}
	s.OnBuiltin = func(m *Machine, st *State, name string, args []*Term, site ssa.Instruction) {
		if name == "copy" && len(args) == 2 && args[0].Typ != nil && isByteSlice(args[0].Typ) {
			src := m.parts(st, args[1])
			n := linConst(0)
			for _, p := range src {
				n = n.add(m.partLen(st, p), 1)
			}
			// as many bytes as both have; where that is open, the target's number
			d := m.lin(st, m.TT.App("len", types.Typ[types.Int], args[0]))
			if diff := d.add(n, -1); len(src) > 0 && (diff.isConst() && diff.C < 0 || !diff.isConst() && !n.isConst()) {
				src, n = m.cut(st, src, linConst(0), d, true), d
			}
			m.write(st, args[0], linConst(0), n, src)
		}
	}
	return s
}

// show renders a value with parameters by position.
func (q *PathRec) show(t *Term) string {
	m, st := q.M, q.St
	t = m.byteVal(st, t)
	switch t.K {
	case KParam:
		return fmt.Sprintf("#%d", t.N)
	case KFld, KFldAddr:
		return q.show(t.Args[0]) + "." + fieldName(t.Args[0].Typ, t.N)
	case KLoad:
		return "*" + q.show(t.Args[0])
	case KConst:
		return t.Op + t.String()
	case KNil, KGlobal:
		return t.String()
	case KElem:
		return q.show(t.Args[0]) + "[" + q.showLin(t.Args[1]) + "]"
	case KApp:
		switch t.Op {
		case "lin", "+", "-", "len":
			if t.Typ == nil || !isStringType(t.Typ) {
				return q.showLin(t)
			}
		case "at":
			return q.show(t.Args[0]) + "[" + q.showLin(t.Args[1]) + "]"
		case "sub":
			return q.show(t.Args[0]) + "[" + q.showLin(t.Args[1]) + ":+" + q.showLin(t.Args[2]) + "]"
		}
		if strings.HasPrefix(t.Op, "trunc:") || strings.HasPrefix(t.Op, "as:") {
			return q.show(t.Args[0])
		}
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, q.show(a))
		}
		return t.Op + "(" + strings.Join(ss, ",") + ")"
	}
	return t.String()
}

func (q *PathRec) showLin(t *Term) string {
	l := q.M.lin(q.St, t)
	var ss []string
	for a, n := range l.At {
		s := ""
		if a.K == KApp && a.Op == "len" {
			s = "len(" + q.show(a.Args[0]) + ")"
		} else {
			s = q.show(a)
		}
		if n != 1 {
			s = fmt.Sprint(n, "*", s)
		}
		ss = append(ss, s)
	}
	sort.Strings(ss)
	if l.C != 0 || len(ss) == 0 {
		ss = append([]string{fmt.Sprint(l.C)}, ss...)
	}
	return strings.Join(ss, "+")
}

// content renders the content of a byte slice; parts that are known to be
// empty are left out.
func (q *PathRec) content(t *Term) []string {
	var out []string
	for _, p := range q.M.parts(q.St, t) {
		n := q.M.partLen(q.St, p)
		if n.isConst() && n.C == 0 {
			continue
		}
		if p.K == KApp {
			if w, ok := intWidth[p.Op]; ok {
				v := q.M.lin(q.St, p.Args[0])
				if v.isConst() && v.C == 0 {
					for i := int64(0); i < w; i++ {
						out = append(out, "0")
					}
					continue
				}
				if w == 1 {
					out = append(out, q.showLin(p.Args[0]))
				} else {
					out = append(out, p.Op+"("+q.showLin(p.Args[0])+")")
				}
				continue
			}
			if p.Op == "zeros" && n.isConst() && n.C <= 64 {
				for i := int64(0); i < n.C; i++ {
					out = append(out, "0")
				}
				continue
			}
		}
		out = append(out, q.show(p))
	}
	return out
}
