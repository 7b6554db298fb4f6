package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- C35: where a scan ends ----

// succWatch follows keySuccessor over a prefix: what it returns is the prefix
// up to its last byte that is not 0xff, with that byte one greater.
//
//	~ones(i, n)   the bytes of the prefix behind position i+n are 0xff
//	~up(k, n)     the last k+n bytes of the prefix are 0xff
//	~ff(A, i)     so is byte i; ~lt(A, i): it is less
//	~trim(S)      S is the prefix without some bytes 0xff at its end
//	~inc(A, i)    byte i was increased by one
type succWatch struct {
	src *Term
	buf *Term
}

const succName = "bond.keySuccessor"

// copyOf: the bytes of t are those of the prefix.
func (w *succWatch) copyOf(t *Term) bool {
	if t == w.src {
		return true
	}
	if t.K != KApp || len(t.Args) < 2 {
		return false
	}
	return (t.Op == "cats" || t.Op == "append") && t.Args[len(t.Args)-1] == w.src && w.empty(t.Args[0]) && len(t.Args) == 2
}

func (w *succWatch) empty(t *Term) bool {
	return t.K == KNil || t == w.buf || t.K == KApp && t.Op == "slice" && t.Args[1].isInt(0) && t.Args[2].isInt(0)
}

// at normalises the position of a byte.
func (w *succWatch) byteAt(t *Term) (arr, idx *Term) {
	t = stripConv(t)
	if t.K == KLoad && t.Args[0].K == KIdxAddr {
		t = t.Args[0]
	} else if t.K != KElem {
		return nil, nil
	}
	return t.Args[0], t.Args[1]
}

func (w *succWatch) known(st *State, tag string, args ...*Term) bool {
	return st.has(&Tup{Tag: tag, Args: args})
}

func (w *succWatch) ofPrefix(st *State, a *Term) bool {
	return w.copyOf(a) || w.known(st, "~trim", a)
}

// lastOf: i is the last position of a.
func (w *succWatch) lastOf(a, i *Term) bool {
	x, n := splitConst(i)
	if n != -1 || x == nil || !isLen(x) {
		return false
	}
	return x.Args[0] == a || w.copyOf(x.Args[0]) && w.copyOf(a)
}

// behind: all bytes of the prefix behind position i of a are 0xff.
func (w *succWatch) behind(m *Machine, st *State, a, i *Term) bool {
	if w.lastOf(a, i) {
		return w.ofPrefix(st, a)
	}
	return w.copyOf(a) && w.ones(m, st, i)
}

// ones: the bytes of the prefix behind position i are 0xff.
func (w *succWatch) ones(m *Machine, st *State, i *Term) bool {
	if st.find("~ones", func(t *Tup) bool { return m.TT.addConstTerm(t.Args[0], off(t.Args[1])) == i }) != nil {
		return true
	}
	d := w.fromEnd(m, i)
	return d != nil && (d.isInt(0) || st.find("~up", func(t *Tup) bool { return m.TT.addConstTerm(t.Args[0], off(t.Args[1])) == d }) != nil)
}

// fromEnd: position i is the last one but the result.
func (w *succWatch) fromEnd(m *Machine, i *Term) *Term {
	if i.K != KApp || i.Op != "-" || len(i.Args) != 2 {
		return nil
	}
	l, n := splitConst(i.Args[0])
	if l == nil || !isLen(l) || !w.copyOf(l.Args[0]) {
		return nil
	}
	return m.TT.addConstTerm(i.Args[1], -1-n)
}

func (w *succWatch) same(st *State, tag string, a, i *Term) bool {
	return st.find(tag, func(t *Tup) bool {
		return t.Args[1] == i && (t.Args[0] == a || w.copyOf(a) && w.copyOf(t.Args[0]))
	}) != nil
}

func runSuccessor(p *Program, r *Result) {
	fn := r.anchor(p.Find(succName))
	if fn == nil {
		return
	}
	rule := "scan-ends-behind-the-prefix"
	for _, dst := range []bool{true, false} {
		c := succName + ": into the prefix"
		if dst {
			c = succName + ": into a buffer"
		}
		w := &succWatch{}
		spec := &Spec{RawKeys: true}
		spec.KeepFact = func(*Machine, *Term) bool { return true }
		spec.OnFact = func(m *Machine, st *State, t *Term, v bool) {
			if t.K != KApp || len(t.Args) != 2 {
				return
			}
			if st.find("~ones", func(u *Tup) bool {
				i, n := u.Args[0], off(u.Args[1])
				x, xn := splitConst(t.Args[0])
				y, yn := splitConst(t.Args[1])
				switch {
				case t.Op == "<" && v: // i + xn < yn
					return x == i && y == nil && yn-xn+n <= 0
				case t.Op == "<": // i + yn <= xn
					return y == i && x == nil && xn-yn+n < 0
				case t.Op == "==" && v:
					return x == i && y == nil && yn-xn+n < 0 || y == i && x == nil && xn-yn+n < 0
				}
				return false
			}) != nil {
				st.add(&Tup{Tag: "none"})
			}
			for k := 0; k < 2; k++ {
				if l := t.Args[k]; isLen(l) && v && t.Args[1-k].isInt(0) && t.Op == "==" && w.ofPrefix(st, l.Args[0]) {
					st.add(&Tup{Tag: "none"}) // nothing is left
				}
				a, i := w.byteAt(t.Args[k])
				if a == nil || !w.ofPrefix(st, a) {
					continue
				}
				ff := t.Args[1-k].isInt(255)
				switch {
				case t.Op == "==" && ff && v, t.Op == "<" && k == 0 && ff && !v, t.Op == "<" && k == 1 && t.Args[0].isInt(254) && v:
					st.add(&Tup{Tag: "~ff", Args: []*Term{a, i}})
					st.add(&Tup{Tag: "did:ones", Args: []*Term{stripConv(t.Args[k])}})
				case t.Op == "==" && ff && !v, t.Op == "<" && k == 0 && ff && v, t.Op == "<" && k == 1 && t.Args[0].isInt(254) && !v:
					st.add(&Tup{Tag: "~lt", Args: []*Term{a, i}})
				}
			}
		}
		spec.OnCounter = func(m *Machine, st *State, val *Term) func(*Term) {
			var offs []int64
			for _, n := range []int64{0, -1} {
				i := m.TT.addConstTerm(val, n)
				next := m.TT.addConstTerm(i, 1)
				if w.lastOf(w.src, i) || w.ones(m, st, next) && w.same(st, "~ff", w.src, next) {
					offs = append(offs, n)
				}
			}
			var ups []int64
			for _, n := range []int64{0, 1} {
				d := m.TT.addConstTerm(val, n)
				prev := m.TT.addConstTerm(d, -1)
				if d.isInt(0) || st.find("~up", func(t *Tup) bool { return m.TT.addConstTerm(t.Args[0], off(t.Args[1])) == prev }) != nil &&
					st.find("~ff", func(t *Tup) bool { return w.copyOf(t.Args[0]) && w.fromEnd(m, t.Args[1]) == prev }) != nil {
					ups = append(ups, n)
				}
			}
			if offs == nil && ups == nil {
				return nil
			}
			return func(name *Term) {
				for _, n := range ups {
					st.add(&Tup{Tag: "~up", Args: []*Term{name, m.TT.Int(n)}})
				}
				for _, n := range offs {
					st.add(&Tup{Tag: "~ones", Args: []*Term{name, m.TT.Int(n)}})
				}
			}
		}
		spec.OnAdvance = func(m *Machine, st *State, val *Term) func(*Term) {
			ok := w.copyOf(val)
			if !ok && val.K == KApp && val.Op == "slice" && val.Args[1].isInt(0) && w.ofPrefix(st, val.Args[0]) {
				i := m.TT.addConstTerm(val.Args[2], -1)
				_ = i
				x, n := splitConst(val.Args[2])
				ok = x != nil && isLen(x) && x.Args[0] == val.Args[0] && n == -1 && w.same(st, "~ff", val.Args[0], val.Args[2])
			}
			if !ok {
				return nil
			}
			return func(name *Term) { st.add(&Tup{Tag: "~trim", Args: []*Term{name}}) }
		}
		spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
			if addr.K != KIdxAddr {
				return
			}
			a, i := addr.Args[0], addr.Args[1]
			if !w.ofPrefix(st, a) {
				if b := baseArray(a); w.copyOf(b) {
					a = b
				} else {
					return
				}
			}
			x, n := splitConst(stripConv(val))
			pa, pi := (*Term)(nil), (*Term)(nil)
			if x != nil && n == 1 {
				pa, pi = w.byteAt(x)
			}
			if pa != nil && pi == i && (pa == a || w.copyOf(pa) && w.copyOf(a)) {
				if len(st.tups("inc")) > 0 {
					st.add(&Tup{Tag: "spoilt"})
				}
				st.add(&Tup{Tag: "inc", Args: []*Term{a, i}})
				return
			}
			st.add(&Tup{Tag: "spoilt"})
		}
		spec.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			t := res[0]
			empty, known := m.truth(st, m.TT.Eq(m.TT.Len(w.src), m.TT.Int(0)))
			if known && empty {
				return // a prefix has at least a table and an index
			}
			if len(st.tups("inc")) == 0 {
				// nothing increased: there is nothing that could be
				ok := len(st.tups("none")) > 0
				for _, u := range st.tups("all:ones") {
					ok = ok || len(u.Args) == 2 && w.copyOf(u.Args[0]) && (u.Args[1].K == KHole || u.Args[1].K == KElem && w.copyOf(u.Args[1].Args[0]) && (u.Args[1].Args[1].K == KHole || w.holeFromEnd(m, u.Args[1].Args[1])))
				}
				m.Check(st, ok, rule, c, pos, "the prefix is returned as it is although a byte of it could be increased: the scan is empty")
				return
			}
			if !m.Check(st, len(st.tups("spoilt")) == 0, rule, c, pos, "more is changed than one byte") {
				return
			}
			inc := st.tups("inc")[0]
			a, i := inc.Args[0], inc.Args[1]
			m.Check(st, w.behind(m, st, a, i), rule, c, pos, "a byte is increased that may have other bytes than 0xff behind it: the scan goes on behind the prefix")
			m.Check(st, w.same(st, "~lt", a, i), rule, c, pos, "a byte is increased that may be 0xff: it becomes 0, and the scan is empty")
			cut := false
			if t.K == KApp && t.Op == "slice" && t.Args[1].isInt(0) && (t.Args[0] == a || w.copyOf(t.Args[0])) {
				cut = t.Args[2] == m.TT.addConstTerm(i, 1)
			}
			cut = cut || (t == a || w.copyOf(t) && w.copyOf(a)) && w.lastOf(a, i)
			m.Check(st, cut, rule, c, pos, "what is returned does not end with the increased byte: keys between the prefix's end and it are scanned as well")
		}
		r.Interpret(p, spec, fn, func(m *Machine, st *State, ps []*Term) {
			w.src, w.buf = ps[0], m.TT.App("slice", types.NewSlice(types.Typ[types.Byte]), ps[1], m.TT.Int(0), m.TT.Int(0), m.TT.Nil)
			if !dst {
				w.buf = m.TT.Nil
			}
			ps[1] = w.buf
			if dst {
				m.assume(st, m.TT.Eq(m.TT.Nil, w.buf), false)
			}
		})
	}
	r.Need(rule, 2)
}

func init() {
	register(&Property{ID: "C35", Run: runSuccessor})
}

func (w *succWatch) holeFromEnd(m *Machine, i *Term) bool {
	d := w.fromEnd(m, i)
	return d != nil && d.K == KHole
}

// off is the constant term t.
func off(t *Term) int64 {
	n, _ := t.intVal()
	return n
}
