package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C21: encoded numbers sort like the numbers ----

// piece: for i in [lo, hi], the value is c*i + d, within the range of its type.
type piece struct {
	lo, hi *big.Int
	c      int64
	d      *big.Int
}

func (p piece) at(i *big.Int) *big.Int {
	r := new(big.Int).Mul(big.NewInt(p.c), i)
	return r.Add(r, p.d)
}

func intRange(t types.Type) (mn, mx *big.Int, bits uint, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false
	}
	bits = uint(types.SizesFor("gc", "amd64").Sizeof(b) * 8)
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, bits), one), bits, true
	}
	h := new(big.Int).Lsh(one, bits-1)
	return new(big.Int).Neg(h), new(big.Int).Sub(h, one), bits, true
}

// wrapTo brings the values into the range of a type.
func wrapTo(ps []piece, t types.Type) ([]piece, bool) {
	mn, _, bits, ok := intRange(t)
	if !ok {
		return nil, false
	}
	mod := new(big.Int).Lsh(big.NewInt(1), bits)
	quo := func(v *big.Int) *big.Int { // which turn of the range a value is in
		x := new(big.Int).Sub(v, mn)
		q, _ := new(big.Int).DivMod(x, mod, new(big.Int))
		return q
	}
	var out []piece
	for _, p := range ps {
		if p.c == 0 {
			d := new(big.Int).Sub(p.d, new(big.Int).Mul(quo(p.d), mod))
			out = append(out, piece{p.lo, p.hi, 0, d})
			continue
		}
		lo := p.lo
		for n := 0; lo.Cmp(p.hi) <= 0; n++ {
			if n > 8 {
				return nil, false
			}
			k := quo(p.at(lo))
			// the last i in the same turn
			base := new(big.Int).Add(mn, new(big.Int).Mul(k, mod))
			end := new(big.Int)
			if p.c > 0 {
				end.Sub(new(big.Int).Add(base, new(big.Int).Sub(mod, big.NewInt(1))), p.d)
			} else {
				end.Sub(p.d, base)
			}
			if end.Cmp(p.hi) > 0 {
				end = p.hi
			}
			out = append(out, piece{lo, end, p.c, new(big.Int).Sub(p.d, new(big.Int).Mul(k, mod))})
			lo = new(big.Int).Add(end, big.NewInt(1))
		}
	}
	return out, true
}

// numEval evaluates terms in one integer parameter.
type numEval struct {
	m      *Machine
	st     *State
	x      *Term
	lo, hi *big.Int
}

func (n *numEval) pieces(t *Term, typ types.Type) ([]piece, bool) {
	if t == n.x {
		return []piece{{n.lo, n.hi, 1, big.NewInt(0)}}, true
	}
	if t.K == KConst {
		v, ok := new(big.Int).SetString(t.String(), 10)
		if !ok {
			return nil, false
		}
		return []piece{{n.lo, n.hi, 0, v}}, true
	}
	if t.K != KApp {
		return nil, false
	}
	if t.Typ != nil {
		typ = t.Typ
	}
	// in a generic helper: what the operands are
	if _, tp := typ.(*types.TypeParam); tp && (t.Op == "-" || t.Op == "^" || t.Op == "+") {
		for _, a := range t.Args {
			if _, tp := a.Typ.(*types.TypeParam); !tp && a.Typ != nil {
				typ = a.Typ
			}
		}
	}
	if typ == nil {
		return nil, false
	}
	switch {
	case len(t.Args) == 1 && (t.Op == "-" || t.Op == "^" || strings.HasPrefix(t.Op, "as:") || strings.HasPrefix(t.Op, "trunc:")):
		ps, ok := n.pieces(t.Args[0], typ)
		if !ok {
			return nil, false
		}
		if t.Op == "-" || t.Op == "^" {
			var out []piece
			for _, p := range ps {
				d := new(big.Int).Neg(p.d)
				if t.Op == "^" {
					d.Sub(d, big.NewInt(1))
				}
				out = append(out, piece{p.lo, p.hi, -p.c, d})
			}
			ps = out
		}
		return wrapTo(ps, typ)
	case len(t.Args) == 2 && (t.Op == "+" || t.Op == "-" || t.Op == "^"):
		a, ok1 := n.pieces(t.Args[0], typ)
		b, ok2 := n.pieces(t.Args[1], typ)
		if !ok1 || !ok2 {
			return nil, false
		}
		var out []piece
		ok := true
		cross(a, b, func(lo, hi *big.Int, p, q piece) {
			switch t.Op {
			case "+":
				out = append(out, piece{lo, hi, p.c + q.c, new(big.Int).Add(p.d, q.d)})
			case "-":
				out = append(out, piece{lo, hi, p.c - q.c, new(big.Int).Sub(p.d, q.d)})
			case "^":
				if p.c == 0 {
					p, q = q, p
				}
				_, _, bits, isInt := intRange(typ)
				if q.c != 0 || !isInt {
					ok = false
					return
				}
				k := new(big.Int).Mod(q.d, new(big.Int).Lsh(big.NewInt(1), bits))
				switch {
				case k.Cmp(new(big.Int).Lsh(big.NewInt(1), bits-1)) == 0: // the sign bit
					out = append(out, piece{lo, hi, p.c, new(big.Int).Add(p.d, k)})
				case k.Cmp(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))) == 0: // all bits
					d := new(big.Int).Neg(p.d)
					out = append(out, piece{lo, hi, -p.c, d.Sub(d, big.NewInt(1))})
				default:
					ok = false
				}
			}
		})
		for _, p := range out {
			if p.c < -1 || p.c > 1 {
				return nil, false
			}
		}
		if !ok {
			return nil, false
		}
		return wrapTo(out, typ)
	}
	return nil, false
}

// cross visits the common intervals of two piecewise values.
func cross(a, b []piece, f func(lo, hi *big.Int, p, q piece)) {
	for _, p := range a {
		for _, q := range b {
			lo, hi := p.lo, p.hi
			if q.lo.Cmp(lo) > 0 {
				lo = q.lo
			}
			if q.hi.Cmp(hi) < 0 {
				hi = q.hi
			}
			if lo.Cmp(hi) <= 0 {
				f(lo, hi, p, q)
			}
		}
	}
}

type interval struct{ lo, hi *big.Int }

// restrict keeps the i for which a condition has the given truth.
func (n *numEval) restrict(in []interval, f *Term, v bool) ([]interval, bool) {
	if f.K != KApp || f.Op != "<" && f.Op != "==" {
		return nil, false
	}
	var typ types.Type
	for _, a := range f.Args {
		if findSub(a, func(t *Term) bool { return t == n.x }) != nil {
			typ = n.x.Typ
			if a.K == KApp && a.Typ != nil {
				typ = a.Typ
			}
		}
	}
	a, ok1 := n.pieces(f.Args[0], typ)
	b, ok2 := n.pieces(f.Args[1], typ)
	if !ok1 || !ok2 {
		return nil, false
	}
	var sat []interval // where the condition holds
	cross(a, b, func(lo, hi *big.Int, p, q piece) {
		// c*i + d < 0 or == 0
		c := p.c - q.c
		d := new(big.Int).Sub(p.d, q.d)
		l, h := lo, hi
		cut := func(nl, nh *big.Int) {
			if nl != nil && nl.Cmp(l) > 0 {
				l = nl
			}
			if nh != nil && nh.Cmp(h) < 0 {
				h = nh
			}
		}
		floorDiv := func(x *big.Int, k int64) *big.Int {
			r, _ := new(big.Int).DivMod(x, big.NewInt(k), new(big.Int))
			return r
		}
		switch {
		case c == 0:
			if f.Op == "<" && d.Sign() >= 0 || f.Op == "==" && d.Sign() != 0 {
				return
			}
		case f.Op == "<" && c > 0: // i <= (-d-1)/c
			x := new(big.Int).Neg(d)
			cut(nil, floorDiv(x.Sub(x, big.NewInt(1)), c))
		case f.Op == "<": // -k*i + d < 0: i >= floor(d/k)+1
			x := floorDiv(d, -c)
			cut(x.Add(x, big.NewInt(1)), nil)
		default:
			x := new(big.Int).Neg(d)
			q, r := new(big.Int).DivMod(x, big.NewInt(abs64(c)), new(big.Int))
			if r.Sign() != 0 {
				return
			}
			if c < 0 {
				q.Neg(q)
			}
			cut(q, q)
		}
		if l.Cmp(h) <= 0 {
			sat = append(sat, interval{l, h})
		}
	})
	if !v {
		sat = complement(sat, n.lo, n.hi)
	}
	var out []interval
	for _, x := range in {
		for _, y := range sat {
			l, h := x.lo, x.hi
			if y.lo.Cmp(l) > 0 {
				l = y.lo
			}
			if y.hi.Cmp(h) < 0 {
				h = y.hi
			}
			if l.Cmp(h) <= 0 {
				out = append(out, interval{l, h})
			}
		}
	}
	return out, true
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func complement(xs []interval, lo, hi *big.Int) []interval {
	sort.Slice(xs, func(i, j int) bool { return xs[i].lo.Cmp(xs[j].lo) < 0 })
	var out []interval
	cur := lo
	one := big.NewInt(1)
	for _, x := range xs {
		if cur.Cmp(x.lo) < 0 {
			out = append(out, interval{cur, new(big.Int).Sub(x.lo, one)})
		}
		if n := new(big.Int).Add(x.hi, one); n.Cmp(cur) > 0 {
			cur = n
		}
	}
	if cur.Cmp(hi) <= 0 {
		out = append(out, interval{cur, hi})
	}
	return out
}

// cell: for i in [lo, hi], the field is made of these big-endian integers.
type encCell struct {
	lo, hi *big.Int
	widths []int64
	vals   []piece
	pos    string
}

func (e encCell) bytes(i *big.Int) []byte {
	var out []byte
	for k, w := range e.widths {
		b := make([]byte, w)
		e.vals[k].at(i).FillBytes(b)
		out = append(out, b...)
	}
	return out
}

// encCells are the cells of one path, for the parts of the field.
func (n *numEval) encCells(parts []*Term, in []interval, pos string) ([]encCell, string) {
	var cells []encCell
	for _, x := range in {
		cells = append(cells, encCell{lo: x.lo, hi: x.hi, pos: pos})
	}
	for _, p := range parts {
		w, ok := int64(0), false
		if p.K == KApp {
			w, ok = intWidth[p.Op]
			ok = ok && !strings.HasPrefix(p.Op, "le")
		}
		if !ok {
			return nil, fmt.Sprintf("the bytes %s are not a big-endian number", p)
		}
		ut := types.Typ[map[int64]types.BasicKind{1: types.Uint8, 2: types.Uint16, 4: types.Uint32, 8: types.Uint64}[w]]
		ps, ok := n.pieces(p.Args[0], ut)
		if ok {
			ps, ok = wrapTo(ps, ut)
		}
		if !ok {
			return nil, fmt.Sprintf("%s is not a linear function of the number", p.Args[0])
		}
		var next []encCell
		for _, c := range cells {
			for _, q := range ps {
				lo, hi := c.lo, c.hi
				if q.lo.Cmp(lo) > 0 {
					lo = q.lo
				}
				if q.hi.Cmp(hi) < 0 {
					hi = q.hi
				}
				if lo.Cmp(hi) <= 0 {
					next = append(next, encCell{lo, hi, append(append([]int64{}, c.widths...), w), append(append([]piece{}, c.vals...), q), c.pos})
				}
			}
		}
		cells = next
	}
	return cells, ""
}

// mergeBytes joins bytes that are the shifted parts of one number.
func mergeBytes(m *Machine, ps []*Term) []*Term {
	shifted := func(p *Term) (*Term, int64, bool) {
		if p.K != KApp || p.Op != "b1" {
			return nil, 0, false
		}
		t := p.Args[0]
		if t.K != KApp || !strings.HasPrefix(t.Op, "trunc:") {
			return nil, 0, false
		}
		t = t.Args[0]
		if a, b, ok := binOp(t, ">>"); ok {
			if k, ok := b.intVal(); ok {
				return a, k, true
			}
		}
		return t, 0, true
	}
	var out []*Term
	for i := 0; i < len(ps); i++ {
		x, k, ok := shifted(ps[i])
		op := map[int64]string{8: "be2", 24: "be4", 56: "be8"}[k]
		if ok && op != "" {
			w := k/8 + 1
			same := int64(0)
			for j := int64(0); j < w && i+int(j) < len(ps); j++ {
				y, l, ok := shifted(ps[i+int(j)])
				if !ok || y != x || l != k-8*j {
					break
				}
				same++
			}
			if same == w {
				out = append(out, m.TT.App(op, nil, x))
				i += int(w) - 1
				continue
			}
		}
		out = append(out, ps[i])
	}
	return out
}

type orderCheck struct {
	p *Program
	r *Result
}

// field checks a function that appends a number (parameter par) to a key
// builder; the builder's bytes and field number are those of the result.
func (o *orderCheck) field(fn *ssa.Function, par int) {
	r := o.r
	name := calleeName(fn)
	spec := bytesSpec()
	qs := r.Paths(o.p, fn, PathOpt{Spec: spec, Call: func(m *Machine, st *State, ev *Event) (bool, []Outcome) { return m.bytesCall(st, ev) }})
	groups := map[string][]encCell{}
	desc := map[string]bool{}
	var mn, mx *big.Int
	for _, q := range qs {
		x := q.Params[par]
		var ok bool
		mn, mx, _, ok = intRange(x.Typ)
		if !ok {
			r.Fail("%s: parameter %d is not an integer", name, par)
			return
		}
		buff, fid, b0, f0 := o.builder(q)
		if buff == nil {
			r.Check(false, "numbers-sort", name, q.Pos, "the result is not a key builder")
			return
		}
		ps := q.M.parts(q.St, buff)
		okHead := len(ps) >= 2 && ps[0] == b0 && ps[1].K == KApp && ps[1].Op == "b1" && ps[1].Args[0] == fid
		okFid := q.M.lin(q.St, fid).eq(q.M.lin(q.St, f0).add(linConst(1), 1))
		r.PathCheck(q, okHead && okFid, "fields-are-numbered", name, q.Pos, "the field does not begin with its number, one above the last")
		if !okHead {
			continue
		}
		n := &numEval{m: q.M, st: q.St, x: x, lo: mn, hi: mx}
		in := []interval{{mn, mx}}
		side := ""
		for f, v := range q.St.facts {
			if findSub(f, func(t *Term) bool { return t == x }) == nil {
				if f.K == KParam {
					if v {
						side = "DESC"
					} else {
						side = "ASC"
					}
				}
				continue
			}
			in, ok = n.restrict(in, f, v)
			if !ok {
				r.Check(false, "numbers-sort", name, q.Pos, fmt.Sprintf("what %s says about the number is not decided", f))
				return
			}
		}
		cells, why := n.encCells(mergeBytes(q.M, ps[2:]), in, q.Pos)
		if why != "" {
			r.PathCheck(q, false, "numbers-sort", name, q.Pos, why)
			continue
		}
		groups[side] = append(groups[side], cells...)
		desc[side] = side == "DESC"
	}
	for side, cells := range groups {
		c := strings.TrimSpace(name + " " + side)
		r.Check(true, "numbers-sort", c, "", "")
		sort.Slice(cells, func(i, j int) bool { return cells[i].lo.Cmp(cells[j].lo) < 0 })
		next := mn
		bad := func(i, j *big.Int, pos, what string) {
			r.Check(false, "numbers-sort", c+": "+i.String()+", "+j.String(), pos, what)
		}
		for k, e := range cells {
			if e.lo.Cmp(next) != 0 {
				bad(next, e.lo, e.pos, "it is not known how a number is encoded")
				break
			}
			next = new(big.Int).Add(e.hi, big.NewInt(1))
			if e.lo.Cmp(e.hi) < 0 {
				dir := int64(0)
				for _, v := range e.vals {
					if v.c != 0 {
						dir = v.c
						break
					}
				}
				want := int64(1)
				if desc[side] {
					want = -1
				}
				switch {
				case dir == 0:
					bad(e.lo, e.hi, e.pos, "different numbers are encoded alike")
				case dir != want:
					bad(e.lo, e.hi, e.pos, "these numbers sort the wrong way round")
				}
			}
			if k > 0 {
				p := cells[k-1]
				cmp := bytes.Compare(p.bytes(p.hi), e.bytes(e.lo))
				if desc[side] {
					cmp = -cmp
				}
				// a whole cell against the next: the ends decide
				if cmp >= 0 {
					bad(p.hi, e.lo, e.pos, "these numbers sort the wrong way round")
				}
			}
		}
		if len(cells) > 0 && next.Cmp(new(big.Int).Add(mx, big.NewInt(1))) != 0 {
			bad(next, mx, name, "it is not known how a number is encoded")
		}
	}
	if strings.Contains(name, "IndexOrder") {
		r.Check(len(groups) == 2, "numbers-sort", name, "", "the direction of the order has no influence")
	}
}

// builder: bytes and field number of the key builder in a result and in the
// receiver.
func (o *orderCheck) builder(q *PathRec) (buff, fid, b0, f0 *Term) {
	res, recv := q.Res[0], q.Params[0]
	if typeName(derefType(recv.Typ)) == "bond.IndexOrder" {
		res, recv = q.fieldOf(res, "KeyBuilder"), q.fieldOf(recv, "KeyBuilder")
	}
	if typeName(derefType(recv.Typ)) != "bond.KeyBuilder" {
		return nil, nil, nil, nil
	}
	return q.fieldOf(res, "buff"), q.fieldOf(res, "fid"), q.fieldOf(recv, "buff"), q.fieldOf(recv, "fid")
}

// bytesField: the content goes into the key as it is.
func (o *orderCheck) bytesField(fn *ssa.Function) {
	name := calleeName(fn)
	spec := bytesSpec()
	spec.OnStore = func(m *Machine, st *State, addr, val *Term, site ssa.Instruction) {
		if addr.K != KIdxAddr || addr.Args[0].Typ == nil || !isByteSlice(addr.Args[0].Typ) {
			return
		}
		base := addr.Args[0]
		for base.K == KApp && base.Op == "slice" {
			base = base.Args[0]
		}
		m.Check(st, base.K != KParam, "given-bytes-unchanged", name, m.P.Pos(site.Pos()), "it changes the bytes it is given")
	}
	for _, q := range o.r.Paths(o.p, fn, PathOpt{Spec: spec, Call: func(m *Machine, st *State, ev *Event) (bool, []Outcome) { return m.bytesCall(st, ev) }}) {
		if len(q.Params) > 2 && q.Is(q.Params[2], true) {
			o.r.Check(true, "given-bytes-unchanged", name, q.Pos, "")
			continue // the complement; its loop is not followed
		}
		buff, fid, b0, f0 := o.builder(q)
		if buff == nil {
			o.r.Check(false, "bytes-as-given", name, q.Pos, "the result is not a key builder")
			continue
		}
		ps := q.M.parts(q.St, buff)
		okFid := q.M.lin(q.St, fid).eq(q.M.lin(q.St, f0).add(linConst(1), 1))
		okHead := len(ps) >= 2 && ps[0] == b0 && ps[1].K == KApp && ps[1].Op == "b1" && ps[1].Args[0] == fid
		o.r.PathCheck(q, okHead && okFid, "fields-are-numbered", name, q.Pos, "the field does not begin with its number, one above the last")
		if okHead {
			got := q.content(q.M.TT.App("parts", bytesType, ps[2:]...))
			n := q.M.lin(q.St, q.M.TT.App("len", types.Typ[types.Int], q.Params[1]))
			ok := eqStrings(got, []string{"#1"}) || len(got) == 0 && n.isConst() && n.C == 0
			o.r.PathCheck(q, ok, "bytes-as-given", name, q.Pos, fmt.Sprintf("the field is made of %v", got))
		}
	}
}

func runOrder(p *Program, r *Result) {
	o := &orderCheck{p, r}
	for _, t := range []struct{ typ, prefix string }{{"KeyBuilder", "Add%sField"}, {"IndexOrder", "Order%s"}} {
		for _, k := range []string{"Int64", "Int32", "Int16", "Uint64", "Uint32", "Uint16", "Byte", "Bytes", "String"} {
			if k == "String" && t.typ == "IndexOrder" {
				continue
			}
			fn := r.anchor(p.methodOf("", t.typ, fmt.Sprintf(t.prefix, k)))
			if fn == nil {
				continue
			}
			if k == "Bytes" || k == "String" {
				o.bytesField(fn)
			} else {
				o.field(fn, 1)
			}
		}
	}
	r.Need("numbers-sort", 14)
	r.Need("fields-are-numbered", 17)
	r.Need("bytes-as-given", 3)
}

func init() {
	register(&Property{ID: "C21", Run: runOrder})
}
