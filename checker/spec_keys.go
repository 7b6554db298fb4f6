package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C20: the layout of keys ----

// The layout: table, index, length of the index key, index key, and unless the
// key is a prefix, length of the order key, order key, primary key.
const (
	keyL1    = "u:be4(#0[2:+4])"
	keyIndex = "#0[6:+" + keyL1 + "]"
)

func keyPaths(p *Program, r *Result, fn *ssa.Function) []*PathRec {
	spec := bytesSpec()
	spec.RawKeys = true
	return r.Paths(p, fn, PathOpt{Spec: spec, Call: func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
		if ok, outs := m.bytesCall(st, ev); ok {
			return true, outs
		}
		// functions that append to the buffer they are given
		if ev.Val != nil && ev.Fn == nil && len(ev.Args) == 1 && ev.Sig.Results().Len() == 1 && isByteSlice(ev.Sig.Results().At(0).Type()) && isByteSlice(ev.Args[0].Typ) {
			res := m.TT.App("cats", bytesType, ev.Args[0], m.TT.App("appended", bytesType, ev.Val))
			m.setMem(st, res, m.parts(st, res))
			return true, []Outcome{{st, res}}
		}
		return false, nil
	}})
}

// sameParts compares contents; the buffer the key is appended to does not count.
func dropBuf(got []string, buf string) []string {
	if len(got) > 0 && strings.HasPrefix(got[0], buf+"[") {
		return got[1:]
	}
	return got
}

type keyLayout struct {
	p *Program
	r *Result
}

func (k *keyLayout) fn(name string) *ssa.Function {
	if i := strings.IndexByte(name, '.'); i >= 0 {
		return k.r.anchor(k.p.methodOf("", name[:i], name[i+1:]))
	}
	return k.r.anchor(k.p.Find("bond." + name))
}

func eqStrings(a, b []string) bool {
	return strings.Join(a, " ") == strings.Join(b, " ")
}

func runKeyLayout(p *Program, r *Result) {
	k := &keyLayout{p, r}
	// content of the parts that are known to be empty is left out
	part := func(q *PathRec, lenOf, s string, empty bool) []string {
		if empty {
			return []string{"0", "0", "0", "0"}
		}
		return []string{"be4(len(" + lenOf + "))", s}
	}
	isEmpty := func(q *PathRec, t *Term) bool {
		n := linConst(0)
		for _, x := range q.M.parts(q.St, t) {
			n = n.add(q.M.partLen(q.St, x), 1)
		}
		return n.isConst() && n.C == 0
	}
	if fn := k.fn("KeyEncode"); fn != nil {
		c := calleeName(fn)
		for _, q := range keyPaths(p, r, fn) {
			key := q.Params[0]
			want := []string{"#0.TableID", "#0.IndexID"}
			f := func(n string) *Term { return q.fieldOf(key, n) }
			want = append(want, part(q, "#0.Index", "#0.Index", isEmpty(q, f("Index")))...)
			full := append(append([]string{}, want...), part(q, "#0.IndexOrder", "#0.IndexOrder", isEmpty(q, f("IndexOrder")))...)
			full = append(full, "#0.PrimaryKey")
			got := dropBuf(q.content(q.Res[0]), "#1")
			if isEmpty(q, f("PrimaryKey")) {
				full = want
			}
			r.PathCheck(q, eqStrings(got, full), "key-layout", c, q.Pos, fmt.Sprintf("the key is made of %v, not of %v", got, full))
		}
	}
	if fn := k.fn("KeyEncodeRaw"); fn != nil {
		c := calleeName(fn)
		for _, q := range keyPaths(p, r, fn) {
			ap := func(i int) (string, string, bool) {
				s := fmt.Sprintf("appended(#%d)", i)
				v, known := q.M.isNil(q.St, q.Params[i])
				return s, s, known && v
			}
			want := []string{"#0", "#1"}
			l, s, nilF := ap(2)
			want = append(want, part(q, l, s, nilF)...)
			if _, pk, noPK := ap(4); !noPK {
				l, s, nilF := ap(3)
				want = append(want, part(q, l, s, nilF)...)
				want = append(want, pk)
			}
			got := dropBuf(q.content(q.Res[0]), "#5")
			r.PathCheck(q, eqStrings(got, want), "key-layout", c, q.Pos, fmt.Sprintf("the key is made of %v, not of %v", got, want))
		}
	}
	l2 := "u:be4(#0[6+" + keyL1 + ":+4])"
	order := "#0[10+" + keyL1 + ":+" + l2 + "]"
	sum := []string{"-1*" + keyL1, "-1*" + l2, "len(#0)"}
	sort.Strings(sum)
	rest := "#0[10+" + keyL1 + "+" + l2 + ":+-10+" + strings.Join(sum, "+") + "]"
	isRest := func(got []string) bool { return len(got) == 1 && got[0] == rest }
	if fn := k.fn("KeyDecode"); fn != nil {
		c := calleeName(fn)
		for _, q := range keyPaths(p, r, fn) {
			for _, f := range []struct{ name, want string }{{"TableID", "#0[0]"}, {"IndexID", "#0[1]"}, {"Index", keyIndex}, {"IndexOrder", order}} {
				v := q.fieldOf(q.Res[0], f.name)
				got := q.showField(v)
				r.PathCheck(q, got == f.want || got == "" && strings.HasPrefix(f.name, "Index"), "key-layout", c+": "+f.name, q.Pos, fmt.Sprintf("%s is read from %s, not from %s", f.name, got, f.want))
			}
			got := q.content(q.fieldOf(q.Res[0], "PrimaryKey"))
			r.PathCheck(q, isRest(got), "key-layout", c+": PrimaryKey", q.Pos, fmt.Sprintf("the primary key is read from %v", got))
		}
	}
	if fn := k.fn("KeyBytes.ToDataKeyBytes"); fn != nil {
		c := calleeName(fn)
		for _, q := range keyPaths(p, r, fn) {
			got := dropBuf(q.content(q.Res[0]), "#1")
			ok := len(got) == 11 && got[0] == "#0[0]" && eqStrings(got[1:10], strings.Fields("0 0 0 0 0 0 0 0 0")) && isRest(got[10:])
			r.PathCheck(q, ok, "key-layout", c, q.Pos, fmt.Sprintf("the row's key is made of %v", got))
		}
	}
	for _, f := range []struct{ fn, want string }{
		{"KeyBytes.TableID", "#0[0]"}, {"KeyBytes.IndexID", "#0[1]"}, {"KeyBytes.Index", keyIndex}, {"_KeyPrefixSplitIndex", "6+" + keyL1},
	} {
		fn := k.fn(f.fn)
		if fn == nil {
			continue
		}
		for _, q := range keyPaths(p, r, fn) {
			got := q.showField(q.Res[0])
			r.PathCheck(q, got == f.want, "key-layout", calleeName(fn), q.Pos, fmt.Sprintf("it answers %s, not %s", got, f.want))
		}
	}
	// conversions between kinds of keys
	for _, f := range []struct {
		fn   string
		want map[string]string
	}{
		{"Key.ToDataKey", map[string]string{"TableID": "#0.TableID", "IndexID": "0", "Index": "", "IndexOrder": "", "PrimaryKey": "#0.PrimaryKey"}},
		{"Key.ToKeyPrefix", map[string]string{"TableID": "#0.TableID", "IndexID": "#0.IndexID", "Index": "#0.Index", "IndexOrder": "", "PrimaryKey": ""}},
		{"KeyBytes.ToKey", map[string]string{"TableID": "#0[0]", "IndexID": "#0[1]", "Index": keyIndex, "IndexOrder": order}},
	} {
		fn := k.fn(f.fn)
		if fn == nil {
			continue
		}
		for _, q := range keyPaths(p, r, fn) {
			for name, want := range f.want {
				got := q.showField(q.fieldOf(q.Res[0], name))
				r.PathCheck(q, got == want, "key-layout", calleeName(fn)+": "+name, q.Pos, fmt.Sprintf("%s becomes %q, not %q", name, got, want))
			}
		}
	}
	// kinds of keys
	for _, f := range []struct{ fn, a, b string }{
		{"Key.IsDataKey", "#0.IndexID==0", "len(#0.Index)==0"}, {"Key.IsIndexKey", "!#0.IndexID==0", "!len(#0.Index)==0"},
		{"Key.IsKeyPrefix", "len(#0.PrimaryKey)==0", ""}, {"KeyBytes.IsDataKey", "#0[1]==0", ""}, {"KeyBytes.IsIndexKey", "!#0[1]==0", ""},
	} {
		fn := k.fn(f.fn)
		if fn == nil {
			continue
		}
		for _, q := range keyPaths(p, r, fn) {
			ok := q.isConj(q.Res[0], f.a, f.b)
			r.PathCheck(q, ok, "key-layout", calleeName(fn), q.Pos, fmt.Sprintf("the answer is not %s", strings.TrimSuffix(f.a+" && "+f.b, " && ")))
		}
	}
	runComparer(p, r)
	r.Need("key-layout", 20)
}

// fieldOf is a field of a struct value or of what a pointer points to.
func (q *PathRec) fieldOf(s *Term, name string) *Term {
	t := s.Typ
	if s.K == KStruct || t != nil {
		st, ok := derefType(t).Underlying().(*types.Struct)
		if ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					return q.M.TT.Fld(s, i, st.Field(i).Type())
				}
			}
		}
	}
	return q.M.TT.Hole
}

// showField renders a number or the content of a byte slice.
func (q *PathRec) showField(t *Term) string {
	if t == q.M.TT.Nil || t.Typ != nil && isByteSlice(t.Typ) {
		return strings.Join(q.content(t), " ")
	}
	return q.showLin(t)
}

// isConj: on this path the result is the conjunction of the conditions.
func (q *PathRec) isConj(res *Term, conds ...string) bool {
	known := map[string]bool{}
	val := func(t *Term) (string, bool) { // condition and whether it is negated
		neg := false
		for t.K == KApp && t.Op == "!" {
			t, neg = t.Args[0], !neg
		}
		if t.K == KApp && t.Op == "==" {
			a, b := q.showLin(t.Args[0]), q.showLin(t.Args[1])
			if b != "0" {
				a, b = b, a
			}
			return a + "==" + b, neg
		}
		return q.show(t), neg
	}
	for f, v := range q.St.facts {
		s, neg := val(f)
		known[s] = v != neg
	}
	want, open := true, ""
	for _, c := range conds {
		if c == "" {
			continue
		}
		name, neg := strings.TrimPrefix(c, "!"), strings.HasPrefix(c, "!")
		v, ok := known[name]
		if ok {
			want = want && v != neg
			continue
		}
		if open != "" {
			open = "?"
		} else {
			open = c
		}
	}
	switch {
	case !want:
		return res == q.M.TT.False
	case open == "":
		return res == q.M.TT.True
	}
	s, neg := val(res)
	if neg {
		s = "!" + s
	}
	return s == open
}

// runComparer: keys are compared bytewise and split after the index key.
func runComparer(p *Program, r *Result) {
	fn := r.anchor(p.Find("bond.DefaultKeyComparer"))
	if fn == nil {
		return
	}
	c := calleeName(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			f := fieldName(fa.X.Type(), fa.Field)
			v := s.Val
			if ct, ok := v.(*ssa.ChangeType); ok {
				v = ct.X
			}
			g, isFn := v.(*ssa.Function)
			r.Check(f == "Split" && isFn && g.Name() == "_KeyPrefixSplitIndex", "key-layout", c+": "+f, p.Pos(s.Pos()), f+" of the comparer is replaced by something else than the split after the index key")
		}
	}
}

func init() {
	register(&Property{ID: "C20", Run: runKeyLayout})
}
