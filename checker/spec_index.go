package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- keys ----

// keyRow returns the one row an index or row key is made of: the row that
// all of its parts that depend on a row depend on; nil if they differ.
func keyIsOf(k, row *Term, others ...*Term) bool {
	if k == nil || k.K != KApp || k.Op != "key" {
		return false
	}
	uses := 0
	for _, part := range k.Args[2:] {
		if termContains(part, row) {
			uses++
		}
		for _, o := range others {
			if o != row && termContains(part, o) {
				return false
			}
		}
	}
	return uses == 3
}

func fieldIndex(t types.Type, name string) int {
	if p, ok := ptrElem(t); ok {
		t = p
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// isFieldLoad: t is recv.name, read from the memory the operation starts with.
func isFieldLoad(t, recv *Term, name string) bool {
	return t != nil && t.K == KLoad && t.Args[0].K == KFldAddr && t.Args[0].Args[0] == recv && fieldName(recv.Typ, t.Args[0].N) == name
}

// loadPath loads addr.f1.f2...
func (m *Machine) loadPath(st *State, addr *Term, names ...string) *Term {
	for _, n := range names {
		e, ok := ptrElem(addr.Typ)
		if !ok {
			return nil
		}
		s, ok := e.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		i := fieldIndex(e, n)
		if i < 0 {
			return nil
		}
		addr = m.TT.FldAddr(addr, i, types.NewPointer(s.Field(i).Type()))
	}
	e, _ := ptrElem(addr.Typ)
	return m.load(st, addr, e)
}

// ---- C04: what an index does with a row ----

func indexMethod(p *Program, name string) (*ssa.Function, error) {
	n, err := p.Named("", "Index")
	if err != nil {
		return nil, err
	}
	return p.Method(n, name)
}

// anchor adds a failure if a function cannot be found.
func (r *Result) anchor(fn *ssa.Function, err error) *ssa.Function {
	if err != nil {
		r.Fail("%v", err)
		return nil
	}
	return fn
}

func paramNamed(fn *ssa.Function, params []*Term, typ string) *Term {
	for i, pv := range fn.Params {
		if typeName(pv.Type()) == typ {
			return params[i]
		}
	}
	return nil
}

// rowParams are the parameters whose type is the row type.
func rowParams(fn *ssa.Function, params []*Term) []*Term {
	var out []*Term
	for i, pv := range fn.Params {
		if _, ok := types.Unalias(pv.Type()).(*types.TypeParam); ok {
			out = append(out, params[i])
		}
	}
	return out
}

func runIndexEntries(p *Program, r *Result) {
	for _, op := range []string{"OnInsert", "OnUpdate", "OnDelete"} {
		fn := r.anchor(indexMethod(p, op))
		if fn == nil {
			continue
		}
		name := calleeName(fn)
		n := 0
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			n++
			batch := paramNamed(fn, q.Params, "bond.Batch")
			rows := rowParams(fn, q.Params)
			want := 1
			if op == "OnUpdate" {
				want = 2
			}
			if batch == nil || len(rows) != want {
				r.Fail("%s: unexpected parameters", name)
				break
			}
			// what the filter says of each row
			filt := map[*Term]*Term{}
			for _, e := range q.Evs {
				if e.Name == "dynamic" && e.Recv != nil && e.Recv.Typ != nil && typeName(e.Recv.Typ) == "bond.IndexFilterFunction" && len(e.Args) == 1 {
					if r.PathCheck(q, isFieldLoad(e.Recv, q.Params[0], "IndexFilterFunction"), "own-filter", name, e.Pos, "the filter of another index is used") {
						filt[e.Args[0]] = e.Res
					}
				}
			}
			in := func(row *Term, v bool) bool { return filt[row] != nil && q.Is(filt[row], v) }
			// the writes
			var sets, dels []*PathEv
			order := "" // S and D in order
			ok := true
			for _, e := range q.Evs {
				k := opKind(&Event{Name: e.Name, Sig: emptySig})
				switch k {
				case "Set", "Delete":
					if !r.PathCheck(q, e.Recv == batch, "entry-in-batch", name, e.Pos, k+" not on the batch it was given") {
						ok = false
					}
					if k == "Set" {
						sets = append(sets, e)
						order += "S"
					} else {
						dels = append(dels, e)
						order += "D"
					}
				case "DeleteRange":
					r.PathCheck(q, false, "entry-per-filter", name, e.Pos, "deletes a range of entries")
				}
			}
			if !ok {
				continue
			}
			_, ek := q.Err()
			if ek != "nil" {
				continue // a failing step: rule "errors-returned"
			}
			new := rows[len(rows)-1]
			old := rows[0]
			for _, e := range sets {
				r.PathCheck(q, op != "OnDelete", "entry-per-filter", name, e.Pos, "an entry is added")
				r.PathCheck(q, keyIsOf(e.Args[0], new, rows...), "entry-key-of-row", name, e.Pos, "the entry that is added is not that of the new row")
				r.PathCheck(q, indexIDOf(e.Args[0], q.Params[0]), "entry-key-of-row", name, e.Pos, "the entry is added to another index")
				r.PathCheck(q, in(new, true), "entry-per-filter", name, e.Pos, "an entry is added for a row the filter does not accept")
			}
			for _, e := range dels {
				r.PathCheck(q, op != "OnInsert", "entry-per-filter", name, e.Pos, "an entry is removed")
				r.PathCheck(q, keyIsOf(e.Args[0], old, rows...), "entry-key-of-row", name, e.Pos, "the entry that is removed is not that of the old row")
				r.PathCheck(q, indexIDOf(e.Args[0], q.Params[0]), "entry-key-of-row", name, e.Pos, "the entry is removed from another index")
			}
			// the same entry: nothing has to change
			same := false
			if op == "OnUpdate" {
				for t, v := range q.St.facts {
					if v && t.K == KApp && t.Op == "bytes.Equal" &&
						(keyIsOf(t.Args[0], old, rows...) && keyIsOf(t.Args[1], new, rows...) || keyIsOf(t.Args[0], new, rows...) && keyIsOf(t.Args[1], old, rows...)) {
						same = true
					}
				}
			}
			switch op {
			case "OnInsert", "OnUpdate":
				if in(new, false) {
					r.PathCheck(q, len(sets) == 0, "entry-per-filter", name, q.Pos, "an entry is added for a row the filter rejects")
				} else if !(same && in(old, true)) {
					r.PathCheck(q, in(new, true), "entry-per-filter", name, q.Pos, "the filter is not asked about the row")
					r.PathCheck(q, len(sets) > 0, "entry-per-filter", name, q.Pos, "no entry is added for a row the filter accepts")
				}
			}
			switch op {
			case "OnDelete", "OnUpdate":
				switch {
				case in(old, false):
					// removing an entry that is not there changes nothing
				case same && in(new, true):
					r.PathCheck(q, order == "" || strings.HasSuffix(order, "S"), "entry-per-filter", name, q.Pos, "the entry is lost when the row changes but its entry does not")
				default:
					r.PathCheck(q, len(dels) > 0, "entry-per-filter", name, q.Pos, "the entry of the old row is not removed")
				}
				r.PathCheck(q, !strings.HasSuffix(order, "SD") && !strings.Contains(order, "SD"), "entry-per-filter", name, q.Pos, "the old entry is removed after the new one was added, which may be the same")
			}
		}
		if n == 0 {
			r.Fail("%s: no path", name)
		}
	}
}

var emptySig = types.NewSignatureType(nil, nil, nil, nil, nil, false)

func indexIDOf(k, idx *Term) bool {
	return k != nil && k.K == KApp && k.Op == "key" && isFieldLoad(k.Args[1], idx, "IndexID")
}

// ---- C13: what a selector selects ----

// enumConsts returns the constants of a named integer type.
func enumConsts(p *Program, pkg, typ string) (map[int64]string, error) {
	n, err := p.Named(pkg, typ)
	if err != nil {
		return nil, err
	}
	out := map[int64]string{}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		if c, ok := sc.Lookup(name).(*types.Const); ok && types.Identical(c.Type(), n) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				out[v] = name
			}
		}
	}
	if len(out) == 0 {
		return nil, fmt.Errorf("unresolved anchor: no constants of %s", typ)
	}
	return out, nil
}

// typeFact returns which enum value an interface method's result is known to
// be on a path.
func typeFact(q *PathRec, op string) (int64, bool) {
	for t, v := range q.St.facts {
		if v && t.K == KApp && t.Op == "==" {
			for i := 0; i < 2; i++ {
				if t.Args[i].K == KApp && t.Args[i].Op == op {
					if n, ok := t.Args[1-i].intVal(); ok {
						return n, true
					}
				}
			}
		}
	}
	return 0, false
}

type boundsCase struct {
	kind   string // by what the rows come from
	lo, up *Term
}

// boundRows finds the rows a bound is made of.
func boundRows(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.K == KApp && t.Op == "key" {
			for _, part := range t.Args[2:] {
				var in func(x *Term)
				in = func(x *Term) {
					if isSelRow(x) && !seen[x] {
						seen[x] = true
						out = append(out, x)
						return
					}
					for _, a := range x.Args {
						in(a)
					}
				}
				in(part)
			}
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

// isSelRow: a row that a selector method returned.
func isSelRow(t *Term) bool { return selRow(t) != "" }

// selRow classifies a row: "Point", "Points", "Range.0", "Range.1",
// "Ranges.0" or "Ranges.1".
func selRow(t *Term) string {
	from := func(t *Term, name string) bool {
		if t.K != KCall && t.K != KOld {
			return false
		}
		ci, ok := t.Site.(ssa.CallInstruction)
		return ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == name && strings.HasPrefix(typeName(ci.Common().Value.Type()), "bond.Selector")
	}
	switch {
	case from(t, "Point"):
		return "Point"
	case from(t, "Range"):
		return fmt.Sprintf("Range.%d", t.N)
	case t.K == KElem && from(t.Args[0], "Points"):
		return "Points"
	case t.K == KElem && t.Args[0].K == KElem && from(t.Args[0].Args[0], "Ranges"):
		if n, ok := t.Args[1].intVal(); ok {
			return fmt.Sprintf("Ranges.%d", n)
		}
	}
	return ""
}

// checkBounds decides whether a pair of bounds is that of the selector.
func checkBounds(q *Machine, st *State, idx *Term, lower, upper *Term) (kind, msg string) {
	if lower == nil || upper == nil || lower == q.TT.Nil || upper == q.TT.Nil {
		return "", "an iterator without both bounds"
	}
	all, allKnown := wantsAll(st)
	trunc := lower
	if lower.K == KApp && lower.Op == "slice" && lower == q.prefixOf(lower.Args[0]) {
		lower = lower.Args[0]
	}
	if lower.K != KApp || lower.Op != "key" {
		return "", "the lower bound is not the key of the selector's row: " + lower.String()
	}
	rows := boundRows(lower)
	if len(rows) != 1 || !keyIsOf(lower, rows[0]) {
		return "", "the lower bound is not made of one row of the selector"
	}
	kind = selRow(rows[0])
	if !indexIDOf(lower, idx) {
		return kind, "the lower bound is in another index"
	}
	if upper.K != KApp || upper.Op != "keySuccessor" {
		return kind, "the upper bound is not a key successor: " + upper.String()
	}
	src, dst := upper.Args[0], upper.Args[1]
	prefix := q.prefixOf(lower)
	if trunc != lower && (src == trunc || src == q.prefixOf(trunc) || src.K == KApp && src.Op == "slice" && src.Args[0] == lower &&
		src.Args[1].isInt(0) && src.Args[2] == q.prefixOf(trunc).Args[2]) {
		src = prefix // the same bytes
	}
	if v, k := q.isNil(st, dst); src == lower && k && v || src == prefix && k && v {
		return kind, "the upper bound is computed in the memory of the lower bound"
	}
	if trunc != lower && (kind != "Point" || !all) {
		return kind, "the selection starts before the selector's row"
	}
	if trunc == lower && kind == "Point" && (all || !allKnown) {
		return kind, "a scan without a selector may start after the first row"
	}
	switch kind {
	case "Point":
		if src != prefix {
			return kind, "the upper bound of a point is not the end of its index key"
		}
	case "Points":
		isPrim, known := int64(0), false
		for t, v := range st.facts {
			if t.K == KApp && t.Op == "==" {
				for i := 0; i < 2; i++ {
					if isFieldLoad(t.Args[i], idx, "IndexID") && t.Args[1-i].isInt(0) {
						known = true
						if v {
							isPrim = 1
						}
					}
				}
			}
		}
		switch {
		case known && isPrim == 1 && src != lower:
			return kind, "the upper bound of a point of the primary index selects other rows too"
		case !known && src != lower:
			return kind, "the upper bound of a point of the primary index may select other rows too"
		case known && isPrim == 0 && src != prefix:
			return kind, "the upper bound of a point of a secondary index is not the end of its index key"
		}
	case "Range.0", "Ranges.0":
		if src.K != KApp || src.Op != "key" {
			return kind, "the upper bound of a range is not the successor of the key of its end"
		}
		ur := boundRows(src)
		if len(ur) != 1 || !keyIsOf(src, ur[0]) || selRow(ur[0]) != strings.Replace(kind, ".0", ".1", 1) || !indexIDOf(src, idx) {
			return kind, "the upper bound is not made of the end of the range"
		}
		if kind == "Ranges.0" && ur[0].Args[0] != rows[0].Args[0] {
			return kind, "the bounds are of two different ranges"
		}
	default:
		return kind, "the lower bound is made of the end of the range"
	}
	return kind, ""
}

// wantsAll reports whether the selector is known to be the one of a scan
// without a selector, which starts at the first row.
func wantsAll(st *State) (yes, known bool) {
	for t, v := range st.facts {
		if t.K == KApp && t.Op == "assertok" && isAllSelector(t.Typ) {
			return v, true
		}
	}
	return false, false
}

func isAllSelector(t types.Type) bool {
	if p, ok := ptrElem(t); ok {
		t = p
	}
	return typeName(t) == "bond.selectorAll"
}

func (m *Machine) prefixOf(key *Term) *Term {
	for _, n := range []string{"bond._KeyPrefixSplitIndex"} {
		split := m.TT.App(n, types.Typ[types.Int], key)
		return m.TT.App("slice", key.Typ, key, m.TT.Int(0), split, m.TT.Nil)
	}
	return nil
}

// optBounds loads the bounds of iterator options.
func (m *Machine) optBounds(st *State, opts *Term) (lower, upper *Term) {
	return m.loadPath(st, opts, "IterOptions", "LowerBound"), m.loadPath(st, opts, "IterOptions", "UpperBound")
}

func runSelectors(p *Program, r *Result) {
	fn := r.anchor(indexMethod(p, "Iter"))
	if fn == nil {
		return
	}
	name := calleeName(fn)
	var idx *Term
	bounds := func(m *Machine, st *State, opts *Term, pos string) (kind string, ok bool) {
		lo, up := m.optBounds(st, opts)
		kind, msg := checkBounds(m, st, idx, lo, up)
		m.Check(st, msg == "", "bounds-of-selector", name+": "+kindName(kind), pos, msg)
		return kind, msg == ""
	}
	spec := &Spec{TrackLists: true}
	spec.OnAppend = func(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
		for _, e := range elems {
			if e.Typ != nil && typeName(e.Typ) == "bond.IterOptions" {
				if kind, ok := bounds(m, st, e, m.P.Pos(site.Pos())); ok {
					lo, _ := m.optBounds(st, e)
					row := boundRows(lo)[0]
					if strings.HasPrefix(kind, "Ranges") {
						row = row.Args[0]
					}
					st.add(&Tup{Tag: "did:opt", Args: []*Term{row}, Data: kindName(kind)})
				}
			}
		}
	}
	paths := r.Paths(p, fn, PathOpt{
		Spec:  spec,
		Event: func(n string, _ *ssa.Function) bool { return n == "bond.newIteratorMulti" },
		Pre:   func(m *Machine, st *State, ps []*Term) { idx = ps[0] },
		Call: func(m *Machine, st *State, ev *Event) (bool, []Outcome) {
			if k := opKind(ev); k == "Iter" && (ev.Fn == nil || !m.P.InModule(ev.Fn)) {
				lo, up := m.optBounds(st, ev.Args[0])
				kind, msg := checkBounds(m, st, idx, lo, up)
				m.Check(st, msg == "", "bounds-of-selector", name+": "+kindName(kind), ev.Pos, msg)
				m.age(st, ev.Site, ev.Ctx)
				return true, []Outcome{m.okOutcome(st, ev)}
			}
			return false, nil
		},
	})
	consts, err := enumConsts(p, "", "SelectorType")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	done := map[int64]bool{}
	for _, q := range paths {
		k, known := typeFact(q, "iface:bond.Selector.Type")
		if len(q.Res) != 1 {
			continue
		}
		res := q.Res[0]
		isErr := res.K == KIface && typeName(res.Typ) == "bond.errIterator" && res.Args[0].K == KStruct
		if !known {
			r.PathCheck(q, isErr, "unknown-selector-is-an-error", name, q.Pos, "a selector of an unknown type does not give an error")
			continue
		}
		want := strings.TrimPrefix(consts[k], "SelectorType")
		c := name + ": " + want
		if !r.PathCheck(q, !isErr, "selector-types-handled", c, q.Pos, "the selector is rejected") {
			continue
		}
		done[k] = true
		// each point or range contributes
		switch want {
		case "Points", "Ranges":
			all := false
			for _, t := range q.St.tups("all:opt") {
				if t.Data == want && t.Args[1].K == KHole {
					all = true
				}
			}
			empty := false
			for t, v := range q.St.facts {
				if v && t.K == KApp && t.Op == "==" && (t.Args[0].isInt(0) || t.Args[1].isInt(0)) {
					for _, a := range t.Args {
						if a.K == KApp && a.Op == "len" {
							empty = true
						}
					}
				}
			}
			r.PathCheck(q, all || empty, "every-element-selected", c, q.Pos, "an element of the selector is left out")
		}
	}
	var ks []int64
	for k := range consts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		r.Check(done[k], "selector-types-handled", name+": "+strings.TrimPrefix(consts[k], "SelectorType"), p.Pos(fn.Pos()), "selectors of this type are not handled")
	}
	r.Need("bounds-of-selector", 4)
	runScanAll(p, r)
}

// runScanAll: a scan or query that is given no selector asks for all rows.
func runScanAll(p *Program, r *Result) {
	isAll := func(t *Term) bool {
		for t != nil && t.K == KIface && len(t.Args) == 1 {
			if isAllSelector(t.Typ) {
				return true
			}
			t = t.Args[0]
		}
		return t != nil && t.Typ != nil && isAllSelector(t.Typ)
	}
	tbl, err := p.Named("", "_table")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	for _, op := range []string{"Scan", "ScanForEach"} {
		fn := r.anchor(p.Method(tbl, op))
		if fn == nil {
			continue
		}
		for _, q := range r.Paths(p, fn, PathOpt{Event: func(n string, _ *ssa.Function) bool { return n == "bond._table.ScanIndexForEach" }}) {
			_, ek := q.Err()
			n := 0
			for _, e := range q.Evs {
				if e.Name == "bond._table.ScanIndexForEach" && len(e.Args) >= 3 {
					n++
					r.PathCheck(q, isAll(e.Args[2]), "scan-starts-at-first-row", calleeName(fn), e.Pos, "the scan does not ask for all rows")
					r.PathCheck(q, isFieldLoad(e.Args[1], q.Params[0], "primaryIndex"), "scan-starts-at-first-row", calleeName(fn), e.Pos, "the scan is not one of the primary index")
				}
			}
			if ek == "nil" {
				r.PathCheck(q, n == 1, "scan-starts-at-first-row", calleeName(fn), q.Pos, "nothing is scanned")
			}
		}
	}
	fn := r.anchor(p.Func("", "newQuery"))
	if fn == nil {
		return
	}
	for _, q := range r.Paths(p, fn, PathOpt{}) {
		ok := false
		if len(q.Res) == 1 {
			if s, isS := q.Res[0].Typ.Underlying().(*types.Struct); isS {
				for i := 0; i < s.NumFields(); i++ {
					if typeName(s.Field(i).Type()) == "bond.Selector" {
						ok = isAll(q.M.TT.Fld(q.Res[0], i, s.Field(i).Type()))
					}
				}
			}
		}
		r.PathCheck(q, ok, "scan-starts-at-first-row", calleeName(fn), q.Pos, "a query without a selector does not start at the first row")
	}
}

func kindName(k string) string {
	k, _, _ = strings.Cut(k, ".")
	if k == "" {
		return "?"
	}
	return k
}

func init() {
	register(&Property{ID: "C04", Run: func(p *Program, r *Result) {
		runIndexEntries(p, r)
		for _, op := range []string{"OnInsert", "OnUpdate", "OnDelete"} {
			(&Bufs{}).run(p, r, "Index", op)
		}
	}})
	register(&Property{ID: "C13", Run: func(p *Program, r *Result) {
		runSelectors(p, r)
		runSelectorValues(p, r)
	}})
}
