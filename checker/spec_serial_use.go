package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C31: rows go through the serializer of their table ----

var serialMethods = map[string]bool{"Serialize": true, "Deserialize": true, "SerializerWithCloseable": true, "SerializeFuncWithBuffer": true}

type serialUse struct {
	p     *Program
	r     *Result
	calls map[*ssa.Function][]ssa.CallInstruction
	made  map[*ssa.Function][]*ssa.MakeClosure
}

func structOf(x ssa.Value) (string, *types.Struct) {
	t := x.Type()
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name(), s
	}
	return "", s
}

// sources follows a serializer back to where it is taken from; it returns what
// is no serializer of a table.
func (u *serialUse) sources(v ssa.Value, seen map[ssa.Value]bool) []string {
	if seen[v] {
		return nil
	}
	seen[v] = true
	field := func(x ssa.Value, i int) []string {
		n, s := structOf(x)
		switch {
		case n == "_table":
			return nil
		case n == "SerializerAnyWrapper":
			return u.sources(x, seen)
		case s != nil:
			return []string{"the field " + s.Field(i).Name() + " of a " + n}
		}
		return []string{"a field"}
	}
	all := func(vs ...ssa.Value) []string {
		var out []string
		for _, x := range vs {
			out = append(out, u.sources(x, seen)...)
		}
		return out
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op != token.MUL {
			break
		}
		switch a := v.X.(type) {
		case *ssa.FieldAddr:
			return field(a.X, a.Field)
		case *ssa.Alloc, *ssa.FreeVar:
			return u.stored(a, seen)
		}
	case *ssa.FieldAddr:
		return field(v.X, v.Field)
	case *ssa.Field:
		return field(v.X, v.Field)
	case *ssa.TypeAssert:
		return all(v.X)
	case *ssa.Extract:
		return all(v.Tuple)
	case *ssa.MakeInterface:
		return all(v.X)
	case *ssa.ChangeInterface:
		return all(v.X)
	case *ssa.ChangeType:
		return all(v.X)
	case *ssa.Phi:
		return all(v.Edges...)
	case *ssa.Const:
		return nil
	case *ssa.Alloc:
		if n, _ := structOf(v); n == "SerializerAnyWrapper" {
			return u.stored(v, seen)
		}
	case *ssa.FreeVar:
		return u.bound(v, func(x ssa.Value) []string { return all(x) })
	case *ssa.Parameter:
		var out []string
		fn := v.Parent()
		for i, p := range fn.Params {
			if p != v {
				continue
			}
			for _, c := range u.calls[origin0(fn)] {
				if i < len(c.Common().Args) {
					out = append(out, all(c.Common().Args[i])...)
				}
			}
		}
		return out
	case *ssa.Call:
		cc := v.Common()
		if cc.IsInvoke() {
			n, _ := structOf(cc.Value)
			if cc.Method.Name() == "Serializer" && strings.HasPrefix(n, "Table") {
				return nil
			}
			return []string{"the " + cc.Method.Name() + " of a " + n}
		}
		if f := cc.StaticCallee(); f != nil && len(f.Blocks) > 0 && u.p.InModule(f) {
			var out []string
			for _, b := range f.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 {
					out = append(out, all(ret.Results[0])...)
				}
			}
			return out
		}
	}
	return []string{fmt.Sprintf("%s %s", v.Name(), v.Type())}
}

// stored: what is stored into a local variable, or into its fields.
func (u *serialUse) stored(a ssa.Value, seen map[ssa.Value]bool) []string {
	var out []string
	if fv, ok := a.(*ssa.FreeVar); ok {
		return u.bound(fv, func(x ssa.Value) []string { return u.stored(x, seen) })
	}
	refs := a.Referrers()
	if refs == nil {
		return nil
	}
	for _, in := range *refs {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == a {
				out = append(out, u.sources(in.Val, seen)...)
			}
		case *ssa.FieldAddr:
			for _, in := range *in.Referrers() {
				if st, ok := in.(*ssa.Store); ok {
					out = append(out, u.sources(st.Val, seen)...)
				}
			}
		}
	}
	return out
}

func (u *serialUse) bound(v *ssa.FreeVar, f func(x ssa.Value) []string) []string {
	var out []string
	for i, fv := range v.Parent().FreeVars {
		if fv != v {
			continue
		}
		for _, mc := range u.made[v.Parent()] {
			out = append(out, f(mc.Bindings[i])...)
		}
	}
	return out
}

func origin0(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func runSerialUse(p *Program, r *Result) {
	const rule = "tables-use-their-serializer"
	u := &serialUse{p: p, r: r, calls: map[*ssa.Function][]ssa.CallInstruction{}, made: map[*ssa.Function][]*ssa.MakeClosure{}}
	type use struct {
		fn  *ssa.Function
		v   ssa.Value
		pos token.Pos
	}
	var uses []use
	var fns []*ssa.Function
	var add func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	add = func(f *ssa.Function) {
		if !seen[f] {
			seen[f] = true
			fns = append(fns, f)
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
	}
	for _, f := range p.AllFuncs() {
		if f.Pkg != nil && f.Pkg == p.SPkgs[""] {
			add(f)
		}
	}
	for _, fn := range fns {
		own := false
		if rc := fn.Signature.Recv(); rc != nil {
			own = strings.Contains(rc.Type().String(), "SerializerAnyWrapper")
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					f := mc.Fn.(*ssa.Function)
					u.made[f] = append(u.made[f], mc)
					if n, ok := strings.CutSuffix(f.Name(), "$bound"); ok && serialMethods[n] && !own {
						uses = append(uses, use{fn, mc.Bindings[0], mc.Pos()})
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if f := cc.StaticCallee(); f != nil {
					u.calls[origin0(f)] = append(u.calls[origin0(f)], c)
					if serialMethods[f.Name()] && f.Signature.Recv() != nil && !own {
						uses = append(uses, use{fn, cc.Args[0], c.Pos()})
					}
				}
				if cc.IsInvoke() && serialMethods[cc.Method.Name()] && !own {
					uses = append(uses, use{fn, cc.Value, c.Pos()})
				}
			}
		}
	}
	for _, x := range uses {
		bad := u.sources(x.v, map[ssa.Value]bool{})
		r.Funcs[calleeName(x.fn)] = true
		r.Check(len(bad) == 0, rule, calleeName(x.fn), p.Pos(x.pos), "rows go through another serializer than their table's: "+strings.Join(bad, ", "))
	}
	r.Need(rule, 8)

	// the serializer of a table is that of its options, or the database's
	if fn := r.anchor(p.Find("bond.NewTable")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			w := q.field(unwrap(q.Res[0]), "serializer")
			s := q.field(w, "Serializer")
			ok, what := false, "unknown"
			if s != nil {
				what = s.String()
				opt := q.field(q.Params[0], "Serializer")
				if s == opt {
					v, k := q.Nil(opt)
					ok = k && !v
				} else if e := q.Filter("iface:bond.DB.Serializer"); len(e) == 1 && e[0].Res == s && opt != nil {
					v, k := q.Nil(opt)
					ok = k && v
				}
			}
			r.PathCheck(q, ok, rule, "bond.NewTable", q.Pos, "the serializer of the table is "+what)
		}
	}
}
