package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Kind is the shape of a symbolic term.
type Kind uint8

const (
	KConst   Kind = iota // a constant; Op is its exact text
	KNil                 // nil
	KZero                // the zero value of Typ
	KParam               // a parameter of the analysed entry point
	KGlobal              // the address of a package-level variable
	KFunc                // a function; Args are the bindings of a closure
	KAlloc               // the address of a variable; a new one per execution of Site
	KFldAddr             // address of field N of *Args[0]
	KIdxAddr             // address of element Args[1] of Args[0]
	KLoad                // what *Args[0] held when the entry point was called
	KFld                 // field N of the struct Args[0]
	KElem                // element Args[1] of Args[0]
	KCall                // the N-th result of the call at Site
	KSym                 // an unknown value produced at Site
	KAcc                 // a list grown by append, known by the site of the first append
	KApp                 // operation Op over Args
	KIface               // an interface holding Args[0] of dynamic type Typ
	KTuple               // several results
	KStruct              // a struct value given by its fields
	KOld                 // what the (Site, Ctx) named term stood for in earlier iterations
	KHole                // the current element, in the summary of a loop
)

// Ctx is a call string.
type Ctx struct {
	id     int
	parent *Ctx
	site   ssa.Instruction
	fn     *ssa.Function
	depth  int
}

// Term is a hash-consed symbolic value: equal terms are the same pointer.
type Term struct {
	K    Kind
	Op   string
	Site ssa.Instruction
	Ctx  *Ctx
	N    int
	Obj  any
	Typ  types.Type
	Args []*Term
	Val  constant.Value

	id    int
	depth int
	// leaves are the (site, ctx) named terms inside this one, itself included
	leaves []*Term
}

// Terms is the table of terms of one analysis.
type Terms struct {
	tab    map[string]*Term
	all    []*Term
	objIDs map[any]int
	tyIDs  map[string]int

	Nil, True, False, Hole *Term
}

func NewTerms() *Terms {
	tt := &Terms{tab: map[string]*Term{}, objIDs: map[any]int{}}
	tt.Nil = tt.mk(&Term{K: KNil})
	tt.True = tt.mk(&Term{K: KConst, Op: "true", Val: constant.MakeBool(true)})
	tt.False = tt.mk(&Term{K: KConst, Op: "false", Val: constant.MakeBool(false)})
	tt.Hole = tt.mk(&Term{K: KHole})
	return tt
}

func (tt *Terms) objID(o any) int {
	if o == nil {
		return 0
	}
	id, ok := tt.objIDs[o]
	if !ok {
		id = len(tt.objIDs) + 1
		tt.objIDs[o] = id
	}
	return id
}

func (tt *Terms) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.K)))
	sb.WriteByte('|')
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	if t.Site != nil {
		sb.WriteString(strconv.Itoa(tt.objID(t.Site)))
	}
	sb.WriteByte('|')
	if t.Ctx != nil {
		sb.WriteString(strconv.Itoa(t.Ctx.id))
	}
	sb.WriteByte('|')
	sb.WriteString(strconv.Itoa(t.N))
	sb.WriteByte('|')
	if t.Obj != nil {
		sb.WriteString(strconv.Itoa(tt.objID(t.Obj)))
	}
	if t.Typ != nil && (t.K == KIface || t.K == KZero || (t.K == KApp && t.Op == "assertok")) {
		sb.WriteByte('T')
		sb.WriteString(types.TypeString(t.Typ, nil))
	}
	for _, a := range t.Args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if o, ok := tt.tab[k]; ok {
		return o
	}
	t.id = len(tt.all) + 1
	tt.all = append(tt.all, t)
	tt.tab[k] = t
	seen := map[*Term]bool{}
	for _, a := range t.Args {
		if a.depth+1 > t.depth {
			t.depth = a.depth + 1
		}
		for _, l := range a.leaves {
			if !seen[l] {
				seen[l] = true
				t.leaves = append(t.leaves, l)
			}
		}
	}
	if t.Site != nil {
		t.leaves = append(t.leaves, t)
	}
	return t
}

func (tt *Terms) Const(v constant.Value) *Term {
	return tt.mk(&Term{K: KConst, Op: v.ExactString(), Val: v})
}
func (tt *Terms) Int(i int64) *Term { return tt.Const(constant.MakeInt64(i)) }
func (tt *Terms) Zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
		return tt.Nil
	case *types.Interface:
		if _, isTP := t.(*types.TypeParam); !isTP {
			return tt.Nil
		}
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.False
		case u.Info()&types.IsInteger != 0:
			return tt.Int(0)
		case u.Info()&types.IsString != 0:
			return tt.Const(constant.MakeString(""))
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return tt.Nil
		}
	}
	return tt.mk(&Term{K: KZero, Typ: t})
}
func (tt *Terms) Param(fn *ssa.Function, i int, t types.Type) *Term {
	return tt.mk(&Term{K: KParam, Obj: fn, N: i, Typ: t})
}
func (tt *Terms) Global(g *ssa.Global) *Term { return tt.mk(&Term{K: KGlobal, Obj: g, Typ: g.Type()}) }
func (tt *Terms) Func(f *ssa.Function, bind ...*Term) *Term {
	return tt.mk(&Term{K: KFunc, Obj: f, Args: bind})
}
func (tt *Terms) Alloc(site ssa.Instruction, ctx *Ctx, t types.Type) *Term {
	return tt.mk(&Term{K: KAlloc, Site: site, Ctx: ctx, Typ: t})
}
func (tt *Terms) Call(site ssa.Instruction, ctx *Ctx, n int, t types.Type) *Term {
	return tt.mk(&Term{K: KCall, Site: site, Ctx: ctx, N: n, Typ: t})
}
func (tt *Terms) Sym(site ssa.Instruction, ctx *Ctx, n int, t types.Type) *Term {
	return tt.mk(&Term{K: KSym, Site: site, Ctx: ctx, N: n, Typ: t})
}
func (tt *Terms) Acc(site ssa.Instruction, ctx *Ctx, t types.Type) *Term {
	return tt.mk(&Term{K: KAcc, Site: site, Ctx: ctx, Typ: t})
}
func (tt *Terms) FldAddr(base *Term, i int, t types.Type) *Term {
	return tt.mk(&Term{K: KFldAddr, N: i, Args: []*Term{base}, Typ: t})
}
func (tt *Terms) IdxAddr(base, i *Term, t types.Type) *Term {
	return tt.mk(&Term{K: KIdxAddr, Args: []*Term{base, i}, Typ: t})
}
func (tt *Terms) Load(p *Term, t types.Type) *Term {
	switch p.K {
	case KFldAddr:
		if p.Args[0].K == KLoad || p.Args[0].K == KParam || p.Args[0].K == KGlobal {
			break
		}
	case KIdxAddr:
		return tt.Elem(p.Args[0], p.Args[1], t)
	}
	return tt.mk(&Term{K: KLoad, Args: []*Term{p}, Typ: t})
}
func (tt *Terms) Fld(s *Term, i int, t types.Type) *Term {
	switch s.K {
	case KStruct:
		if i < len(s.Args) {
			return s.Args[i]
		}
	case KZero:
		return tt.Zero(t)
	case KLoad: // a field of *p is the field loaded through p
		return tt.Load(tt.FldAddr(s.Args[0], i, types.NewPointer(t)), t)
	}
	return tt.mk(&Term{K: KFld, N: i, Args: []*Term{s}, Typ: t})
}
func (tt *Terms) Elem(s, i *Term, t types.Type) *Term {
	if s.K == KApp && s.Op == "slice" && s.Args[1].isInt(0) {
		s = s.Args[0]
	}
	return tt.mk(&Term{K: KElem, Args: []*Term{s, i}, Typ: t})
}
func (tt *Terms) App(op string, t types.Type, args ...*Term) *Term {
	return tt.mk(&Term{K: KApp, Op: op, Args: args, Typ: t})
}

// Len is the number of elements of a list.
func (tt *Terms) Len(x *Term) *Term {
	if x.K == KApp && x.Op == "slice" && x.Args[1].isInt(0) && x.Args[2] != tt.Nil {
		return x.Args[2]
	}
	return tt.App("len", types.Typ[types.Int], x)
}
func (tt *Terms) Iface(dyn types.Type, x *Term) *Term {
	return tt.mk(&Term{K: KIface, Typ: dyn, Args: []*Term{x}})
}
func (tt *Terms) Tuple(xs ...*Term) *Term { return tt.mk(&Term{K: KTuple, Args: xs}) }
func (tt *Terms) Struct(t types.Type, xs []*Term) *Term {
	return tt.mk(&Term{K: KStruct, Op: types.TypeString(t, nil), Typ: t, Args: xs})
}

func (t *Term) isInt(n int64) bool {
	if t.K != KConst || t.Val == nil || t.Val.Kind() != constant.Int {
		return false
	}
	v, ok := constant.Int64Val(t.Val)
	return ok && v == n
}

func (t *Term) intVal() (int64, bool) {
	if t.K != KConst || t.Val == nil || t.Val.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(t.Val)
}

func (t *Term) strVal() (string, bool) {
	if t.K != KConst || t.Val == nil || t.Val.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(t.Val), true
}

// Not returns the negation of a boolean term.
func (tt *Terms) Not(t *Term) *Term {
	switch {
	case t == tt.True:
		return tt.False
	case t == tt.False:
		return tt.True
	case t.K == KApp && t.Op == "!":
		return t.Args[0]
	}
	return tt.App("!", types.Typ[types.Bool], t)
}

// rewrite replaces every occurrence of the keys of sub in t.
func (tt *Terms) rewrite(t *Term, sub map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = tt.rewrite(a, sub)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	if t.K == KApp && t.Op == "==" {
		return tt.Eq(args[0], args[1])
	}
	if t.K == KApp && t.Op == "!" {
		return tt.Not(args[0])
	}
	if t.K == KApp && t.Op == "bytes.Equal" {
		return tt.BytesEqual(args[0], args[1])
	}
	c := *t
	c.Args = args
	c.id, c.depth, c.leaves = 0, 0, nil
	return tt.mk(&c)
}

// hasLeaf reports whether t mentions the named term l.
func (t *Term) mentions(l *Term) bool {
	if t == l {
		return true
	}
	for _, a := range t.Args {
		if a.mentions(l) {
			return true
		}
	}
	return false
}

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	if d > 6 {
		return "…"
	}
	args := func() string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.K {
	case KConst:
		return t.Op
	case KNil:
		return "nil"
	case KZero:
		return "zero(" + shortType(t.Typ) + ")"
	case KParam:
		fn := t.Obj.(*ssa.Function)
		if t.N < len(fn.Params) {
			return fn.Params[t.N].Name()
		}
		if i := t.N - len(fn.Params); i < len(fn.FreeVars) {
			return fn.FreeVars[i].Name()
		}
		return fmt.Sprintf("param%d", t.N)
	case KGlobal:
		return "&" + t.Obj.(*ssa.Global).Name()
	case KFunc:
		return "func " + t.Obj.(*ssa.Function).Name()
	case KAlloc:
		if a, ok := t.Site.(*ssa.Alloc); ok && a.Comment != "" {
			return "&" + a.Comment + t.ctxSuffix()
		}
		return fmt.Sprintf("&new#%d", t.id)
	case KFldAddr:
		return "&" + t.Args[0].str(d+1) + "." + fieldName(t.Args[0].Typ, t.N)
	case KFld:
		return t.Args[0].str(d+1) + "." + fieldName(t.Args[0].Typ, t.N)
	case KIdxAddr:
		return "&" + t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KElem:
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	case KLoad:
		if t.Args[0].K == KFldAddr {
			return t.Args[0].Args[0].str(d+1) + "." + fieldName(t.Args[0].Args[0].Typ, t.Args[0].N)
		}
		if t.Args[0].K == KGlobal {
			return t.Args[0].Obj.(*ssa.Global).Name()
		}
		return "*" + t.Args[0].str(d+1)
	case KCall:
		return fmt.Sprintf("%s.%d%s", siteName(t.Site), t.N, t.ctxSuffix())
	case KSym:
		if v, ok := t.Site.(ssa.Value); ok {
			return v.Name() + "?" + t.ctxSuffix()
		}
		return fmt.Sprintf("sym%d", t.id)
	case KAcc:
		return fmt.Sprintf("list#%d", t.id)
	case KApp:
		switch t.Op {
		case "!":
			return "!" + t.Args[0].str(d+1)
		case "==", "<", "+", "-", "&", "|", "^", "*", "/", "%", "<<", ">>":
			if len(t.Args) == 2 {
				return "(" + t.Args[0].str(d+1) + t.Op + t.Args[1].str(d+1) + ")"
			}
		}
		return t.Op + "(" + args() + ")"
	case KIface:
		return t.Args[0].str(d)
	case KTuple:
		return "(" + args() + ")"
	case KStruct:
		return shortType(t.Typ) + "{" + args() + "}"
	case KOld:
		return "old " + siteName(t.Site)
	case KHole:
		return "_"
	}
	return "?"
}

func (t *Term) ctxSuffix() string { return "" }

func siteName(s ssa.Instruction) string {
	if c, ok := s.(ssa.CallInstruction); ok {
		cc := c.Common()
		if cc.IsInvoke() {
			return cc.Method.Name() + "()"
		}
		if f := cc.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		return cc.Value.Name() + "()"
	}
	if v, ok := s.(ssa.Value); ok {
		return v.Name()
	}
	return "site"
}

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t types.Type, i int) string {
	if t != nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Name()
		}
	}
	return fmt.Sprintf("f%d", i)
}

func termIDs(ts []*Term) string {
	ids := make([]int, len(ts))
	for i, t := range ts {
		ids[i] = t.id
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	return sb.String()
}
