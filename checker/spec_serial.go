package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C31: serializers ----
//
// The content of a buffer is part of its value: "empty" or "filled" by one
// encoding of one value; everything else is unknown.

type serialCheck struct {
	p     *Program
	r     *Result
	typ   *types.Named
	name  string
	fn    string // the function under check
	value *Term  // what is serialized, or read into
	bytes *Term  // what is read
	codec map[string]map[string]bool
	modes map[string]string   // fields that choose the codec: "Marshal" or "Unmarshal"
	takes map[string][]string // the methods of the values a field's codec takes
	late  []func()
}

// bare strips what reflection and assertions do not change.
func bare(t *Term) *Term {
	for t != nil {
		switch {
		case t.K == KIface && len(t.Args) == 1:
			t = t.Args[0]
		case t.K == KApp && (t.Op == "assert" || t.Op == "rv" || t.Op == "riface" || t.Op == "relem"):
			t = t.Args[0]
		default:
			return t
		}
	}
	return t
}

func isBuffer(t types.Type) bool { return t != nil && typeName(t) == "bytes.Buffer" }

// codecOf names the codec a call belongs to: the field of the serializer it is
// taken from, or its package.
func (c *serialCheck) codecOf(ev *Event) string {
	n := ev.Name
	switch {
	case strings.HasSuffix(strings.ToLower(n), "marshalvt"):
		return "VT"
	case ev.Recv != nil && strings.HasPrefix(n, "iface:"):
		if f := c.field(ev.Recv); f != "" {
			return f
		}
	}
	n = strings.TrimPrefix(n, "iface:")
	if i := strings.LastIndexByte(n, '/'); i >= 0 {
		if j := strings.IndexByte(n[i:], '.'); j >= 0 {
			return n[:i+j]
		}
	}
	if i := strings.IndexByte(n, '.'); i >= 0 {
		return n[:i]
	}
	return n
}

// field names the field of the serializer that a term was loaded from.
func (c *serialCheck) field(t *Term) string {
	t = unwrap(t)
	if t.K == KLoad && t.Args[0].K == KFldAddr && t.Args[0].Args[0].K == KParam {
		s, ok := c.typ.Underlying().(*types.Struct)
		if ok && t.Args[0].N < s.NumFields() {
			return s.Field(t.Args[0].N).Name()
		}
	}
	return ""
}

func (c *serialCheck) used(codec string) {
	kind := "encode"
	if c.fn == "Deserialize" {
		kind = "decode"
	}
	if c.codec[kind] == nil {
		c.codec[kind] = map[string]bool{}
	}
	c.codec[kind][codec] = true
}

// chosen: the codec is the configured one.
func (c *serialCheck) chosen(m *Machine, st *State, ev *Event, codec string) {
	kind := "Marshal"
	if c.fn == "Deserialize" {
		kind = "Unmarshal"
	}
	for f, k := range c.modes {
		if k != kind || codec == f || codec == "VT" {
			continue
		}
		nilKnown := st.find("nofield", func(t *Tup) bool { return t.Data == f }) != nil
		m.Check(st, nilKnown, "configured-codec-is-used", c.name+"."+c.fn, ev.Pos, "it uses "+codec+" although "+f+" may be set")
	}
}

func (c *serialCheck) call(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	cn := c.name + "." + c.fn
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	res := func() types.Type { return ev.Sig.Results().At(0).Type() }
	fill := func(st *State, addr *Term, codec string, v *Term) {
		addr = unwrap(addr)
		e, ok := ptrElem(addr.Typ)
		if !ok || !isBuffer(e) {
			return
		}
		b := m.load(st, addr, e)
		enc := tt.App("enc:"+codec, bytesType, v)
		if !c.empty(m, b) {
			enc = tt.App("mixed", bytesType, b, enc)
		}
		m.store(st, addr, tt.App("filled", e, b, enc))
	}
	encode := func(codec string, v *Term, f func(st *State)) (bool, []Outcome) {
		c.used(codec)
		c.chosen(m, st, ev, codec)
		m.Check(st, bare(v) == c.value, "encodes-the-given-value", cn, ev.Pos, fmt.Sprintf("it encodes %v", v))
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		if f != nil {
			f(st)
		}
		bad.add(&Tup{Tag: "failed"})
		o := m.okOutcome(st, ev)
		if isByteSlice(res()) {
			o = m.okOutcome(st, ev, tt.App("enc:"+codec, bytesType, bare(v)))
		}
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	}
	decode := func(codec string, b, v *Term) (bool, []Outcome) {
		c.used(codec)
		c.chosen(m, st, ev, codec)
		m.Check(st, b == c.bytes, "decodes-into-the-given-value", cn, ev.Pos, fmt.Sprintf("it decodes %v", b))
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		st.add(&Tup{Tag: "decoded", Args: []*Term{bare(v)}})
		bad.add(&Tup{Tag: "failed"})
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	}
	switch ev.Name {
	case "bytes.Buffer.Reset":
		a := unwrap(ev.Recv)
		if e, ok := ptrElem(a.Typ); ok {
			m.store(st, a, tt.App("emptied", e, m.load(st, a, e)))
		}
		return one(nil)
	case "bytes.Buffer.Bytes":
		a := unwrap(ev.Recv)
		if e, ok := ptrElem(a.Typ); ok {
			return one(tt.App("bytesof", res(), m.load(st, a, e)))
		}
	case "bytes.NewBuffer", "bytes.NewReader":
		return one(tt.App("reader", res(), ev.Args[0]))
	case "reflect.ValueOf":
		return one(tt.App("rv", res(), bare(ev.Args[0])))
	case "reflect.Value.Interface":
		return one(tt.App("riface", res(), ev.Recv))
	case "reflect.Value.Elem":
		return one(tt.App("relem", res(), ev.Recv))
	case "reflect.TypeOf":
		return one(tt.App("typeof", res(), bare(ev.Args[0])))
	case "iface:reflect.Type.Kind":
		return one(tt.App("kindof", res(), ev.Recv))
	case "reflect.Value.Set":
		st.add(&Tup{Tag: "set", Args: []*Term{bare(ev.Recv), bare(ev.Args[0])}})
		return one(nil)
	case "bond/utils.MakeNewAny":
		m.age(st, ev.Site, ev.Ctx)
		return one(tt.App("newlike", res(), bare(ev.Args[0])))
	case "bond/utils.FindRootInterface":
		return one(tt.App("riface", res(), ev.Args[0]))
	}
	if ev.Recv != nil && strings.HasPrefix(ev.Name, "iface:bond/utils.SyncPool.") {
		switch lastName(ev.Name) {
		case "Get":
			m.age(st, ev.Site, ev.Ctx)
			return one(tt.Call(ev.Site, ev.Ctx, 0, res()))
		case "Put":
			x := ev.Args[0]
			if isBuffer(x.Typ) {
				n := st.find("freed", func(t *Tup) bool { return origin(t.Args[0]) == origin(x) })
				m.Check(st, n == nil, "returned-bytes-stay", cn, ev.Pos, "a buffer is given back twice")
				st.add(&Tup{Tag: "freed", Args: []*Term{x}})
			} else {
				n := st.find("put", func(t *Tup) bool { return t.Args[0] == x })
				m.Check(st, n == nil, "returned-bytes-stay", cn, ev.Pos, "an encoder is given back twice")
				st.add(&Tup{Tag: "put", Args: []*Term{x}})
			}
			return one(nil)
		}
	}
	meth := lastName(ev.Name)
	if ev.Fn != nil && m.P.InModule(ev.Fn) {
		return false, nil
	}
	n := ev.Sig.Results().Len()
	codec := c.codecOf(ev)
	switch {
	case meth == "NewEncoder" && len(ev.Args) >= 1:
		m.age(st, ev.Site, ev.Ctx)
		x := tt.Call(ev.Site, ev.Ctx, 0, res())
		st.add(&Tup{Tag: "encoder", Args: []*Term{x, ev.Args[0]}, Data: codec})
		return one(x)
	case meth == "NewDecoder" && len(ev.Args) >= 1:
		m.age(st, ev.Site, ev.Ctx)
		x := tt.Call(ev.Site, ev.Ctx, 0, res())
		st.add(&Tup{Tag: "decoder", Args: []*Term{x, ev.Args[0]}, Data: codec})
		return one(x)
	case meth == "Reset" && ev.Recv != nil && len(ev.Args) == 1:
		w := unwrap(ev.Args[0])
		tag := "encoder"
		if w.K == KApp && w.Op == "reader" {
			tag = "decoder"
		}
		for _, t := range st.tups(tag) {
			if t.Args[0] == ev.Recv {
				st.del(t)
			}
		}
		st.add(&Tup{Tag: tag, Args: []*Term{ev.Recv, ev.Args[0]}, Data: codec})
		return one(nil)
	case n == 1 && hasErr(ev.Sig) && (meth == "Encode" || strings.HasPrefix(meth, "MarshalWrite")):
		if ev.Recv != nil && len(ev.Args) == 1 {
			e := st.find("encoder", func(t *Tup) bool { return t.Args[0] == ev.Recv })
			p := st.find("put", func(t *Tup) bool { return t.Args[0] == ev.Recv })
			m.Check(st, e != nil && p == nil, "encodes-the-given-value", cn, ev.Pos, "the encoder does not write to a buffer of this call")
			if e == nil {
				break
			}
			w, v := e.Args[1], ev.Args[0]
			return encode(e.Data, v, func(st *State) { fill(st, w, e.Data, bare(v)) })
		}
		if len(ev.Args) == 2 {
			w, v := ev.Args[0], ev.Args[1]
			return encode(codec, v, func(st *State) { fill(st, w, codec, bare(v)) })
		}
	case n == 2 && hasErr(ev.Sig) && isByteSlice(res()) && (strings.HasPrefix(meth, "Marshal") || strings.HasPrefix(meth, "Encode")):
		v := ev.Recv
		if len(ev.Args) > 0 {
			v = ev.Args[len(ev.Args)-1]
		}
		return encode(codec, v, nil)
	case n == 1 && hasErr(ev.Sig) && strings.HasPrefix(meth, "Unmarshal"):
		v := ev.Recv
		if len(ev.Args) == 2 {
			v = ev.Args[1]
		}
		return decode(codec, ev.Args[0], v)
	case n == 1 && hasErr(ev.Sig) && meth == "Decode":
		var rd *Term
		if ev.Recv != nil && len(ev.Args) == 1 {
			if e := st.find("decoder", func(t *Tup) bool { return t.Args[0] == ev.Recv }); e != nil {
				rd, codec = e.Args[1], e.Data
			}
		} else if len(ev.Args) == 2 {
			rd = ev.Args[0]
		}
		if rd != nil {
			if rd = unwrap(rd); rd.K == KApp && rd.Op == "reader" {
				rd = rd.Args[0]
			}
			return decode(codec, rd, ev.Args[len(ev.Args)-1])
		}
	}
	if ok, outs := m.stdPure(st, ev); ok {
		return true, outs
	}
	return false, nil
}

func (c *serialCheck) empty(m *Machine, b *Term) bool {
	return b == m.TT.Zero(b.Typ) || b.K == KApp && b.Op == "emptied" || b.K == KConst
}

// origin is the buffer that a value of a buffer shares its memory with.
func origin(b *Term) *Term {
	for b != nil && b.K == KApp && (b.Op == "filled" || b.Op == "emptied" || b.Op == "bytesof") {
		b = b.Args[0]
	}
	return b
}

// result checks what a successful call returns.
func (c *serialCheck) result(m *Machine, st *State, res []*Term, pos string) {
	cn := c.name + "." + c.fn
	_, k := m.retErr(st, res)
	failed := len(st.tups("failed")) > 0
	if k == "err" {
		c.refused(m, st, pos)
		return
	}
	b := res[0]
	var enc *Term
	if b != nil && b.K == KApp && b.Op == "bytesof" {
		if f := b.Args[0]; f.K == KApp && f.Op == "filled" {
			enc = f.Args[1]
		}
		freed := st.find("freed", func(t *Tup) bool { return origin(t.Args[0]) == origin(b) })
		m.Check(st, freed == nil, "returned-bytes-stay", cn, pos, "the bytes lie in a buffer that was given back")
	} else {
		enc = b
	}
	if k == "nil" {
		m.Check(st, !failed, "codec-errors-are-returned", cn, pos, "it succeeds although the codec failed")
		ok := enc != nil && enc.K == KApp && strings.HasPrefix(enc.Op, "enc:") && enc.Args[0] == c.value
		m.Check(st, ok || failed, "encodes-the-given-value", cn, pos, fmt.Sprintf("it returns %v, not the encoded value alone", enc))
	} else {
		m.Check(st, false, "codec-errors-are-returned", cn, pos, "it may succeed although the codec failed")
	}
}

// refused: a call fails although no codec did. There must be a reason in the
// configuration or the value.
func (c *serialCheck) refused(m *Machine, st *State, pos string) {
	if len(st.tups("failed")) > 0 {
		return
	}
	kind := "Marshal"
	if c.fn == "Deserialize" {
		kind = "Unmarshal"
	}
	is := func(tag, data string) bool {
		return st.find(tag, func(t *Tup) bool { return t.Data == data }) != nil
	}
	n := 0
	for f, k := range c.modes {
		if k != kind {
			continue
		}
		n++
		ok := is("nofield", f)
		for _, meth := range c.takes[f] {
			ok = ok || is("notok", meth)
		}
		m.Check(st, ok, "configured-codec-is-used", c.name+"."+c.fn+": refused", pos, "a value that "+f+" takes is refused")
	}
	if n == 0 {
		m.Check(st, len(st.tups("notok")) > 0, "configured-codec-is-used", c.name+"."+c.fn+": refused", pos, "a value is refused without a reason")
	}
	s := st.clone()
	c.late = append(c.late, func() {
		for _, k := range []string{"encode", "decode"} {
			if c.codec[k]["VT"] && (k == "decode") == (kind == "Unmarshal") {
				c.r.Check(s.find("notok", func(t *Tup) bool { return t.Data == kind+"VT" }) != nil, "configured-codec-is-used", c.name+": refused", pos, "a value with "+kind+"VT is refused")
			}
		}
	})
}

func (c *serialCheck) spec() *Spec {
	s := &Spec{Call: c.call, Depth: 20}
	s.KeepFact = func(m *Machine, t *Term) bool { return false }
	s.OnFact = func(m *Machine, st *State, t *Term, v bool) {
		if t.K == KApp && t.Op == "assertok" && !v && termContains(t.Args[0], c.value) {
			if it, ok := t.Typ.Underlying().(*types.Interface); ok {
				for j := 0; j < it.NumMethods(); j++ {
					st.add(&Tup{Tag: "notok", Data: it.Method(j).Name()})
				}
			}
		}
		if t.K != KApp || t.Op != "==" || !v {
			return
		}
		for i, x := range t.Args {
			if f := c.field(x); f != "" && t.Args[1-i] == m.TT.Nil {
				st.add(&Tup{Tag: "nofield", Data: f})
			}
		}
	}
	return s
}

func (c *serialCheck) run(meth string) {
	f, err := c.p.Method(c.typ, meth)
	if err != nil {
		return
	}
	c.fn = meth
	s := c.spec()
	switch meth {
	case "Serialize":
		s.OnReturn = c.result
	case "SerializerWithCloseable":
		s.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			c.result(m, st, res, pos)
			cl := stripConv(res[1])
			h, _ := cl.Obj.(*ssa.Function)
			if v, k := m.isNil(st, res[2]); !k || !v {
				return
			}
			m.Check(st, cl.K == KFunc && h != nil, "returned-bytes-stay", c.name+"."+meth, pos, "the function that frees the bytes is not known")
			if cl.K == KFunc && h != nil {
				m.callFunc(m.root, st.clone(), f.Blocks[0].Instrs[0], h, nil, cl.Args, h.Signature)
			}
		}
	case "SerializeFuncWithBuffer":
		s.OnReturn = func(m *Machine, st0 *State, res []*Term, pos string) {
			cl := stripConv(res[0])
			h, _ := cl.Obj.(*ssa.Function)
			m.Check(st0, cl.K == KFunc && h != nil, "encodes-the-given-value", c.name+"."+meth, pos, "the function is not known")
			if cl.K != KFunc || h == nil {
				return
			}
			c.value = m.TT.App("row", h.Params[0].Type())
			for _, o := range m.callFunc(m.root, st0.clone(), f.Blocks[0].Instrs[0], h, []*Term{c.value}, cl.Args, h.Signature) {
				if o.st != nil && o.res != nil && o.res.K == KTuple {
					c.result(m, o.st, o.res.Args, pos)
				}
			}
		}
	case "Deserialize":
		s.OnReturn = func(m *Machine, st *State, res []*Term, pos string) {
			cn := c.name + "." + meth
			if _, k := m.retErr(st, res); k == "err" {
				c.refused(m, st, pos)
				return
			}
			m.Check(st, len(st.tups("failed")) == 0, "codec-errors-are-returned", cn, pos, "it succeeds although the codec failed")
			ok := false
			for _, t := range st.tups("decoded") {
				d := t.Args[0]
				if d == c.value {
					ok = true
				}
				if d.K == KApp && d.Op == "newlike" && d.Args[0] == c.value {
					ok = ok || st.find("set", func(t *Tup) bool { return t.Args[0] == c.value && t.Args[1] == d }) != nil
				}
			}
			m.Check(st, ok || len(st.tups("failed")) > 0, "decodes-into-the-given-value", cn, pos, "it succeeds without having decoded into the value")
		}
	}
	c.r.Interpret(c.p, s, f, func(m *Machine, st *State, ps []*Term) {
		c.value = ps[1]
		if meth == "Deserialize" {
			c.bytes, c.value = ps[1], ps[2]
		}
	})
	for _, f := range c.late {
		f()
	}
	c.late = nil
}

func runSerializers(p *Program, r *Result) {
	pk := p.Pkgs["serializers"]
	if pk == nil {
		r.Fail("package serializers not found")
		return
	}
	sc := pk.Types.Scope()
	n := 0
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		typ, ok := tn.Type().(*types.Named)
		if !ok || types.IsInterface(typ) {
			continue
		}
		if _, err := p.Method(typ, "Deserialize"); err != nil {
			continue
		}
		n++
		c := &serialCheck{p: p, r: r, typ: typ, name: "bond/serializers." + name, codec: map[string]map[string]bool{}, modes: map[string]string{}, takes: map[string][]string{}}
		if s, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if it, ok := s.Field(i).Type().Underlying().(*types.Interface); ok {
					for j := 0; j < it.NumMethods(); j++ {
						if mn := it.Method(j).Name(); mn == "Marshal" || mn == "Unmarshal" {
							c.modes[s.Field(i).Name()] = mn
							ps := it.Method(j).Type().(*types.Signature).Params()
							if v, ok := ps.At(ps.Len() - 1).Type().Underlying().(*types.Interface); ok {
								for k := 0; k < v.NumMethods(); k++ {
									c.takes[s.Field(i).Name()] = append(c.takes[s.Field(i).Name()], v.Method(k).Name())
								}
							}
						}
					}
				}
			}
		}
		for _, meth := range []string{"Serialize", "SerializerWithCloseable", "SerializeFuncWithBuffer", "Deserialize"} {
			c.run(meth)
		}
		enc, dec := c.families("encode"), c.families("decode")
		f, _ := p.Method(typ, "Deserialize")
		pos := ""
		if f != nil {
			pos = p.Pos(f.Pos())
		}
		r.Check(enc == dec, "one-codec-both-ways", c.name, pos, fmt.Sprintf("values are written by %s, but read by %s", enc, dec))
	}
	runSerialUse(p, r)
	r.Need("one-codec-both-ways", 4)
	r.Need("encodes-the-given-value", 7)
	r.Need("decodes-into-the-given-value", 4)
}

// families: the codecs, where a field stands for the package of its type.
func (c *serialCheck) families(kind string) string {
	set := map[string]bool{}
	s, _ := c.typ.Underlying().(*types.Struct)
	for k := range c.codec[kind] {
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if f := s.Field(i); f.Name() == k {
				if n, ok := f.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
					k = n.Obj().Pkg().Path()
				}
			}
		}
		set[k] = true
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " and ")
}

func init() {
	register(&Property{ID: "C31", Run: runSerializers})
}
