package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- C29: inspecting a database ----

// inspectSide is what one side of the connection does for a method of Inspect.
type inspectSide struct {
	path   string // the end of the URL
	fields string // which field of the request carries which parameter
	pos    string
}

type inspectCheck struct {
	p       *Program
	r       *Result
	methods []*types.Func
	typ     types.Type
	client  map[string]*inspectSide
	handler map[string]*inspectSide
}

// jsonFields lists the fields of a request by their names on the wire.
func (c *inspectCheck) jsonFields(m *Machine, v *Term, typ types.Type, pre string, out map[string]*Term) {
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		name, opts, _ := strings.Cut(reflect.StructTag(s.Tag(i)).Get("json"), ",")
		if name == "-" || !f.Exported() && !f.Embedded() {
			continue
		}
		if strings.Contains(opts, "string") {
			name += ",string"
		}
		x := m.TT.Fld(v, i, f.Type())
		if f.Embedded() && name == "" {
			c.jsonFields(m, x, f.Type(), pre, out)
			continue
		}
		if name == "" {
			name = f.Name()
		}
		k := pre + name
		if _, twice := out[k]; twice { // both are ignored
			x = nil
		}
		out[k] = x
	}
}

func side(m map[string]string) string {
	var ss []string
	for k, v := range m {
		ss = append(ss, k+"="+v)
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

// json gives the calls that both sides make their meaning.
func (c *inspectCheck) json(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	switch ev.Name {
	case "encoding/json.Marshal":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		return true, []Outcome{m.okOutcome(st, ev, tt.App("json", bytesType, stripAssert(ev.Args[0]))), m.errOutcome(bad, ev, nil)}
	case "encoding/json.Unmarshal":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		p := stripAssert(ev.Args[1])
		if e, ok := ptrElem(p.Typ); ok {
			m.store(st, p, tt.App("decoded:"+types.TypeString(e, nil), e, ev.Args[0]))
		}
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "encoding/json.NewDecoder":
		return true, []Outcome{{st, tt.App("decoder", ev.Sig.Results().At(0).Type(), ev.Args[0])}}
	case "encoding/json.Decoder.Decode":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		p := stripAssert(ev.Args[0])
		if e, ok := ptrElem(p.Typ); ok && ev.Recv.K == KApp && ev.Recv.Op == "decoder" {
			m.store(st, p, tt.App("decoded:"+types.TypeString(e, nil), e, tt.App("body", bytesType, stripAssert(ev.Recv.Args[0]))))
		}
		return true, []Outcome{m.okOutcome(st, ev), m.errOutcome(bad, ev, nil)}
	case "io.ReadAll", "io/ioutil.ReadAll":
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		return true, []Outcome{m.okOutcome(st, ev, tt.App("body", bytesType, stripAssert(ev.Args[0]))), m.errOutcome(bad, ev, nil)}
	}
	return m.stdPure(st, ev)
}

const restyPkg = "github.com/go-resty/resty/v2."

func (c *inspectCheck) clientCall(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	if ok, outs := c.json(m, st, ev); ok {
		return true, outs
	}
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	fork := func(tag string, val bool) (bool, []Outcome) {
		if t := st.find(tag, func(t *Tup) bool { return t.Args[0] == ev.Recv }); t != nil {
			return one(tt.boolTerm(t.Data == fmt.Sprint(val)))
		}
		no := st.clone()
		st.add(&Tup{Tag: tag, Args: []*Term{ev.Recv}, Data: "true"})
		no.add(&Tup{Tag: tag, Args: []*Term{ev.Recv}, Data: "false"})
		return true, []Outcome{{st, tt.boolTerm(val)}, {no, tt.boolTerm(!val)}}
	}
	meth, ok := strings.CutPrefix(ev.Name, restyPkg)
	if !ok {
		return false, nil
	}
	switch {
	case meth == "Client.R" || meth == "Client.NewRequest":
		m.age(st, ev.Site, ev.Ctx)
		return one(tt.Call(ev.Site, ev.Ctx, 0, ev.Sig.Results().At(0).Type()))
	case meth == "Request.SetBody":
		st.add(&Tup{Tag: "body", Args: []*Term{ev.Recv, stripAssert(ev.Args[0])}})
		return one(ev.Recv)
	case meth == "Request.SetContext":
		st.add(&Tup{Tag: "ctx", Args: []*Term{ev.Recv, ev.Args[0]}})
		return one(ev.Recv)
	case strings.HasPrefix(meth, "Request.Set"):
		return one(ev.Recv)
	case meth == "Request.Post" || meth == "Request.Put":
		body, ctx := tt.Nil, tt.Nil
		for _, t := range st.tups("body") {
			if t.Args[0] == ev.Recv {
				body = t.Args[1]
			}
		}
		for _, t := range st.tups("ctx") {
			if t.Args[0] == ev.Recv {
				ctx = t.Args[1]
			}
		}
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		st.add(&Tup{Tag: "sent", Args: []*Term{o.res.Args[0], ev.Args[0], body, ctx}})
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	case meth == "Response.IsError":
		return fork("failed", true)
	case meth == "Response.IsSuccess":
		return fork("failed", false)
	case meth == "Response.Body":
		return one(tt.App("response", bytesType, ev.Recv))
	case meth == "Response.Status" || meth == "Response.StatusCode" || meth == "Response.String":
		return one(tt.App(meth, ev.Sig.Results().At(0).Type(), ev.Recv))
	}
	return false, nil
}

func (c *inspectCheck) args(m *Machine, meth *types.Func) []*Term {
	ps := meth.Type().(*types.Signature).Params()
	var out []*Term
	for i := 0; i < ps.Len(); i++ {
		out = append(out, m.TT.App(fmt.Sprintf("arg:%s:%d", meth.Name(), i), ps.At(i).Type()))
	}
	return out
}

func argOf(t *Term) string {
	if t != nil && t.K == KApp && strings.HasPrefix(t.Op, "arg:") && len(t.Args) == 0 {
		return "arg" + t.Op[strings.LastIndexByte(t.Op, ':')+1:]
	}
	return ""
}

func isContext(t types.Type) bool { return typeName(t) == "context.Context" }

// runClient: what a method of the remote Inspect sends, and what it returns.
func (c *inspectCheck) runClient() {
	fn := c.r.anchor(c.p.Find("bond/inspect.NewInspectRemote"))
	if fn == nil {
		return
	}
	spec := &Spec{Call: c.clientCall, Depth: 20}
	spec.OnReturn = func(m *Machine, st0 *State, res []*Term, pos string) {
		for _, meth := range c.methods {
			cn := "remote " + meth.Name()
			args := c.args(m, meth)
			outs := m.invoke(m.root, st0.clone(), fn.Blocks[0].Instrs[0], meth, c.typ, res[0], args, meth.Type().(*types.Signature))
			n := 0
			for _, o := range outs {
				if o.st == nil || o.res == nil || o.res.K != KTuple {
					continue
				}
				if v, k := m.isNil(o.st, o.res.Args[1]); !k || !v {
					continue
				}
				n++
				c.clientAnswer(m, o.st, cn, meth, args, o.res.Args[0], pos)
			}
			m.Check(st0, n > 0, "remote-answer-is-the-answer", cn, pos, "it never succeeds")
		}
	}
	c.r.Interpret(c.p, spec, fn, nil)
}

func (c *inspectCheck) clientAnswer(m *Machine, st *State, cn string, meth *types.Func, args []*Term, res *Term, pos string) {
	rule := "remote-answer-is-the-answer"
	var sent *Tup
	if res != nil && res.K == KApp && strings.HasPrefix(res.Op, "decoded:") && res.Args[0].K == KApp && res.Args[0].Op == "response" {
		sent = st.find("sent", func(t *Tup) bool { return t.Args[0] == res.Args[0].Args[0] })
	}
	m.Check(st, sent != nil, rule, cn, pos, fmt.Sprintf("it returns %v instead of what the answer contains", res))
	if sent == nil {
		return
	}
	ok := st.find("failed", func(t *Tup) bool { return t.Args[0] == sent.Args[0] && t.Data == "false" })
	m.Check(st, ok != nil, rule, cn, pos, "it returns a result although the request may have failed")
	s := &inspectSide{pos: pos}
	if u := sent.Args[1]; u.K == KApp && (u.Op == "sprintf" && len(u.Args) == 3 && u.Args[0].String() == `"%s%s"` || u.Op == "+" && len(u.Args) == 2) {
		s.path = strings.Trim(u.Args[len(u.Args)-1].String(), `"`)
	}
	m.Check(st, s.path != "", "request-carries-every-parameter", cn+": path", pos, fmt.Sprintf("the request goes to %v", sent.Args[1]))
	carried := map[string]string{}
	if b := sent.Args[2]; b.K == KApp && b.Op == "json" {
		fs := map[string]*Term{}
		c.jsonFields(m, b.Args[0], b.Args[0].Typ, "", fs)
		for k, v := range fs {
			if v == nil {
				continue
			}
			a := argOf(v)
			if a == "" {
				a = v.String()
			}
			carried[k] = a
		}
	} else if b != m.TT.Nil {
		m.Check(st, false, "request-carries-every-parameter", cn, pos, fmt.Sprintf("the request is %v", b))
	}
	s.fields = side(carried)
	for _, a := range args {
		if isContext(a.Typ) {
			m.Check(st, sent.Args[3] == a, "request-carries-every-parameter", cn+": context", pos, "the request does not end with the context")
			continue
		}
		n := 0
		for _, v := range carried {
			if v == argOf(a) {
				n++
			}
		}
		m.Check(st, n == 1, "request-carries-every-parameter", cn+": parameters", pos, fmt.Sprintf("the request carries %s", s.fields))
	}
	c.client[meth.Name()] = s
}

func (c *inspectCheck) handlerCall(m *Machine, st *State, ev *Event) (bool, []Outcome) {
	tt := m.TT
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st, t}} }
	match := func(s string, ok bool) (bool, []Outcome) {
		if !ok {
			return false, nil
		}
		no := st.clone()
		st.add(&Tup{Tag: "match", Data: s})
		no.add(&Tup{Tag: "nomatch", Data: s})
		return true, []Outcome{{st, tt.True}, {no, tt.False}}
	}
	switch ev.Name {
	case "regexp.MustCompile":
		return one(tt.App("regexp", ev.Sig.Results().At(0).Type(), ev.Args[0]))
	case "regexp.Regexp.Match", "regexp.Regexp.MatchString":
		s := ""
		if ev.Recv.K == KApp && ev.Recv.Op == "regexp" {
			s = strings.Trim(ev.Recv.Args[0].String(), `"`)
		}
		p, ok := strings.CutSuffix(s, "$")
		return match(p, ok && strings.HasSuffix(stripConv(ev.Args[0]).String(), ".Path"))
	case "strings.HasSuffix":
		return match(strings.Trim(ev.Args[1].String(), `"`), strings.HasSuffix(ev.Args[0].String(), ".Path"))
	case "net/http.HandlerFunc.ServeHTTP":
		f := stripConv(ev.Recv)
		if f.K == KFunc {
			return true, m.callClosure(st, ev, f, ev.Args, 0)
		}
	case "net/http.NotFound":
		st.add(&Tup{Tag: "status", Data: "404"})
		return one(nil)
	case "net/http.Error":
		if len(st.tups("status")) == 0 {
			st.add(&Tup{Tag: "status", Data: ev.Args[2].String()})
		}
		return one(nil)
	case "net/http.Header.Get":
		return one(tt.App("header", types.Typ[types.String], ev.Args[0]))
	case "net/http.Request.Context":
		return one(tt.App("reqctx", ev.Sig.Results().At(0).Type(), ev.Recv))
	case "iface:net/http.ResponseWriter.WriteHeader":
		if len(st.tups("status")) == 0 {
			st.add(&Tup{Tag: "status", Data: ev.Args[0].String()})
		}
		return one(nil)
	case "iface:net/http.ResponseWriter.Write":
		if len(st.tups("status")) == 0 {
			st.add(&Tup{Tag: "status", Data: "200"})
		}
		st.add(&Tup{Tag: "wrote", Args: []*Term{ev.Args[0]}})
		return true, []Outcome{m.okOutcome(st, ev)}
	}
	if meth, ok := strings.CutPrefix(ev.Name, "iface:bond/inspect.Inspect."); ok {
		m.Check(st, ev.Recv == m.entryParams[0], "handler-asks-what-was-requested", meth, ev.Pos, "another Inspect than the given one is asked")
		c.asked(m, st, ev, meth)
		m.age(st, ev.Site, ev.Ctx)
		bad := st.clone()
		o := m.okOutcome(st, ev)
		st.add(&Tup{Tag: "got", Args: []*Term{o.res.Args[0]}, Data: meth})
		return true, []Outcome{o, m.errOutcome(bad, ev, nil)}
	}
	if ok, outs := c.json(m, st, ev); ok {
		if ev.Name == "encoding/json.Marshal" && len(outs) == 2 {
			outs[0].st.add(&Tup{Tag: "json", Args: []*Term{outs[0].res.Args[0]}})
			outs[1].st.add(&Tup{Tag: "nojson"})
		}
		if ev.Name != "encoding/json.Marshal" && len(outs) == 2 {
			outs[1].st.add(&Tup{Tag: "badrequest"})
		}
		return true, outs
	}
	return false, nil
}

// asked: the handler calls a method of Inspect.
func (c *inspectCheck) asked(m *Machine, st *State, ev *Event, meth string) {
	rule := "handler-asks-what-was-requested"
	ms := st.tups("match")
	if len(ms) != 1 {
		m.Check(st, false, rule, meth, ev.Pos, "it is asked for requests to any path")
		return
	}
	s := &inspectSide{path: ms[0].Data, pos: ev.Pos}
	carried := map[string]string{}
	var root *Term
	for i, a := range ev.Args {
		name := fmt.Sprintf("arg%d", i)
		if isContext(ev.Sig.Params().At(i).Type()) {
			m.Check(st, a.K == KApp && a.Op == "reqctx", rule, meth+": context", ev.Pos, "the query does not end with the request")
			continue
		}
		x := a
		for x.K == KFld {
			x = x.Args[0]
		}
		if x.K == KApp && strings.HasPrefix(x.Op, "decoded:") {
			root = x
		}
		fs := map[string]*Term{}
		if root != nil {
			c.jsonFields(m, root, root.Typ, "", fs)
		}
		found := false
		for k, v := range fs {
			if v == a {
				carried[k] = name
				found = true
			}
		}
		m.Check(st, found, rule, meth+": parameters", ev.Pos, fmt.Sprintf("parameter %d is %v, no field of the request", i, a))
	}
	if root != nil {
		b := root.Args[0]
		m.Check(st, b.K == KApp && b.Op == "body" && strings.HasSuffix(b.Args[0].String(), ".Body"), rule, meth+": body", ev.Pos, "the parameters are not read from the request")
	}
	s.fields = side(carried)
	c.handler[meth] = s
}

func (c *inspectCheck) runHandler() {
	fn := c.r.anchor(c.p.Find("bond/inspect.NewInspectHandler"))
	if fn == nil {
		return
	}
	rule := "handler-answers-with-the-result"
	spec := &Spec{Call: c.handlerCall, Depth: 20}
	spec.OnFact = func(m *Machine, st *State, t *Term, v bool) {
		if t.K != KApp || t.Op != "==" || v {
			return
		}
		for i, x := range t.Args {
			if x.K == KApp && x.Op == "header" {
				st.add(&Tup{Tag: "accept", Data: t.Args[1-i].String()})
			}
		}
	}
	spec.OnReturn = func(m *Machine, st0 *State, res []*Term, pos string) {
		f := stripConv(res[0])
		h, _ := f.Obj.(*ssa.Function)
		if f.K != KFunc || h == nil {
			m.Check(st0, false, rule, "handler", pos, "the handler is not known")
			return
		}
		var args []*Term
		for i, p := range h.Params {
			args = append(args, m.TT.App(fmt.Sprintf("http%d", i), p.Type()))
		}
		for _, o := range m.callFunc(m.root, st0.clone(), fn.Blocks[0].Instrs[0], h, args, f.Args, h.Signature) {
			st := o.st
			if st == nil {
				continue
			}
			cn := "no path"
			if ms := st.tups("match"); len(ms) > 0 {
				cn = ms[0].Data
			}
			var code int
			if s := st.tups("status"); len(s) > 0 {
				fmt.Sscan(s[0].Data, &code)
			}
			m.Check(st, code > 0, rule, cn, pos, "a request gets no answer")
			got := st.tups("got")
			if code < 400 {
				ok := false
				if len(got) == 1 && len(st.tups("wrote")) == 1 {
					w := st.tups("wrote")[0].Args[0]
					ok = w.K == KApp && w.Op == "json" && w.Args[0] == got[0].Args[0]
				}
				m.Check(st, ok, rule, cn, pos, "a request succeeds with something else than the result")
				continue
			}
			bad := len(got) > 0 && len(st.tups("nojson")) == 0
			m.Check(st, !bad, rule, cn, pos, "a request fails although there is a result")
			if code == 406 {
				no := st.find("accept", func(t *Tup) bool { return t.Data == `"application/json"` }) != nil
				def := st.find("accept", func(t *Tup) bool { return t.Data == `""` }) != nil
				m.Check(st, no && def, rule, cn+": accept", pos, "a request that accepts JSON, or anything, is refused")
			}
		}
	}
	c.r.Interpret(c.p, spec, fn, nil)
}

func runInspect(p *Program, r *Result) {
	c := &inspectCheck{p: p, r: r, client: map[string]*inspectSide{}, handler: map[string]*inspectSide{}}
	n, err := p.Named("inspect", "Inspect")
	if err != nil {
		r.Fail("%v", err)
		return
	}
	c.typ = n
	i := n.Underlying().(*types.Interface)
	for j := 0; j < i.NumMethods(); j++ {
		c.methods = append(c.methods, i.Method(j))
	}
	c.runLocal()
	c.runClient()
	c.runHandler()
	for _, f := range c.methods {
		a, b := c.client[f.Name()], c.handler[f.Name()]
		pos := p.Pos(f.Pos())
		if b != nil {
			pos = b.pos
		}
		if a == nil || b == nil {
			r.Check(false, "client-and-handler-agree", f.Name(), pos, "the remote Inspect or the handler does not serve it")
			continue
		}
		r.Check(a.path == b.path, "client-and-handler-agree", f.Name(), pos, fmt.Sprintf("the request goes to %s, but %s is served", a.path, b.path))
		r.Check(a.fields == b.fields, "client-and-handler-agree", f.Name(), pos, fmt.Sprintf("the request is sent as %s, but read as %s", a.fields, b.fields))
		for g, o := range c.handler {
			r.Check(g == f.Name() || !strings.HasSuffix(o.path, b.path), "client-and-handler-agree", f.Name(), pos, "the path of "+g+" is taken for that of "+f.Name())
		}
	}
	r.Need("client-and-handler-agree", 4)
	r.Need("remote-answer-is-the-answer", 4)
	r.Need("handler-answers-with-the-result", 4)
}

func init() {
	register(&Property{ID: "C29", Run: runInspect})
}
