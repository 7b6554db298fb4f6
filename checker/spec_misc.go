package main

import (
	"fmt"
	"go/constant"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

// ---- C18: number sequences ----

func uintVal(t *Term) (uint64, bool) {
	if t.K != KConst || t.Val == nil || t.Val.Kind() != constant.Int {
		return 0, false
	}
	if v, ok := constant.Uint64Val(t.Val); ok {
		return v, true
	}
	return 0, false
}

func binOp(t *Term, op string) (a, b *Term, ok bool) {
	if t != nil && t.K == KApp && t.Op == op && len(t.Args) == 2 {
		return t.Args[0], t.Args[1], true
	}
	return nil, nil, false
}

// upperPart: the terms are the same upper bits of two numbers.
func upperPart(x, y *Term) (a, b *Term, ok bool) {
	for _, op := range []string{"&", ">>"} {
		a, c1, ok1 := binOp(x, op)
		b, c2, ok2 := binOp(y, op)
		if !ok1 || !ok2 || c1 != c2 {
			continue
		}
		v, ok := uintVal(c1)
		if !ok {
			continue
		}
		if op == "&" && v != 0 && v == ^uint64(0)<<bits.TrailingZeros64(v) || op == ">>" && v < 64 {
			return a, b, true
		}
	}
	return x, y, true
}

// less: the path knows that a < b, as unsigned numbers.
func (q *PathRec) less(a, b *Term) bool {
	for f, v := range q.St.facts {
		if f.K == KApp && f.Op == "<" && v {
			x, y, _ := upperPart(f.Args[0], f.Args[1])
			if x == a && y == b {
				return true
			}
		}
	}
	return false
}

func runSequence(p *Program, r *Result) {
	fn := r.anchor(p.methodOf("", "NumberSequence", "Next"))
	if fn == nil {
		return
	}
	c := "bond.NumberSequence.Next"
	shift := int64(-1)
	var mask uint64
	for _, q := range r.Paths(p, fn, PathOpt{}) {
		n := q.Params[0]
		cur := q.M.loadPath(q.St, n, "lastId")
		var addr *Term
		for a := range q.St.heap {
			if a.K == KFldAddr && a.Args[0] == n && fieldName(n.Typ, a.N) == "lastId" {
				addr = a
			}
		}
		_, k := q.Err()
		if k == "err" {
			r.PathCheck(q, addr == nil || cur == q.M.TT.Load(addr, nil), "ids-increase", c, q.Pos, "an id is used up although none is returned")
			continue
		}
		if !r.PathCheck(q, k == "nil" && addr != nil, "ids-increase", c, q.Pos, "an id is returned that is not remembered: it can be returned again") {
			continue
		}
		old := q.M.TT.Load(addr, nil)
		id := q.Res[0]
		r.PathCheck(q, cur == id, "ids-increase", c, q.Pos, "the id remembered is not the id returned")
		if s, cn, ok := binOp(id, "+"); ok && s == old && cn.isInt(1) {
			// it must not run over into the time
			ok := false
			for f, v := range q.St.facts {
				if f.K != KApp || f.Op != "==" || v {
					continue
				}
				for i := 0; i < 2; i++ {
					x, m, isAnd := binOp(f.Args[1-i], "&")
					if isAnd && x == old && m == f.Args[i] {
						mask, ok = mustUint(m)
					}
				}
			}
			r.PathCheck(q, ok, "ids-do-not-overflow", c, q.Pos, "the next number of a second is taken without a check that the second has numbers left")
			continue
		}
		if x, s, ok := binOp(stripConv(id), "<<"); ok {
			if v, ok := s.intVal(); ok {
				shift = v
			}
			_ = x
		}
		r.PathCheck(q, q.less(old, id), "ids-increase", c, q.Pos, fmt.Sprintf("the id %s is not known to be greater than the one before", id))
	}
	if fn := r.anchor(p.methodOf("", "NumberSequence", "Timestamp")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			x, s, ok := binOp(stripConv(q.Res[0]), ">>")
			r.PathCheck(q, ok && x == q.Params[1] && s.isInt(shift), "id-parts-agree", "bond.NumberSequence.Timestamp", q.Pos, "it does not return the part of the id that Next fills with the time")
		}
	}
	if fn := r.anchor(p.methodOf("", "NumberSequence", "SequenceNumber")); fn != nil {
		for _, q := range r.Paths(p, fn, PathOpt{}) {
			x, s, ok := binOp(stripConv(q.Res[0]), "&")
			v := uint64(0)
			if ok {
				v, _ = uintVal(s)
			}
			r.PathCheck(q, ok && x == q.Params[1] && shift > 0 && v == mask && v == uint64(1)<<shift-1, "id-parts-agree", "bond.NumberSequence.SequenceNumber", q.Pos, "it does not return the part of the id that Next counts in")
		}
	}
	r.Need("ids-increase", 1)
	r.Need("ids-do-not-overflow", 1)
	r.Need("id-parts-agree", 2)
	s := &Sharing{types: map[string]bool{"bond.NumberSequence": true}, accesses: map[string]*access{}}
	for _, fn := range s.entries(p) {
		s.run(p, r, fn)
	}
	s.pairs(r)
	// one critical section from reading the last id to storing the new one
	for _, q := range r.Paths(p, fn, PathOpt{}) {
		locks := 0
		for _, e := range q.Evs {
			if op, _ := lockOp(&Event{Name: e.Name}); op == "lock" {
				locks++
			}
		}
		r.PathCheck(q, locks == 1, "ids-increase", c, q.Pos, "the last id is read and the next one is stored in different critical sections")
	}
}

func mustUint(t *Term) (uint64, bool) { return uintVal(t) }

func stripConv(t *Term) *Term {
	for t != nil && t.K == KApp && len(t.Args) == 1 && (len(t.Op) >= 4 && t.Op[:4] == "conv" || len(t.Op) >= 5 && t.Op[:5] == "trunc") {
		t = t.Args[0]
	}
	return t
}

// ---- C19: pools ----

func runPools(p *Program, r *Result) {
	get := r.anchor(p.methodOf("utils", "PreAllocatedPool", "Get"))
	put := r.anchor(p.methodOf("utils", "PreAllocatedPool", "Put"))
	if get == nil || put == nil {
		return
	}
	c := "bond/utils.PreAllocatedPool.Get"
	for _, q := range r.Paths(p, get, PathOpt{Spec: &Spec{KeepFact: func(*Machine, *Term) bool { return true }}}) {
		addr, cur := q.fieldCell(q.Params[0], "preAllocItems")
		res := q.Res[0]
		if a := findSub(res, func(t *Term) bool { return t.K == KElem || t.K == KIdxAddr }); a != nil {
			ok := false
			if addr != nil && cur != nil && cur.K == KApp && cur.Op == "slice" && a == res {
				old := q.M.TT.Load(addr, nil)
				i := a.Args[1]
				lo, hi := cur.Args[1], cur.Args[2]
				last := q.M.TT.addConstTerm(q.M.TT.Len(old), -1)
				ok = a.Args[0] == old && cur.Args[0] == old && (lo.isInt(0) && hi == i && i == last || i.isInt(0) && lo.isInt(1) && (hi == q.M.TT.Nil || hi == q.M.TT.Len(old)))
			}
			r.PathCheck(q, ok, "pooled-item-has-one-owner", c, q.Pos, "an item is handed out that stays in the pool (or another one is taken out)")
			continue
		}
		r.PathCheck(q, addr == nil || cur == q.M.TT.Load(addr, nil), "pooled-item-has-one-owner", c, q.Pos, "the items of the pool change although none of them is handed out")
		if l := q.M.loadPath(q.St, q.Params[0], "preAllocItems"); l != nil {
			r.PathCheck(q, q.M.leq(q.St, q.M.TT.Len(l), q.M.TT.Int(0)), "pooled-item-is-not-lost", c, q.Pos, "another item is handed out although the pool may have one: the last ones are never used")
		}
		es := q.Filter("sync.Pool.Get", "bond/utils.SyncPoolWrapper.Get")
		r.PathCheck(q, len(es) == 1 && findSub(res, func(t *Term) bool { return t == es[0].Res }) != nil, "pooled-item-has-one-owner", c, q.Pos, "the item handed out is neither one of the pool nor a new one")
	}
	c = "bond/utils.PreAllocatedPool.Put"
	spec := &Spec{TrackLists: true, KeepFact: func(*Machine, *Term) bool { return true }}
	spec.OnAppend = appendTup
	for _, q := range r.Paths(p, put, PathOpt{Spec: spec}) {
		n := len(q.Filter("sync.Pool.Put", "bond/utils.SyncPoolWrapper.Put"))
		addr, cur := q.fieldCell(q.Params[0], "preAllocItems")
		kept := addr == nil
		if addr != nil {
			old := q.M.TT.Load(addr, nil)
			kept = cur == old || q.M.leq(q.St, q.M.TT.Len(old), q.M.TT.Int(0))
			for _, t := range q.St.tups("did:sub") {
				kept = kept || t.Args[0] == cur && t.Args[1] == old
			}
		}
		r.PathCheck(q, kept, "pooled-item-is-not-lost", c, q.Pos, "items that are in the pool are dropped from it")
		for _, e := range q.Filter("sync.Pool.Put", "bond/utils.SyncPoolWrapper.Put") {
			r.PathCheck(q, len(e.Args) == 1 && sameItem(e.Args[0], q.Params[1]), "pooled-item-has-one-owner", c, e.Pos, "something else than the item is put into the pool")
		}
		for _, t := range q.St.tups("app") {
			n++
			r.PathCheck(q, t.Data == "1" && sameItem(t.Args[0], q.Params[1]), "pooled-item-has-one-owner", c, t.Pos, "something else than the item is put into the pool")
		}
		r.PathCheck(q, n <= 1, "pooled-item-has-one-owner", c, q.Pos, "the item is put into the pool twice")
	}
	r.Need("pooled-item-has-one-owner", 2)
	r.Need("pooled-item-is-not-lost", 2)
	s := &Sharing{types: map[string]bool{"bond/utils.PreAllocatedPool": true}, accesses: map[string]*access{}}
	for _, fn := range s.entries(p) {
		s.run(p, r, fn)
	}
	s.pairs(r)
	r.Need("shared-fields-locked", 2)
}

// appendTup records the elements that are appended.
func appendTup(m *Machine, st *State, list *Term, elems []*Term, whole *Term, site ssa.Instruction) {
	if whole != nil {
		st.add(&Tup{Tag: "app", Data: "whole", Args: []*Term{whole, list}, Pos: m.P.Pos(site.Pos())})
	}
	for _, e := range elems {
		n := 1
		for _, t := range st.tups("app") {
			if t.Args[0] == e {
				n = 2
				st.del(t)
			}
		}
		st.add(&Tup{Tag: "app", Data: fmt.Sprint(n), Args: []*Term{e, list}, Pos: m.P.Pos(site.Pos())})
	}
}

func sameItem(a, b *Term) bool {
	for a != nil && (a.K == KIface || a.K == KApp && len(a.Args) == 1) {
		if a == b {
			return true
		}
		a = a.Args[0]
	}
	return a == b
}

// fieldCell is the address of a field of an object and what it holds now, if
// it was stored to.
func (q *PathRec) fieldCell(obj *Term, name string) (addr, cur *Term) {
	for a, v := range q.St.heap {
		if a.K == KFldAddr && a.Args[0] == obj && fieldName(obj.Typ, a.N) == name {
			return a, v
		}
	}
	return nil, nil
}

func init() {
	register(&Property{ID: "C18", Run: runSequence})
	register(&Property{ID: "C19", Run: runPools})
}
