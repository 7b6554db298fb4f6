package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loopInfo describes a natural loop. kind is "range" for loops over maps
// (ssa.Next), "index" for loops over all indices of a slice in ascending or
// descending order, "" otherwise.
type loopInfo struct {
	hdr    *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	kind   string
	next   *ssa.Next
	cont   ssa.Value // the slice
	idx    ssa.Value // the index of the current element
	exitOn bool      // the value of the header's condition that leaves the loop
}

func (m *Machine) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	if l, ok := m.loops[fn]; ok {
		return l
	}
	out := findLoops(fn)
	m.loops[fn] = out
	return out
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	out := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := out[s]
			if l == nil {
				l = &loopInfo{hdr: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				out[s] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	for _, l := range out {
		classifyLoop(l)
	}
	return out
}

func classifyLoop(l *loopInfo) {
	iff, ok := l.hdr.Instrs[len(l.hdr.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	in0, in1 := l.blocks[l.hdr.Succs[0]], l.blocks[l.hdr.Succs[1]]
	if in0 == in1 {
		return
	}
	l.exitOn = in1 // condition true leaves iff the true successor is outside
	if ex, ok := iff.Cond.(*ssa.Extract); ok && ex.Index == 0 {
		if nx, ok := ex.Tuple.(*ssa.Next); ok && nx.Block() == l.hdr && !l.exitOn {
			l.kind, l.next = "range", nx
		}
		return
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	x, y, op := cmp.X, cmp.Y, cmp.Op
	if l.exitOn {
		switch op { // negate
		case token.GEQ:
			op = token.LSS
		case token.LEQ:
			op = token.GTR
		case token.LSS:
			op = token.GEQ
		case token.GTR:
			op = token.LEQ
		case token.EQL:
			op = token.NEQ
		default:
			return
		}
	}
	if op == token.GTR || op == token.LEQ {
		x, y = y, x
		if op == token.GTR {
			op = token.LSS
		} else {
			op = token.GEQ
		}
	}
	// now: stay in the loop while x op y
	switch op {
	case token.LSS, token.NEQ:
		c := lenArg(y)
		if c == nil {
			return
		}
		if ascending(l, x) {
			l.kind, l.cont, l.idx = "index", c, x
		}
	case token.GEQ:
		// for i := len(c)-1; i >= 0; i--
		if !isConstInt(y, 0) {
			return
		}
		phi, ok := x.(*ssa.Phi)
		if !ok || phi.Block() != l.hdr {
			return
		}
		var c ssa.Value
		for i, e := range phi.Edges {
			if l.blocks[l.hdr.Preds[i]] {
				b, ok := e.(*ssa.BinOp)
				if !ok || b.X != ssa.Value(phi) || !(b.Op == token.SUB && isConstInt(b.Y, 1) || b.Op == token.ADD && isConstInt(b.Y, -1)) {
					return
				}
			} else {
				b, ok := e.(*ssa.BinOp)
				if !ok || b.Op != token.SUB || !isConstInt(b.Y, 1) {
					return
				}
				c = lenArg(b.X)
			}
		}
		if c != nil {
			l.kind, l.cont, l.idx = "index", c, x
		}
	}
}

// ascending reports whether x takes the values 0, 1, 2, … at the header's test.
func ascending(l *loopInfo, x ssa.Value) bool {
	if phi, ok := x.(*ssa.Phi); ok && phi.Block() == l.hdr {
		for i, e := range phi.Edges {
			if l.blocks[l.hdr.Preds[i]] {
				if !isPlusOne(e, phi) {
					return false
				}
			} else if !isConstInt(e, 0) {
				return false
			}
		}
		return true
	}
	b, ok := x.(*ssa.BinOp)
	if !ok || b.Op != token.ADD || !isConstInt(b.Y, 1) {
		return false
	}
	phi, ok := b.X.(*ssa.Phi)
	if !ok || phi.Block() != l.hdr {
		return false
	}
	for i, e := range phi.Edges {
		if l.blocks[l.hdr.Preds[i]] {
			if e != ssa.Value(b) {
				return false
			}
		} else if !isConstInt(e, -1) {
			return false
		}
	}
	return true
}

func isPlusOne(e ssa.Value, x ssa.Value) bool {
	b, ok := e.(*ssa.BinOp)
	if !ok || b.Op != token.ADD {
		return false
	}
	return b.X == x && isConstInt(b.Y, 1) || b.Y == x && isConstInt(b.X, 1)
}

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	i, ok := constant.Int64Val(c.Value)
	return ok && i == n
}

func lenArg(v ssa.Value) ssa.Value {
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if f := c.Call.StaticCallee(); f != nil && f.String() == "(reflect.Value).Len" {
		return c.Call.Args[0]
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "len" {
		return nil
	}
	if _, ok := c.Call.Args[0].Type().Underlying().(*types.Slice); !ok {
		return nil
	}
	return c.Call.Args[0]
}

// ---- liveness ----

type liveInfo struct {
	in    map[*ssa.BasicBlock]map[ssa.Value]bool
	out   map[*ssa.BasicBlock]map[ssa.Value]bool
	after map[ssa.Instruction]map[ssa.Value]bool
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (m *Machine) liveness(fn *ssa.Function) *liveInfo {
	if l, ok := m.live[fn]; ok {
		return l
	}
	li := &liveInfo{in: map[*ssa.BasicBlock]map[ssa.Value]bool{}, out: map[*ssa.BasicBlock]map[ssa.Value]bool{}, after: map[ssa.Instruction]map[ssa.Value]bool{}}
	loops := m.loopsOf(fn)
	for _, b := range fn.Blocks {
		li.in[b] = map[ssa.Value]bool{}
		li.out[b] = map[ssa.Value]bool{}
	}
	extra := func(b *ssa.BasicBlock, live map[ssa.Value]bool) {
		// the container and index of a loop are used at its header
		if l, ok := loops[b]; ok {
			if l.cont != nil && tracked(l.cont) {
				live[l.cont] = true
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			live := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range li.in[s] {
					live[v] = true
				}
				pi := -1
				for j, p := range s.Preds {
					if p == b {
						pi = j
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(live, phi)
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if tracked(phi.Edges[pi]) {
						live[phi.Edges[pi]] = true
					}
				}
			}
			for v := range live {
				if !li.out[b][v] {
					li.out[b][v] = true
					changed = true
				}
			}
			cur := map[ssa.Value]bool{}
			for v := range li.out[b] {
				cur[v] = true
			}
			extra(b, cur)
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					if l, ok := loops[b]; !ok || l.cont != v {
						delete(cur, v)
					}
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						cur[*op] = true
					}
				}
			}
			extra(b, cur)
			// phis are defined on the edges, so they are live on entry
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				cur[phi] = true
			}
			for v := range cur {
				if !li.in[b][v] {
					li.in[b][v] = true
					changed = true
				}
			}
		}
	}
	m.live[fn] = li
	return li
}

// deadAfter returns a test for values not needed after an instruction.
func (li *liveInfo) deadAfter(at ssa.Instruction) func(ssa.Value) bool {
	live, ok := li.after[at]
	if !ok {
		b := at.Block()
		live = map[ssa.Value]bool{}
		for v := range li.out[b] {
			live[v] = true
		}
		for j := len(b.Instrs) - 1; j >= 0 && b.Instrs[j] != at; j-- {
			for _, op := range b.Instrs[j].Operands(nil) {
				if *op != nil && tracked(*op) {
					live[*op] = true
				}
			}
		}
		li.after[at] = live
	}
	return func(v ssa.Value) bool { return !live[v] }
}
