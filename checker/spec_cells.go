package main

import (
	"golang.org/x/tools/go/ssa"
)

// C33: each row is decoded into a cell that is made, or set anew, for it: a
// cell used again keeps what the next row lacks, and rows that were kept share
// memory with it.
func runRowCells(p *Program, r *Result) {
	const rule = "each-row-has-its-own-cell"
	var fns []*ssa.Function
	for _, f := range p.AllFuncs() {
		if f.Pkg != nil && f.Pkg == p.SPkgs[""] {
			fns = append(fns, f)
		}
	}
	// decoding calls, with the cell they decode into
	type use struct {
		fn   *ssa.Function
		call ssa.Instruction
		cell ssa.Value
	}
	var work []use
	calls := map[*ssa.Function][]use{} // by callee; the cell is filled in later
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if f := cc.StaticCallee(); f != nil {
					calls[origin0(f)] = append(calls[origin0(f)], use{fn, in, nil})
				}
				name := ""
				if cc.IsInvoke() {
					name = cc.Method.Name()
				} else if f := cc.StaticCallee(); f != nil && f.Signature.Recv() != nil {
					name = f.Name()
				}
				if name == "Deserialize" && len(cc.Args) > 0 {
					work = append(work, use{fn, in, cc.Args[len(cc.Args)-1]})
				}
			}
		}
	}
	seen := map[use]bool{}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		x.cell = cellOf(x.cell)
		if seen[x] {
			continue
		}
		seen[x] = true
		switch cell := x.cell.(type) {
		case *ssa.Parameter:
			for i, pm := range x.fn.Params {
				if pm != cell {
					continue
				}
				for _, c := range calls[origin0(x.fn)] {
					if args := c.call.(ssa.CallInstruction).Common().Args; i < len(args) {
						work = append(work, use{c.fn, c.call, args[i]})
					}
				}
			}
		case *ssa.Alloc:
			r.Funcs[calleeName(x.fn)] = true
			r.Check(!decodesAgain(x.call, cell), rule, calleeName(x.fn), p.Pos(x.call.Pos()), "the next row is decoded into the cell of the one before")
		case *ssa.FreeVar:
			r.Funcs[calleeName(x.fn)] = true
			r.Check(setBefore(x.call, cell), rule, calleeName(x.fn), p.Pos(x.call.Pos()), "every row is decoded into one cell")
		}
	}
	r.Need(rule, 4)
}

func cellOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.TypeAssert:
			v = x.X
		default:
			return v
		}
	}
}

func renews(in ssa.Instruction, cell ssa.Value) bool {
	if s, ok := in.(*ssa.Store); ok && s.Addr == cell {
		return true
	}
	v, ok := in.(ssa.Value)
	return ok && v == cell
}

// decodesAgain: the call can come about twice without the cell being made or
// set in between.
func decodesAgain(call ssa.Instruction, cell ssa.Value) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var from func(b *ssa.BasicBlock, i int) bool
	from = func(b *ssa.BasicBlock, i int) bool {
		for _, in := range b.Instrs[i:] {
			if renews(in, cell) {
				return false
			}
			if in == call {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if from(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := call.Block()
	for i, in := range b.Instrs {
		if in == call {
			return from(b, i+1)
		}
	}
	return true
}

// setBefore: whenever the call comes about, the cell was set in this run of
// its function, and since the last time.
func setBefore(call ssa.Instruction, cell ssa.Value) bool {
	fn := call.Parent()
	seen := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	var reach func(b *ssa.BasicBlock) bool
	reach = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			if renews(in, cell) {
				return false
			}
			if in == call {
				return true
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if reach(s) {
					return true
				}
			}
		}
		return false
	}
	return !reach(fn.Blocks[0]) && !decodesAgain(call, cell)
}
