package main

import (
	"golang.org/x/tools/go/ssa"
)

type writeOp struct {
	method, mode string
}

// the operations that write rows
var writeOps = []writeOp{
	{"Insert", "insert"}, {"Update", "update"}, {"Upsert", "upsert"}, {"Delete", "delete"},
	{"UnsafeInsert", "unsafeinsert"}, {"UnsafeUpdate", "unsafeupdate"}, {"ReIndex", "reindex"},
}

// rowBound are analysed by themselves and are events here.
func rowBound() map[string]bool {
	return map[string]bool{
		"bond.Index.OnInsert": true, "bond.Index.OnUpdate": true, "bond.Index.OnDelete": true,
	}
}

// tableMethods resolves the methods of the table type.
func tableMethod(p *Program, name string) (*ssa.Function, error) {
	n, err := p.Named("", "_table")
	if err != nil {
		return nil, err
	}
	return p.Method(n, name)
}

func runWrites(p *Program, r *Result, modes map[string]bool, mk func() *Rows) {
	for _, op := range writeOps {
		if modes != nil && !modes[op.mode] {
			continue
		}
		fn, err := tableMethod(p, op.method)
		if err != nil {
			r.Fail("%v", err)
			continue
		}
		w := mk()
		w.mode = op.mode
		w.Bound = rowBound()
		w.run(p, r, fn)
	}
}

func init() {
	register(&Property{ID: "C01", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Durable: true} })
		runSyncOptions(p, r)
	}})
	register(&Property{ID: "C02", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Atomic: true} })
		for _, typ := range []string{"_db", "_batch"} {
			runRoutes(p, r, "write-goes-to-batch", typ, "Set", "Delete", "DeleteRange")
		}
	}})
	register(&Property{ID: "C03", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Index: true} })
	}})
	register(&Property{ID: "C05", Run: func(p *Program, r *Result) {
		runWrites(p, r, map[string]bool{"insert": true, "update": true, "upsert": true}, func() *Rows { return &Rows{Exist: true} })
	}})
	register(&Property{ID: "C06", Run: func(p *Program, r *Result) {
		runWrites(p, r, map[string]bool{"insert": true, "update": true, "upsert": true}, func() *Rows { return &Rows{Dups: true} })
	}})
	register(&Property{ID: "C07", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Reads: true} })
		runReads(p, r, nil, func() *Rows { return &Rows{Reads: true} })
		for _, typ := range []string{"_db", "_batch"} {
			runRoutes(p, r, "read-goes-to-batch", typ, "Get", "Iter")
		}
	}})
	register(&Property{ID: "C08", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Negs: true} })
		runReads(p, r, func(op readOp) bool { return !op.noerr }, func() *Rows { return &Rows{Negs: true} })
	}})
	register(&Property{ID: "C09", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Polls: true} })
		runReads(p, r, func(op readOp) bool { return op.polls }, func() *Rows { return &Rows{Polls: true} })
	}})
	register(&Property{ID: "C15", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Open: true} })
		runReads(p, r, nil, func() *Rows { return &Rows{Open: true} })
	}})
	register(&Property{ID: "C34", Run: func(p *Program, r *Result) {
		runWrites(p, r, nil, func() *Rows { return &Rows{Errs: true} })
		runReads(p, r, func(op readOp) bool { return !op.noerr }, func() *Rows { return &Rows{Errs: true} })
		runErrors(p, r)
	}})
}
